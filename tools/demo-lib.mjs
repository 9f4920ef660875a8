import assert from 'node:assert/strict'

export { assert }
Uint8Array.fromBase64 ??= s => new Uint8Array(Buffer.from(s, 'base64'))
export const load = async path => import(`${process.cwd()}/${path}`)
export const json = (value, init) => new Response(JSON.stringify(value), init)
/** A stream of the given items; an Error item breaks it. */
export const from = (items) => {
  const rest = [...items]
  return new ReadableStream({
    pull: (controller) => {
      if (rest.length === 0)
        return controller.close()
      const item = rest.shift()
      item instanceof Error ? controller.error(item) : controller.enqueue(item)
    },
  }, { highWaterMark: 0 })
}
export const sse = chunks => new Response(from([...chunks.map(c => JSON.stringify(c)), '[DONE]'].map(d => new TextEncoder().encode(`data: ${d}\n\n`))))
export const collect = async (stream) => {
  const out = []
  for await (const item of stream)
    out.push(item)
  return out
}
export const completion = (message, finish_reason = message.tool_calls ? 'tool_calls' : 'stop') => ({
  choices: [{ finish_reason, index: 0, message }],
  usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 },
})
export const limit = async (promise, ms = 5000) => Promise.race([promise, new Promise((_, reject) => setTimeout(() => reject(new Error('still pending')), ms))])
export const demo = (body) => {
  process.on('unhandledRejection', () => {})
  const timer = setTimeout(() => { console.error('demo: timeout'); process.exit(1) }, 20_000)
  body().then(() => { clearTimeout(timer); process.exit(0) }, (error) => { console.error(error); process.exit(1) })
}
