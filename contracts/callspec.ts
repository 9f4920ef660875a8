// Tool calls of a streamed step, as fragments in any order.
import { T } from 'verif'

export const fragment = T.obj({ index: T.nat, id: T.opt(T.str), type: T.opt(T.lit('function')), function: T.obj({ name: T.opt(T.str), arguments: T.opt(T.nullable(T.str)) }) })
/** chunks carry at most two fragments */
export const callChunk = T.obj({ content: T.opt(T.nullable(T.str)), first: T.opt(fragment), second: T.opt(fragment) })
export const wire = c => ({ choices: [{ index: 0, delta: { content: c.content, tool_calls: c.first === undefined ? undefined : c.second === undefined ? [c.first] : [c.first, c.second] } }] })

/** one fragment, by the documentation */
export const takeFragment = (calls, f) => {
  const known = calls.at(f.index)
  if (known === undefined) calls[f.index] = { ...f, function: { ...f.function, arguments: f.function.arguments ?? '' } }
  else known.function.arguments += f.function.arguments ?? ''
}
export const callServer = (v, chunks, tap) => {
  const message = data => v.isSymbolic() ? { data } : new TextEncoder().encode(`data: ${data}\n\n`)
  const body = v.source(chunks).pipeThrough(new TransformStream({ transform: (c, k) => { tap(c); k.enqueue(message(JSON.stringify(wire(c)))) } }))
  return { ok: true, status: 200, statusText: '', url: '', headers: new Headers({}), body }
}
