// The telemetry versions against the same specifications as the plain ones (C10, C11, C12, C16): what both must do determines every request,
// every callback and the result, so they agree.
import { T } from 'verif'
import { embed as plainEmbed, embedMany as plainEmbedMany } from '@xsai/embed'
import { embed, embedMany, generateText, streamText } from '@xsai-ext/telemetry'
import { generateText as plainGenerateText } from '@xsai/generate-text'
import { run } from './lib'
import { overrideChoice, overrideInput, overrideModel, textRun } from './runspec'
import { streamRun } from './streamrun'
import { ends, simple } from './endspec'
import { server } from './lib'
import { eventRun, stepRun } from './streamspec'
import { restore, tracing } from './tracing'

/** the same calls, one with and one without telemetry */
const embeds = async (v, plain, traced, input) => {
  tracing(v)
  const extra = v.any('extra', T.rec(T.json, ['telemetry', 'input', 'model', 'fetch', 'headers', 'apiKey', 'baseURL', 'abortSignal']))
  const offline = v.any('offline', T.bool), reply = v.any('reply', T.json), down = v.any('down', T.or(T.error, T.str)), key = v.any('key', T.opt(T.token))
  const call = async (f, more) => {
    const sent = []
    const r = await run(v, () => f({ ...extra, apiKey: key, baseURL: 'http://h.test/v1/', model: 'm', input, ...more, fetch: async (url, init) => { sent.push({ url: String(url), body: init.body, headers: { ...init.headers } }); if (offline) throw down; return Response.json(reply) } }))
    return { sent, state: r.state, value: r.value }
  }
  const want = await call(plain, {}), got = await call(traced, { telemetry: v.any('telemetry', T.opt(T.obj({ attributes: T.opt(T.rec(T.str)) }))) })
  v.eq('the same request', got.sent, want.sent)
  v.eq('the same outcome', got.state, want.state)
  if (want.state === 'fulfilled') v.eq('the same result', got.value, want.value)
  else if (offline) v.ensure('the same failure', got.value === want.value)
  else v.ensure('the same kind of failure', got.value.message === want.value.message && got.value.name === want.value.name)
  restore()
}
export const C28_embed = v => embeds(v, plainEmbed, embed, v.any('input', T.str))
export const C28_embedMany = v => embeds(v, plainEmbedMany, embedMany, v.any('inputs', T.arr(T.str)))
const text = async (v, o) => {
  const { r, g } = await textRun(v, { plain: true, ...o, telemetry: generateText })
  v.ensure('the run succeeds', r.state === 'fulfilled')
  if (o.history) v.eq('the returned messages', r.value.messages, g.history)
  if (o.steps) {
    const x = r.value
    v.eq('the steps', x.steps, g.steps)
    v.eq('one callback per step', g.finished, g.requests)
    v.eq('the total usage', x.totalUsage, g.total)
    v.eq('the last step', { usage: x.usage, text: x.text, finishReason: x.finishReason, toolCalls: x.toolCalls, toolResults: x.toolResults }, g.step)
    v.eq('the reasoning', x.reasoningText, g.reasoning)
  }
}
export const C28_history = v => text(v, { history: true })
export const C28_steps = v => text(v, { steps: true })
export const C28_message = v => text(v, { steps: true, parts: true, plain: false })
export const C28_context = v => text(v, { context: true })
export const C28_overrideModel = v => text(v, { override: true, prepare: overrideModel })
export const C28_overrideChoice = v => text(v, { override: true, prepare: overrideChoice })
export const C28_overrideInput = v => text(v, { history: true, prepare: overrideInput })
const textAbort = async (v, abort) => {
  const { r, g, reason } = await textRun(v, { plain: true, abort, telemetry: generateText })
  v.ensure('it went on while it should', g.expect !== 'more')
  if (g.expect === 'rejected') v.ensure('the abort rejects the run with its reason', r.state === 'rejected' && r.value === reason)
  else v.ensure('the run ends', r.state === 'fulfilled' || (g.mayReject && r.state === 'rejected' && r.value === reason))
}
export const C28_abort = v => textAbort(v, ['fetch'])
const stream = async (v, o) => {
  const { steps, messages, usage, total, g } = await streamRun(v, { ...o, telemetry: streamText })
  v.ensure('the run succeeds', steps.state === 'fulfilled')
  if (o.history) v.eq('the messages', messages, { state: 'fulfilled', value: g.history })
  if (o.steps) {
    v.eq('the steps', steps.value, g.steps)
    v.eq('one callback per step', [g.finished, g.ended], [g.requests, 1])
    v.eq('the usage', usage, { state: 'fulfilled', value: g.last })
    v.eq('the total usage', total, { state: 'fulfilled', value: g.total })
  }
}
export const C28_streamHistory = v => stream(v, { history: true })
export const C28_streamSteps = v => stream(v, { steps: true })
export const C28_streamContext = v => stream(v, { context: true })
export const C28_streamOverrideModel = v => stream(v, { override: true, prepare: overrideModel })
export const C28_streamOverrideChoice = v => stream(v, { override: true, prepare: overrideChoice })
export const C28_streamOverrideInput = v => stream(v, { history: true, prepare: overrideInput })
const streamAbort = async (v, abort) => {
  const { steps, messages, usage, total, g, reason } = await streamRun(v, { abort, telemetry: streamText })
  v.ensure('it went on while it should', g.expect !== 'more')
  v.ensure('the promises agree', steps.state === messages.state && steps.state === usage.state && steps.state === total.state)
  v.ensure('an abort seen before the tools run rejects with its reason', g.expect === 'rejected' ? steps.state === 'rejected' && steps.value === reason : true)
}
export const C28_streamAbort = v => streamAbort(v, ['fetch'])
/** one step, chunk by chunk, as C13 and C15 have it for streamText */
const traced = async (v, f) => { tracing(v); await f(); restore() }
export const C28_streamStep = v => traced(v, () => stepRun(v, streamText))
export const C28_streamEvents = v => traced(v, () => eventRun(v, streamText))
/** failures, as C17 has them for streamText */
const streamFails = (v, o) => traced(v, async () => {
  const e = v.any('e', T.any), chunks = v.any('chunks', T.arr(simple))
  let ended = 0
  const thrower = () => { throw e }
  const fetch = o === 'fetch' ? thrower : async () => server(v, chunks, () => {}, o === 'broken' ? { error: e } : undefined)
  const r = streamText({ baseURL: 'http://h.test/', model: 'm', messages: [], fetch, [o]: o === 'fetch' ? fetch : thrower, onFinish: () => { ended++; if (o === 'onFinish') throw e } })
  await ends(v, r, () => ended, x => x === e)
})
export const C28_streamFetch = v => streamFails(v, 'fetch')
export const C28_streamBroken = v => streamFails(v, 'broken')
export const C28_streamPrepare = v => streamFails(v, 'prepareStep')
export const C28_streamStop = v => streamFails(v, 'stopWhen')
export const C28_streamStepFinish = v => streamFails(v, 'onStepFinish')
export const C28_streamFinish = v => streamFails(v, 'onFinish')
const message = T.obj({ role: T.lit('assistant'), content: T.or(T.str, T.null) })
/** generateText: one answer of any kind, or a failure of the environment, with and without telemetry */
const textFails = (v, where) => traced(v, async () => {
  const e = v.any('e', T.or(T.error, T.str))
  const reply = where === 'reply' ? v.any('reply', T.obj({ choices: T.opt(T.arr(T.obj({ finish_reason: T.str, index: T.nat, message }))), usage: T.opt(T.obj({ prompt_tokens: T.nat, completion_tokens: T.nat, total_tokens: T.nat })), error: T.opt(T.json) })) : { choices: [{ finish_reason: 'stop', index: 0, message: { role: 'assistant', content: 'x' } }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }
  const status = where === 'status' ? v.any('status', T.nat) : 200
  v.assume(where !== 'status' || (status >= 300 && status < 600 && status !== 304))
  const thrower = () => { throw e }
  const call = async (f, more) => {
    const r = await run(v, () => f({ baseURL: 'http://h.test/', model: 'm', messages: [], ...more, ...where === 'reply' || where === 'status' || where === 'fetch' ? {} : { [where]: thrower }, fetch: async () => { if (where === 'fetch') throw e; return where === 'status' ? new Response('oops', { status }) : Response.json(reply) } }))
    return { state: r.state, value: r.value }
  }
  const want = await call(plainGenerateText, {}), got = await call(generateText, { telemetry: {} })
  v.eq('the same outcome', got.state, want.state)
  if (want.state === 'fulfilled') v.eq('the same result', got.value, want.value)
  else if (where !== 'reply' && where !== 'status') v.ensure('the same failure', got.value === want.value && got.value === e)
  else v.ensure('the same kind of failure', got.value.message === want.value.message && got.value.name === want.value.name)
})
export const C28_textReply = v => textFails(v, 'reply')
export const C28_textStatus = v => textFails(v, 'status')
export const C28_textFetch = v => textFails(v, 'fetch')
export const C28_textPrepare = v => textFails(v, 'prepareStep')
export const C28_textStop = v => textFails(v, 'stopWhen')
export const C28_textStepFinish = v => textFails(v, 'onStepFinish')
