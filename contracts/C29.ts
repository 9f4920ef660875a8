import { T } from 'verif'
import { embed, embedMany, generateText, streamText } from '@xsai-ext/telemetry'
import { simple } from './endspec'
import { textRun } from './runspec'
import { streamRun } from './streamrun'
import { failedWith, fine, restore, tracing } from './tracing'
import { run, server } from './lib'

const usageType = T.obj({ prompt_tokens: T.nat, total_tokens: T.nat })
const embedding = T.arr(T.int)
/** one embedding request, whatever the server does */
const embeds = async (v, f, input) => {
  const seen = []
  const g = tracing(v, { end: rec => seen.push(rec) })
  const offline = v.any('offline', T.bool), reply = v.any('reply', T.json), given = v.any('given', T.opt(T.str)), telemetry = given === undefined ? v.any('none', T.opt(T.obj({}))) : { attributes: { mine: given } }
  const dimensions = v.any('dimensions', T.opt(T.nat))
  const down = v.any('down', T.or(T.error, T.str))
  const r = await run(v, () => f({ apiKey: 'k', baseURL: 'http://h.test:8080/v1/', model: 'm', input, dimensions, telemetry, fetch: async () => { if (offline) throw down; return Response.json(reply) } }))
  v.ensure('one span, ended once', g.opened === 1 && g.ended === 1 && seen.length === 1)
  const rec = seen[0]
  v.eq('the name of the span', rec.name, 'embeddings m')
  const a = rec.attributes
  v.eq('the request on the span', [a['gen_ai.request.model'], a['gen_ai.embeddings.dimension.count']], ['m', dimensions])
  v.eq('the server on the span', [a['server.address'], a['server.port']], ['h.test', 8080])
  if (given !== undefined) v.eq('attributes given by the caller', a.mine, given)
  if (offline) v.ensure('the failure is rethrown unchanged', r.state === 'rejected' && r.value === down)
  if (r.state === 'rejected') failedWith(v, rec, r.value)
  else {
    fine(v, rec)
    if (r.value.usage != null) v.eq('the usage on the span', rec.attributes['gen_ai.usage.input_tokens'], r.value.usage.prompt_tokens)
  }
  restore()
}
export const C29_embed = v => embeds(v, embed, v.any('input', T.str))
export const C29_embedMany = v => embeds(v, embedMany, v.any('inputs', T.arr(T.str)))
/** one tool call of a run whose server asks for it once */
const tool = async (v, f) => {
  v.unroll(6)
  const seen = []
  const g = tracing(v, { end: rec => seen.push(rec) })
  const execute = v.fn('execute', { returns: T.json, throws: true, error: T.or(T.error, T.str) })
  const calls = []
  const description = v.any('description', T.opt(T.str)), args = v.any('args', T.json), id = v.any('id', T.str)
  const usage = { prompt_tokens: 1, completion_tokens: 2, total_tokens: 3 }
  const messages = [{ role: 'assistant', content: 'a', tool_calls: [{ id, type: 'function', function: { name: 't', arguments: JSON.stringify({ args }) } }] }, { role: 'assistant', content: 'b' }]
  const sent = []
  const r = await run(v, () => f({
    baseURL: 'http://h.test/v1/', model: 'm', messages: [], stopWhen: c => c.steps.length >= 3,
    fetch: async () => { sent.push(1); return Response.json({ choices: [{ finish_reason: 'stop', index: 0, message: messages[sent.length - 1] }], usage }) },
    tools: [{ type: 'function', function: { name: 't', description, parameters: {} }, execute: (input, o) => { calls.push({ input, id: o.toolCallId }); return execute(input.args) } }],
  }))
  v.ensure('the run goes on', r.state === 'fulfilled')
  v.ensure('two requests and one execution', sent.length === 2 && calls.length === 1)
  v.eq('the input of the tool', calls[0], { input: { args }, id })
  v.ensure('three spans, each ended', g.opened === 3 && g.ended === 3 && seen.length === 3)
  const rec = seen[0]
  v.eq('the name of the span of the tool', rec.name, 'execute_tool t')
  v.eq('the call on the span', [rec.attributes['gen_ai.tool.call.id'], rec.attributes['gen_ai.tool.call.name'], rec.attributes['gen_ai.tool.call.arguments']], [id, 't', JSON.stringify({ args })])
  let want, failed = false
  try { want = execute(args) }
  catch (e) { want = e; failed = true }
  const got = r.value.steps[0].toolResults[0]
  if (failed) { failedWith(v, rec, want); v.ensure('the failure goes to the model', got.isError === true) }
  else {
    fine(v, rec)
    v.eq('the result on the span', rec.attributes['gen_ai.tool.call.result'], JSON.stringify(want))
    v.eq('the result of the tool is passed on', got.result, want)
  }
  v.ensure('the spans of the requests', seen[1].name === 'chat m' && seen[2].name === 'chat m')
  fine(v, seen[1]); fine(v, seen[2])
  restore()
}
export const C29_tool = v => tool(v, generateText)
/** a run of any length: a span per request, with its usage (runspec.ts) */
export const C29_textRun = async (v) => {
  const { r } = await textRun(v, { steps: true, plain: true, history: true, described: true, telemetry: generateText })
  v.ensure('the run succeeds', r.state === 'fulfilled')
}
export const C29_streamRun = async (v) => {
  const { steps } = await streamRun(v, { steps: true, history: true, described: true, telemetry: streamText })
  v.ensure('the run succeeds', steps.state === 'fulfilled')
}
/** a request that fails, or a callback of its step */
const fails = async (v, f, where, settle) => {
  const seen = []
  const g = tracing(v, { end: rec => seen.push(rec) })
  const e = v.any('e', T.or(T.error, T.str))
  const thrower = () => { throw e }
  const answer = () => f === streamText ? server(v, v.any('chunks', T.arr(simple)), () => {}, where === 'broken' ? { error: e } : undefined) : Response.json({ choices: [{ finish_reason: 'stop', index: 0, message: { role: 'assistant', content: 'x' } }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } })
  const r = await run(v, () => settle(f({ baseURL: 'http://h.test/', model: 'm', messages: [], ...where === 'broken' ? {} : { [where]: thrower }, fetch: where === 'fetch' ? thrower : async () => answer() })))
  v.ensure('the failure is rethrown unchanged', r.state === 'rejected' && r.value === e)
  if (where === 'prepareStep') v.ensure('no request, no span', g.opened === 0)
  else {
    v.ensure('one span, ended once', g.opened === 1 && g.ended === 1 && seen.length === 1)
    failedWith(v, seen[0], e)
  }
  restore()
}
const text = (v, where) => fails(v, generateText, where, p => p)
export const C29_textFetch = v => text(v, 'fetch')
export const C29_textPrepare = v => text(v, 'prepareStep')
export const C29_textStop = v => text(v, 'stopWhen')
export const C29_textStepFinish = v => text(v, 'onStepFinish')
const stream = (v, where) => fails(v, streamText, where, (r) => { for (const p of [r.messages, r.usage, r.totalUsage]) p.catch(() => {}); return r.steps })
export const C29_streamFetch = v => stream(v, 'fetch')
export const C29_streamBroken = v => stream(v, 'broken')
export const C29_streamPrepare = v => stream(v, 'prepareStep')
export const C29_streamStop = v => stream(v, 'stopWhen')
export const C29_streamStepFinish = v => stream(v, 'onStepFinish')
/** the span of a request carries the request: model, messages, settings, tools, server and the caller's attributes */
const describes = async (v, f, own) => {
  const seen = []
  const g = tracing(v, { end: rec => seen.push(rec) })
  const opt = (name, t) => v.any(name, T.opt(t))
  // all of the settings or none of them
  const number = name => v.any(name, T.int), given = v.any('given', T.bool)
  const settings = given ? { frequencyPenalty: number('frequencyPenalty'), presencePenalty: number('presencePenalty'), seed: number('seed'), temperature: number('temperature'), topK: number('topK'), topP: number('topP') } : {}
  const stop = opt('stop', T.or(T.str, T.arr(T.str))), model = v.any('model', T.str), over = opt('over', T.str), content = v.any('content', T.str), description = opt('description', T.str)
  const attributes = given ? v.any('attributes', T.rec(T.str)) : undefined
  const tools = [{ type: 'function', function: { name: 't', description, parameters: {} }, execute: () => 'never' }]
  const sent = []
  const r = await run(v, () => f({
    ...settings, stop, model, tools, baseURL: own.baseURL, messages: [{ role: 'user', content }], telemetry: given ? { attributes } : undefined,
    prepareStep: () => ({ model: over }),
    fetch: async (url, init) => { sent.push(JSON.parse(init.body)); throw new Error('offline') },
  }))
  v.ensure('one request, one span', r.state === 'rejected' && sent.length === 1 && seen.length === 1 && g.opened === 1)
  const rec = seen[0], a = rec.attributes, used = over ?? model
  v.eq('the model of the request', sent[0].model, used)
  v.eq('the name of the span', rec.name, 'chat ' + used)
  const want = {
    'gen_ai.operation.name': 'chat',
    'gen_ai.request.model': used,
    'gen_ai.input.messages': JSON.stringify([{ role: 'user', content }]),
    'gen_ai.request.frequency_penalty': settings.frequencyPenalty,
    'gen_ai.request.presence_penalty': settings.presencePenalty,
    'gen_ai.request.seed': settings.seed,
    'gen_ai.request.temperature': settings.temperature,
    'gen_ai.request.top_k': settings.topK,
    'gen_ai.request.top_p': settings.topP,
    'gen_ai.request.stop_sequences': stop === undefined ? undefined : Array.isArray(stop) ? stop : [stop],
    'gen_ai.tool.definitions': JSON.stringify([{ function: tools[0].function, type: 'function' }]),
    'server.address': own.host,
    'server.port': own.port,
    ...attributes,
  }
  // one attribute at a time, any of them
  const n = v.any('n', T.nat)
  for (const [i, k] of ['gen_ai.operation.name', 'gen_ai.request.model', 'gen_ai.input.messages', 'gen_ai.request.frequency_penalty', 'gen_ai.request.presence_penalty', 'gen_ai.request.seed', 'gen_ai.request.temperature', 'gen_ai.request.top_k', 'gen_ai.request.top_p', 'gen_ai.request.stop_sequences', 'gen_ai.tool.definitions', 'server.address', 'server.port'].entries()) { if (n === i) { v.eq(k, a[k], want[k]); break } }
  restore()
}
const chatText = (v, own) => describes(v, generateText, own)
const chatStream = (v, own) => describes(v, async o => streamText(o).steps, own)
export const C29_textSpan = v => chatText(v, { baseURL: 'http://h.test:8080/v1/', host: 'h.test', port: 8080 })
export const C29_textSpanPlain = v => chatText(v, { baseURL: 'http://h.test/v1/', host: 'h.test', port: 80 })
export const C29_streamSpan = v => chatStream(v, { baseURL: 'https://h.test/v1/', host: 'h.test', port: 443 })
