import * as tel from '@xsai-ext/telemetry'
import { expectTool, generateRun, textOf } from './chatsim'
import { streamRun } from './streamsim'
import { check, fail, jsonRes, recorder, same, settle } from './lib'
import { tracing, type Rec } from './spans'

void expectTool; void textOf; void fail
const ERROR = 2 // SpanStatusCode.ERROR
const ended = (spans: Rec[]) => { for (const s of spans) { same(`times span "${s.name}" ended`, s.ended, 1); check(s.late.length === 0, `"${s.name}" changed after its end`, s.late) } }
const failed = (s: Rec, e: any) => {
  same(`status of the failed span "${s.name}"`, s.status?.code, ERROR)
  if (e instanceof Error) { same('error name on the span', s.attributes['error.type'], e.name); same('error message on the span', s.attributes['error.message'], e.message); same('status message', s.status.message, e.message); same('exceptions on the span', s.exceptions.map((x: any) => [x.name, x.message]), [[e.name, e.message]]) }
}
const fine = (s: Rec) => check(s.status?.code !== ERROR && s.exceptions.length === 0, `"${s.name}" is marked as failed`, s.status)
/** the tool executions of a run, wrapped to know what each gave */
const watch = (runs: any[]) => (_: any, tools: any) => {
  for (const t of tools ?? []) { const f = t.execute; t.execute = async (i: any, c: any) => { const r: any = { name: t.function.name, description: t.function.description, id: c.toolCallId, input: i }; runs.push(r); try { return r.value = await f(i, c) } catch (e) { r.failed = true; r.error = e; throw e } } }
  return {}
}
const tools = (spans: Rec[], runs: any[]) => {
  const ts = spans.filter(s => s.attributes['gen_ai.operation.name'] === 'execute_tool')
  same('tool spans', ts.length, runs.length)
  for (const r of runs) {
    const s = ts.find(s => s.attributes['gen_ai.tool.call.id'] === r.id)!
    check(s, `no span for call ${r.id}`); same('tool span name', s.name, `execute_tool ${r.name}`)
    if (r.failed) failed(s, r.error); else { fine(s); same('result on the span', s.attributes['gen_ai.tool.call.result'], JSON.stringify(r.value)) }
    same('arguments on the span', s.attributes['gen_ai.tool.call.arguments'], JSON.stringify(r.input)); same('tool name on the span', s.attributes['gen_ai.tool.call.name'], r.name); same('tool description on the span', s.attributes['gen_ai.tool.call.description'], r.description)
  }
  return ts.length
}
const chats = (spans: Rec[]) => spans.filter(s => s.attributes['gen_ai.operation.name'] === 'chat')

const BASES: any = [['http://x/v1', 'x', 80], ['https://api.h.test/v1/', 'api.h.test', 443], ['http://h.test:8080/v1', 'h.test', 8080], [new URL('https://u.test:4433/'), 'u.test', 4433]]
/** settings of a chat request that its spans carry */
const settings = (g: any) => {
  const base = g.pick(BASES), o: any = { baseURL: base[0], telemetry: g.pick([undefined, {}, { attributes: { mine: 'x' } }]) }
  for (const k of ['frequencyPenalty', 'presencePenalty', 'seed', 'temperature', 'topK', 'topP']) if (g.bool(0.4)) o[k] = g.int(0, 3)
  if (g.bool(0.5)) o.stop = g.pick(['END', '', ['a', 'b'], []])
  if (g.bool(0.3)) o.model = g.text()
  return { o, base }
}
/** the span of a request carries the request */
const describes = (s: Rec, call: any, opts: any, base: any) => {
  const a = s.attributes, b = call.body
  same('name of the model span', s.name, `chat ${b.model}`)
  same('the request on the span', [a['gen_ai.request.model'], a['gen_ai.input.messages'], a['gen_ai.operation.name']], [b.model, JSON.stringify(b.messages), 'chat'])
  same('the settings on the span', ['frequency_penalty', 'presence_penalty', 'seed', 'temperature', 'top_k', 'top_p'].map(k => a[`gen_ai.request.${k}`]), [opts.frequencyPenalty, opts.presencePenalty, opts.seed, opts.temperature, opts.topK, opts.topP])
  same('the stop sequences on the span', a['gen_ai.request.stop_sequences'], opts.stop === undefined ? undefined : [opts.stop].flat())
  same('the tools on the span', a['gen_ai.tool.definitions'] === undefined ? undefined : JSON.parse(a['gen_ai.tool.definitions']), opts.tools && JSON.parse(JSON.stringify(opts.tools.map((t: any) => ({ function: t.function, type: t.type })))))
  same('the server on the span', [a['server.address'], a['server.port']], [base[1], base[2]])
  if (opts.telemetry?.attributes) same('attributes given by the caller', a.mine, 'x')
}

export const cases: any = {
  generateText: async (g: any) => {
    const { spans, restore } = tracing(), runs: any[] = []
    const fault = g.weighted([[4, 'no'], [1, 'status'], [1, 'net'], [1, 'step'], [1, 'stop']]), at = g.int(0, 2), e = g.pick([new TypeError('boom'), 'why', null, undefined])
    const { o: more, base } = settings(g)
    try {
      let n = 0
      const r = await generateRun(g, { abort: g.bool(0.3), fn: (o: any) => {
        const f = o.fetch, st = o.onStepFinish
        if (fault === 'status' || fault === 'net') o.fetch = (u: any, i: any) => { if (n++ !== at) return f(u, i); r0.hit = true; if (fault === 'net') throw e; return Promise.resolve(new Response('no', { status: 500 })) }
        if (fault === 'step') o.onStepFinish = async (s: any) => { await st?.(s); if (n++ === at) { r0.hit = true; throw e } }
        if (fault === 'stop') { const sw = o.stopWhen; o.stopWhen = (c: any) => { if (n++ === at) { r0.hit = true; throw e } return sw ? sw(c) : c.steps.length >= 1 } }
        return tel.generateText(o)
      }, hooks: watch(runs), more })
      g.note('fault', [fault, at, e])
      ended(spans)
      const nt = tools(spans, runs), cs = chats(spans)
      same('spans', spans.length, cs.length + nt)
      const requests = r.rec.calls.length + (r0.hit && (fault === 'status' || fault === 'net') ? 1 : 0)
      same('model spans', cs.length, requests)
      cs.forEach((s, i) => {
        check(s.name.startsWith('chat '), `model span named ${s.name}`)
        if (r.rec.calls[i]) describes(s, r.rec.calls[i], r.opts, base)
        if (i < cs.length - 1 || r.out.ok) {
          fine(s)
          const u = r.script[Math.min(i, r.planned)].usage, fr = r.script[Math.min(i, r.planned)].choices[0].finish_reason
          same('usage on the span', [s.attributes['gen_ai.usage.input_tokens'], s.attributes['gen_ai.usage.output_tokens'], s.attributes['gen_ai.response.finish_reasons']], [u.prompt_tokens, u.completion_tokens, [fr]])
        }
        else failed(s, (r.out as any).error)
      })
      if (!r.out.ok && r0.hit && fault !== 'status') check(Object.is((r.out as any).error, e), 'the failure is not rethrown unchanged', (r.out as any).error)
    }
    finally { restore(); delete r0.hit }
  },
  streamText: async (g: any) => {
    const { spans, restore } = tracing(), runs: any[] = []
    const fault = g.weighted([[4, 'no'], [1, 'status'], [1, 'net'], [1, 'stop'], [1, 'event']]), at = g.int(0, 2), e = g.pick([new TypeError('boom'), 'why', null, undefined])
    const { o: more, base } = settings(g)
    try {
      let n = 0
      const r = await streamRun(g, { abort: g.bool(0.3), fn: (o: any) => {
        const f = o.fetch
        if (fault === 'status' || fault === 'net') o.fetch = (u: any, i: any) => { if (n++ !== at) return f(u, i); r0.hit = true; if (fault === 'net') throw e; return Promise.resolve(new Response('no', { status: 500 })) }
        if (fault === 'stop') { const sw = o.stopWhen; o.stopWhen = (c: any) => { if (n++ === at) { r0.hit = true; throw e } return sw ? sw(c) : c.steps.length >= 1 } }
        if (fault === 'event') { const oe = o.onEvent; o.onEvent = (x: any) => { oe?.(x); if (n++ === at * 4) { r0.hit = true; throw e } } }
        return tel.streamText(o)
      }, hooks: watch(runs), more })
      g.note('fault', [fault, at, e])
      ended(spans)
      const nt = tools(spans, runs), cs = chats(spans)
      same('spans', spans.length, cs.length + nt)
      same('model spans', cs.length, r.rec.calls.length + (r0.hit && (fault === 'status' || fault === 'net') ? 1 : 0))
      cs.forEach((s, i) => {
        check(s.name.startsWith('chat '), `model span named ${s.name}`)
        if (r.rec.calls[i]) describes(s, r.rec.calls[i], r.opts, base)
        if (i < cs.length - 1 || r.steps.ok) {
          fine(s)
          const st = r.script[Math.min(i, r.planned)]
          same('usage on the span', [s.attributes['gen_ai.usage.input_tokens'], s.attributes['gen_ai.usage.output_tokens'], s.attributes['gen_ai.response.finish_reasons']], [st.usage?.inputTokens, st.usage?.outputTokens, [st.finish]])
        }
        else failed(s, (r.steps as any).error)
      })
      if (!r.steps.ok && r0.hit && fault !== 'status') check(Object.is((r.steps as any).error, e), 'the failure is not passed on unchanged', (r.steps as any).error)
    }
    finally { restore(); delete r0.hit }
  },
  embeddings: async (g: any) => {
    const { spans, restore } = tracing()
    try {
      const many = g.bool(), bad = g.weighted([[4, 'no'], [1, 'net'], [1, 'status'], [1, 'json']]), e = g.pick([new TypeError('boom'), 'why', null])
      const usage = { prompt_tokens: g.int(0, 99), total_tokens: g.int(0, 99) }
      const rec = recorder(() => { if (bad === 'net') throw e; return bad === 'status' ? new Response('no', { status: 500 }) : bad === 'json' ? new Response('{') : jsonRes({ data: [{ embedding: [1, 2] }], usage }) })
      const model = g.text(), base = g.pick(BASES), dimensions = g.pick([undefined, 7]), telemetry = g.pick([undefined, {}, { attributes: { mine: 'x' } }])
      g.note('model', model); g.note('bad', bad)
      const r: any = await settle(() => ((many ? tel.embedMany : tel.embed) as any)({ baseURL: base[0], dimensions, telemetry, model, input: many ? ['a'] : 'a', fetch: rec.fetch }))
      same('spans', spans.length, 1); ended(spans); same('span name', spans[0].name, `embeddings ${model}`)
      const a = spans[0].attributes
      same('the request on the span', [a['gen_ai.request.model'], a['gen_ai.operation.name'], a['gen_ai.embeddings.dimension.count'], a['server.address'], a['server.port'], a.mine], [model, 'embeddings', dimensions, base[1], base[2], telemetry?.attributes?.mine])
      if (bad === 'no') { fine(spans[0]); check(r.ok, 'the call failed', r.error); same('usage on the span', spans[0].attributes['gen_ai.usage.input_tokens'], usage.prompt_tokens); same('usage', r.value.usage, usage) }
      else { check(!r.ok, 'a failure is hidden'); failed(spans[0], r.error); if (bad === 'net') check(Object.is(r.error, e), 'the failure is replaced', r.error) }
    }
    finally { restore() }
  },
}
const r0: any = {}
