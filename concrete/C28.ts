import * as tel from '@xsai-ext/telemetry'
import { context, trace } from '@opentelemetry/api'
import { embed, embedMany } from '@xsai/embed'
import { generateText } from '@xsai/generate-text'
import { streamText } from '@xsai/stream-text'
import { Gen } from '../engine/conc/gen.mjs'
import { generateRun } from './chatsim'
import { streamRun } from './streamsim'
import { endpoints } from './endpoints'
import { check, fail, jsonRes, recorder, same, settle } from './lib'
import { tracing } from './spans'

void trace; void context; void endpoints
/** hooks on top of a run, with a log of what they saw */
const hooks = (seed: number, log: any[]) => (_: any, tools: any) => {
  const g = new Gen(seed) as any
  const pre = g.weighted([[3, 'none'], [1, 'nothing'], [1, 'args'], [1, 'result'], [0.5, 'throws'], [0.3, 'other-id']]), post = g.weighted([[3, 'none'], [1, 'nothing'], [1, 'result'], [0.5, 'throws']])
  const every = g.int(1, 2)
  let n = 0
  const o: any = {}
  if (pre !== 'none') o.preToolCall = (c: any, x: any) => {
    log.push(['pre', structuredClone(c), x?.messages?.length])
    if (n++ % every) return
    if (pre === 'args') return { ...c, args: '{"a":"replaced"}' }
    if (pre === 'result') return { args: {}, result: 'from the hook', toolCallId: c.toolCallId, toolName: c.toolName }
    if (pre === 'other-id') return { ...c, toolCallId: 'other' }
    if (pre === 'throws') throw new Error('hook')
  }
  if (post !== 'none') o.postToolCall = (r: any) => {
    log.push(['post', structuredClone(r)])
    if (post === 'result') return { ...r, result: { hooked: true } }
    if (post === 'throws') throw new Error('post hook')
  }
  if (tools) for (const t of tools) { const f = t.execute; t.execute = function (i: any, c: any) { log.push(['execute', t.function.name, structuredClone(i), c.toolCallId, c.messages?.length, c.abortSignal !== undefined]); return f.call(this, i, c) } }
  return o
}
const attrs = (g: any) => g.pick([undefined, {}, { attributes: {} }, { attributes: { a: g.str(), b: 1 } }])
const strip = (x: any) => JSON.parse(JSON.stringify(x, (_, v) => v instanceof Error ? { $error: v.name, message: v.message } : v === undefined ? null : typeof v === 'function' ? '<function>' : v) ?? 'null')
const err = (e: any) => e instanceof Error ? { name: e.name, message: e.message, code: (e as any).code, reason: (e as any).reason } : { value: e }
const outcome = (o: any) => o.ok ? { value: o.value } : { error: err(o.error) }
const requests = (r: any) => r.rec.calls.map((c: any) => ({ url: String(c.url), body: c.body, headers: c.headers, method: c.init.method }))
const twins = (g: any) => { const seed = g.int(0, 2 ** 31), a = new Gen(seed, g.size) as any, b = new Gen(seed, g.size) as any; return { a, b, seed } }

/** one of the answers of the server is odd */
const oddReply = (g: any) => {
  const at = g.int(0, 2), usage = { prompt_tokens: 1, completion_tokens: 2, total_tokens: 3 }
  const odd = g.weighted([[6, undefined], [1, {}], [1, { choices: [] }], [1, { choices: [], usage }], [1, { choices: [{ index: 0, finish_reason: 'stop', message: { role: 'assistant', content: 'x' } }] }], [1, { error: { message: 'no' } }], [1, 'status'], [1, 'broken']])
  g.note('odd answer', [at, odd])
  return (f: any) => (o: any) => { let n = 0; const fetch = o.fetch; return f(odd === undefined ? o : { ...o, fetch: async (u: any, i: any) => { const r = await fetch(u, i); return n++ !== at ? r : odd === 'status' ? new Response('no', { status: 429 }) : odd === 'broken' ? new Response('{') : jsonRes(odd) } }) }
}
/** the finish callback fails, at once or later */
const failingFinish = (g: any) => {
  const how = g.weighted([[4, 'no'], [1, 'throws'], [1, 'rejects']]), e = g.pick([new Error('finish'), null])
  g.note('finish callback', how)
  return (f: any) => (o: any) => f(how === 'no' ? o : { ...o, onFinish: how === 'throws' ? (s: any) => { void o.onFinish?.(s); throw e } : async (s: any) => { await o.onFinish?.(s); throw e } })
}

export const cases: any = {
  generateText: async (g: any) => {
    const { a, b, seed } = twins(g), la: any[] = [], lb: any[] = [], t = attrs(g)
    const restore = tracing().restore
    try {
      const odd = oddReply(g)
      const p = await generateRun(a, { abort: g.bool(0.4), fn: odd(generateText), hooks: hooks(seed, la) })
      const q = await generateRun(b, { abort: p.opts.abortSignal !== undefined, fn: odd(tel.generateText), hooks: hooks(seed, lb), more: t === undefined ? {} : { telemetry: t } })
      g.note('telemetry', t); g.log.push(...a.log)
      same('requests', requests(q), requests(p))
      same('outcome', strip(outcome(q.out)), strip(outcome(p.out)), 'strict')
      same('stop condition', strip(q.seen), strip(p.seen))
      same('tools and hooks', strip(lb), strip(la)); same('steps reported', strip(q.onStep), strip(p.onStep)); same('order', q.timeline, p.timeline)
      same('tools validated and run', strip(q.log.map((l: any) => [l.k, l.name, l.input])), strip(p.log.map((l: any) => [l.k, l.name, l.input])))
      same('prepare hook', strip(q.prep.seen), strip(p.prep.seen)); same('caller messages', q.opts.messages, q.given)
    }
    finally { restore() }
  },
  streamText: async (g: any) => {
    const { a, b, seed } = twins(g), la: any[] = [], lb: any[] = [], t = attrs(g), ab = g.bool(0.3)
    const restore = tracing().restore
    try {
      const finish = failingFinish(g)
      const p = await streamRun(a, { abort: ab, fn: finish(streamText), hooks: hooks(seed, la) })
      const q = await streamRun(b, { abort: ab, fn: finish(tel.streamText), hooks: hooks(seed, lb), more: t === undefined ? {} : { telemetry: t } })
      g.note('telemetry', t); g.log.push(...a.log)
      same('requests', requests(q), requests(p))
      for (const n of ['steps', 'messages', 'usage', 'total'] as const) same(n, strip(outcome((q as any)[n])), strip(outcome((p as any)[n])))
      same('tools and hooks', strip(lb), strip(la)); same('events reported', strip(q.onEvent), strip(p.onEvent)); same('steps reported', strip(q.onStep), strip(p.onStep)); same('finish callback', strip(q.onFinish), strip(p.onFinish))
      same('tools validated and run', strip(q.log.map((l: any) => [l.k, l.name, l.input])), strip(p.log.map((l: any) => [l.k, l.name, l.input])))
      same('prepare hook', strip(q.prep.seen), strip(p.prep.seen)); same('stop condition', strip(q.seen), strip(p.seen)); same('caller messages', q.opts.messages, q.given)
      for (const n of ['eventStream', 'fullStream', 'textStream', 'reasoningTextStream']) {
        const x = p.out[n], y = q.out[n]
        same(`${n} end`, y.end, x.end)
        if (x.end === 'closed') same(n, strip(y.items), strip(x.items))
        if (x.end === 'errored') same(`${n} failure`, strip(err(y.error)), strip(err(x.error)))
      }
    }
    finally { restore() }
  },
  embeddings: async (g: any) => {
    const many = g.bool(), t = attrs(g), restore = tracing().restore
    try {
      const answer = g.weighted([[5, 'ok'], [1, 'status'], [1, 'net'], [1, 'bad']])
      const body = { data: g.list(() => ({ embedding: g.list(() => g.num(), 0, 3), index: 0, object: 'embedding' }), 1, 3), usage: { prompt_tokens: g.int(0, 9), total_tokens: g.int(0, 9) } }
      const e = new Error('net')
      const mk = () => recorder(() => { if (answer === 'net') throw e; return answer === 'status' ? new Response('no', { status: 500 }) : answer === 'bad' ? new Response('{') : jsonRes(body) })
      const o: any = { baseURL: g.pick(['http://x/v1', 'https://x:444/']), model: g.text(), input: many ? g.list(() => g.str(), 0, 3) : g.str(), ...(g.bool() ? { dimensions: g.int(1, 9) } : {}), ...(g.bool() ? { apiKey: 'k' } : {}), ...(g.bool() ? { headers: { a: 'b' } } : {}), ...(g.bool(0.3) ? { extraField: g.json(1) } : {}) }
      g.note('options', o); g.note('telemetry', t); g.note('answer', answer)
      const x = mk(), y = mk()
      const p: any = await settle(() => (many ? embedMany : embed)({ ...o, fetch: x.fetch }))
      const q: any = await settle(() => ((many ? tel.embedMany : tel.embed) as any)({ ...o, fetch: y.fetch, ...(t === undefined ? {} : { telemetry: t }) }))
      same('requests', requests({ rec: y }), requests({ rec: x })); same('outcome', strip(outcome(q)), strip(outcome(p)))
      if (answer === 'net') check(Object.is(q.error, e), 'the failure is replaced')
    }
    finally { restore() }
  },
}
void fail
