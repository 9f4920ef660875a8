import { endpoints, plainSchema, stdSchema } from './endpoints'
import { check, deepFreeze, diff, fail, jsonRes, recorder, settle, snapshot, sse, byteStream, bytes, tick } from './lib'
import { streamText } from '@xsai/stream-text'
import { generateText } from '@xsai/generate-text'
import { responses } from '@xsai-ext/responses'
import { completion } from './endpoints'
import * as tel from '@xsai-ext/telemetry'
import { defineTool, rawTool } from '@xsai/tool'
import { strictJsonSchema } from 'xsschema'
import { schemaJson } from './C22'

void plainSchema
const mkTool = (g: any) => ({ type: 'function', function: { name: 't', description: g.str(), parameters: { type: 'object', properties: { a: { type: 'string' } } }, ...(g.bool() ? { strict: g.bool() } : {}) }, execute: () => g.pick(['R', { r: 1 }, [{ type: 'text', text: 'x' }], []]), ...(g.bool(0.3) ? { validate: (value: any) => ({ value: { ...value } }) } : {}) })
const unchanged = (what: string, before: any, after: any) => { const d = diff(after, before, 'strict'); if (d) fail(`${what} changed: ${d}`) }
export const cases: any = {
  endpoints: async (g: any) => {
    const e = g.pick(endpoints)
    const freeze = g.bool(0.5)
    const o: any = { ...e.base(g), baseURL: g.pick(['http://x/v1', new URL('http://x/v1/')]), model: 'm', ...(g.bool() ? { apiKey: 'k' } : {}), ...(g.bool() ? { headers: g.pick([{ a: 'b', c: undefined }, { Authorization: 'x' }, new Headers({ a: 'b' })]) } : {}) }
    if (e.kind === 'json') Object.assign(o, g.obj(2))
    for (const k of ['stream', 'n', 'user', 'seed', 'input', 'messages', 'prompt', 'voice', 'schema']) if (k in o && !(k in e.base(g))) delete o[k]
    if (e.chat) { o.tools = [mkTool(g)]; if (g.bool()) o.messages = [...o.messages, { role: 'assistant', content: [{ type: 'text', text: 'x' }] }] }
    if (e.name === 'responses') { o.tools = [{ ...mkTool(g) }]; o.input = g.pick(['hi', [{ type: 'message', role: 'user', content: 'x' }, { type: 'function_call', call_id: '1', name: 't', arguments: '{}' }]]) }
    g.note('endpoint', e.name); g.note('options', o)
    const rec = recorder(() => e.ok(g))
    o.fetch = rec.fetch
    const before = snapshot(o), bu = String(o.baseURL), bh = o.headers instanceof Headers ? [...o.headers.entries()] : undefined
    if (freeze) deepFreeze(o)
    for (let i = 0; i < 2; i++) {
      const r: any = await settle(() => e.run(o), e.name)
      if (!r.ok && freeze && r.error instanceof TypeError && /read only|not extensible|assign/.test(r.error.message)) fail(`${e.name} modifies its options: ${r.error.message}`)
      unchanged('the options object', before, o)
      check(String(o.baseURL) === bu, 'the base URL changed'); if (bh) check(JSON.stringify([...o.headers.entries()]) === JSON.stringify(bh), 'the headers changed')
    }
    check(rec.calls.length === 2, `${rec.calls.length} requests for two calls`)
    const [a, b] = rec.calls
    const d = diff(a.body instanceof FormData ? [...a.body.keys()] : a.body, b.body instanceof FormData ? [...b.body.keys()] : b.body) ?? diff(a.headers, b.headers) ?? diff(String(a.url), String(b.url))
    if (d) fail(`the second call sends another request: ${d}`)
  },
  multiStep: async (g: any) => {
    const which = g.pick(['generateText', 'streamText', 'responses', 'telemetry.generateText', 'telemetry.streamText'])
    const steps = g.int(1, 3), freeze = g.bool(0.4), k = g.int(1, 2)
    const call = (i: number, j: number) => ({ id: `c${i}_${j}`, type: 'function', function: { name: g.pick(['t', 'zz']), arguments: g.pick(['{}', '{"a":1}', '{']) } })
    const plan = Array.from({ length: steps + 1 }, (_, i) => i < steps ? Array.from({ length: k }, (_, j) => call(i, j)) : [])
    g.note('function', which); g.note('calls', plan); g.note('frozen', freeze)
    let n = 0
    const gen = (i: number) => jsonRes(completion({ role: 'assistant', content: 'x', ...(plan[i].length ? { tool_calls: plan[i] } : {}) }))
    const str = (i: number) => new Response(byteStream([bytes(sse(g, [{ choices: [{ index: 0, delta: { content: 'x' } }] }, ...plan[i].map((c, j) => ({ choices: [{ index: 0, delta: { tool_calls: [{ index: j, ...c }] } }] })), { choices: [], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }]))]))
    const item = (c: any) => ({ type: 'function_call', call_id: c.id, id: `f${c.id}`, name: c.function.name, arguments: c.function.arguments, status: 'completed' })
    const rsp = (i: number) => new Response(byteStream([bytes(sse(g, [...plan[i].map(c => ({ type: 'response.output_item.done', item: item(c) })), { type: 'response.completed', response: { output: plan[i].map(item), usage: null } }]))]))
    const rec = recorder(async () => { await tick(); const i = Math.min(n++, steps); return which === 'responses' ? rsp(i) : which.endsWith('streamText') ? str(i) : gen(i) })
    const content = [{ type: 'text', text: 'look' }, { type: 'image_url', image_url: { url: 'u' } }]
    const o: any = { baseURL: 'http://x/', model: 'm', tools: [mkTool(g)], fetch: rec.fetch, stopWhen: ({ steps }: any) => steps.length >= 9, temperature: 0.5, metadata: { a: { b: [1] } }, toolChoice: 'auto', ...(g.bool() ? { headers: { a: 'b' } } : {}), ...(g.bool() && which.endsWith('streamText') ? { streamOptions: { includeUsage: true } } : {}) }
    if (which === 'responses') o.input = g.pick(['q', [{ type: 'message', role: 'user', content: 'q' }]])
    else o.messages = g.pick([[{ role: 'user', content }], [{ role: 'system', content: 's' }, { role: 'user', content: 'q' }], []])
    if (g.bool(0.3)) { o.preToolCall = (c: any) => ({ ...c, args: '{"a":2}' }); o.postToolCall = (r: any) => ({ ...r, result: 'P' }) }
    if (g.bool(0.3)) o.prepareStep = ({ input }: any) => { input.push({ role: 'user', content: 'extra', type: 'message' }); return { input, toolChoice: 'none', model: 'z' } }
    if (which.startsWith('telemetry')) o.telemetry = { attributes: { a: 'b' } }
    const before = snapshot(o)
    if (freeze) deepFreeze(o)
    const firsts: any[] = []
    for (let i = 0; i < 2; i++) {
      n = 0; rec.calls.length = 0
      const f: any = { generateText, streamText, responses, 'telemetry.generateText': tel.generateText, 'telemetry.streamText': tel.streamText }[which]
      let r: any
      if (which.endsWith('generateText')) r = await settle(() => f(o))
      else { const x = f(o); for (const p of [x.messages, x.input, x.usage, x.totalUsage]) p?.catch(() => {}); r = await settle(x.steps) }
      if (!r.ok) fail(`${which} failed: ${r.error?.message ?? r.error}`, r.error)
      unchanged('the options object', before, o)
      if (rec.calls.length !== steps + 1) fail(`${rec.calls.length} requests, expected ${steps + 1}`)
      firsts.push(rec.calls[0].body)
    }
    const d = diff(firsts[1], firsts[0]); if (d) fail(`repeating the call sends another first request: ${d}`)
  },
  // builders and the handles they give
  builders: (g: any) => {
    const json = schemaJson(g), before = snapshot(json), schema = stdSchema(json)
    g.note('schema', json)
    if (g.bool()) deepFreeze(json)
    rawTool({ name: 'n', parameters: json, execute: () => 'x', strict: g.pick([true, false, undefined]) as any }); strictJsonSchema(json); defineTool({ name: 'n', parameters: schema, execute: () => 'x' } as any)
    unchanged('the schema', before, json)
  },
}
