import { clean, objCamelToSnake, requestBody } from '@xsai/shared'
import { endpoints, looping, stepped } from './endpoints'
import { check, recorder, same, settle, snake } from './lib'

const PRIV = ['apiKey', 'baseURL', 'headers', 'fetch', 'abortSignal']
const value = (g: any) => g.weighted([[1, undefined], [1, null], [1, false], [1, 0], [1, ''], [4, () => g.json(3)]])
const extraKey = (g: any) => g.bool(0.3) ? g.pick(['frequencyPenalty', 'parallelToolCalls', 'presencePenalty', 'reasoningEffort', 'seed', 'stop', 'temperature', 'toolChoice', 'topK', 'topP', 'dimensions', 'n', 'size', 'responseFormat', 'instructions', 'speed', 'previousResponseId', 'maxOutputTokens', 'tokens', 'step', 'api_key', 'base_url', 'apikey', 'abort_signal', 'onToken', 'execute', 'validate', 'max_tokens', 'A', 'AB', 'aBC', 'a_B']) : g.key()
const RES = ['model', 'messages', 'input', 'prompt', 'voice', 'stream', 'stream_format', 'tools', 'schema', 'output', 'strict', 'steps', 'total_usage', 'stream_options', 'response_format', 'schema_name', 'schema_description', ...PRIV]
const HOOKS = ['max_steps', 'on_event', 'on_finish', 'on_step_finish', 'post_tool_call', 'prepare_step', 'pre_tool_call', 'stop_when']
const extras = (g: any, taken: string[]) => {
  const o: any = {}, used = new Set([...taken, ...RES, ...HOOKS])
  for (let i = g.int(0, 5); i > 0; i--) { const k = extraKey(g); if (used.has(snake(k)) || used.has(k) || k === '__proto__') continue; used.add(snake(k)); used.add(k); o[k] = value(g) }
  return o
}
const defined = (o: any) => Object.fromEntries(Object.entries(o).filter(e => e[1] !== undefined))
const tool = (g: any) => ({ type: 'function', function: { name: g.text(), ...(g.bool() ? { description: g.str() } : {}), parameters: { type: 'object', properties: g.obj(1) }, ...(g.bool() ? { strict: g.bool() } : {}) }, execute: () => 'SECRET', ...(g.bool(0.3) ? { validate: (v: any) => ({ value: v }) } : {}) })

export const cases: any = {}
for (const e of endpoints.filter(x => x.kind === 'json')) {
  cases[e.name] = async (g: any) => {
    const base = e.base(g)
    const opts: any = { ...base, model: g.text(), baseURL: 'http://x/v1/', apiKey: g.opt(() => 'sk-' + g.word()), headers: g.opt(() => ({ 'x-secret': 'HEADER' })), abortSignal: g.opt(() => new AbortController().signal), ...extras(g, Object.keys(base)) }
    const sent: any = defined(opts)
    for (const p of PRIV) delete sent[p]
    for (const h of e.hooks ?? []) delete sent[h]
    if (e.hooks) {
      const H: any = { onEvent: () => {}, onFinish: () => {}, onStepFinish: () => {}, postToolCall: () => undefined, preToolCall: () => undefined, prepareStep: () => ({}), stopWhen: () => true }
      for (const h of Object.keys(H)) if (e.hooks.includes(h) && g.bool(0.4)) opts[h] = H[h]
      if (e.hooks.includes('maxSteps') && g.bool(0.3)) opts.maxSteps = 3
      if (e.name === 'streamText' || e.name === 'streamObject' || e.name === 'responses') if (g.bool(0.4)) { opts.streamOptions = { includeUsage: g.bool(), ...(g.bool() ? { includeObfuscation: g.bool() } : {}) }; sent.streamOptions = Object.fromEntries(Object.entries(opts.streamOptions).map(([k, v]) => [snake(k), v])) }
      if (g.bool(0.5)) {
        opts.tools = g.list(() => tool(g), 0, 3)
        sent.tools = e.name === 'responses'
          ? opts.tools.map((t: any) => ({ type: 'function', name: t.function.name, description: t.function.description ?? null, parameters: t.function.parameters, strict: t.function.strict ?? true }))
          : opts.tools.map(({ execute, validate, ...t }: any) => t)
      }
    }
    if (e.name === 'responses') sent.input = [{ type: 'message', role: 'user', content: base.input }]
    g.note('endpoint', e.name); g.note('options', opts)
    const rec = recorder(() => e.ok(g))
    const r = await settle(() => e.run({ ...opts, fetch: rec.fetch }))
    check(r.ok, `${e.name} failed on a good answer`, (r as any).error)
    check(rec.calls.length >= 1, 'no request was sent')
    const text = rec.calls[0].init.body
    check(typeof text === 'string', `${e.name}: the body is not a string`)
    const want: any = { ...Object.fromEntries(Object.entries(sent).map(([k, v]) => [snake(k), v])), ...e.adds(opts) }
    same(`${e.name} request body`, JSON.parse(text), JSON.parse(JSON.stringify(want)), 'strict')
    for (const c of rec.calls.slice(1)) check(typeof c.init?.body !== 'string' || !c.init.body.includes('SECRET'), 'execute function in a body')
  }
}
cases.requestBody = (g: any) => {
  const o: any = extras(g, []); o.model = g.text(); for (const p of PRIV) if (g.bool()) o[p] = g.bool() ? g.str() : { a: g.str() }
  g.note('options', o)
  const before = JSON.stringify(o)
  const want = Object.fromEntries(Object.entries(o).filter(([k, v]) => v !== undefined && !PRIV.includes(k)).map(([k, v]) => [snake(k), v]))
  same('requestBody', JSON.parse(requestBody(o)), JSON.parse(JSON.stringify(want)), 'strict')
  same('caller options', JSON.stringify(o), before)
  same('clean', clean(o), defined(o), 'strict')
  same('objCamelToSnake', objCamelToSnake(o), Object.fromEntries(Object.entries(o).map(([k, v]) => [snake(k), v])), 'strict')
}
// every request of a run of several steps: the same body but for the conversation
for (const e of looping) {
  cases[`steps.${e.name}`] = async (g: any) => {
    const base = e.base(g), x = stepped(g, e)
    const opts: any = { ...base, ...x.options, model: g.text(), baseURL: 'http://x/v1/', apiKey: 'sk-secret', headers: { 'x-secret': 'HEADER' }, ...extras(g, Object.keys(base)) }
    if (g.bool(0.4)) opts.toolChoice = g.pick(['auto', 'required'])
    if (g.bool(0.3)) opts.onStepFinish = () => {}
    if (g.bool(0.2)) opts.maxSteps = 9
    const sent: any = defined(opts)
    for (const p of [...PRIV, ...e.hooks ?? []]) delete sent[p]
    sent.tools = [e.name === 'responses' ? { type: 'function', name: 't', description: null, parameters: opts.tools[0].function.parameters, strict: true } : { type: 'function', function: opts.tools[0].function }]
    g.note('endpoint', e.name); g.note('options', opts); g.note('steps', x.n)
    const rec = recorder(x.respond)
    const r = await settle(() => e.run({ ...opts, fetch: rec.fetch }))
    check(r.ok, `${e.name} failed on good answers`, (r as any).error)
    same('requests', rec.calls.length, x.n + 1)
    const want: any = { ...Object.fromEntries(Object.entries(sent).map(([k, v]) => [snake(k), v])), ...e.adds(opts) }
    for (const [i, c] of rec.calls.entries()) {
      const got = JSON.parse(c.init.body)
      for (const m of ['messages', 'input']) { delete got[m]; delete want[m] }
      same(`${e.name} body of request ${i}`, got, JSON.parse(JSON.stringify(want)), 'strict')
    }
  }
}
