// Random multi-step chat runs against a scripted server, and what the documentation says must happen.
import { generateText } from '@xsai/generate-text'
import { streamText } from '@xsai/stream-text'
import { and, hasToolCall, not, or, stepCountAtLeast } from '@xsai/shared-chat'
import { jsonRes, recorder, settle, clone, collect, sse, byteStream, bytes, tick, within } from './lib'
import { CHAT_PARTS, encode, mkTool, resultValue } from './toolsim'

export const TOOLS = ['weather', 'add', 'Search_2']
const FINISH = ['stop', 'length', 'tool_calls', 'content_filter', 'function_call']
const usage = (g: any) => ({ prompt_tokens: g.int(0, 50), completion_tokens: g.int(0, 50), total_tokens: g.int(0, 120) })
export const norm = (u: any) => u == null ? undefined : { inputTokens: u.prompt_tokens, outputTokens: u.completion_tokens, totalTokens: u.total_tokens }
export const sum = (us: any[]) => us.filter(u => u != null).reduce((a, b) => a == null ? b : { inputTokens: a.inputTokens + b.inputTokens, outputTokens: a.outputTokens + b.outputTokens, totalTokens: a.totalTokens + b.totalTokens }, undefined)

const args = (g: any) => g.weighted([[4, () => JSON.stringify({ a: g.json(1) })], [2, () => JSON.stringify(g.json(1))], [1, ''], [0.6, '{"a":'], [0.5, ' ']])
export const mkCalls = (g: any, s: number, n: number) => Array.from({ length: n }, (_, i) => ({ id: `call_${s}_${i}${g.bool(0.2) ? g.word() : ''}`, type: 'function', function: { name: g.bool(0.9) ? g.pick(TOOLS) : 'unknown', arguments: args(g) } }))

/** what a call must give: the result record without its arguments */
export const expectTool = (tools: any[] | undefined, call: any) => {
  const t = tools?.find(t => t.function.name === call.function.name)
  const err = (text: any) => ({ isError: true, includes: String(text) })
  if (!t) return err(call.function.name)
  let input
  try { input = JSON.parse(call.function.arguments.trim() || '{}') } catch { return err(call.function.name) }
  const m = t.meta
  if (m.v === 'issues' || (m.v === 'maybe' && !(input && typeof input === 'object' && 'a' in input))) return err(call.function.name)
  const msg = (e: any) => e instanceof Error ? e.message : String(e)
  if (m.v === 'throws') return err(msg(m.verr))
  if (m.x === 'throws' || m.x === 'async-throws') return err(msg(m.err))
  return { isError: false, result: m.val }
}

export const message = (g: any, s: number, last: boolean) => {
  const n = last ? 0 : g.weighted([[1, 0], [4, 1], [2, 2], [1, 3]])
  const m: any = { role: 'assistant' }
  const c = g.weighted([[5, 'str'], [2, 'parts'], [1, 'null'], [1, 'absent']])
  if (c === 'str') m.content = g.str()
  else if (c === 'parts') m.content = g.list(() => g.bool(0.7) ? { type: 'text', text: g.str() } : { type: 'refusal', refusal: g.str() }, 0, 3)
  else if (c === 'null') m.content = null
  if (g.bool(0.3)) m[g.pick(['reasoning', 'reasoning_content'])] = g.str()
  if (g.bool(0.15)) m.refusal = g.str()
  if (g.bool(0.1)) m.annotations = []
  if (n) m.tool_calls = mkCalls(g, s, n)
  else if (g.bool(0.15)) m.tool_calls = g.pick([[], undefined])
  return m
}
export const textOf = (m: any) => Array.isArray(m.content) ? m.content.filter((p: any) => p.type === 'text').map((p: any) => p.text).join('\n') : m.content

export const userMessages = (g: any) => g.list(() => g.pick([
  { role: 'system', content: g.str() }, { role: 'user', content: g.str() }, { role: 'user', content: [{ type: 'text', text: g.str() }, { type: 'image_url', image_url: { url: 'u' } }] },
  { role: 'assistant', content: g.str() }, { role: 'assistant', tool_calls: [{ id: 'old', type: 'function', function: { name: 'weather', arguments: '{}' } }] }, { role: 'tool', tool_call_id: 'old', content: g.str() }, { role: 'developer', content: g.str() },
]), 0, 4)

/** a stop condition with what it must answer */
export const stopCond = (g: any, seen: any[], max: number): any => {
  const k = g.weighted([[2, 'default'], [3, 'count'], [2, 'tool'], [2, 'plan'], [2, 'compound'], [1, 'never']])
  const wrap = (f: any) => (c: any) => { seen.push(clone({ input: c.input, step: c.step, steps: c.steps })); return f(c) }
  if (k === 'default') return { show: 'default', stopWhen: undefined, met: (steps: any[]) => steps.length >= 1 }
  if (k === 'count') { const n = g.int(0, max + 1); return { show: ['count', n], stopWhen: g.bool() ? stepCountAtLeast(n) : wrap(stepCountAtLeast(n)), met: (steps: any[]) => steps.length >= n } }
  if (k === 'tool') { const n = g.pick([...TOOLS, 'zz', undefined]); return { show: ['tool', n], stopWhen: wrap(hasToolCall(n)), met: (steps: any[]) => steps.at(-1).toolCalls.some((t: any) => n === undefined || t.toolName === n) } }
  if (k === 'plan') { const at = g.int(1, max + 1); return { show: ['plan', at], stopWhen: wrap(({ steps }: any) => steps.length === at), met: (steps: any[]) => steps.length === at } }
  if (k === 'never') return { show: 'never', stopWhen: wrap(() => false), met: () => false }
  const n = g.int(1, max), t = g.pick(TOOLS)
  return g.bool()
    ? { show: ['and', n, t], stopWhen: and(wrap(stepCountAtLeast(n)), hasToolCall(t)), met: (steps: any[]) => steps.length >= n && steps.at(-1).toolCalls.some((c: any) => c.toolName === t) }
    : { show: ['or not', n, t], stopWhen: or(wrap(stepCountAtLeast(n)), not(hasToolCall())), met: (steps: any[]) => steps.length >= n || steps.at(-1).toolCalls.length === 0 }
}

/** prepareStep behaviours; `overrides` collects what each request must carry */
export const prepare = (g: any, p = 0.35): any => {
  if (!g.bool(p)) return { show: 'none', seen: [], hook: undefined, of: () => undefined }
  const seen: any[] = [], outs: any[] = []
  const plan = Array.from({ length: 8 }, () => g.weighted([[2, 'nothing'], [1, 'input'], [1, 'model'], [1, 'toolChoice'], [1, 'all'], [1, 'empty']]))
  const mutate = g.bool(0.5), late = g.bool(0.5), isAsync = g.bool()
  const hook = (c: any) => {
    seen.push({ input: clone(c.input), steps: clone(c.steps), model: c.model, stepNumber: c.stepNumber })
    const k = plan[seen.length - 1]
    if (mutate) { c.input.push({ role: 'user', content: 'MUTATED' }); for (const m of c.input) { m.content = 'MUTATED' } for (const s of c.steps) { s.text = 'MUTATED'; s.toolCalls.length = 0 } c.steps.length = 0; c.model = 'MUTATED' }
    const o: any = {}
    if (k === 'input' || k === 'all') o.input = [{ role: 'user', content: `override ${seen.length}` }]
    if (k === 'model' || k === 'all') o.model = `model-${seen.length}`
    if (k === 'toolChoice' || k === 'all') o.toolChoice = g.pick(['required', 'none', 'auto'])
    const out = k === 'nothing' ? undefined : o
    outs.push(out === undefined ? undefined : clone(o))
    if (late && out?.input) setTimeout(() => { out.input[0].content = 'LATE'; out.input.push({ role: 'user', content: 'LATE' }) }, 0)
    return isAsync ? (async () => { await null; return out })() : out
  }
  return { show: { plan, mutate, late, isAsync }, seen, hook, of: (i: number) => outs[i] }
}

export const mkTools = (g: any, log: any[], opts: { hold?: boolean } = {}) => {
  if (g.bool(0.08)) return undefined
  return TOOLS.filter(() => g.bool(0.9)).map(n => mkTool(g, n, log))
}

/** one generateText run with everything recorded */
export const generateRun = async (g: any, o: { abort?: boolean, prepare?: number, fn?: any, more?: any, hooks?: (g: any, tools: any) => any } = {}) => {
  const planned = g.int(1, 5), log: any[] = []
  const tools = mkTools(g, log)
  const script = Array.from({ length: planned + 1 }, (_, s) => { const m = message(g, s, s === planned); return { id: 'x', object: 'chat.completion', created: 1, model: 'm', choices: [{ index: 0, finish_reason: g.pick(FINISH), message: m }, ...(g.bool(0.1) ? [{ index: 1, finish_reason: 'stop', message: { role: 'assistant', content: 'other choice' } }] : [])], usage: usage(g) } })
  const seen: any[] = []
  const stop = stopCond(g, seen, planned)
  const prep = prepare(g, o.prepare ?? 0.3)
  const ac = new AbortController(), reason = g.pick([new Error('user abort'), 'why', { code: 1 }, undefined])
  const abortAt = o.abort ? g.pick(['none', 'stopWhen', 'tool', 'onStepFinish', 'fetch', 'before']) : 'none'
  const abortStep = g.int(0, planned)
  const abort = (where: string, step: number) => { if (abortAt === where && step === abortStep) ac.abort(reason) }
  const onStep: any[] = []
  const timeline: any[] = []
  const delay = g.int(0, 2)
  const rec = recorder(async (_, n) => { timeline.push(['request', n]); abort('fetch', n); return jsonRes(script[Math.min(n, planned)]) })
  if (abortAt === 'before') ac.abort(reason)
  const opts: any = {
    baseURL: 'http://x/v1', model: 'base-model', messages: userMessages(g), fetch: rec.fetch,
    ...(tools ? { tools } : {}), ...(g.bool(0.5) ? { toolChoice: 'auto' } : {}), ...(g.bool(0.3) ? { temperature: 0 } : {}),
    ...(o.abort ? { abortSignal: ac.signal } : {}),
    ...(prep.hook ? { prepareStep: prep.hook } : {}),
    ...(stop.stopWhen ? { stopWhen: (c: any) => { const n = c.steps.length - 1; timeline.push(['stop', n]); abort('stopWhen', n); return stop.stopWhen(c) } } : {}),
    ...(g.bool(0.8) || abortAt === 'onStepFinish' ? { onStepFinish: async (s: any) => { const n = onStep.length; onStep.push(clone(s)); timeline.push(['step', n]); for (let i = 0; i < delay; i++) await tick(); abort('onStepFinish', n); timeline.push(['step end', n]) } } : {}),
  }
  if (tools) for (const t of tools) { const f = t.execute; t.execute = (i: any, c: any) => { const n = rec.calls.length - 1; timeline.push(['tool', n, c.toolCallId]); abort('tool', n); return f(i, c) } }
  g.note('server', script); g.note('messages', opts.messages); g.note('tools', tools?.map((t: any) => [t.function.name, t.meta])); g.note('stop', stop.show); g.note('prepareStep', prep.show); g.note('abort', [abortAt, abortStep])
  Object.assign(opts, o.hooks?.(g, tools), o.more)
  const given = clone(opts.messages)
  const out: any = await settle(() => (o.fn ?? generateText)(opts), 'generateText')
  return { script, planned, tools, log, seen, stop, prep, ac, reason, abortAt, abortStep, onStep, timeline, rec, opts, given, out, hasOnStep: !!opts.onStepFinish, hasStop: !!opts.stopWhen }
}
/** the run the documentation prescribes (without abort): per step the history before and after, whether it stops */
export const expectRun = (r: any) => {
  const history: any[] = clone(r.given), steps: any[] = []
  for (let s = 0; ; s++) {
    const before = clone(history)
    const res = r.script[Math.min(s, r.planned)], m = res.choices[0].message
    history.push(m)
    const calls = m.tool_calls ?? []
    const toolCalls = calls.map((c: any) => ({ args: c.function.arguments, toolCallId: c.id, toolCallType: 'function', toolName: c.function.name }))
    const step = { finishReason: res.choices[0].finish_reason, text: textOf(m), toolCalls, usage: norm(res.usage), m }
    steps.push({ before, step, calls, afterMessage: clone(history) })
    const met = r.stop.met(steps.map(x => x.step))
    const cur = steps.at(-1)
    cur.stop = met
    cur.results = []
    if (!met) for (const c of calls) { const e: any = expectTool(r.tools, c); cur.results.push({ call: c, e }); history.push({ role: 'tool', tool_call_id: c.id, e }) }
    cur.more = !met && calls.length > 0
    if (!cur.more) break
  }
  return { history, steps }
}
/** compares a real history with the expected one, where tool messages are described by `e` */
export const matchHistory = (diff: any, got: any[], want: any[], what: string, fail: (m: string, d?: any) => void) => {
  if (!Array.isArray(got) || got.length !== want.length) fail(`${what}: ${Array.isArray(got) ? got.length : 'no'} messages, expected ${want.length}`, { got, want })
  want.forEach((w, i) => {
    const m = got[i]
    if (w.e === undefined) { const d = diff(m, JSON.parse(JSON.stringify(w))); if (d) fail(`${what}: message ${i}: ${d}`) }
    else {
      if (m.role !== 'tool' || m.tool_call_id !== w.tool_call_id) fail(`${what}: message ${i} does not answer call ${w.tool_call_id}`, m)
      if (w.e.isError) { if (typeof m.content !== 'string' || !m.content.includes(w.e.includes)) fail(`${what}: message ${i} lacks the failure`, m) }
      else { const d = diff(m.content, encode(w.e.result, CHAT_PARTS)); if (d) fail(`${what}: message ${i}: ${d}`) }
    }
  })
}
