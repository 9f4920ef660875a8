// Random Responses runs against a scripted server, and what the documentation says must happen.
import { responses } from '@xsai-ext/responses'
import { expectTool, mkTools, prepare, stopCond, TOOLS } from './chatsim'
import { byteStream, bytes, clone, collect, recorder, settle, sse, tick, within } from './lib'

const usage = (g: any) => ({ input_tokens: g.int(0, 50), output_tokens: g.int(0, 50), total_tokens: g.int(0, 120), input_tokens_details: { cached_tokens: 0 } })
export const norm = (u: any) => u == null ? undefined : { inputTokens: u.input_tokens, outputTokens: u.output_tokens, totalTokens: u.total_tokens }

export const respStep = (g: any, s: number, last: boolean) => {
  const evs: any[] = [], mapped: any[] = [], text: string[] = [], reason: string[] = [], items: any[] = [], calls: any[] = []
  let seq = 0
  const push = (e: any, ...m: any[]) => { evs.push({ ...e, sequence_number: seq++ }); mapped.push(...m) }
  if (g.bool(0.95)) push({ type: 'response.created', response: { id: `r${s}` } }, { type: 'step.start' })
  if (g.bool(0.4)) push({ type: g.pick(['response.in_progress', 'response.queued']), response: {} })
  const kinds = g.list(() => g.pick(['message', 'message', 'reasoning', 'refusal']), 0, 2)
  const ncalls = last ? 0 : g.weighted([[1, 0], [4, 1], [2, 2], [1, 3]])
  for (let i = 0; i < ncalls; i++) kinds.splice(g.int(0, kinds.length), 0, 'call')
  if (g.bool(0.1)) kinds.push('compaction')
  let ci = 0
  kinds.forEach((k: string, i: number) => {
    if (k === 'call') {
      const c = { type: 'function_call', id: `fc_${s}_${ci}`, call_id: `call_${s}_${ci++}`, name: g.bool(0.9) ? g.pick(TOOLS) : 'unknown', arguments: g.weighted([[4, () => JSON.stringify({ a: g.json(1) })], [2, () => JSON.stringify(g.json(1))], [1, ''], [0.6, '{"a":']]), status: g.weighted([[5, 'completed'], [1, 'incomplete'], [0.5, 'in_progress']]) }
      if (g.bool(0.9)) push({ type: 'response.output_item.added', output_index: i, item: { ...c, arguments: '', status: 'in_progress' } }, { type: 'tool-call.start', toolCallId: c.call_id, toolName: c.name })
      for (const d of g.split(c.arguments)) push({ type: 'response.function_call_arguments.delta', output_index: i, item_id: c.id, delta: d }, { type: 'tool-call.delta', delta: d })
      if (g.bool(0.9)) push({ type: 'response.function_call_arguments.done', output_index: i, item_id: c.id, arguments: c.arguments })
      push({ type: 'response.output_item.done', output_index: i, item: c }, { type: 'tool-call.done', args: c.arguments, toolCallId: c.call_id, toolName: c.name, toolCallType: 'function' })
      items.push(c); calls.push(c)
    }
    else if (k === 'message' || k === 'refusal') {
      const parts: any[] = []
      push({ type: 'response.output_item.added', output_index: i, item: { type: 'message', id: `m${i}`, role: 'assistant', content: [], status: 'in_progress' } })
      for (let p = g.int(k === 'refusal' ? 1 : 0, 2); p > 0; p--) {
        const pt = k === 'refusal' ? 'refusal' : g.pick(['output_text', 'output_text', 'text'])
        const full = g.str(12)
        push({ type: 'response.content_part.added', part: pt === 'refusal' ? { type: 'refusal', refusal: '' } : { type: pt, text: '' } }, { type: 'text.start' })
        for (const d of g.split(full)) { push({ type: k === 'refusal' ? 'response.refusal.delta' : 'response.output_text.delta', delta: d }, { type: 'text.delta', delta: d }); text.push(d) }
        if (k === 'refusal') push({ type: 'response.refusal.done', refusal: full }, { type: 'text.done', content: full }); else push({ type: 'response.output_text.done', text: full }, { type: 'text.done', content: full })
        if (g.bool()) push({ type: 'response.content_part.done', part: {} })
        if (g.bool(0.1)) push({ type: 'response.output_text.annotation.added', annotation: {} })
        parts.push(pt === 'refusal' ? { type: 'refusal', refusal: full } : { type: pt, text: full, annotations: [] })
      }
      if (g.bool(0.1)) push({ type: 'response.content_part.added', part: { type: 'reasoning_text', text: '' } })
      const item = { type: 'message', id: `m${i}`, role: 'assistant', status: g.weighted([[4, 'completed'], [1, 'incomplete'], [0.5, 'in_progress']]), content: parts }
      push({ type: 'response.output_item.done', output_index: i, item })
      items.push(item)
    }
    else if (k === 'reasoning') {
      push({ type: 'response.output_item.added', output_index: i, item: { type: 'reasoning', id: `rs${i}`, summary: [] } }, { type: 'reasoning.start' })
      const sm = g.bool(), full = g.str(10)
      for (const d of g.split(full)) { push({ type: sm ? 'response.reasoning_summary_text.delta' : 'response.reasoning.delta', delta: d }, { type: 'reasoning.delta', delta: d }); reason.push(d) }
      push({ type: sm ? 'response.reasoning_summary_text.done' : 'response.reasoning.done', text: full }, { type: 'reasoning.done', content: full })
      if (g.bool(0.3)) push({ type: 'response.reasoning_summary_part.added', part: {} })
      const item = { type: 'reasoning', id: `rs${i}`, summary: [{ type: 'summary_text', text: full }] }
      push({ type: 'response.output_item.done', output_index: i, item })
      items.push(item)
    }
    else { const item = { type: 'compaction', id: `cp${i}`, encrypted_content: 'x' }; push({ type: 'response.output_item.done', output_index: i, item }); items.push(item) }
  })
  const end = g.weighted([[8, 'completed'], [1, 'failed'], [1, 'incomplete']])
  const u = g.bool(0.7) ? usage(g) : g.pick([null, undefined])
  const t = items.filter(x => x.type === 'message').flatMap(x => x.content).filter((p: any) => p.type === 'output_text' || p.type === 'text').map((p: any) => p.text).join('')
  evs.push({ type: `response.${end}`, response: { id: `r${s}`, output: clone(items), usage: u, status: end }, sequence_number: seq++ })
  return { evs, mapped, text, reason, items, calls, end, usage: norm(u), outText: t.length ? t : undefined, finish: end === 'completed' ? (calls.length ? 'tool-calls' : 'stop') : end === 'failed' ? 'error' : 'length' }
}
const inputItems = (g: any) => g.list(() => g.pick([{ type: 'message', role: 'user', content: g.str() }, { type: 'message', role: 'system', content: [{ type: 'input_text', text: g.str() }] }, { type: 'function_call', call_id: 'o', name: 'x', arguments: '{}' }, { type: 'function_call_output', call_id: 'o', output: g.str() }]), 0, 4)

export const respRun = async (g: any, o: { abort?: boolean } = {}) => {
  const planned = g.int(0, 4), log: any[] = []
  const tools = mkTools(g, log)
  if (tools) for (const t of tools) { if (g.bool()) t.function.description = g.str(); if (g.bool(0.4)) t.function.strict = g.bool() }
  const script = Array.from({ length: planned + 1 }, (_, s) => respStep(g, s, s === planned))
  const seen: any[] = [], stop = stopCond(g, seen, planned), prep = prepare(g, 0.2)
  const ac = new AbortController(), abortAt = o.abort ? g.pick(['none', 'before', 'fetch', 'stopWhen', 'tool']) : 'none', abortStep = g.int(0, planned)
  const reason = g.pick([new Error('user abort'), 'why', undefined])
  const abort = (w: string, n: number) => { if (abortAt === w && n === abortStep) ac.abort(reason) }
  if (abortAt === 'before') ac.abort(reason)
  const onEvent: any[] = [], onStep: any[] = [], onFinish: any[] = [], ran: any[] = []
  const paused = g.bool(0.3)
  const rec = recorder(async (_, n) => { abort('fetch', n); return new Response(byteStream(g.split(bytes(sse(g, script[Math.min(n, planned)].evs, g.bool(0.5)))), paused ? { pause: tick } : {})) })
  const opts: any = {
    baseURL: 'http://x/v1', model: 'base-model', input: g.bool(0.4) ? g.str() : inputItems(g), fetch: rec.fetch, ...(tools ? { tools } : {}), ...(g.bool(0.3) ? { streamOptions: { includeObfuscation: true } } : {}),
    ...(o.abort ? { abortSignal: ac.signal } : {}), ...(prep.hook ? { prepareStep: prep.hook } : {}),
    ...(stop.stopWhen ? { stopWhen: (c: any) => { abort('stopWhen', c.steps.length - 1); return stop.stopWhen(c) } } : {}),
    onEvent: (e: any) => { onEvent.push(clone(e)) }, onStepFinish: (s: any) => { onStep.push(clone(s)) }, onFinish: async (s: any) => { onFinish.push(clone(s)); await tick() },
  }
  if (tools) for (const t of tools) { const f = t.execute; t.execute = (i: any, c: any) => { const n = rec.calls.length - 1; ran.push([n, c.toolCallId]); abort('tool', n); return f(i, c) } }
  g.note('server', script.map(s => s.evs)); g.note('input', opts.input); g.note('tools', tools?.map((t: any) => [t.function.name, t.meta])); g.note('stop', stop.show); g.note('prepareStep', prep.show); g.note('abort', [abortAt, abortStep])
  const given = clone(opts.input)
  const names = ['eventStream', 'fullStream', 'textStream', 'reasoningTextStream']
  const cancelAt = Object.fromEntries(names.map(n => [n, !o.abort && g.bool(0.1) ? g.int(0, 4) : -1]))
  g.note('cancel', cancelAt)
  const r: any = responses(opts), out: any = {}
  const outcomes = Promise.all([settle(r.steps, 'steps'), settle(r.input, 'input'), settle(r.usage, 'usage'), settle(r.totalUsage, 'totalUsage')])
  if (g.bool(0.2)) await outcomes
  await Promise.all(names.map(async (n) => {
    if (cancelAt[n] < 0) { out[n] = await collect(r[n], n); return }
    const rd = r[n].getReader(), items: any[] = []
    for (let i = 0; i < cancelAt[n]; i++) { let x: any; try { x = await within(rd.read(), n) } catch { break } if (x.done) break; items.push(x.value) }
    await rd.cancel('enough').catch(() => {})
    out[n] = { items, end: 'cancelled' }
  }))
  const [steps, input, us, total] = await outcomes as any[]
  return { script, planned, tools, seen, stop, prep, ac, abortAt, abortStep, onEvent, onStep, onFinish, ran, rec, opts, given, out, steps, input, usage: us, total }
}
export const expectResp = (r: any) => {
  const history: any[] = typeof r.given === 'string' ? [{ type: 'message', role: 'user', content: r.given }] : clone(r.given), steps: any[] = []
  for (let s = 0; ; s++) {
    const st = r.script[Math.min(s, r.planned)], before = clone(history)
    history.push(...clone(st.items))
    const toolCalls = st.calls.map((c: any) => ({ args: c.arguments, toolCallId: c.call_id, toolCallType: 'function', toolName: c.name }))
    const cur: any = { before, st, step: { finishReason: st.finish, text: st.outText, toolCalls, usage: st.usage }, calls: st.calls, afterItems: clone(history), results: [] }
    steps.push(cur)
    cur.stop = st.end !== 'completed' || r.stop.met(steps.map(x => x.step))
    if (!cur.stop) for (const c of st.calls) { const e: any = expectTool(r.tools, { function: { name: c.name, arguments: c.arguments } }); cur.results.push({ call: c, e }); history.push({ out: c.call_id, e }) }
    cur.more = !cur.stop && st.calls.length > 0
    if (!cur.more) break
  }
  return { history, steps }
}
export const matchInput = (diff: any, enc: any, got: any[], want: any[], what: string, fail: (m: string, d?: any) => void) => {
  if (!Array.isArray(got) || got.length !== want.length) fail(`${what}: ${Array.isArray(got) ? got.length : 'no'} items, expected ${want.length}`, { got, want })
  want.forEach((w, i) => {
    const x = got[i]
    if (w.e) {
      if (x.type !== 'function_call_output' || x.call_id !== w.out) fail(`${what}: item ${i} does not answer ${w.out}`, x)
      if (w.e.isError) { if (typeof x.output !== 'string' || !x.output.includes(w.e.includes)) fail(`${what}: item ${i} lacks the failure`, x) }
      else { const d = diff(x.output, enc(w.e.result)); if (d) fail(`${what}: item ${i}: ${d}`) }
    }
    else { const d = diff(x, JSON.parse(JSON.stringify(w))); if (d) fail(`${what}: item ${i}: ${d}`) }
  })
}
