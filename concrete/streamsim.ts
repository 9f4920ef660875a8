// Random streamText runs against a scripted server, and what the documentation says must happen.
import { streamText } from '@xsai/stream-text'
import { expectTool, mkTools, norm, prepare, stopCond, TOOLS, userMessages } from './chatsim'
import { byteStream, bytes, clone, collect, recorder, settle, sse, tick, within } from './lib'

const usage = (g: any) => ({ prompt_tokens: g.int(0, 50), completion_tokens: g.int(0, 50), total_tokens: g.int(0, 120) })
const wrapChunk = (choices: any, extra: any = {}) => ({ id: 'x', object: 'chat.completion.chunk', created: 1, model: 'm', choices, ...extra })

/** one streamed step: chunks in wire order and what they amount to */
export const streamStep = (g: any, s: number, last: boolean, field: string) => {
  const ncalls = last ? 0 : g.weighted([[1, 0], [4, 1], [2, 2], [1, 3]])
  const indices: number[] = []
  for (let i = 0, x = g.bool(0.8) ? 0 : g.int(0, 2); i < ncalls; i++) { indices.push(x); x += g.bool(0.85) ? 1 : g.int(1, 3) }
  const calls = indices.map((index, i) => {
    const text = g.weighted([[4, () => JSON.stringify({ a: g.json(1) })], [2, () => JSON.stringify(g.json(1))], [1, ''], [0.6, '{"a":']])
    const frags = g.split(text, { empties: true })
    return { index, id: `call_${s}_${i}`, name: g.bool(0.9) ? g.pick(TOOLS) : 'unknown', text, frags }
  })
  // pieces per channel, to be interleaved
  const queues: any[] = []
  for (const c of calls) {
    const q: any[] = []
    const startWith = c.frags.length && g.bool(0.4)
    const first = startWith ? c.frags[0] : g.pick([undefined, '', undefined, null])
    q.push({ tool: c, frag: { index: c.index, id: c.id, type: 'function', function: { name: c.name, ...(first === undefined ? {} : { arguments: first }) } }, add: first ?? '' })
    for (const f of c.frags.slice(startWith ? 1 : 0)) q.push({ tool: c, frag: { index: c.index, ...(g.bool(0.2) ? { id: c.id, type: 'function' } : {}), function: { ...(g.bool(0.15) ? { name: c.name } : {}), arguments: f } }, add: f })
    if (g.bool(0.15)) q.push({ tool: c, frag: { index: c.index, function: {} }, add: '' })
    queues.push(q)
  }
  const textQ = g.list(() => ({ text: g.str(6) }), 0, 5), reasonQ = g.bool(0.4) ? g.list(() => ({ reason: g.str(6) }), 0, 4) : []
  queues.push(textQ, reasonQ)
  queues.push(g.list(() => ({ filler: g.pick(['role', 'empty', 'nochoices', 'nullcontent']) }), 0, 2))
  const order: any[] = []
  const qs = queues.filter(q => q.length).map(q => [...q])
  const burst = g.bool(0.5)
  while (qs.length) { const i = g.int(0, qs.length - 1); const n = burst ? g.int(1, qs[i].length) : 1; order.push(...qs[i].splice(0, n)); if (!qs[i].length) qs.splice(i, 1) }
  const chunks: any[] = [], events: any[] = [], textDeltas: string[] = [], reasonDeltas: string[] = []
  let finish: any = 'other', u: any
  const started = new Set<any>()
  for (let i = 0; i < order.length; i++) {
    const o = order[i]
    const d: any = {}
    let choices: any
    if (g.bool(0.2)) d.role = 'assistant'
    if (o.reason !== undefined) {
      d[field] = o.reason; reasonDeltas.push(o.reason)
      events.push({ r: o.reason })
      if (order[i + 1]?.text !== undefined && g.bool(0.3)) { d.content = order[++i].text; textDeltas.push(d.content); events.push({ t: d.content }) }
    }
    else if (o.text !== undefined) { if (g.bool(0.85)) d.content = o.text; else { d.refusal = o.text; if (g.bool()) d.content = null } textDeltas.push(o.text); events.push({ t: o.text }); if (g.bool(0.1)) d.tool_calls = []; }
    else if (o.tool) {
      const fr = [o]
      while (order[i + 1]?.tool && g.bool(0.25)) fr.push(order[++i])
      d.tool_calls = fr.map(x => x.frag)
      if (g.bool(0.2)) d.content = g.pick([null, ''])
      for (const x of fr) { if (!started.has(x.tool)) { started.add(x.tool); events.push({ s: x.tool.id, n: x.tool.name }) } if (x.add) events.push({ a: x.add }) }
    }
    else if (o.filler === 'nochoices') choices = g.pick([[], undefined])
    else if (o.filler === 'nullcontent') d.content = null
    choices ??= o.filler === 'nochoices' ? undefined : [{ index: 0, delta: d, ...(g.bool(0.1) ? { finish_reason: null } : {}) }]
    if (choices?.length && i >= order.length - 1 && g.bool(0.6)) { finish = g.pick(['stop', 'length', 'tool_calls', 'content_filter']); choices[0].finish_reason = finish }
    const extra: any = {}
    if (g.bool(0.08)) { u = usage(g); extra.usage = u } else if (g.bool(0.1)) extra.usage = null
    chunks.push(wrapChunk(choices, extra))
  }
  if (finish === 'other' && g.bool(0.5)) { finish = g.pick(['stop', 'length', 'tool_calls']); chunks.push(wrapChunk([{ index: 0, delta: {}, finish_reason: finish }])) }
  if (g.bool(0.6)) { u = usage(g); chunks.push(wrapChunk(g.pick([[], []]), { usage: u })) }
  const byIndex = [...calls].sort((a, b) => a.index - b.index)
  return { chunks, events, textDeltas, reasonDeltas, text: textDeltas.join(''), reasoning: reasonDeltas.length ? reasonDeltas.join('') : undefined, calls: byIndex.map(c => ({ id: c.id, type: 'function', function: { name: c.name, arguments: c.text } })), finish, usage: norm(u), field }
}

export const streamRun = async (g: any, o: { abort?: boolean, prepare?: number, consume?: boolean, fn?: any, more?: any, hooks?: (g: any, tools: any) => any, fault?: boolean } = {}) => {
  const planned = g.int(0, 4), log: any[] = []
  const tools = mkTools(g, log)
  const field = g.pick(['reasoning', 'reasoning_content'])
  const script = Array.from({ length: planned + 1 }, (_, s) => streamStep(g, s, s === planned, field))
  const seen: any[] = [], stop = stopCond(g, seen, planned), prep = prepare(g, o.prepare ?? 0.2)
  const ac = new AbortController(), reason = g.pick([new Error('user abort'), 'why', { code: 1 }, undefined, null])
  const abortAt = o.abort ? g.pick(['none', 'before', 'fetch', 'stopWhen', 'tool', 'event']) : 'none', abortStep = g.int(0, planned)
  const abort = (where: string, n: number) => { if (abortAt === where && n === abortStep) ac.abort(reason) }
  if (abortAt === 'before') ac.abort(reason)
  const onEvent: any[] = [], onStep: any[] = [], onFinish: any[] = [], ran: any[] = []
  const paused = g.bool(0.4)
  const rec = recorder(async (_, n) => { abort('fetch', n); const st = script[Math.min(n, planned)]; return new Response(byteStream(g.split(bytes(sse(g, st.chunks, g.bool(0.8)))), paused ? { pause: tick } : {}), { headers: { 'content-type': 'text/event-stream' } }) })
  const opts: any = {
    baseURL: 'http://x/v1', model: 'base-model', messages: userMessages(g), fetch: rec.fetch,
    ...(tools ? { tools } : {}), ...(g.bool(0.3) ? { streamOptions: { includeUsage: true } } : {}), ...(o.abort ? { abortSignal: ac.signal } : {}),
    ...(prep.hook ? { prepareStep: prep.hook } : {}),
    ...(stop.stopWhen ? { stopWhen: (c: any) => { abort('stopWhen', c.steps.length - 1); return stop.stopWhen(c) } } : {}),
    onEvent: (e: any) => { onEvent.push(clone(e)); if (abortAt === 'event' && onEvent.length === abortStep * 3 + 1) ac.abort(reason) },
    onStepFinish: (s: any) => { onStep.push(clone(s)) },
    onFinish: async (s: any) => { onFinish.push(clone(s)); await tick() },
  }
  if (tools) for (const t of tools) { const f = t.execute; t.execute = (i: any, c: any) => { const n = rec.calls.length - 1; ran.push([n, c.toolCallId]); abort('tool', n); return f(i, c) } }
  const names = ['eventStream', 'fullStream', 'textStream', 'reasoningTextStream']
  const cancelAt = Object.fromEntries(names.map(n => [n, o.consume !== false && g.bool(0.12) ? g.int(0, 4) : -1]))
  g.note('server', script.map(s => s.chunks.map((c: any) => ({ choices: c.choices, usage: c.usage })))); g.note('messages', opts.messages); g.note('tools', tools?.map((t: any) => [t.function.name, t.meta])); g.note('stop', stop.show); g.note('prepareStep', prep.show); g.note('abort', [abortAt, abortStep]); g.note('cancel', cancelAt)
  Object.assign(opts, o.hooks?.(g, tools), o.more)
  const given = clone(opts.messages)
  const r: any = (o.fn ?? streamText)(opts)
  const out: any = {}
  const outcomes = Promise.all([settle(r.steps, 'steps'), settle(r.messages, 'messages'), settle(r.usage, 'usage'), settle(r.totalUsage, 'totalUsage')])
  const late = g.bool(0.2)
  if (late) await outcomes
  await Promise.all(names.map(async (n) => {
    if (cancelAt[n] < 0) { out[n] = await collect(r[n], n); return }
    const rd = r[n].getReader(), items: any[] = []
    for (let i = 0; i < cancelAt[n]; i++) { let x: any; try { x = await within(rd.read(), n) } catch { break } if (x.done) break; items.push(x.value) }
    await rd.cancel('enough').catch(() => {})
    out[n] = { items, end: 'cancelled' }
  }))
  const [steps, messages, us, total] = await outcomes as any[]
  return { script, planned, tools, log, seen, stop, prep, ac, reason, abortAt, abortStep, onEvent, onStep, onFinish, ran, rec, opts, given, out, steps, messages, usage: us, total, field }
}
/** the steps the documentation prescribes */
export const expectStream = (r: any) => {
  const history: any[] = clone(r.given), steps: any[] = []
  for (let s = 0; ; s++) {
    const st = r.script[Math.min(s, r.planned)]
    const before = clone(history)
    const m: any = { role: 'assistant', content: st.text }
    if (st.reasoning !== undefined) m[r.field] = st.reasoning
    if (st.calls.length) m.tool_calls = st.calls
    history.push({ m })
    const toolCalls = st.calls.map((c: any) => ({ args: c.function.arguments, toolCallId: c.id, toolCallType: 'function', toolName: c.function.name }))
    const step = { finishReason: st.finish, text: st.text, toolCalls, usage: st.usage }
    const cur: any = { before, st, step, m, calls: st.calls, afterMessage: clone(history) }
    steps.push(cur)
    cur.stop = r.stop.met(steps.map(x => x.step))
    cur.results = []
    if (!cur.stop) for (const c of st.calls) { const e: any = expectTool(r.tools, c); cur.results.push({ call: c, e }); history.push({ role: 'tool', tool_call_id: c.id, e }) }
    cur.more = !cur.stop && st.calls.length > 0
    if (!cur.more) break
  }
  return { history, steps }
}
/** an assistant message built by the library: only role, content, reasoning and the calls matter */
export const matchAssistant = (got: any, m: any, field: string) => {
  if (got?.role !== 'assistant') return 'not an assistant message'
  if (got.content !== m.content) return `content ${JSON.stringify(got.content)}, expected ${JSON.stringify(m.content)}`
  for (const f of ['reasoning', 'reasoning_content']) if ((got[f] ?? undefined) !== m[f]) return `${f}: ${JSON.stringify(got[f])}, expected ${JSON.stringify(m[f])}`
  const cs = got.tool_calls ?? [], ws = m.tool_calls ?? []
  if (cs.length !== ws.length) return `${cs.length} tool calls, expected ${ws.length}: ${JSON.stringify(cs)}`
  for (let i = 0; i < ws.length; i++) {
    const c = cs[i], w = ws[i]
    if (c == null) return `tool call ${i} is a hole`
    if (c.id !== w.id || c.type !== w.type || c.function?.name !== w.function.name || c.function?.arguments !== w.function.arguments) return `tool call ${i}: ${JSON.stringify(c)}, expected ${JSON.stringify(w)}`
  }
}
export const matchStreamHistory = (diff: any, encode: any, got: any[], want: any[], field: string, what: string, fail: (m: string, d?: any) => void) => {
  if (!Array.isArray(got) || got.length !== want.length) fail(`${what}: ${Array.isArray(got) ? got.length : 'no'} messages, expected ${want.length}`, { got, want })
  want.forEach((w, i) => {
    const x = got[i]
    if (w.m) { const d = matchAssistant(x, w.m, field); if (d) fail(`${what}: message ${i}: ${d}`) }
    else if (w.e) {
      if (x.role !== 'tool' || x.tool_call_id !== w.tool_call_id) fail(`${what}: message ${i} does not answer call ${w.tool_call_id}`, x)
      if (w.e.isError) { if (typeof x.content !== 'string' || !x.content.includes(w.e.includes)) fail(`${what}: message ${i} lacks the failure`, x) }
      else { const d = diff(x.content, encode(w.e.result)); if (d) fail(`${what}: message ${i}: ${d}`) }
    }
    else { const d = diff(x, JSON.parse(JSON.stringify(w))); if (d) fail(`${what}: message ${i}: ${d}`) }
  })
}
