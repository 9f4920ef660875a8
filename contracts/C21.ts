import { T } from 'verif'
import { responses } from '@xsai-ext/responses'
import { server } from './lib'
import { add, respRun, usageOf } from './resprun'

const textDelta = T.obj({ type: T.oneOf('response.output_text.delta', 'response.refusal.delta'), delta: T.str })
const thoughtDelta = T.obj({ type: T.oneOf('response.reasoning.delta', 'response.reasoning_summary_text.delta'), delta: T.str })
const textDone = T.obj({ type: T.lit('response.output_text.done'), text: T.str })
const refusalDone = T.obj({ type: T.lit('response.refusal.done'), refusal: T.str })
const thoughtDone = T.obj({ type: T.oneOf('response.reasoning.done', 'response.reasoning_summary_text.done'), text: T.str })
const part = T.obj({ type: T.lit('response.content_part.added'), part: T.obj({ type: T.oneOf('output_text', 'text', 'refusal', 'reasoning_text') }) })
const other = T.obj({ type: T.oneOf('response.created', 'response.in_progress', 'response.queued', 'response.content_part.done', 'response.output_text.annotation.added') })
const args = T.obj({ type: T.oneOf('response.function_call_arguments.delta', 'response.function_call_arguments.done'), delta: T.str })
const added = T.obj({ type: T.lit('response.output_item.added'), item: T.nullable(T.obj({ type: T.oneOf('message', 'reasoning', 'function_call', 'compaction'), call_id: T.str, name: T.str })) })

/** the documented mapping of one event that ends no response and completes no item */
const mapped = (e) => {
  switch (e.type) {
    case 'response.created': return { type: 'step.start' }
    case 'response.output_text.delta':
    case 'response.refusal.delta': return { type: 'text.delta', delta: e.delta }
    case 'response.reasoning.delta':
    case 'response.reasoning_summary_text.delta': return { type: 'reasoning.delta', delta: e.delta }
    case 'response.output_text.done': return { type: 'text.done', content: e.text }
    case 'response.refusal.done': return { type: 'text.done', content: e.refusal }
    case 'response.reasoning.done':
    case 'response.reasoning_summary_text.done': return { type: 'reasoning.done', content: e.text }
    case 'response.content_part.added': return e.part.type === 'reasoning_text' ? undefined : { type: 'text.start' }
    case 'response.function_call_arguments.delta': return { type: 'tool-call.delta', delta: e.delta }
    case 'response.output_item.added':
      if (e.item?.type === 'reasoning') return { type: 'reasoning.start' }
      if (e.item?.type === 'function_call') return { type: 'tool-call.start', toolCallId: e.item.call_id, toolName: e.item.name }
  }
}
const streamed = async (v, type) => {
  const chunks = v.any('chunks', T.arr(type))
  const g = { full: [], text: [], thought: [], events: [], told: [] }
  const tap = (e) => {
    g.full.push(e)
    if (e.type === 'response.output_text.delta' || e.type === 'response.refusal.delta') g.text.push(e.delta)
    if (e.type === 'response.reasoning.delta' || e.type === 'response.reasoning_summary_text.delta') g.thought.push(e.delta)
    const m = mapped(e)
    if (m !== undefined) g.events.push(m)
  }
  const r = responses({ baseURL: 'http://h.test/', model: 'm', input: 'hi', fetch: async () => server(v, chunks, tap), onEvent: (e) => { g.told.push(e) } })
  const [full, text, thought, events, steps] = await Promise.all([v.collect(r.fullStream), v.collect(r.textStream), v.collect(r.reasoningTextStream), v.collect(r.eventStream), v.settled(r.steps)])
  v.eq('the full stream yields the events', full.chunks, g.full)
  v.ensure('all of them', full.chunks.length === chunks.length)
  v.eq('the text stream', text.chunks, g.text)
  v.eq('the reasoning stream', thought.chunks, g.thought)
  v.eq('the event stream', events.chunks, g.events)
  v.eq('the event callback', g.told, g.events)
  v.ensure('the streams close', full.state === 'closed' && text.state === 'closed' && thought.state === 'closed' && events.state === 'closed')
  v.eq('no step', steps, { state: 'fulfilled', value: [] })
}
export const C21_deltas = v => streamed(v, T.or(textDelta, thoughtDelta, other))
export const C21_parts = v => streamed(v, T.or(textDone, refusalDone, thoughtDone, part))
export const C21_items = v => streamed(v, T.or(args, added, other))

const item = T.or(
  T.obj({ type: T.lit('message'), content: T.arr(T.or(T.obj({ type: T.oneOf('output_text', 'text'), text: T.str }), T.obj({ type: T.lit('refusal'), refusal: T.str }))) }),
  T.obj({ type: T.lit('function_call'), call_id: T.str, name: T.str, arguments: T.text }),
  T.obj({ type: T.oneOf('reasoning', 'compaction'), id: T.str }),
)
const usage = T.obj({ input_tokens: T.nat, output_tokens: T.nat, total_tokens: T.nat })
const ended = T.obj({ type: T.oneOf('response.completed', 'response.failed', 'response.incomplete'), response: T.obj({ output: T.arr(item), usage: T.opt(T.nullable(usage)) }) })


export const textOf = (output) => {
  const text = output.flatMap(x => x.type !== 'message' ? [] : x.content.flatMap(p => p.type === 'refusal' ? [] : [p.text])).join('')
  return text.length > 0 ? text : undefined
}
/** responses that end without a completed call: each becomes one step */
export const C21_steps = async (v) => {
  const chunks = v.any('chunks', T.arr(T.or(textDelta, ended)))
  const g = { steps: [], events: [], told: [], said: [], usage: undefined, total: undefined }
  const tap = (e) => {
    if (e.type === 'response.output_text.delta' || e.type === 'response.refusal.delta') { g.events.push({ type: 'text.delta', delta: e.delta }); return }
    const u = usageOf(e.response.usage)
    if (u !== undefined) { g.usage = u; g.total = add(g.total, u) }
    const finishReason = e.type === 'response.failed' ? 'error' : e.type === 'response.incomplete' ? 'length' : e.response.output.some(x => x.type === 'function_call') ? 'tool-calls' : 'stop'
    g.steps.push({ finishReason, text: textOf(e.response.output), toolCalls: [], toolResults: [], usage: g.usage })
    g.events.push({ type: 'step.done', usage: u })
  }
  let ends = 0
  const r = responses({
    baseURL: 'http://h.test/', model: 'm', input: 'hi', fetch: async () => server(v, chunks, tap),
    onEvent: (e) => { g.told.push(e) }, onStepFinish: (s) => { g.said.push(s) },
    onFinish: (s) => { ends++; v.eq('the last step', s, g.steps.at(-1)) },
  })
  const [events, steps, last, total] = await Promise.all([v.collect(r.eventStream), v.settled(r.steps), v.settled(r.usage), v.settled(r.totalUsage)])
  v.eq('the event stream', events.chunks, g.events)
  v.eq('the event callback', g.told, g.events)
  v.eq('the steps', steps, { state: 'fulfilled', value: g.steps })
  v.eq('the step callback', g.said, g.steps)
  v.ensure('the finish callback runs once', ends === 1)
  v.eq('the usage', last, { state: 'fulfilled', value: g.usage })
  v.eq('the total usage', total, { state: 'fulfilled', value: g.total })
}
/** runs with function calls */
export const C21_runSteps = async (v) => {
  const { steps, usage, total, g } = await respRun(v, { steps: true, ends: true })
  v.eq('the steps', steps, { state: 'fulfilled', value: g.steps })
  v.eq('the usage', usage, { state: 'fulfilled', value: g.last })
  v.eq('the total usage', total, { state: 'fulfilled', value: g.total })
  v.ensure('one callback per step, one at the end', g.finished === g.requests && g.ended === 1)
}
export const C21_runEvents = async (v) => {
  const { s, g } = await respRun(v, { events: true, ends: true })
  const events = await v.collect(s.eventStream)
  v.eq('the event stream', events.chunks, g.events)
  v.eq('the event callback', g.told, g.events)
}
