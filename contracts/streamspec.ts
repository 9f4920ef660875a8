// One step of streamText without tool calls, against any sequence of chunks.
import { T } from 'verif'
import { streamText } from '@xsai/stream-text'
import { server } from './lib'

const text = T.opt(T.nullable(T.str))
export const usageType = T.obj({ prompt_tokens: T.nat, completion_tokens: T.nat, total_tokens: T.nat })
export const delta = T.obj({ content: text, refusal: text, reasoning: text, reasoning_content: text, tool_calls: T.opt(T.or(T.null, T.arr(T.obj({ none: T.lit(1) })))) })
export const textDelta = T.obj({ content: text, refusal: text, reasoning: text, reasoning_content: text })
export const chunk = d => T.obj({ choices: T.opt(T.nullable(T.arr(T.obj({ delta: d, finish_reason: T.opt(T.nullable(T.oneOf('stop', 'length', 'content_filter', 'tool_calls'))) })))), usage: T.opt(T.nullable(usageType)) })

export const callerMessage = T.obj({ role: T.oneOf('system', 'user', 'assistant', 'tool', 'developer'), content: T.json })

/** what one step without tool calls delivers, kept in step with the chunks */
export const ghost = () => ({ full: [], text: [], reasoning: [], events: [{ type: 'step.start' }], all: '', thought: undefined, field: undefined, finish: 'other', usage: undefined, started: false, thinking: false })
export const take = (g, c) => {
  g.full.push(c)
  if (c.usage != null) g.usage = { inputTokens: c.usage.prompt_tokens, outputTokens: c.usage.completion_tokens, totalTokens: c.usage.total_tokens }
  if (c.choices == null || c.choices.length === 0) return
  const { delta, finish_reason } = c.choices[0]
  if (finish_reason != null) g.finish = finish_reason
  const field = delta.reasoning != null ? 'reasoning' : delta.reasoning_content != null ? 'reasoning_content' : undefined
  if (field !== undefined) {
    const s = delta[field]
    if (!g.thinking) g.events.push({ type: 'reasoning.start' })
    g.events.push({ type: 'reasoning.delta', delta: s })
    g.reasoning.push(s)
    g.thought = (g.thought ?? '') + s
    g.thinking = true
    g.field = field
  }
  const s = delta.content ?? delta.refusal
  if (s != null) {
    if (!g.started) g.events.push({ type: 'text.start' })
    g.events.push({ type: 'text.delta', delta: s })
    g.text.push(s)
    g.all += s
    g.started = true
  }
}

/** one step without tool calls: what every stream, promise and event shows */
export const stepRun = async (v, f) => {
  const chunks = v.any('chunks', T.arr(chunk(textDelta)))
  const messages = v.any('messages', T.arr(callerMessage))
  const g = ghost()
  const r = f({ baseURL: 'http://h.test/', model: 'm', messages, fetch: async () => server(v, chunks, c => take(g, c)) })
  const [full, text, thought, steps, history] = await Promise.all([v.collect(r.fullStream), v.collect(r.textStream), v.collect(r.reasoningTextStream), v.settled(r.steps), v.settled(r.messages)])
  v.eq('the full stream yields the chunks', full.chunks, g.full)
  v.ensure('all of them', full.chunks.length === chunks.length)
  v.eq('the text stream yields the text deltas', text.chunks, g.text)
  v.eq('the reasoning stream yields the reasoning deltas', thought.chunks, g.reasoning)
  v.ensure('the streams close', full.state === 'closed' && text.state === 'closed' && thought.state === 'closed')
  v.eq('the step', steps, { state: 'fulfilled', value: [{ finishReason: g.finish, text: g.all, toolCalls: [], toolResults: [], usage: g.usage }] })
  const message = { ...g.field === 'reasoning' ? { reasoning: g.thought } : g.field === 'reasoning_content' ? { reasoning_content: g.thought } : {}, role: 'assistant', content: g.all }
  v.eq('the history', history, { state: 'fulfilled', value: [...messages, message] })
}
export const eventRun = async (v, f) => {
  const chunks = v.any('chunks', T.arr(chunk(textDelta)))
  const messages = v.any('messages', T.arr(callerMessage))
  const g = ghost()
  const seen = []
  const r = f({ baseURL: 'http://h.test/', model: 'm', messages, onEvent: (e) => { seen.push(e) }, fetch: async () => server(v, chunks, c => take(g, c)) })
  const [events, done] = await Promise.all([v.collect(r.eventStream), v.settled(r.steps)])
  const expected = [...g.events, ...g.thinking ? [{ type: 'reasoning.done', content: g.thought ?? '' }] : [], ...g.started ? [{ type: 'text.done', content: g.all }] : [], { type: 'step.done', usage: g.usage }]
  v.ensure('the run succeeds', done.state === 'fulfilled' && events.state === 'closed')
  v.eq('the events', seen, expected)
  v.eq('the event stream', events.chunks, expected)
}
