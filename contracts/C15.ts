import { streamText } from '@xsai/stream-text'
import { T } from 'verif'
import { callChunk, callServer, takeFragment } from './callspec'
import { callerMessage, eventRun } from './streamspec'

export const C15_text = v => eventRun(v, streamText)
/** tool calls in fragments: one start, the deltas and one done event per call, in their places */
export const C15_calls = async (v) => {
  const chunks = v.any('chunks', T.arr(callChunk))
  const messages = v.any('messages', T.arr(callerMessage))
  const assembled = [], expected = [{ type: 'step.start' }], seen = []
  let text = '', started = false
  const take = (f) => {
    const args = f.function.arguments
    const known = assembled.at(f.index) !== undefined
    if (!known) expected.push({ type: 'tool-call.start', toolCallId: f.id, toolName: f.function.name })
    if (known ? args != null : args != null && args !== '') expected.push({ type: 'tool-call.delta', delta: args })
    takeFragment(assembled, f)
  }
  const r = streamText({ baseURL: 'http://h.test/', model: 'm', messages, onEvent: (e) => { seen.push(e) }, fetch: async () => callServer(v, chunks, (c) => {
    if (c.first === undefined) {
      if (c.content == null) return
      if (!started) expected.push({ type: 'text.start' })
      started = true
      expected.push({ type: 'text.delta', delta: c.content })
      text += c.content
      return
    }
    // as it arrives: a member that is undefined is not sent
    take(JSON.parse(JSON.stringify(c.first)))
    if (c.second !== undefined) take(JSON.parse(JSON.stringify(c.second)))
  }) })
  const [events, done] = await Promise.all([v.collect(r.eventStream), v.settled(r.steps)])
  const calls = assembled.filter(c => c !== undefined)
  const all = [...expected, ...started ? [{ type: 'text.done', content: text }] : [], ...calls.map(c => ({ type: 'tool-call.done', args: c.function.arguments, toolCallId: c.id, toolCallType: 'function', toolName: c.function.name ?? '' })), { type: 'step.done', usage: undefined }]
  v.ensure('the run succeeds', done.state === 'fulfilled' && events.state === 'closed')
  v.eq('the events', seen, all)
  v.eq('the event stream', events.chunks, all)
}
