// Tool calls of a streamed step, put together from any number of fragments in any order.
import { T } from 'verif'
import { streamText } from '@xsai/stream-text'
import { callChunk, callServer, takeFragment } from './callspec'
import { callerMessage } from './streamspec'

export const C14_calls = async (v) => {
  const chunks = v.any('chunks', T.arr(callChunk))
  const messages = v.any('messages', T.arr(callerMessage))
  const assembled = []
  let text = ''
  const r = streamText({ baseURL: 'http://h.test/', model: 'm', messages, fetch: async () => callServer(v, chunks, (c) => {
    if (c.first === undefined) { text += c.content ?? ''; return }
    // as it arrives: a member that is undefined is not sent
    takeFragment(assembled, JSON.parse(JSON.stringify(c.first)))
    if (c.second !== undefined) takeFragment(assembled, JSON.parse(JSON.stringify(c.second)))
  }) })
  const [steps, history] = await Promise.all([v.settled(r.steps), v.settled(r.messages)])
  const calls = assembled.filter(c => c !== undefined)
  v.ensure('the run succeeds', steps.state === 'fulfilled' && history.state === 'fulfilled')
  v.eq('the history', history.value, [...messages, { role: 'assistant', content: text, tool_calls: calls.length > 0 ? calls : undefined }])
  v.eq('the tool calls of the step', steps.value[0].toolCalls, calls.map(c => ({ args: c.function.arguments, toolCallId: c.id, toolCallType: 'function', toolName: c.function.name ?? '' })))
}
