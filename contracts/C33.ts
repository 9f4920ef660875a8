import { T } from 'verif'
import { message } from '@xsai/utils-chat'

const toolCall = T.open({ id: T.str, type: T.lit('function'), function: T.obj({ name: T.opt(T.str), arguments: T.opt(T.str) }) })
const part = T.or(T.obj({ type: T.lit('text'), text: T.str }), T.obj({ type: T.lit('refusal'), refusal: T.str }), T.obj({ type: T.lit('image_url'), image_url: T.obj({ url: T.str }) }))

export const C33_roles = (v) => {
  const content = v.any('content', T.or(T.str, T.arr(part)))
  v.eq('system message', message.system(content), { role: 'system', content })
  v.eq('user message', message.user(content), { role: 'user', content })
  v.eq('text part', message.textPart(content), { type: 'text', text: content })
  v.eq('image part', message.imagePart(content), { type: 'image_url', image_url: { url: content } })
}

export const C33_assistantContent = (v) => {
  const content = v.any('content', T.or(T.str, T.arr(part, 1)))
  v.eq('assistant message holds the content', message.assistant(content), { role: 'assistant', content })
}
export const C33_assistantMixed = (v) => {
  // a list of tool calls and content parts in any arrangement is a list of tool calls only if every element is one
  const before = v.any('before', T.arr(T.or(toolCall, part)))
  const one = v.any('one', part)
  const after = v.any('after', T.arr(T.or(toolCall, part)))
  const content = [...before, one, ...after]
  v.eq('assistant message holds the mixed content', message.assistant(content), { role: 'assistant', content })
}
export const C33_assistantCall = (v) => {
  const call = v.any('call', toolCall)
  v.eq('assistant message holds the call', message.assistant(call), { role: 'assistant', tool_calls: [call] })
}
export const C33_assistantCalls = (v) => {
  const calls = v.any('calls', T.arr(toolCall, 1))
  v.eq('assistant message holds the calls', message.assistant(calls), { role: 'assistant', tool_calls: calls })
}
export const C33_tool = (v) => {
  const content = v.any('content', T.or(T.str, T.arr(part)))
  const call = v.any('call', toolCall)
  v.eq('tool message answers the call', message.tool(content, call), { role: 'tool', content, tool_call_id: call.id })
}
