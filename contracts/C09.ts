import { T } from 'verif'
import { executeTool } from '@xsai/shared-chat'
import { toFunctionCallOutput } from '/repo/packages-ext/responses/src/utils/normalize-tool'

const CHAT = ['file', 'image_url', 'input_audio', 'text'], RESPONSES = ['input_file', 'input_image', 'input_text']
const encoded = (x, parts) => {
  if (typeof x === 'string') return x
  const known = p => p !== null && typeof p === 'object' && !Array.isArray(p) && parts.includes(p.type)
  return Array.isArray(x) && x.every(known) ? x : JSON.stringify(x)
}
const chat = async (v, result) => {
  const tools = [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => result }]
  const r = await executeTool({ messages: [], tools, toolCall: { id: 'c', type: 'function', function: { name: 't', arguments: '{}' } } })
  return r.result
}
const partType = T.or(T.open({ type: T.str }), T.str, T.null, T.int, T.obj({ text: T.str }))
const results = T.or(T.str, T.arr(partType), T.open({ name: T.str }), T.int, T.bool, T.null)
export const C09_chat = async (v) => {
  const x = v.any('x', results)
  v.eq('content', await chat(v, x), encoded(x, CHAT), 'strict')
}
export const C09_responses = (v) => {
  const x = v.any('x', results)
  v.eq('output', toFunctionCallOutput(x), encoded(x, RESPONSES), 'strict')
}
export const C09_parts = async (v) => {
  const type = v.any('type', T.str), text = v.any('text', T.str)
  const x = [{ type, text }]
  v.eq('a chat part is known', typeof await chat(v, x) !== 'string', type === 'file' || type === 'image_url' || type === 'input_audio' || type === 'text')
  v.eq('a responses part is known', typeof toFunctionCallOutput(x) !== 'string', type === 'input_file' || type === 'input_image' || type === 'input_text')
}
