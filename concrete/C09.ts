import { executeTool } from '@xsai/shared-chat'
import { generateText } from '@xsai/generate-text'
import { responses } from '@xsai-ext/responses'
import { completion } from './endpoints'
import { check, jsonRes, recorder, same, sseRes } from './lib'
import { CHAT_PARTS, encode, RESP_PARTS, resultValue } from './toolsim'

const more = (g: any) => g.weighted([[3, () => resultValue(g)], [3, () => {
  const kinds = g.pick([CHAT_PARTS, RESP_PARTS, [...CHAT_PARTS, ...RESP_PARTS], [...CHAT_PARTS, 'refusal', 'output_text', '', 'Text', 'toString', 'length']])
  const xs: any[] = g.list(() => ({ type: g.pick(kinds), text: g.str(), ...(g.bool(0.3) ? { image_url: { url: 'u' } } : {}) }), 0, 5)
  if (g.bool(0.25) && xs.length) xs[g.int(0, xs.length - 1)] = g.pick([null, 'x', 1, [], {}, { type: 1 }, { type: ['text'] }, { type: null }])
  return xs
}], [1, () => JSON.stringify(g.json(2))], [1, () => ({ length: 0 })], [1, () => ({ type: 'text', text: 'a' })]])
const tool = (v: any) => ({ type: 'function', function: { name: 't', parameters: {} }, execute: () => v })
const call = { id: 'c1', type: 'function', function: { name: 't', arguments: '{}' } }
const item = { type: 'function_call', call_id: 'c1', id: 'fc', name: 't', arguments: '{}', status: 'completed' }

export const cases: any = {
  chat: async (g: any) => {
    const v = g.note('result', more(g)), before = JSON.stringify(v)
    const rec = recorder((_, n) => n === 0 ? jsonRes(completion({ role: 'assistant', tool_calls: [call] })) : jsonRes(completion()))
    await generateText({ baseURL: 'http://x/', model: 'm', messages: [], tools: [tool(v)], stopWhen: ({ steps }: any) => steps.length > 1, fetch: rec.fetch } as any)
    same('requests', rec.calls.length, 2)
    same('tool message content sent', rec.calls[1].body.messages.at(-1), { role: 'tool', tool_call_id: 'c1', content: JSON.parse(JSON.stringify(encode(v, CHAT_PARTS))) }, 'strict')
    same('the result itself', JSON.stringify(v), before)
  },
  responses: async (g: any) => {
    const v = g.note('result', more(g))
    const rec = recorder((_, n) => n === 0 ? sseRes(g, [{ type: 'response.output_item.done', item }, { type: 'response.completed', response: { output: [item], usage: null } }]) : sseRes(g, [{ type: 'response.completed', response: { output: [], usage: null } }]))
    const r = responses({ baseURL: 'http://x/', model: 'm', input: 'x', tools: [tool(v)], stopWhen: ({ steps }: any) => steps.length > 1, fetch: rec.fetch } as any)
    await r.steps
    same('requests', rec.calls.length, 2)
    const out = rec.calls[1].body.input.at(-1)
    same('function call output sent', out.output, JSON.parse(JSON.stringify(encode(v, RESP_PARTS))), 'strict')
    same('call id', out.call_id, 'c1'); same('type', out.type, 'function_call_output')
  },
  executeTool: async (g: any) => {
    const v = g.note('result', more(g))
    const r = await executeTool({ messages: [], toolCall: call as any, tools: [tool(v)] as any })
    same('content', r.result, encode(v, CHAT_PARTS), 'strict')
    if (typeof v === 'string') check(r.result === v, 'a string result changed')
  },
}
