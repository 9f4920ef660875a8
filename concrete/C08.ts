import { executeTool } from '@xsai/shared-chat'
import { generateText } from '@xsai/generate-text'
import { streamText } from '@xsai/stream-text'
import { responses } from '@xsai-ext/responses'
import { completion } from './endpoints'
import { check, jsonRes, same, settle, sseRes } from './lib'
import { checkResult, encode, RESP_PARTS, CHAT_PARTS, scenario } from './toolsim'

const once = (a: any, b: any) => { let n = 0; return async () => n++ === 0 ? a() : b() }
const skip = (s: any) => s.abortIn !== 'none' && s.abortIn !== 'live'

export const cases: any = {
  executeTool: async (g: any) => {
    const s = scenario(g)
    const out = await settle(() => executeTool({ abortSignal: s.signal, messages: [], preToolCall: s.preHook, postToolCall: s.postHook, toolCall: s.call, tools: s.tools }))
    checkResult(s, out as any)
  },
  generateText: async (g: any) => {
    const s = scenario(g)
    if (skip(s)) return
    const r: any = await settle(() => generateText({ baseURL: 'http://x/', model: 'm', messages: [], abortSignal: s.signal, preToolCall: s.preHook, postToolCall: s.postHook, tools: s.tools, stopWhen: ({ steps }: any) => steps.length > 1, fetch: once(() => jsonRes(completion({ role: 'assistant', tool_calls: [s.call] })), () => jsonRes(completion())) } as any))
    checkResult(s, r.ok ? { ok: true, value: { completionToolCall: r.value.steps[0].toolCalls[0], completionToolResult: r.value.steps[0].toolResults[0], result: r.value.messages[1].content } } : r)
  },
  streamText: async (g: any) => {
    const s = scenario(g, { missing: false })
    if (skip(s)) return
    const r = streamText({ baseURL: 'http://x/', model: 'm', messages: [], abortSignal: s.signal, preToolCall: s.preHook, postToolCall: s.postHook, tools: s.tools, stopWhen: ({ steps }: any) => steps.length > 1, fetch: once(() => sseRes(g, [{ choices: [{ index: 0, delta: { tool_calls: [{ index: 0, ...s.call }] } }] }]), () => sseRes(g, [{ choices: [{ index: 0, delta: { content: 'x' } }] }])) } as any)
    for (const p of [r.usage, r.totalUsage]) p.catch(() => {})
    const steps: any = await settle(r.steps), messages: any = await settle(r.messages)
    checkResult(s, steps.ok ? { ok: true, value: { completionToolCall: steps.value[0].toolCalls[0], completionToolResult: steps.value[0].toolResults[0], result: messages.value[1].content } } : steps)
  },
  responses: async (g: any) => {
    const s = scenario(g, { missing: false })
    if (skip(s)) return
    const item = { type: 'function_call', call_id: s.call.id, id: 'fc', name: s.call.function.name, arguments: s.call.function.arguments, status: 'completed' }
    const r = responses({ baseURL: 'http://x/', model: 'm', input: 'x', abortSignal: s.signal, preToolCall: s.preHook, postToolCall: s.postHook, tools: s.tools, stopWhen: ({ steps }: any) => steps.length > 1, fetch: once(() => sseRes(g, [{ type: 'response.output_item.done', item }, { type: 'response.completed', response: { output: [item], usage: null } }]), () => sseRes(g, [{ type: 'response.completed', response: { output: [], usage: null } }])) } as any)
    for (const p of [r.usage, r.totalUsage]) p.catch(() => {})
    const steps: any = await settle(r.steps), input: any = await settle(r.input)
    checkResult(s, steps.ok ? { ok: true, value: { completionToolCall: steps.value[0].toolCalls[0], completionToolResult: steps.value[0].toolResults[0], result: input.value[2].output } } : steps, RESP_PARTS)
  },
}
