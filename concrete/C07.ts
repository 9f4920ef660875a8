import { executeTool } from '@xsai/shared-chat'
import { generateText } from '@xsai/generate-text'
import { streamText } from '@xsai/stream-text'
import { responses } from '@xsai-ext/responses'
import { completion } from './endpoints'
import { check, jsonRes, recorder, same, settle, sseRes } from './lib'
import { checkRuns, mkTool, scenario, toolCall } from './toolsim'

const runs = async (g: any, run: (s: any) => Promise<any>, o: any = {}) => {
  const s = scenario(g, o)
  await settle(() => run(s))
  checkRuns(s)
}
const once = (a: any, b: any) => { let n = 0; return async () => n++ === 0 ? a() : b() }
const never = () => false
// through a whole run the abort must not be seen before the tools run
const usable = (s: any) => { if (s.abortIn === 'before') s.skip = true; return !s.skip }

export const cases: any = {
  executeTool: (g: any) => runs(g, s => executeTool({ abortSignal: s.signal, messages: [], preToolCall: s.preHook, postToolCall: s.postHook, toolCall: s.call, tools: s.tools })),
  generateText: async (g: any) => {
    const s = scenario(g)
    if (!usable(s)) return
    await settle(() => generateText({ baseURL: 'http://x/', model: 'm', messages: [], abortSignal: s.signal, preToolCall: s.preHook, postToolCall: s.postHook, tools: s.tools, stopWhen: ({ steps }: any) => steps.length > 1, fetch: once(() => jsonRes(completion({ role: 'assistant', tool_calls: [s.call] })), () => jsonRes(completion())) } as any))
    checkRuns(s)
  },
  streamText: async (g: any) => {
    const s = scenario(g, { missing: false })
    if (!usable(s)) return
    const r = streamText({ baseURL: 'http://x/', model: 'm', messages: [], abortSignal: s.signal, preToolCall: s.preHook, postToolCall: s.postHook, tools: s.tools, stopWhen: ({ steps }: any) => steps.length > 1, fetch: once(() => sseRes(g, [{ choices: [{ index: 0, delta: { tool_calls: [{ index: 0, ...s.call }] } }] }]), () => sseRes(g, [{ choices: [{ index: 0, delta: { content: 'x' } }] }])) } as any)
    for (const p of [r.messages, r.usage, r.totalUsage]) p.catch(() => {})
    await settle(r.steps)
    checkRuns(s)
  },
  responses: async (g: any) => {
    const s = scenario(g, { missing: false })
    if (!usable(s)) return
    const item = { type: 'function_call', call_id: s.call.id, id: 'fc', name: s.call.function.name, arguments: s.call.function.arguments, status: 'completed' }
    const r = responses({ baseURL: 'http://x/', model: 'm', input: 'x', abortSignal: s.signal, preToolCall: s.preHook, postToolCall: s.postHook, tools: s.tools, stopWhen: ({ steps }: any) => steps.length > 1, fetch: once(() => sseRes(g, [{ type: 'response.output_item.done', item }, { type: 'response.completed', response: { output: [item], usage: null } }]), () => sseRes(g, [{ type: 'response.completed', response: { output: [], usage: null } }])) } as any)
    for (const p of [r.input, r.usage, r.totalUsage]) p.catch(() => {})
    await settle(r.steps)
    checkRuns(s)
  },
  'several calls in one step': async (g: any) => {
    const log: any[] = []
    const tools = ['weather', 'add', 'a'].map(n => mkTool(g, n, log))
    const calls = g.list((i: number) => toolCall(g, `c${i}`), 1, 4)
    g.note('calls', calls); g.note('tools', tools.map(t => t.meta))
    await settle(() => generateText({ baseURL: 'http://x/', model: 'm', messages: [], tools, stopWhen: ({ steps }: any) => steps.length > 1, fetch: once(() => jsonRes(completion({ role: 'assistant', tool_calls: calls })), () => jsonRes(completion())) } as any))
    for (const c of calls) {
      const ex = log.filter(l => l.k === 'execute' && l.options.toolCallId === c.id)
      check(ex.length <= 1, `call ${c.id} executed ${ex.length} times`)
      for (const x of ex) same('tool', x.name, c.function.name)
    }
  },
}
