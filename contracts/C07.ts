import { executeTool } from '@xsai/shared-chat'
import { run } from './lib'
import { runs, toolCase } from './toolspec'

const check = async (v, ...pre) => {
  const s = toolCase(v, { pre, post: ['none'] })
  await run(v, () => executeTool({ abortSignal: s.abortSignal, messages: [], preToolCall: s.preToolCall, postToolCall: s.postToolCall, toolCall: s.call, tools: s.tools, wrapResult: x => x }))
  runs(v, s, s.decide().want)
}
export const C07_noHook = v => check(v, 'none')
export const C07_silentHook = v => check(v, 'nothing')
export const C07_replacingHook = v => check(v, 'call')
export const C07_answeringHook = v => check(v, 'result', 'throws')
