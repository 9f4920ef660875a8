import { executeTool } from '@xsai/shared-chat'
import { run } from './lib'
import { outcome, toolCase } from './toolspec'

const check = async (v, pre, post, abort, sync) => {
  const s = toolCase(v, { pre, post, abort, sync })
  const r = await run(v, () => executeTool({ abortSignal: s.abortSignal, messages: [], preToolCall: s.preToolCall, postToolCall: s.postToolCall, toolCall: s.call, tools: s.tools, wrapResult: x => x }))
  outcome(v, s, s.decide(), r)
}
const live = ['none', 'live'], aborted = ['before', 'in-pre', 'in-validate', 'in-execute']
export const C08_noHook = v => check(v, ['none'], ['none'])
export const C08_preHook = v => check(v, ['nothing', 'result', 'throws'], ['none'])
export const C08_replacingHook = v => check(v, ['call'], ['none'])
export const C08_postHook = v => check(v, ['none'], ['nothing', 'result', 'throws'], live)
export const C08_postHookAborted = v => check(v, ['none'], ['nothing', 'result', 'throws'], aborted)
export const C08_bothHooks = v => check(v, ['call'], ['nothing', 'result', 'throws'], live)
export const C08_bothHooksAborted = v => check(v, ['call'], ['nothing', 'result', 'throws'], aborted)
export const C08_synchronous = v => check(v, ['none', 'call'], ['none', 'result', 'throws'], ['none', 'in-validate'], true)
