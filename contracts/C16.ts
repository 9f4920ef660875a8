import { streamRun } from './streamrun'

export const C16_history = async (v) => {
  const { messages, g } = await streamRun(v, { history: true })
  v.eq('the messages', messages, { state: 'fulfilled', value: g.history })
}
export const C16_steps = async (v) => {
  const { steps, usage, total, g } = await streamRun(v, { steps: true })
  v.eq('the steps', steps, { state: 'fulfilled', value: g.steps })
  v.eq('the usage', usage, { state: 'fulfilled', value: g.last })
  v.eq('the total usage', total, { state: 'fulfilled', value: g.total })
  v.ensure('one callback per step, one at the end', g.finished === g.requests && g.ended === 1)
}
export const C16_context = async (v) => {
  const { steps, g } = await streamRun(v, { context: true })
  v.ensure('the run succeeds', steps.state === 'fulfilled')
  v.ensure('it went on while it should', g.expect === 'done')
}
const aborted = async (v, abort) => {
  const { steps, messages, usage, total, g, reason } = await streamRun(v, { abort })
  v.ensure('it went on while it should', g.expect !== 'more')
  v.ensure('the promises agree', steps.state === messages.state && steps.state === usage.state && steps.state === total.state)
  if (g.expect === 'rejected') v.ensure('an abort seen before the tools run rejects with its reason', steps.state === 'rejected' && steps.value === reason)
  else if (steps.state === 'rejected') v.ensure('nothing else rejects', g.mayReject && steps.value === reason)
}
export const C16_abortAroundRequest = v => aborted(v, ['before', 'fetch'])
export const C16_abortInStop = v => aborted(v, ['stop'])
export const C16_abortInTools = v => aborted(v, ['tools'])
export const C16_abortInCallback = v => aborted(v, ['finish'])
