import { T } from 'verif'
import { callerItem, respRun } from './resprun'
import { callStep } from './respcalls'

export const C20_history = async (v) => {
  const { input, g } = await respRun(v, { history: true, ends: true })
  v.eq('the input', input, { state: 'fulfilled', value: g.history })
  v.ensure('it went on while it should', g.expect === 'done')
}
export const C20_text = async (v) => {
  const { input, g } = await respRun(v, { history: true, text: true })
  v.eq('the input', input, { state: 'fulfilled', value: g.history })
  v.ensure('it went on while it should', g.expect === 'done')
}
export const C20_context = async (v) => {
  const { steps, g } = await respRun(v, { context: true, ends: true })
  v.ensure('the run succeeds', steps.state === 'fulfilled')
  v.ensure('it went on while it should', g.expect === 'done')
}
const aborted = async (v, abort) => {
  const { steps, input, usage, total, g, reason } = await respRun(v, { abort })
  v.ensure('it went on while it should', g.expect !== 'more')
  v.ensure('the promises agree', steps.state === input.state && steps.state === usage.state && steps.state === total.state)
  v.ensure('an abort seen before the tools run rejects with its reason', g.expect === 'rejected' ? steps.state === 'rejected' && steps.value === reason : steps.state === 'fulfilled')
}
export const C20_abortAroundRequest = v => aborted(v, ['before', 'fetch'])
export const C20_abortInStop = v => aborted(v, ['stop'])
export const C20_abortInTools = v => aborted(v, ['tools'])
export const C20_abortInCallback = v => aborted(v, ['finish'])
/** one step with any number of function calls among any other items */
export const C20_calls = v => callStep(v)
