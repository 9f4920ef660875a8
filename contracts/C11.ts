import { textRun } from './runspec'

const ended = (v, r, g) => {
  v.ensure('the run succeeds', r.state === 'fulfilled')
  v.ensure('it went on while it should', g.expect === 'done')
}
export const C11_goesOn = async (v) => {
  const { r, g } = await textRun(v, { going: true })
  ended(v, r, g)
  v.eq('the calls executed', g.executed, g.mustExecute)
}
export const C11_context = async (v) => {
  const { r, g } = await textRun(v, { context: true })
  ended(v, r, g)
}
export const C11_default = async (v) => {
  const { r, g } = await textRun(v, { defaultStop: true, going: true })
  ended(v, r, g)
  v.eq('one request', g.requests, 1)
  v.eq('no call is executed', g.executed, [])
}
const aborted = async (v, abort) => {
  const { r, g, reason } = await textRun(v, { abort })
  v.ensure('it went on while it should', g.expect !== 'more')
  if (g.expect === 'rejected') v.ensure('an abort seen before the tools run rejects with its reason', r.state === 'rejected' && r.value === reason)
  else if (r.state === 'rejected') v.ensure('nothing else rejects', g.mayReject && r.value === reason)
}
export const C11_abortAroundRequest = v => aborted(v, ['before', 'fetch'])
export const C11_abortInStop = v => aborted(v, ['stop'])
export const C11_abortInTools = v => aborted(v, ['tools'])
export const C11_abortInCallback = v => aborted(v, ['finish'])
