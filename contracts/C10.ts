import { textRun } from './runspec'

export const C10_history = async (v) => {
  const { r, g } = await textRun(v, { history: true })
  v.ensure('the run succeeds', r.state === 'fulfilled')
  v.eq('the returned messages', r.value.messages, g.history)
}
