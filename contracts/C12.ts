import { textRun } from './runspec'

export const C12_steps = async (v) => {
  const { r, g } = await textRun(v, { steps: true })
  v.ensure('the run succeeds', r.state === 'fulfilled')
  const x = r.value
  v.eq('the steps', x.steps, g.steps)
  v.eq('one callback per step', g.finished, g.requests)
  v.eq('the total usage', x.totalUsage, g.total)
  v.eq('the usage', x.usage, g.step.usage)
  v.eq('the text', x.text, g.step.text)
  v.eq('the finish reason', x.finishReason, g.step.finishReason)
  v.eq('the reasoning', x.reasoningText, g.reasoning)
  v.eq('the tool calls', x.toolCalls, g.step.toolCalls)
  v.eq('the tool results', x.toolResults, g.step.toolResults)
}
