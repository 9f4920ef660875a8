import { T } from 'verif'
import { resolvePrepareStep } from '@xsai/shared-chat'
import { run } from './lib'
import { textRun, overrideInput, overrideModel, overrideChoice } from './runspec'
import { streamRun } from './streamrun'
import { callerItem, respRun } from './resprun'

const base = v => ({
  input: v.any('input', T.arr(T.obj({ role: T.str, content: T.json }))),
  model: v.any('model', T.str),
  stepNumber: v.any('n', T.nat),
  steps: v.any('steps', T.arr(T.obj({ text: T.opt(T.str), toolCalls: T.arr(T.obj({ toolName: T.str })) }))),
  toolChoice: v.any('choice', T.opt(T.or(T.str, T.obj({ type: T.str })))),
})
export const C18_noHook = async (v) => {
  const o = base(v)
  const r = await resolvePrepareStep({ ...o })
  v.eq('nothing changes', r, { input: o.input, model: o.model, toolChoice: o.toolChoice })
  v.ensure('the input itself', r.input === o.input)
}
export const C18_hook = async (v) => {
  const o = base(v)
  const out = v.any('out', T.opt(T.obj({ input: T.opt(T.arr(T.obj({ role: T.str, content: T.json }))), model: T.opt(T.str), toolChoice: T.opt(T.oneOf('auto', 'none', 'required')) })))
  const given = out === undefined ? undefined : { input: out.input === undefined ? undefined : out.input.map(m => ({ ...m })), model: out.model, toolChoice: out.toolChoice }
  const async_ = v.any('async', T.bool)
  const seen = []
  const prepareStep = (a) => { seen.push(a); return async_ ? Promise.resolve(given) : given }
  const r = await resolvePrepareStep({ ...o, prepareStep })
  v.eq('one call of the hook', seen.length, 1)
  v.eq('what it is given', seen[0], { input: o.input, model: o.model, stepNumber: o.stepNumber, steps: o.steps })
  v.ensure('copies of the history and of the steps', seen[0].input !== o.input && seen[0].steps !== o.steps)
  const want = { input: given?.input !== undefined ? given.input : o.input, model: given?.model ?? o.model, toolChoice: given?.toolChoice ?? o.toolChoice }
  v.eq('what it overrides', r, want)
  if (given?.input !== undefined) v.ensure('its input is copied', r.input !== given.input)
}
/** whatever the hook does to what it was given, or later to what it returned, does not reach the run */
export const C18_private = async (v) => {
  const role = v.any('role', T.str), text = v.any('text', T.str), call = v.any('call', T.str), evil = v.any('evil', T.str)
  const input = [{ role, content: [{ type: 'text', text }] }]
  const steps = [{ text, toolCalls: [{ toolName: call }] }]
  const mine = [{ role, content: [{ type: 'text', text }] }]
  const override = v.any('override', T.bool)
  const prepareStep = (a) => {
    a.input[0].content[0].text = evil; a.input[0].role = evil; a.input.push({ role: evil })
    a.steps[0].toolCalls[0].toolName = evil; a.steps[0].toolCalls.push({}); a.steps.length = 0
    return override ? { input: mine } : {}
  }
  const r = await resolvePrepareStep({ input, model: 'm', prepareStep, stepNumber: 0, steps })
  mine[0].content[0].text = evil; mine[0].role = evil; mine.push({})
  v.eq('the history is untouched', input, [{ role, content: [{ type: 'text', text }] }])
  v.eq('the steps are untouched', steps, [{ text, toolCalls: [{ toolName: call }] }])
  v.eq('the request is untouched', r.input, [{ role, content: [{ type: 'text', text }] }])
}
export const C18_failure = async (v) => {
  const o = base(v)
  const e = v.any('e', T.error)
  const r = await run(v, () => resolvePrepareStep({ ...o, prepareStep: () => { throw e } }))
  v.ensure('its failure is the failure of the step', r.state === 'rejected' && r.value === e)
}
export const C18_stepInput = async (v) => {
  const { r } = await textRun(v, { plain: true, prepare: overrideInput, history: true })
  v.ensure('the run succeeds', r.state === 'fulfilled')
}
export const C18_stepModel = async (v) => {
  const { r } = await textRun(v, { plain: true, prepare: overrideModel, override: true })
  v.ensure('the run succeeds', r.state === 'fulfilled')
}
export const C18_stepChoice = async (v) => {
  const { r } = await textRun(v, { plain: true, prepare: overrideChoice, override: true })
  v.ensure('the run succeeds', r.state === 'fulfilled')
}
const succeeds = async (v, run, o) => {
  const { steps } = await run(v, o)
  v.ensure('the run succeeds', steps.state === 'fulfilled')
}
export const C18_streamInput = v => succeeds(v, streamRun, { prepare: overrideInput, history: true })
export const C18_streamModel = v => succeeds(v, streamRun, { prepare: overrideModel, override: true })
export const C18_streamChoice = v => succeeds(v, streamRun, { prepare: overrideChoice, override: true })
export const C18_respInput = v => succeeds(v, respRun, { prepare: { input: T.opt(T.arr(callerItem)) }, history: true })
export const C18_respModel = v => succeeds(v, respRun, { prepare: overrideModel, override: true })
export const C18_respChoice = v => succeeds(v, respRun, { prepare: overrideChoice, override: true })
