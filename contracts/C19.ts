import { T } from 'verif'
import { and, hasToolCall, not, or, shouldStop, stepCountAtLeast } from '@xsai/shared-chat'
import { and as rAnd, hasToolCall as rHasToolCall, not as rNot, or as rOr, stepCountAtLeast as rStepCountAtLeast } from '@xsai-ext/responses'

const responsesExt = { and: rAnd, hasToolCall: rHasToolCall, not: rNot, or: rOr, stepCountAtLeast: rStepCountAtLeast }

const context = v => ({
  messages: v.any('messages', T.arr(T.any)),
  step: { toolCalls: v.any('calls', T.arr(T.obj({ toolName: T.str, toolCallId: T.str }))), text: v.any('text', T.opt(T.str)) },
  steps: v.any('steps', T.arr(T.any)),
})
/** any list of stop conditions that only look at the given context */
const conditions = (v, ctx) => {
  const verdict = v.fn('verdict', { returns: T.bool })
  const seen = []
  return { verdict, list: v.any('conditions', T.arr(T.str)), make: c => (x) => { if (x !== ctx) v.fail('a condition is given the context itself'); return verdict(c) }, seen }
}
export const C19_and = (v) => {
  const ctx = context(v), { list, make, verdict } = conditions(v, ctx)
  v.ensure('all of them', and(...list.map(make))(ctx) === list.every(c => verdict(c)))
  v.ensure('none at all', and()(ctx) === true)
}
export const C19_or = (v) => {
  const ctx = context(v), { list, make, verdict } = conditions(v, ctx)
  v.ensure('any of them', or(...list.map(make))(ctx) === list.some(c => verdict(c)))
  v.ensure('none at all', or()(ctx) === false)
}
export const C19_not = (v) => {
  const ctx = context(v)
  const b = v.any('b', T.bool)
  v.ensure('the opposite', not((x) => { v.ensure('given the context', x === ctx); return b })(ctx) === !b)
  v.ensure('should stop', shouldStop((x) => { v.ensure('asked with the context', x === ctx); return b }, ctx) === b)
}
export const C19_nested = (v) => {
  const ctx = context(v)
  const a = v.any('a', T.bool), b = v.any('b', T.bool), c = v.any('c', T.bool)
  const A = () => a, B = () => b, C = () => c
  v.ensure('nested', and(or(A, not(B)), not(and(B, C)))(ctx) === ((a || !b) && !(b && c)))
  v.ensure('de Morgan', not(or(A, B))(ctx) === and(not(A), not(B))(ctx))
}
export const C19_stepCount = (v) => {
  const ctx = context(v), n = v.any('n', T.int)
  v.ensure('at least that many', stepCountAtLeast(n)(ctx) === (ctx.steps.length >= n))
  v.ensure('for responses', responsesExt.stepCountAtLeast(n)(ctx) === (ctx.steps.length >= n))
}
export const C19_hasToolCall = (v) => {
  const ctx = context(v), name = v.any('name', T.str)
  v.ensure('any call', hasToolCall()(ctx) === (ctx.step.toolCalls.length > 0))
  v.ensure('a call of that name', hasToolCall(name)(ctx) === ctx.step.toolCalls.some(c => c.toolName === name))
  v.ensure('for responses', responsesExt.hasToolCall(name)(ctx) === ctx.step.toolCalls.some(c => c.toolName === name))
}
export const C19_reexports = (v) => {
  for (const k of ['and', 'or', 'not']) {
    const ctx = context(v), a = v.any('a', T.bool)
    v.ensure('the same combinators', responsesExt[k](() => a)(ctx) === (k === 'not' ? !a : a))
  }
}
