import { and, hasToolCall, not, or, stepCountAtLeast } from '@xsai/shared-chat'
import * as resp from '@xsai-ext/responses'
import { check, same } from './lib'

const step = (g: any) => ({ finishReason: g.pick(['stop', 'tool-calls']), toolCalls: g.list(() => ({ toolName: g.pick(['a', 'b', '', 'a b']), toolCallId: g.word(), args: '{}', toolCallType: 'function' }), 0, 3), toolResults: [] })
type F = { f: (c: any) => boolean, want: (c: any) => boolean, show: any }
const formula = (g: any, d: number, mods: any, seen: any[]): F => g.weighted([
  [2, () => { const v = g.bool(); return { f: (c: any) => { seen.push(c); return v }, want: () => v, show: v } }],
  [2, () => { const n = g.int(-1, 4); return { f: mods.stepCountAtLeast(n), want: (c: any) => c.steps.length >= n, show: ['steps>=', n] } }],
  [2, () => { const n = g.pick([undefined, 'a', 'b', '', 'zz']); return { f: mods.hasToolCall(n), want: (c: any) => n === undefined ? c.step.toolCalls.length > 0 : c.step.toolCalls.some((t: any) => t.toolName === n), show: ['tool', n] } }],
  [d > 0 ? 2 : 0, () => { const xs = g.list(() => formula(g, d - 1, mods, seen), 0, 3); return { f: mods.and(...xs.map((x: F) => x.f)), want: (c: any) => xs.every((x: F) => x.want(c)), show: ['and', ...xs.map((x: F) => x.show)] } }],
  [d > 0 ? 2 : 0, () => { const xs = g.list(() => formula(g, d - 1, mods, seen), 0, 3); return { f: mods.or(...xs.map((x: F) => x.f)), want: (c: any) => xs.some((x: F) => x.want(c)), show: ['or', ...xs.map((x: F) => x.show)] } }],
  [d > 0 ? 2 : 0, () => { const x = formula(g, d - 1, mods, seen); return { f: mods.not(x.f), want: (c: any) => !x.want(c), show: ['not', x.show] } }],
])
const run = (mods: any) => (g: any) => {
  const seen: any[] = []
  const steps = g.list(() => step(g), 0, 4)
  const cur = steps.at(-1) ?? step(g)
  const c = { input: [{ role: 'user', content: 'x' }], step: cur, steps }
  const before = JSON.stringify(c)
  const F = formula(g, 3, mods, seen)
  g.note('condition', F.show); g.note('context', c)
  for (let i = 0; i < 2; i++) same('verdict', F.f(c), F.want(c))
  check(seen.every(x => x === c), 'a condition got another context')
  same('context', JSON.stringify(c), before)
}
export const cases: any = { chat: run({ and, or, not, stepCountAtLeast, hasToolCall }), responses: run(resp) }
