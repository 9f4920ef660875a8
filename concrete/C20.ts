import { check, diff, fail, same } from './lib'
import { expectResp, matchInput, respRun } from './respsim'
import { encode, RESP_PARTS } from './toolsim'

const enc = (x: any) => JSON.parse(JSON.stringify(encode(x, RESP_PARTS)))
export const cases: any = {
  run: async (g: any) => {
    const r = await respRun(g)
    check(r.steps.ok && r.input.ok, 'the run failed', r.steps.error)
    const w = expectResp(r)
    same('requests', r.rec.calls.length, w.steps.length)
    w.steps.forEach((s: any, i: number) => {
      const b = r.rec.calls[i].body
      if (!r.prep.of(i)?.input) matchInput(diff, enc, b.input, s.before, `request ${i}`, fail)
      same(`tools of request ${i}`, b.tools, r.tools === undefined ? undefined : r.tools.map((t: any) => ({ type: 'function', name: t.function.name, description: t.function.description ?? null, parameters: t.function.parameters, strict: t.function.strict ?? true })))
    })
    matchInput(diff, enc, r.input.value, w.history, 'input promise', fail)
    const ran = r.ran
    w.steps.forEach((s: any, i: number) => { if (s.stop) same(`tools run in step ${i}`, ran.filter((x: any) => x[0] === i), []) })
    if (r.seen.length) r.seen.forEach((c: any, i: number) => {
      const k = w.steps.filter((s: any) => s.st.end === 'completed')[i]
      check(k, 'the stop condition was consulted too often')
      matchInput(diff, enc, c.input, k.afterItems, `input given to the stop condition ${i}`, fail)
      same('tool calls told', c.step.toolCalls, k.step.toolCalls)
    })
    same('caller input', r.opts.input, r.given, 'strict')
  },
  abort: async (g: any) => {
    const r = await respRun(g, { abort: true })
    const w = expectResp(r)
    if (!r.ac.signal.aborted) { check(r.steps.ok, 'the run failed', r.steps.error); same('requests', r.rec.calls.length, w.steps.length); return }
    const k = r.abortAt === 'before' ? 0 : r.abortStep
    same('requests', r.rec.calls.length, k + 1)
    if (r.abortAt !== 'tool') same('tools run in the aborted step', r.ran.filter((t: any) => t[0] === k), [])
    if (r.abortAt === 'tool') check(r.steps.ok, 'the run failed', r.steps.error)
  },
}
