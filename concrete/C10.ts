import { expectRun, generateRun, matchHistory } from './chatsim'
import { check, diff, fail, same } from './lib'

export const cases: any = {
  run: async (g: any) => {
    const r = await generateRun(g)
    check(r.out.ok, 'the run failed', r.out.error)
    const w = expectRun(r)
    same('requests', r.rec.calls.length, w.steps.length)
    w.steps.forEach((s: any, i: number) => {
      const o = r.prep.of(i)
      if (o?.input) return
      matchHistory(diff, r.rec.calls[i].body.messages, s.before, `request ${i}`, fail)
    })
    matchHistory(diff, r.out.value.messages, w.history, 'returned messages', fail)
    same('caller messages', r.opts.messages, r.given, 'strict')
  },
}
