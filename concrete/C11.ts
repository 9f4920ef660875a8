import { expectRun, generateRun, matchHistory } from './chatsim'
import { check, diff, fail, same } from './lib'

const strip = (s: any) => ({ finishReason: s.finishReason, text: s.text, toolCalls: s.toolCalls, usage: s.usage })
export const cases: any = {
  run: async (g: any) => {
    const r = await generateRun(g)
    check(r.out.ok, 'the run failed', r.out.error)
    const w = expectRun(r)
    same('requests', r.rec.calls.length, w.steps.length)
    // tools ran exactly for the steps that did not stop
    const ran = r.timeline.filter((t: any) => t[0] === 'tool')
    w.steps.forEach((s: any, i: number) => {
      const here = ran.filter((t: any) => t[1] === i)
      if (s.stop) same(`tools run in step ${i}, which stops`, here, [])
    })
    if (r.seen.length) {
      same('stop condition consultations', r.seen.length, w.steps.length)
      r.seen.forEach((c: any, i: number) => {
        matchHistory(diff, c.input, w.steps[i].afterMessage, `history given to the stop condition of step ${i}`, fail)
        same(`steps given to the stop condition of step ${i}`, c.steps.map(strip), w.steps.slice(0, i + 1).map((s: any) => strip(s.step)))
        same(`step given to the stop condition of step ${i}`, strip(c.step), strip(w.steps[i].step))
      })
    }
    // stop is consulted before the tools of its step
    for (const [i, t] of r.timeline.entries()) if (t[0] === 'tool' && r.hasStop) check(r.timeline.slice(0, i).some((x: any) => x[0] === 'stop' && x[1] === t[1]), 'a tool ran before the stop condition was consulted', r.timeline)
  },
  abort: async (g: any) => {
    const r = await generateRun(g, { abort: true, prepare: 0 })
    const w = expectRun(r)
    const fired = r.ac.signal.aborted
    if (!fired) { check(r.out.ok, 'the run failed', r.out.error); same('requests', r.rec.calls.length, w.steps.length); return }
    const k = r.abortAt === 'before' ? 0 : r.abortStep
    if (r.abortAt === 'before' || r.abortAt === 'fetch') {
      // seen before tools run: the call rejects with the abort reason
      check(!r.out.ok, 'the run succeeded although it was aborted before its tools ran', r.out)
      const want = r.ac.signal.reason
      check(Object.is(r.out.error, want) || (want === undefined && r.out.error instanceof Error), 'rejected with another reason', r.out.error)
      same('tools run in the aborted step', r.timeline.filter((t: any) => t[0] === 'tool' && t[1] === k), [])
      same('requests', r.rec.calls.length, k + 1)
    }
    else if (r.abortAt === 'onStepFinish') check(r.rec.calls.length <= k + 2, 'the run went on after an abort', r.rec.calls.length)
    else {
      // no further request once the abort was seen
      same('requests', r.rec.calls.length, k + 1)
      if (r.abortAt === 'stopWhen') same('tools run in the aborted step', r.timeline.filter((t: any) => t[0] === 'tool' && t[1] === k), [])
      else check(r.out.ok, 'the run failed', r.out.error)
    }
  },
}
