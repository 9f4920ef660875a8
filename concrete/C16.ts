import { sum } from './chatsim'
import { check, diff, fail, same } from './lib'
import { expectStream, matchStreamHistory, streamRun } from './streamsim'
import { CHAT_PARTS, encode } from './toolsim'

const enc = (x: any) => JSON.parse(JSON.stringify(encode(x, CHAT_PARTS)))
const matchStep = (got: any, s: any, what: string) => {
  same(`${what} text`, got.text, s.step.text); same(`${what} finish reason`, got.finishReason, s.step.finishReason); same(`${what} usage`, got.usage, s.step.usage); same(`${what} calls`, got.toolCalls, s.step.toolCalls)
  same(`${what} results`, got.toolResults.map((x: any) => x.toolCallId), s.results.map((x: any) => x.call.id))
  s.results.forEach((x: any, j: number) => { const y = got.toolResults[j]; check(Boolean(y.isError) === x.e.isError, `${what} result ${j}: isError`, y); if (!x.e.isError) same(`${what} result ${j}`, y.result, x.e.result) })
}
export const cases: any = {
  run: async (g: any) => {
    const r = await streamRun(g)
    check(r.steps.ok && r.messages.ok && r.usage.ok && r.total.ok, 'the run failed', r.steps.error)
    const w = expectStream(r)
    same('requests', r.rec.calls.length, w.steps.length)
    w.steps.forEach((s: any, i: number) => { if (!r.prep.of(i)?.input) matchStreamHistory(diff, enc, r.rec.calls[i].body.messages, s.before, r.field, `request ${i}`, fail) })
    matchStreamHistory(diff, enc, r.messages.value, w.history, r.field, 'messages', fail)
    same('steps', r.steps.value.length, w.steps.length)
    w.steps.forEach((s: any, i: number) => matchStep(r.steps.value[i], s, `step ${i}`))
    same('step callbacks', r.onStep.length, w.steps.length)
    w.steps.forEach((s: any, i: number) => matchStep(r.onStep[i], s, `step callback ${i}`))
    same('finish callbacks', r.onFinish.length, 1); matchStep(r.onFinish[0], w.steps.at(-1), 'finish callback')
    same('usage', r.usage.value, w.steps.at(-1)!.step.usage); same('total usage', r.total.value, sum(w.steps.map((s: any) => s.step.usage)))
    if (r.seen.length) {
      same('stop condition consultations', r.seen.length, w.steps.length)
      r.seen.forEach((c: any, i: number) => { matchStreamHistory(diff, enc, c.input, w.steps[i].afterMessage, r.field, `history given to the stop condition ${i}`, fail); same(`steps given to the stop condition ${i}`, c.steps.length, i + 1); same('tool calls told', c.step.toolCalls, w.steps[i].step.toolCalls) })
    }
    same('caller messages', r.opts.messages, r.given, 'strict')
  },
  abort: async (g: any) => {
    const r = await streamRun(g, { abort: true, prepare: 0, consume: false })
    const w = expectStream(r)
    if (!r.ac.signal.aborted) { check(r.steps.ok, 'the run failed', r.steps.error); same('requests', r.rec.calls.length, w.steps.length); return }
    const k = r.abortAt === 'before' ? 0 : r.abortAt === 'event' ? r.rec.calls.length - 1 : r.abortStep
    if (r.abortAt === 'event') { check(r.rec.calls.length <= w.steps.length, 'more requests than without the abort'); return }
    same('requests', r.rec.calls.length, k + 1)
    if (r.abortAt === 'before' || r.abortAt === 'fetch') {
      check(!r.steps.ok, 'the run succeeded although it was aborted before its tools ran')
      const want = r.ac.signal.reason
      for (const p of [r.steps, r.messages, r.usage, r.total]) check(!p.ok && (Object.is(p.error, want) || want == null), 'rejected with another reason', p)
      same('tools run in the aborted step', r.ran.filter((t: any) => t[0] === k), [])
    }
    else if (r.abortAt === 'stopWhen') same('tools run in the aborted step', r.ran.filter((t: any) => t[0] === k), [])
    else check(r.steps.ok, 'the run failed', r.steps.error)
  },
}
