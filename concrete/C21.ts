import { check, diff, fail, same } from './lib'
import { sum } from './chatsim'
import { expectResp, respRun } from './respsim'

const matchStep = (got: any, s: any, what: string) => {
  same(`${what} text`, got.text, s.step.text); same(`${what} finish reason`, got.finishReason, s.step.finishReason); same(`${what} usage`, got.usage, s.step.usage); same(`${what} calls`, got.toolCalls, s.step.toolCalls)
  same(`${what} results`, got.toolResults.map((x: any) => x.toolCallId), s.results.map((x: any) => x.call.call_id))
}
export const cases: any = {
  run: async (g: any) => {
    const r = await respRun(g)
    check(r.steps.ok && r.usage.ok && r.total.ok, 'the run failed', r.steps.error)
    const w = expectResp(r)
    const cmp = (what: string, o: any, want: any[]) => o.end === 'cancelled' ? same(`${what} before cancel`, o.items, want.slice(0, o.items.length)) : (same(what, o.items, want), same(`${what} end`, o.end, 'closed'))
    cmp('full stream', r.out.fullStream, JSON.parse(JSON.stringify(w.steps.flatMap((s: any) => s.st.evs))))
    cmp('text stream', r.out.textStream, w.steps.flatMap((s: any) => s.st.text))
    cmp('reasoning stream', r.out.reasoningTextStream, w.steps.flatMap((s: any) => s.st.reason))
    const want: any[] = []
    for (const s of w.steps) {
      want.push(...s.st.mapped)
      for (const x of s.results) want.push({ type: 'tool-result.done', toolCallId: x.call.call_id, toolName: x.call.name, x })
      want.push({ type: 'step.done', usage: s.st.usage })
    }
    same('number of events', r.onEvent.length, want.length)
    want.forEach((e, i) => {
      const got = r.onEvent[i]
      if (e.x) { same(`event ${i}`, { type: got.type, toolCallId: got.toolCallId, toolName: got.toolName, isError: Boolean(got.isError) }, { type: e.type, toolCallId: e.toolCallId, toolName: e.toolName, isError: e.x.e.isError }); if (!e.x.e.isError) same(`event ${i} result`, got.result, e.x.e.result) }
      else same(`event ${i}`, got, e)
    })
    cmp('event stream', r.out.eventStream, r.onEvent)
    same('steps', r.steps.value.length, w.steps.length)
    w.steps.forEach((s: any, i: number) => { matchStep(r.steps.value[i], s, `step ${i}`); matchStep(r.onStep[i], s, `step callback ${i}`) })
    same('step callbacks', r.onStep.length, w.steps.length); same('finish callbacks', r.onFinish.length, 1); matchStep(r.onFinish[0], w.steps.at(-1), 'finish callback')
    same('usage', r.usage.value, w.steps.at(-1)!.step.usage); same('total usage', r.total.value, sum(w.steps.map((s: any) => s.step.usage)))
  },
}
