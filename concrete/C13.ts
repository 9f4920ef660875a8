import { check, diff, fail, same } from './lib'
import { expectStream, matchAssistant, streamRun } from './streamsim'

export const cases: any = {
  run: async (g: any) => {
    const r = await streamRun(g)
    check(r.steps.ok, 'the run failed', r.steps.error)
    const w = expectStream(r)
    same('requests', r.rec.calls.length, w.steps.length)
    const cmp = (what: string, o: any, want: any[]) => o.end === 'cancelled' ? same(`${what} before cancel`, o.items, want.slice(0, o.items.length)) : (same(what, o.items, want), same(`${what} end`, o.end, 'closed'))
    cmp('full stream', r.out.fullStream, JSON.parse(JSON.stringify(w.steps.flatMap((s: any) => s.st.chunks))))
    cmp('text stream', r.out.textStream, w.steps.flatMap((s: any) => s.st.textDeltas))
    cmp('reasoning stream', r.out.reasoningTextStream, w.steps.flatMap((s: any) => s.st.reasonDeltas))
    w.steps.forEach((s: any, i: number) => same(`text of step ${i}`, r.steps.value[i].text, s.st.text))
    const asst = r.messages.value.slice(r.given.length).filter((m: any) => m.role === 'assistant')
    same('assistant messages', asst.length, w.steps.length)
    w.steps.forEach((s: any, i: number) => { const d = matchAssistant(asst[i], s.m, r.field); if (d) fail(`assistant message ${i}: ${d}`) })
  },
}
