import { check, fail, same } from './lib'
import { expectStream, matchAssistant, streamRun } from './streamsim'

export const cases: any = {
  run: async (g: any) => {
    const r = await streamRun(g, { consume: false })
    check(r.steps.ok, 'the run failed', r.steps.error)
    const w = expectStream(r)
    w.steps.forEach((s: any, i: number) => {
      same(`tool calls of step ${i}`, r.steps.value[i]?.toolCalls, s.step.toolCalls)
      if (w.steps[i + 1] && !r.prep.of(i + 1)?.input) {
        const sent = r.rec.calls[i + 1].body.messages
        const d = matchAssistant(sent[sent.length - 1 - s.calls.length], s.m, r.field)
        if (d) fail(`message sent back after step ${i}: ${d}`)
      }
    })
    const done = r.out.eventStream.items.filter((e: any) => e.type === 'tool-call.done')
    same('complete calls in the event stream', done.map((e: any) => ({ args: e.args, toolCallId: e.toolCallId, toolCallType: e.toolCallType, toolName: e.toolName })), w.steps.flatMap((s: any) => s.step.toolCalls))
    same('tools executed', r.ran.filter((_: any, i: number) => true).length <= w.steps.reduce((n: number, s: any) => n + s.calls.length, 0), true)
  },
}
