import { expectRun, generateRun, sum } from './chatsim'
import { check, diff, fail, same } from './lib'

const matchStep = (got: any, s: any, what: string) => {
  same(`${what} text`, got.text, s.step.text); same(`${what} finish reason`, got.finishReason, s.step.finishReason); same(`${what} usage`, got.usage, s.step.usage)
  same(`${what} tool calls`, got.toolCalls, s.step.toolCalls)
  check(got.toolResults.length === s.results.length, `${what}: ${got.toolResults.length} tool results, expected ${s.results.length}`, got)
  s.results.forEach((x: any, j: number) => {
    const y = got.toolResults[j]
    same(`${what} result ${j} id`, y.toolCallId, x.call.id); same(`${what} result ${j} name`, y.toolName, x.call.function.name)
    check(Boolean(y.isError) === x.e.isError, `${what} result ${j}: isError`, y)
    if (!x.e.isError) same(`${what} result ${j}`, y.result, x.e.result); else check(String(y.result).includes(x.e.includes), `${what} result ${j} lacks the failure`, y)
  })
}
export const cases: any = {
  run: async (g: any) => {
    const r = await generateRun(g)
    check(r.out.ok, 'the run failed', r.out.error)
    const w = expectRun(r), v = r.out.value
    same('number of steps', v.steps.length, w.steps.length)
    w.steps.forEach((s: any, i: number) => matchStep(v.steps[i], s, `step ${i}`))
    const last = w.steps.at(-1)!
    same('total usage', v.totalUsage, sum(w.steps.map((s: any) => s.step.usage)))
    same('usage', v.usage, last.step.usage); same('text', v.text, last.step.text); same('finish reason', v.finishReason, last.step.finishReason)
    same('reasoning text', v.reasoningText, last.step.m.reasoning ?? last.step.m.reasoning_content)
    same('tool calls', v.toolCalls, v.steps.at(-1).toolCalls); same('tool results', v.toolResults, v.steps.at(-1).toolResults)
    if (r.hasOnStep) {
      same('step callbacks', r.onStep.length, w.steps.length)
      w.steps.forEach((s: any, i: number) => matchStep(r.onStep[i], s, `step callback ${i}`))
      // awaited: nothing happens between the start and the end of a callback
      r.timeline.forEach((t: any, i: number) => { if (t[0] === 'step') same('what follows a step callback', r.timeline[i + 1], ['step end', t[1]]) })
      same('order', r.timeline.filter((t: any) => t[0] === 'request' || t[0] === 'step').map((t: any) => t.join(' ')), w.steps.flatMap((_: any, i: number) => [`request ${i}`, `step ${i}`]))
    }
  },
}
