import { check, fail, same } from './lib'
import { expectStream, streamRun } from './streamsim'

export const cases: any = {
  run: async (g: any) => {
    const r = await streamRun(g)
    check(r.steps.ok, 'the run failed', r.steps.error)
    const w = expectStream(r), ev = r.onEvent
    const es = r.out.eventStream
    if (es.end === 'cancelled') same('event stream before cancel', es.items, ev.slice(0, es.items.length))
    else { same('event stream against the event callback', es.items, ev); same('end', es.end, 'closed') }
    // split into steps
    const groups: any[][] = []
    let open = false
    for (const e of ev) {
      if (e.type === 'step.start') { check(!open, 'a step starts inside a step', ev); open = true; groups.push([]) }
      check(open, `event ${e.type} outside a step`, ev)
      groups.at(-1)!.push(e)
      if (e.type === 'step.done') open = false
    }
    check(!open, 'a step has no step-done', ev)
    same('steps', groups.length, w.steps.length)
    w.steps.forEach((s: any, i: number) => {
      const es = groups[i], at = (t: string) => es.map((e: any, j: number) => e.type === t ? j : -1).filter((j: number) => j >= 0)
      for (const [ch, deltas] of [['text', s.st.textDeltas], ['reasoning', s.st.reasonDeltas]] as const) {
        same(`${ch} deltas of step ${i}`, at(`${ch}.delta`).map((j: number) => es[j].delta), deltas)
        same(`${ch} starts of step ${i}`, at(`${ch}.start`).length, deltas.length ? 1 : 0)
        same(`${ch} dones of step ${i}`, at(`${ch}.done`).length, deltas.length ? 1 : 0)
        if (deltas.length) {
          check(at(`${ch}.start`)[0] < at(`${ch}.delta`)[0] && at(`${ch}.delta`).at(-1)! < at(`${ch}.done`)[0], `${ch} section of step ${i} is out of order`, es)
          same(`${ch} content of step ${i}`, es[at(`${ch}.done`)[0]].content, deltas.join(''))
        }
      }
      // tool-call starts and deltas in arrival order
      same(`tool-call starts and deltas of step ${i}`, es.filter((e: any) => e.type === 'tool-call.start' || (e.type === 'tool-call.delta' && e.delta !== '')).map((e: any) => e.type === 'tool-call.start' ? { s: e.toolCallId, n: e.toolName } : { a: e.delta }), s.st.events.filter((e: any) => 's' in e || 'a' in e))
      const done = at('tool-call.done')
      same(`complete calls of step ${i}`, done.map((j: number) => ({ args: es[j].args, toolCallId: es[j].toolCallId, toolName: es[j].toolName, toolCallType: es[j].toolCallType })), s.step.toolCalls)
      if (done.length) check(Math.max(-1, ...at('tool-call.delta'), ...at('tool-call.start')) < done[0], `a call of step ${i} goes on after its done event`, es)
      const res = at('tool-result.done')
      same(`results of step ${i}`, res.map((j: number) => es[j].toolCallId), s.results.map((x: any) => x.call.id))
      s.results.forEach((x: any, k: number) => {
        const e = es[res[k]]
        check(Boolean(e.isError) === x.e.isError, `result event ${k} of step ${i}: isError`, e)
        if (!x.e.isError) same(`result event ${k} of step ${i}`, e.result, x.e.result)
        same(`result event name ${k} of step ${i}`, e.toolName, x.call.function.name)
      })
      if (res.length) check(res[0] > done.at(-1)!, `results of step ${i} precede the calls`, es)
      same(`last event of step ${i}`, es.at(-1).type, 'step.done'); same(`usage in step-done ${i}`, es.at(-1).usage, s.step.usage)
      const known = ['step.start', 'step.done', 'text.start', 'text.delta', 'text.done', 'reasoning.start', 'reasoning.delta', 'reasoning.done', 'tool-call.start', 'tool-call.delta', 'tool-call.done', 'tool-result.done']
      check(es.every((e: any) => known.includes(e.type)), 'an unknown event', es)
      same(`step-dones of step ${i}`, at('step.done').length, 1)
    })
  },
}
