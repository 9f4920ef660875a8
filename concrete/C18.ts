import { responses } from '@xsai-ext/responses'
import { streamText } from '@xsai/stream-text'
import { expectRun, generateRun, matchHistory } from './chatsim'
import { check, diff, fail, recorder, same, settle, sseRes, clone } from './lib'

const strip = (s: any) => ({ finishReason: s.finishReason, text: s.text, toolCalls: s.toolCalls, usage: s.usage })
export const cases: any = {
  generateText: async (g: any) => {
    const r = await generateRun(g, { prepare: 1 })
    check(r.out.ok, 'the run failed', r.out.error)
    const w = expectRun(r)
    same('requests', r.rec.calls.length, w.steps.length)
    same('prepare hook runs', r.prep.seen.length, w.steps.length)
    w.steps.forEach((s: any, i: number) => {
      const c = r.prep.seen[i]
      same(`step number ${i}`, c.stepNumber, i); same(`model told in step ${i}`, c.model, 'base-model')
      matchHistory(diff, c.input, s.before, `history told in step ${i}`, fail)
      same(`steps told in step ${i}`, c.steps.map(strip), w.steps.slice(0, i).map((x: any) => strip(x.step)))
      const o = r.prep.of(i) ?? {}, b = r.rec.calls[i].body
      if (o.input) same(`messages sent in step ${i}`, b.messages, o.input); else matchHistory(diff, b.messages, s.before, `request ${i}`, fail)
      same(`model sent in step ${i}`, b.model, o.model ?? 'base-model')
      same(`tool choice sent in step ${i}`, b.tool_choice, o.toolChoice ?? r.opts.toolChoice)
    })
    matchHistory(diff, r.out.value.messages, w.history, 'returned messages', fail)
    same('returned steps', r.out.value.steps.map(strip), w.steps.map((s: any) => strip(s.step)))
    same('caller messages', r.opts.messages, r.given, 'strict')
    same('caller model', r.opts.model, 'base-model')
  },
  streaming: async (g: any) => {
    const which = g.pick(['streamText', 'responses']), n = g.int(1, 3)
    const plan = Array.from({ length: n + 1 }, () => ({ input: g.bool(0.4), model: g.bool(0.4), toolChoice: g.bool(0.4), nothing: g.bool(0.3), mutate: g.bool(0.5), late: g.bool(0.5) }))
    g.note('function', which); g.note('plan', plan)
    const seen: any[] = [], outs: any[] = []
    const prepareStep = (c: any) => {
      seen.push(clone({ input: c.input, steps: c.steps, model: c.model, stepNumber: c.stepNumber }))
      const p = plan[seen.length - 1]
      if (p.mutate) { c.input.length = 0; c.input.push({ role: 'user', content: 'MUTATED', type: 'message' }); for (const s of c.steps) { s.text = 'MUTATED'; s.toolCalls.length = 0 } }
      if (p.nothing) { outs.push({}); return g.pick([undefined, {}]) }
      const o: any = {}
      if (p.input) o.input = [{ role: 'user', content: 'override', type: 'message' }]
      if (p.model) o.model = 'other'
      if (p.toolChoice) o.toolChoice = 'required'
      outs.push(clone(o))
      if (p.late && o.input) setTimeout(() => { o.input[0].content = 'LATE' }, 0)
      return o
    }
    const item = (i: number) => ({ type: 'function_call', call_id: `c${i}`, id: `fc${i}`, name: 't', arguments: '{}', status: 'completed' })
    const tool = { type: 'function', function: { name: 't', parameters: {} }, execute: () => 'R' }
    const rec = recorder((_, i) => which === 'streamText'
      ? sseRes(g, [{ choices: [{ index: 0, delta: { content: `t${i}` } }] }, ...(i < n ? [{ choices: [{ index: 0, delta: { tool_calls: [{ index: 0, id: `c${i}`, type: 'function', function: { name: 't', arguments: '{}' } }] } }] }] : [])])
      : sseRes(g, [...(i < n ? [{ type: 'response.output_item.done', item: item(i) }] : []), { type: 'response.completed', response: { output: i < n ? [item(i)] : [], usage: null } }]))
    const base = { baseURL: 'http://x/', model: 'base', tools: [tool], toolChoice: 'auto', prepareStep, fetch: rec.fetch, stopWhen: () => false }
    let hist: any, steps: any
    if (which === 'streamText') {
      const r = streamText({ ...base, messages: [{ role: 'user', content: 'q' }] } as any)
      for (const p of [r.usage, r.totalUsage]) p.catch(() => {})
      hist = await settle(r.messages); steps = await settle(r.steps)
    }
    else {
      const r = responses({ ...base, input: 'q' } as any)
      for (const p of [r.usage, r.totalUsage]) p.catch(() => {})
      hist = await settle(r.input); steps = await settle(r.steps)
    }
    check(hist.ok && steps.ok, 'the run failed', [hist, steps])
    same('requests', rec.calls.length, n + 1); same('prepare hook runs', seen.length, n + 1); same('steps', steps.value.length, n + 1)
    const H: any[] = which === 'streamText' ? [{ role: 'user', content: 'q' }] : [{ type: 'message', role: 'user', content: 'q' }]
    const drop = (xs: any[]) => JSON.parse(JSON.stringify(xs)).map((x: any) => { if (x.type === 'function_call_output') delete x.id; return x })
    for (let i = 0; i <= n; i++) {
      same(`step number ${i}`, seen[i].stepNumber, i); same(`model told ${i}`, seen[i].model, 'base')
      same(`history told ${i}`, drop(seen[i].input), H)
      same(`steps told ${i}`, seen[i].steps.length, i)
      same(`steps told ${i}`, seen[i].steps.map(strip), steps.value.slice(0, i).map(strip))
      const b = rec.calls[i].body, o = outs[i]
      same(`request ${i}`, drop(b.messages ?? b.input), o.input ?? H)
      same(`model ${i}`, b.model, o.model ?? 'base'); same(`tool choice ${i}`, b.tool_choice, o.toolChoice ?? 'auto')
      if (which === 'streamText') { H.push({ role: 'assistant', content: `t${i}`, ...(i < n ? { tool_calls: [{ index: 0, id: `c${i}`, type: 'function', function: { name: 't', arguments: '{}' } }] } : {}) }); if (i < n) H.push({ role: 'tool', tool_call_id: `c${i}`, content: 'R' }) }
      else if (i < n) H.push(item(i), { type: 'function_call_output', call_id: `c${i}`, output: 'R', status: 'completed' })
    }
    same('final history', drop(hist.value), H)
  },
}
