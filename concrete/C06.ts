import { closeControllers, createControlledStream, errorControllers } from '@xsai/shared-stream'
import { responses } from '@xsai-ext/responses'
import { extractReasoningStream } from '@xsai/utils-reasoning'
import { streamText } from '@xsai/stream-text'
import { streamTranscription } from '@xsai/stream-transcription'
import { bytes, byteStream, check, collect, same, settle, sse, tick, ticks, within } from './lib'

export const cases: any = {
  'group of streams': async (g: any) => {
    const n = g.int(1, 5)
    const ss = Array.from({ length: n }, () => createControlledStream<number>())
    const state = ss.map(() => 'open'), items: number[][] = ss.map(() => []), reasons: any[] = []
    const closedP = ss.map(([s]) => s)
    const ops: any[] = []
    for (let i = g.int(0, 10); i > 0; i--) {
      const k = g.int(0, n - 1), op = g.pick(['enqueue', 'enqueue', 'cancel', 'close', 'error', 'closeAll', 'errorAll', 'closeSome'])
      const reason = g.pick([new Error('r' + i), undefined, null, 'why', { r: i }])
      ops.push([op, k])
      try {
        if (op === 'enqueue') { if (state[k] === 'open') { ss[k][1].current!.enqueue(i); items[k].push(i) } else ss[k][1].current?.enqueue(i) }
        else if (op === 'cancel') { if (!ss[k][0].locked) { await ss[k][0].cancel('bye').catch(() => {}); if (state[k] === 'open') state[k] = 'cancelled'; items[k] = [] } }
        else if (op === 'close') { closeControllers(ss[k][1]); if (state[k] === 'open') state[k] = 'closed' }
        else if (op === 'error') { errorControllers(reason, ss[k][1]); if (state[k] === 'open') { state[k] = 'errored'; reasons[k] = reason } }
        else {
          const set = op === 'closeSome' ? ss.map((_, j) => j).filter(() => g.bool()) : ss.map((_, j) => j)
          if (op === 'errorAll') { errorControllers(reason, ...set.map(j => ss[j][1])); for (const j of set) if (state[j] === 'open') { state[j] = 'errored'; reasons[j] = reason } }
          else { closeControllers(...set.map(j => ss[j][1])); for (const j of set) if (state[j] === 'open') state[j] = 'closed' }
        }
      }
      catch (e) { g.note('operations', ops); check(false, `${op} threw`, e) }
    }
    g.note('operations', ops)
    const open = state.map((s, i) => s === 'open' ? i : -1).filter(i => i >= 0)
    // streams still open: still usable; then end them
    for (const i of open) { check(ss[i][1].current !== undefined, `stream ${i} lost its controller`); ss[i][1].current!.enqueue(99); items[i].push(99) }
    closeControllers(...ss.map(s => s[1]))
    for (let i = 0; i < n; i++) {
      const r = await collect(closedP[i])
      if (state[i] === 'errored') { same(`end of ${i}`, r.end, 'errored'); check(Object.is(r.error, reasons[i]), 'reason changed', r.error) }
      else if (state[i] === 'cancelled') { same(`end of ${i}`, r.end, 'closed'); same('items after cancel', r.items, []) }
      else { same(`end of ${i}`, r.end, 'closed'); same(`items of ${i}`, r.items, items[i]) }
    }
  },
  'a cancelling consumer of streamText': async (g: any) => {
    const n = g.int(1, 8)
    const msgs = Array.from({ length: n }, (_, i) => ({ choices: [{ index: 0, delta: g.bool(0.3) ? { reasoning_content: `r${i}` } : { content: `t${i}` } }] }))
    const names = ['eventStream', 'fullStream', 'reasoningTextStream', 'textStream'] as const
    const when = Object.fromEntries(names.map(k => [k, g.bool(0.5) ? g.int(0, n) : -1]))
    g.note('messages', n); g.note('cancel after items', when)
    const run = async (cancel: boolean) => {
      const events: any[] = []
      const r = streamText({ baseURL: 'http://x/', model: 'm', messages: [{ role: 'user', content: 'x' }], onEvent: (e) => { events.push(e) }, fetch: async () => new Response(byteStream(g.split(bytes(sse(g, msgs))), { pause: tick })) })
      const out: any = {}
      await Promise.all(names.map(async (k) => {
        if (!cancel || when[k] < 0) { out[k] = await collect(r[k] as any, k); return }
        const rd = (r[k] as any).getReader(); const items: any[] = []
        for (let i = 0; i < when[k]; i++) { const x = await within(rd.read(), k) as any; if (x.done) break; items.push(x.value) }
        await rd.cancel('enough')
        out[k] = { items, end: 'cancelled' }
      }))
      const steps = await settle(r.steps), messages = await settle(r.messages), usage = await settle(r.usage)
      return { out, steps, messages, usage, events }
    }
    const a = await run(false), b = await run(true)
    check(b.steps.ok && b.messages.ok && b.usage.ok, 'cancelling a stream made the run fail', b)
    same('steps', b.steps, a.steps); same('messages', b.messages, a.messages); same('event callback', b.events, a.events)
    for (const k of names) {
      if (b.out[k].end === 'cancelled') same(`${k} before cancel`, b.out[k].items, a.out[k].items.slice(0, b.out[k].items.length))
      else { same(k, b.out[k].items, a.out[k].items); same(`${k} end`, b.out[k].end, 'closed') }
    }
  },
  'a cancelling consumer of Responses': async (g: any) => {
    const n = g.int(1, 6)
    const evs: any[] = [{ type: 'response.created', response: {} }, ...Array.from({ length: n }, (_, i) => g.bool(0.3) ? { type: 'response.reasoning.delta', delta: `r${i}` } : { type: 'response.output_text.delta', delta: `t${i}` }), { type: 'response.completed', response: { output: [], usage: null } }]
    const names = ['eventStream', 'fullStream', 'reasoningTextStream', 'textStream'] as const
    const when = Object.fromEntries(names.map(k => [k, g.bool(0.5) ? g.int(0, n) : -1]))
    g.note('events', evs); g.note('cancel after items', when)
    const run = async (cancel: boolean) => {
      const events: any[] = []
      const r = responses({ baseURL: 'http://x/', model: 'm', input: 'x', onEvent: (e: any) => { events.push(e) }, fetch: async () => new Response(byteStream(g.split(bytes(sse(g, evs))), { pause: tick })) } as any)
      const out: any = {}
      await Promise.all(names.map(async (k) => {
        if (!cancel || when[k] < 0) { out[k] = await collect(r[k] as any, k); return }
        const rd = (r[k] as any).getReader(); const items: any[] = []
        for (let i = 0; i < when[k]; i++) { const x = await within(rd.read(), k) as any; if (x.done) break; items.push(x.value) }
        await rd.cancel('enough')
        out[k] = { items, end: 'cancelled' }
      }))
      return { out, steps: await settle(r.steps), input: await settle(r.input), usage: await settle(r.usage), total: await settle(r.totalUsage), events }
    }
    const a = await run(false), b = await run(true)
    check(b.steps.ok && b.input.ok && b.usage.ok && b.total.ok, 'cancelling a stream made the run fail', b)
    same('steps', b.steps, a.steps); same('event callback', b.events, a.events)
    for (const k of names) {
      if (b.out[k].end === 'cancelled') same(`${k} before cancel`, b.out[k].items, a.out[k].items.slice(0, b.out[k].items.length))
      else { same(k, b.out[k].items, a.out[k].items); same(`${k} end`, b.out[k].end, 'closed') }
    }
  },
  'a cancelling consumer of streamTranscription': async (g: any) => {
    const n = g.int(1, 6), which = g.pick(['fullStream', 'textStream', 'both']), after = g.int(0, n), failing = g.bool(0.3)
    const evs = Array.from({ length: n }, (_, i) => ({ type: 'transcript.text.delta', delta: `t${i}` }))
    g.note('n', n); g.note('cancelled', which); g.note('after', after); g.note('failing', failing)
    const boom = new Error('boom')
    const r = streamTranscription({ baseURL: 'http://x/', model: 'm', file: new Blob(['x']), fetch: async () => new Response(byteStream(g.split(bytes(sse(g, evs))), { pause: tick, ...(failing ? { error: { reason: boom } } : {}) })) } as any)
    const out: any = {}
    await Promise.all((['fullStream', 'textStream'] as const).map(async (k) => {
      if (which !== k && which !== 'both') { out[k] = await collect(r[k] as any, k); return }
      const rd = (r[k] as any).getReader()
      for (let i = 0; i < after; i++) { let x: any; try { x = await within(rd.read(), k) } catch { break } if (x.done) break }
      await rd.cancel().catch(() => {})
    }))
    const t = await settle(r.text, 'text')
    if (failing) { check(!t.ok && (t as any).error === boom, 'the text promise hides the failure', t); for (const k of Object.keys(out)) check(out[k].end === 'errored' && out[k].error === boom, `${k} hides the failure`, out[k]) }
    else { same('text', t, { ok: true, value: evs.map(e => e.delta).join('') }); for (const k of Object.keys(out)) same(k, out[k].items.map((x: any) => x.delta ?? x), evs.map(e => e.delta)) }
    await ticks(3)
  },
  'a cancelling consumer of extractReasoningStream': async (g: any) => {
    const parts = g.list(() => g.pick(['a', 'b<think>', '</think>', '<think>r</think>', '<', 'xy']), 1, 8), which = g.pick(['reasoningStream', 'textStream', 'both']), after = g.int(0, 3), failing = g.bool(0.3)
    g.note('pieces', parts); g.note('cancelled', which); g.note('after', after); g.note('failing', failing)
    const boom = new Error('boom')
    const run = async (cancel: boolean) => {
      let i = 0
      const src = new ReadableStream<string>({ async pull(c) { await tick(); if (i < parts.length) c.enqueue(parts[i++]); else if (failing) c.error(boom); else c.close() } })
      const r: any = extractReasoningStream(src)
      const out: any = {}
      await Promise.all((['reasoningStream', 'textStream'] as const).map(async (k) => {
        if (!cancel || (which !== k && which !== 'both')) { out[k] = await collect(r[k], k); return }
        const rd = r[k].getReader()
        if (after > 0) for (let j = 0; j < after; j++) { let x: any; try { x = await Promise.race([rd.read(), ticks(6)]) } catch { break } if (!x || x.done) break }
        await rd.cancel().catch(() => {})
      }))
      return out
    }
    const a = await run(false), b = await run(true)
    for (const k of Object.keys(b)) { same(k, b[k].items, a[k].items); same(`${k} end`, b[k].end, a[k].end); if (failing) check(b[k].error === boom, `${k} fails with another reason`, b[k].error) }
  },
}
