import { responses } from '@xsai-ext/responses'
import { streamSpeech } from '@xsai/stream-speech'
import { streamText } from '@xsai/stream-text'
import { streamTranscription } from '@xsai/stream-transcription'
import './endpoints'
import { byteStream, bytes, check, collect, fail, jsonRes, recorder, same, settle, sse, tick, ticks, within } from './lib'

const REASONS = (g: any) => g.pick([new Error('boom'), null, undefined, 'why', 0, false, { code: 1 }, new DOMException('x', 'AbortError')])
/** where it goes wrong: returns the response of request n, possibly failing */
const serve = (g: any, kind: string, msgs: (n: number) => unknown[], reason: any, failAt: number) => async (_: any, n: number) => {
  const list = msgs(n)
  if (n !== failAt || !['fetch', 'status', 'malformed', 'errorpayload', 'break', 'nobody'].includes(kind)) return new Response(byteStream(g.split(bytes(sse(g, list))), g.bool(0.4) ? { pause: tick } : {}))
  if (kind === 'fetch') throw reason
  if (kind === 'status') return new Response('no', { status: 500 })
  if (kind === 'nobody') return new Response(null)
  const cut = g.int(0, list.length)
  if (kind === 'break') return new Response(byteStream(g.split(bytes(sse(g, list.slice(0, cut), false))), { error: { reason }, ...(g.bool(0.5) ? { pause: tick } : {}) }))
  const bad = kind === 'malformed' ? '{oops' : '{"error":{"message":"srv"}}'
  return new Response(byteStream(g.split(bytes(sse(g, [...list.slice(0, cut), bad, ...list.slice(cut)])))))
}
const expected = (kind: string, reason: any, ac: AbortController) => {
  switch (kind) {
    case 'status': return (e: any) => e?.code === 'api_call_error' && e.statusCode === 500
    case 'nobody': return (e: any) => e?.code === 'invalid_response'
    case 'malformed': return (e: any) => e?.code === 'json_parse_error' && e.text === '{oops'
    case 'errorpayload': return (e: any) => e?.code === 'remote_api_error'
    case 'mismatch': return (e: any) => e?.code === 'invalid_tool_call'
    case 'abort': return (e: any) => Object.is(e, ac.signal.reason)
    default: return (e: any) => Object.is(e, reason)
  }
}
const verdict = async (g: any, kind: string, r: any, streams: string[], promises: string[], ok: (e: any) => boolean, what: string, bound: Map<string, string>) => {
  const ps: any = {}
  const settledAll = Promise.all(promises.map(async (p) => { ps[p] = await settle(r[p], `${what}.${p}`) }))
  const ss: any = {}
  await Promise.all(streams.map(async (s) => { ss[s] = bound.has(s) ? undefined : await collect(r[s], `${what}.${s}`) }))
  await settledAll
  if (kind === 'none') {
    for (const s of streams) if (ss[s]) same(`${what}.${s}`, ss[s].end, 'closed')
    for (const p of promises) check(ps[p].ok, `${what}.${p} rejected`, ps[p].error)
    return
  }
  const errs: any[] = []
  for (const s of streams) if (ss[s]) { check(ss[s].end === 'errored', `${what}.${s} closed although the run failed (${kind})`, ss[s]); check(ok(ss[s].error), `${what}.${s} errored with another failure (${kind})`, ss[s].error); errs.push(ss[s].error) }
  for (const p of promises) { check(!ps[p].ok, `${what}.${p} resolved although the run failed (${kind})`, ps[p]); check(ok(ps[p].error), `${what}.${p} rejected with another failure (${kind})`, ps[p].error); errs.push(ps[p].error) }
  for (const e of errs) check(Object.is(e, errs[0]), `${what}: streams and promises report different failures`, errs)
}
const KINDS = ['none', 'fetch', 'status', 'nobody', 'malformed', 'errorpayload', 'break', 'prepareStep', 'stopWhen', 'onEvent', 'onStepFinish', 'onFinish', 'mismatch', 'abort', 'prepareAsync', 'onFinishAsync']

const hooked = (g: any, kind: string, reason: any, ac: AbortController, failAt: number, finish: any[]) => {
  let events = 0, preps = 0, steps = 0, stops = 0
  const evAt = g.int(0, 6)
  return {
    onEvent: () => { if (kind === 'onEvent' && events++ === evAt) throw reason },
    prepareStep: () => { if (kind === 'prepareStep' && preps++ === failAt) throw reason; if (kind === 'prepareAsync' && preps++ === failAt) return (async () => { await tick(); throw reason })(); return undefined },
    onStepFinish: () => { if (kind === 'onStepFinish' && steps++ === failAt) throw reason },
    stopWhen: () => { if (kind === 'stopWhen' && stops++ === failAt) throw reason; return false },
    onFinish: (s: any) => { finish.push(s); if (kind === 'onFinish') throw reason; if (kind === 'onFinishAsync') return (async () => { await tick(); throw reason })() },
    preToolCall: (c: any) => kind === 'mismatch' ? { ...c, toolCallId: 'other' } : undefined,
    abortSignal: ac.signal,
  }
}
const tool = { type: 'function', function: { name: 't', parameters: {} }, execute: () => 'R' }

export const cases: any = {
  streamText: async (g: any) => {
    const kind = g.pick(KINDS), reason = REASONS(g), n = g.int(1, 2), failAt = ['mismatch'].includes(kind) ? 0 : g.int(0, n), finish: any[] = [], ac = new AbortController()
    g.note('failure', kind); g.note('reason', reason); g.note('in request', failAt)
    const msgs = (i: number) => [{ choices: [{ index: 0, delta: { reasoning: 'r' } }] }, { choices: [{ index: 0, delta: { content: 'a' } }] }, { choices: [{ index: 0, delta: { content: 'b' } }] }, ...(i < n ? [{ choices: [{ index: 0, delta: { tool_calls: [{ index: 0, id: `c${i}`, type: 'function', function: { name: 't', arguments: '{}' } }] } }] }] : []), { choices: [], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }]
    const respond = serve(g, kind, msgs, reason, failAt)
    const rec = recorder(async (c, i) => { if (kind === 'abort' && i === failAt) ac.abort(REASONS(g)); return respond(c, i) })
    const r = streamText({ baseURL: 'http://x/', model: 'm', messages: [], tools: [tool], fetch: rec.fetch, ...hooked(g, kind, reason, ac, failAt, finish) } as any)
    const cancelled = new Map<string, string>()
    for (const s of ['eventStream', 'fullStream', 'textStream', 'reasoningTextStream']) if (g.bool(0.12)) { await (r as any)[s].cancel('x'); cancelled.set(s, 'x') }
    const ok = kind === 'abort' ? (e: any) => Object.is(e, ac.signal.reason) || (ac.signal.reason == null && e instanceof Error) : expected(kind, reason, ac)
    await verdict(g, kind, r, ['eventStream', 'fullStream', 'textStream', 'reasoningTextStream'], ['steps', 'messages', 'usage', 'totalUsage'], ok, 'streamText', cancelled)
    same('finish callback runs', finish.length, 1)
  },
  responses: async (g: any) => {
    const kind = g.pick(KINDS), reason = REASONS(g), n = g.int(1, 2), failAt = ['mismatch'].includes(kind) ? 0 : g.int(0, n), finish: any[] = [], ac = new AbortController()
    g.note('failure', kind); g.note('reason', reason); g.note('in request', failAt)
    const item = (i: number) => ({ type: 'function_call', call_id: `c${i}`, id: `f${i}`, name: 't', arguments: '{}', status: 'completed' })
    const msgs = (i: number) => [{ type: 'response.created', response: {} }, { type: 'response.reasoning.delta', delta: 'r' }, { type: 'response.output_text.delta', delta: 'a' }, { type: 'response.output_text.delta', delta: 'b' }, { type: 'response.output_text.done', text: 'ab' }, { type: 'response.in_progress' }, ...(i < n ? [{ type: 'response.output_item.done', item: item(i) }] : []), { type: 'response.completed', response: { output: i < n ? [item(i)] : [], usage: { input_tokens: 1, output_tokens: 1, total_tokens: 2 } } }]
    // after response.completed of a step that goes on, the rest of that stream is not read: break earlier than that
    const respond = serve(g, kind, i => msgs(i), reason, failAt)
    const rec = recorder(async (c, i) => {
      if (kind === 'abort' && i === failAt) ac.abort(REASONS(g))
      if (['malformed', 'errorpayload', 'break'].includes(kind) && i === failAt) {
        const list = msgs(i), cut = g.int(0, list.length - 1), bad = kind === 'malformed' ? '{oops' : '{"error":{"message":"srv"}}'
        if (kind === 'break') return new Response(byteStream(g.split(bytes(sse(g, list.slice(0, cut), false))), { error: { reason }, ...(g.bool(0.5) ? { pause: tick } : {}) }))
        return new Response(byteStream(g.split(bytes(sse(g, [...list.slice(0, cut), bad, ...list.slice(cut)])))))
      }
      return respond(c, i)
    })
    const r = responses({ baseURL: 'http://x/', model: 'm', input: 'q', tools: [tool], fetch: rec.fetch, ...hooked(g, kind, reason, ac, failAt, finish) } as any)
    const cancelled = new Map<string, string>()
    for (const s of ['eventStream', 'fullStream', 'textStream', 'reasoningTextStream']) if (g.bool(0.12)) { await (r as any)[s].cancel('x'); cancelled.set(s, 'x') }
    const ok = kind === 'abort' ? (e: any) => Object.is(e, ac.signal.reason) || (ac.signal.reason == null && e instanceof Error) : expected(kind, reason, ac)
    await verdict(g, kind, r, ['eventStream', 'fullStream', 'textStream', 'reasoningTextStream'], ['steps', 'input', 'usage', 'totalUsage'], ok, 'responses', cancelled)
    same('finish callback runs', finish.length, 1)
  },
  streamTranscription: async (g: any) => {
    const kind = g.pick(['none', 'fetch', 'status', 'nobody', 'malformed', 'errorpayload', 'break']), reason = REASONS(g)
    g.note('failure', kind); g.note('reason', reason)
    const rec = recorder(serve(g, kind, () => [{ type: 'transcript.text.delta', delta: 'a' }, { type: 'transcript.text.delta', delta: 'b' }, { type: 'transcript.text.done', text: 'ab' }], reason, 0))
    const r = streamTranscription({ baseURL: 'http://x/', model: 'm', file: new Blob(['x']), fetch: rec.fetch } as any)
    await verdict(g, kind, r, ['fullStream', 'textStream'], ['text'], expected(kind, reason, new AbortController()), 'streamTranscription', new Map())
  },
  streamSpeech: async (g: any) => {
    const kind = g.pick(['none', 'fetch', 'status', 'nobody', 'malformed', 'errorpayload', 'break', 'base64', 'cancel']), reason = REASONS(g)
    g.note('failure', kind); g.note('reason', reason)
    const list = [{ type: 'speech.audio.delta', audio: 'AQID' }, { type: 'speech.audio.delta', audio: kind === 'base64' ? '*' : 'BAUG' }, ...(g.bool() && kind !== 'base64' ? [{ type: 'speech.audio.delta', audio: 'AA==' }] : [])]
    const done = kind === 'none' && g.bool() ? [{ type: 'speech.audio.done', usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3 } }] : []
    const rec = recorder(serve(g, kind, () => [...list, ...done], reason, 0))
    const o: any = await settle(() => streamSpeech({ baseURL: 'http://x/', model: 'm', input: 'x', voice: 'v', fetch: rec.fetch } as any), 'streamSpeech')
    if (['fetch', 'status', 'nobody'].includes(kind)) { check(!o.ok && expected(kind, reason, new AbortController())(o.error), 'streamSpeech hides the failure', o); return }
    check(o.ok, 'streamSpeech failed', o.error)
    if (kind === 'cancel') {
      const rd = o.value.fullStream.getReader(); await within(rd.read(), 'a read'); await rd.cancel('enough')
      await settle(o.value.usage, 'usage after a cancel')
      return
    }
    await verdict(g, kind, o.value, ['fullStream'], ['usage'], kind === 'base64' ? (e: any) => e instanceof Error : expected(kind, reason, new AbortController()), 'streamSpeech', new Map())
  },
}
