import { EventSourceParserStream, JsonMessageTransformStream, parseJsonSSEMessage } from '@xsai/shared-stream'
import { bytes, byteStream, check, collect, same } from './lib'

/** messages as data payload texts, what they mean, and a wire form with random framing */
const payload = (g: any): { data: string, kind: 'value' | 'skip' | 'bad' | 'error', value?: any } => g.weighted([
  [8, () => { const v = g.weighted([[6, () => { const o = g.obj(2); delete o.error; return o }], [1, () => g.list(() => g.json(1), 0, 3)], [1, () => g.str()], [1, () => g.num()], [1, true], [1, false], [1, 0], [1, '']]); return { data: JSON.stringify(v), kind: 'value', value: v } }],
  [1, () => ({ data: '[DONE]', kind: 'skip' })], [1, () => ({ data: 'null', kind: 'skip' })], [1, () => ({ data: '', kind: 'skip' })],
  [0.7, () => ({ data: g.pick(['{', 'oops', '[DONE', '{"a":1', '[DONE] ', 'undefined', '{"error":', "{'a':1}", '[done]', 'DONE']), kind: 'bad' })],
  [0.7, () => { const v = { ...g.obj(1), error: g.weighted([[3, () => g.obj(1)], [1, null], [1, 'x'], [1, false]]) }; return { data: JSON.stringify(v), kind: 'error', value: v } }],
])
export const cases: any = {
  'stream': async (g: any) => {
    const msgs = g.list(() => payload(g), 0, 8)
    const nl = g.pick(['\n', '\r\n', '\n'])
    let wire = ''
    for (const m of msgs) {
      if (g.bool(0.15)) wire += `: comment${nl}`
      if (g.bool(0.1)) wire += `event: ${g.pick(['message', 'delta', 'error'])}${nl}`
      if (g.bool(0.1)) wire += `id: 7${nl}`
      wire += `data:${g.bool(0.85) || m.data.startsWith(' ') ? ' ' : ''}${m.data}${nl}${nl}`
    }
    g.note('messages', msgs); g.note('wire', wire)
    const want: any[] = []
    let failure: any
    for (const m of msgs) { if (m.kind === 'value') want.push(m.value); else if (m.kind !== 'skip') { failure = m; break } }
    const pieces = g.split(bytes(wire))
    g.note('pieces', pieces.map((p: any) => p.length))
    const s = byteStream(pieces).pipeThrough(new TextDecoderStream() as any).pipeThrough(new EventSourceParserStream() as any).pipeThrough(new JsonMessageTransformStream<any>())
    const r = await collect(s)
    if (!failure) { same('values', r.items, want, 'strict'); same('end', r.end, 'closed') }
    else {
      same('end', r.end, 'errored')
      same('values before the failure', r.items, want, 'strict')
      expectError(r.error, failure)
    }
  },
  'stream, message by message': async (g: any) => {
    const msgs = g.list(() => payload(g), 0, 8)
    g.note('messages', msgs)
    const ts = new JsonMessageTransformStream<any>()
    const w = ts.writable.getWriter(), out: any[] = []
    let end: any
    const reading = (async () => { const rd = ts.readable.getReader(); try { for (;;) { const x = await rd.read(); if (x.done) { end = { k: 'closed' }; return } out.push(x.value) } } catch (e) { end = { k: 'errored', e } } })()
    let failure: any
    const want: any[] = []
    for (const m of msgs) { if (m.kind === 'value') want.push(m.value); else if (m.kind !== 'skip') { failure = m; break } }
    for (const m of msgs) { try { await w.write({ data: m.data, event: undefined, id: undefined } as any); await new Promise(r => setImmediate(r)) } catch { break } }
    w.close().catch(() => {})
    w.closed.catch(() => {})
    await reading
    same('values', out, want, 'strict')
    same('end', end?.k, failure ? 'errored' : 'closed')
    if (failure) expectError(end.e, failure)
  },
  'parse': (g: any) => {
    const m = payload(g)
    g.note('message', m)
    let r: any, err: any
    try { r = parseJsonSSEMessage({ data: m.data } as any) } catch (e) { err = e }
    if (m.kind === 'value') { check(!err, 'threw', err); same('value', r, m.value, 'strict') }
    else if (m.kind === 'skip') { check(!err, 'threw', err); check(r == null, 'a skipped message gave a value', r) }
    else expectError(err, m)
  },
}
const expectError = (err: any, m: any) => {
  check(err instanceof Error, 'no error', err)
  if (m.kind === 'bad') { same('code', err.code, 'json_parse_error'); same('text', err.text, m.data) }
  else { same('code', err.code, 'remote_api_error'); same('payload', err.responseBody, m.data) }
}
