import { streamObject, toElementStream, toPartialObjectStream } from '@xsai/stream-object'
import { parse } from 'best-effort-json-parser'
import { stdSchema } from './endpoints'
import { schemaJson, strictly } from './C22'
import { byteStream, bytes, check, clone, collect, fail, recorder, same, settle, sse, tick } from './lib'

const quiet = async <X>(f: () => Promise<X>) => { const e = console.error, w = console.warn; console.error = () => {}; console.warn = () => {}; try { return await f() } finally { console.error = e; console.warn = w } }
const from = (g: any, pieces: string[]) => { let i = 0; const pause = g.bool(0.3); return new ReadableStream<string>({ async pull(c) { if (pause) await tick(); if (i < pieces.length) c.enqueue(pieces[i++]); else c.close() } }) }
const text = (g: any, x: any) => g.pick([() => JSON.stringify(x), () => JSON.stringify(x, null, 2), () => JSON.stringify(x, null, '\t') + '\n', () => ' ' + JSON.stringify(x)])()
/** the readings a chunking allows: best-effort parses of the prefixes, without repetition */
const readings = (pieces: string[]) => {
  const out: any[] = []
  let t = '', last = '{}'
  for (const p of pieces) { t += p; let v; try { v = parse(t) } catch { continue } const s = JSON.stringify(v); if (s !== last) { last = s; out.push(JSON.parse(s ?? 'null')) } }
  return out
}
const element = (g: any) => g.weighted([[4, () => ({ a: g.json(2), ...(g.bool() ? { b: g.str() } : {}) })], [2, () => g.json(2)]])
export const cases: any = {
  elements: (g: any) => quiet(async () => {
    const list = g.list(() => element(g), 0, 6), t = text(g, { elements: list })
    const pieces = g.split(t, { empties: true })
    g.note('pieces', pieces)
    const r = await collect(toElementStream(from(g, pieces)), 'element stream')
    same('elements', r.items, list); same('end', r.end, 'closed'); check(r.items.every((x: any) => x !== undefined), 'undefined element')
  }),
  partial: (g: any) => quiet(async () => {
    const x = g.obj(3, 5), t = text(g, x), pieces = g.split(t, { empties: true })
    g.note('pieces', pieces)
    const r = await collect(toPartialObjectStream(from(g, pieces)), 'partial object stream')
    same('end', r.end, 'closed')
    same('snapshots', JSON.parse(JSON.stringify(r.items)), readings(pieces))
    for (let i = 1; i < r.items.length; i++) check(JSON.stringify(r.items[i]) !== JSON.stringify(r.items[i - 1]), 'two equal snapshots in a row')
    if (Object.keys(x).length) same('last snapshot', r.items.at(-1), x)
  }),
  run: (g: any) => quiet(async () => {
    const array = g.bool(), json = schemaJson(g), empty = g.bool(0.1)
    const x = array ? { elements: g.list(() => element(g), 0, 5) } : g.obj(3, 5), t = empty ? '' : text(g, x)
    const deltas = g.split(t, { empties: true }), strict = g.pick([undefined, true, false])
    const chunks = deltas.map((content: string) => ({ choices: [{ index: 0, delta: { content } }] }))
    if (g.bool(0.4)) chunks.splice(g.int(0, chunks.length), 0, { choices: [] } as any)
    const rec = recorder(() => new Response(byteStream(g.split(bytes(sse(g, chunks))), g.bool(0.3) ? { pause: tick } : {})))
    const extra: any = { ...(array ? { output: 'array' } : g.bool() ? { output: 'object' } : {}), ...(strict === undefined ? {} : { strict }), ...(g.bool(0.4) ? { schemaName: g.text() } : {}), ...(g.bool(0.4) ? { schemaDescription: g.str() } : {}) }
    g.note('deltas', deltas); g.note('options', extra); g.note('schema', json)
    const given = clone(json)
    const r: any = await streamObject({ baseURL: 'http://x/', model: 'm', messages: [], ...extra, schema: stdSchema(json), fetch: rec.fetch } as any)
    for (const p of [r.messages, r.usage, r.totalUsage]) p.catch(() => {})
    const [a, b, steps] = await Promise.all([collect<string>(r.textStream, 'text stream'), collect<any>(array ? r.elementStream : r.partialObjectStream, 'object stream'), settle(r.steps)])
    const rf = rec.calls[0].body.response_format
    const want = JSON.parse(JSON.stringify(strict === false ? given : strictly(given)))
    same('schema sent', array ? rf.json_schema.schema.properties.elements.items : rf.json_schema.schema, want)
    same('response format', [rf.type, rf.json_schema.name, rf.json_schema.description, rf.json_schema.strict], ['json_schema', extra.schemaName ?? 'json_schema', extra.schemaDescription, strict ?? true])
    for (const k of ['schema', 'schema_name', 'schema_description', 'strict', 'output']) check(!(k in rec.calls[0].body), `${k} is sent`)
    if (empty) { check(a.end === 'errored' && (a.error as any)?.code === 'invalid_response', 'an empty response does not fail the text stream', a); check(b.end === 'errored', 'an empty response does not fail the object stream', b); return }
    check(steps.ok, 'the run failed', (steps as any).error)
    same('text', a.items.join(''), t); same('text end', a.end, 'closed'); same('object stream end', b.end, 'closed')
    if (array) { same('elements', b.items, (x as any).elements); check(r.partialObjectStream === undefined, 'both streams given') }
    else {
      same('snapshots', JSON.parse(JSON.stringify(b.items)), readings(deltas))
      if (Object.keys(x).length) same('last snapshot', b.items.at(-1), x)
      check(r.elementStream === undefined, 'both streams given')
    }
  }),
}
