import { T } from 'verif'
import { InvalidResponseError } from '@xsai/shared'
import { streamObject, toElementStream, toPartialObjectStream } from '@xsai/stream-object'
import { streamText } from '@xsai/stream-text'
import { parse } from 'best-effort-json-parser'
import { run } from './lib'

/** the text in any chunks; g.text and g.ended follow it */
const feed = (v, g) => {
  const chunks = v.any('chunks', T.arr(T.str))
  v.prefix(chunks)
  return v.source(chunks).pipeThrough(new TransformStream({ transform: (c, k) => { g.text += c; g.tap?.(c); k.enqueue(c) }, flush: () => { g.ended = true } }))
}
/**
 * A text that ends as {"elements": final}. What the best-effort parser is assumed to give for a part of it: it throws, gives something
 * without elements, or gives the elements so far, of which only the last may be incomplete; for the whole text it gives the final ones.
 */
const arrayText = (v, g) => {
  const final = v.any('final', T.arr(T.json))
  v.prefix(final)
  const kind = v.fn('kind', { returns: T.oneOf('throws', 'nothing', 'no elements', 'elements') })
  const nothing = v.fn('nothing', { returns: T.or(T.undef, T.null, T.str, T.int, T.arr(T.json)) })
  const other = v.fn('other', { returns: T.or(T.undef, T.null, T.str, T.obj({ x: T.json })) })
  const count = v.fn('count', { returns: T.nat }), partial = v.fn('partial', { returns: T.json })
  v.contract(parse, (text) => {
    v.eq('the text so far is parsed', text, g.text)
    if (g.ended) return { elements: final }
    const k = kind(text)
    if (k === 'throws') throw new Error('unexpected end')
    if (k === 'nothing') return nothing(text)
    if (k === 'no elements') return { elements: other(text) }
    const n = count(text)
    v.assume(n <= final.length)
    return { elements: n === 0 ? [] : [...final.slice(0, n - 1), partial(text)] }
  })
  return final
}
export const C23_elements = async (v) => {
  if (!v.isSymbolic()) v.stop() // the parser is replaced by its contract; the oracle runs the real one
  const g = { text: '', ended: false, tap: undefined }
  const final = arrayText(v, g)
  const r = await v.collect(toElementStream(feed(v, g)))
  v.eq('every element once, in order, complete', r.chunks, final)
  v.ensure('and then the end', r.state === 'closed')
}
/** what the parser gives for a text is any value, or it throws */
const reading = (v, g) => {
  const fails = v.fn('fails', { returns: T.bool }), value = v.fn('value', { returns: T.or(T.json, T.undef) })
  v.contract(parse, (text) => {
    v.eq('the text so far is parsed', text, g.text)
    if (fails(text)) throw new Error('unexpected end')
    return value(text)
  })
  g.tap = () => {
    if (fails(g.text)) return
    const x = value(g.text)
    if (JSON.stringify(x) !== JSON.stringify(g.last)) { g.last = x; g.out = [...g.out, x] }
    g.current = JSON.stringify(g.last) === JSON.stringify(x)
  }
}
export const C23_partial = async (v) => {
  if (!v.isSymbolic()) v.stop()
  const g = { text: '', ended: false, tap: undefined, out: [], last: {}, current: true }
  reading(v, g)
  const r = await v.collect(toPartialObjectStream(feed(v, g)))
  v.eq('the distinct readings, in order', r.chunks, g.out)
  v.ensure('the last of them is what the text says as far as it can be read', g.current)
  v.ensure('and then the end', r.state === 'closed')
}
/** streamText gives any text (its own behaviour is C13) and the rest of its result */
const whole = async (v, output) => {
  if (!v.isSymbolic()) v.stop()
  const g = { text: '', ended: false, tap: undefined, out: [], last: {}, current: true, length: 0, asked: 0 }
  const final = output === 'array' ? arrayText(v, g) : reading(v, g)
  const read = g.tap
  g.tap = (c) => { g.length += c.length; read?.() }
  const rest = { fullStream: v.any('fullStream', T.opaque), reasoningTextStream: v.any('thoughts', T.opaque), messages: v.any('messages', T.opaque), steps: v.any('steps', T.opaque), totalUsage: v.any('total', T.opaque), usage: v.any('usage', T.opaque) }
  const textStream = feed(v, g), chunks = v.any('chunks', T.arr(T.str))
  v.contract(streamText, () => { g.asked++; return { textStream, ...rest } })
  const json = v.any('schema', T.open({ type: T.opt(T.json), properties: T.opt(T.rec(T.bool)) }))
  const schema = { '~standard': { version: 1, vendor: 'arktype', validate: value => ({ value }), jsonSchema: { input: () => json, output: () => json } } }
  const { textStream: text, elementStream, partialObjectStream, ...others } = await streamObject({ baseURL: 'http://host.test/', model: 'm', messages: [], output, schema })
  v.ensure('one run', g.asked === 1)
  v.ensure('the rest of its result', Object.keys(others).length === 6 && Object.keys(rest).every(k => others[k] === rest[k]))
  v.ensure('one of the two streams', output === 'array' ? partialObjectStream === undefined : elementStream === undefined)
  const objects = output === 'array' ? elementStream : partialObjectStream
  const [a, b] = [v.collect(text), v.collect(objects)]
  if (g.length === 0) {
    v.ensure('an empty text is an error', a.state === 'errored' && a.error instanceof InvalidResponseError && a.error.reason === 'empty_body')
    v.ensure('of both streams', b.state === 'errored')
    return
  }
  v.eq('the text stream yields the whole text', a.chunks, chunks)
  v.ensure('both streams end', a.state === 'closed' && b.state === 'closed')
  v.eq('the objects', b.chunks, output === 'array' ? final : g.out)
}
export const C23_runElements = v => whole(v, 'array')
export const C23_runPartial = v => whole(v, undefined)
