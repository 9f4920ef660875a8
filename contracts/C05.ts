import { T } from 'verif'
import { JSONParseError, RemoteAPIError } from '@xsai/shared'
import { JsonMessageTransformStream, parseJsonSSEMessage } from '@xsai/shared-stream'

const message = T.obj({ data: T.opt(T.sse), event: T.opt(T.str), id: T.opt(T.str) })
/** what a message stands for: skip, a value, or the failure that ends the stream */
const meaning = (data, marker = '[DONE]') => {
  if (data === undefined || data === '' || data === marker) return { kind: 'skip' }
  let value
  try { value = JSON.parse(data) }
  catch { return { kind: 'unparsable' } }
  if (typeof value === 'object' && value !== null && 'error' in value) return { kind: 'remote' }
  return value === null ? { kind: 'skip' } : { kind: 'value', value }
}

export const C05_message = (v) => {
  const m = v.any('message', message)
  const marker = v.any('marker', T.opt(T.text))
  const w = meaning(m.data, marker)
  let r, failed = false
  try { r = parseJsonSSEMessage(m, { doneMarker: marker }) }
  catch (e) { failed = true; r = e }
  if (w.kind === 'skip') v.ensure('nothing for a skipped message', !failed && (r === undefined || r === null))
  if (w.kind === 'value') { v.ensure('no failure for a value', !failed); v.eq('the value', r, w.value) }
  if (w.kind === 'unparsable') { v.ensure('a parse error', failed && r instanceof JSONParseError); v.eq('with the text', r.text, m.data) }
  if (w.kind === 'remote') { v.ensure('a remote error', failed && r instanceof RemoteAPIError); v.eq('with the payload', r.responseBody, m.data) }
}
export const C05_stream = async (v) => {
  const messages = v.any('messages', T.arr(message))
  const broken = v.any('broken', T.bool), reason = v.any('reason', T.any)
  const source = v.source(messages, broken ? { error: reason } : undefined)
  const got = await v.collect(source.pipeThrough(new JsonMessageTransformStream()))
  const expected = []
  let end = { kind: 'skip' }
  for (const m of messages) {
    const w = meaning(m.data)
    if (w.kind === 'unparsable' || w.kind === 'remote') { end = { ...w, data: m.data }; break }
    if (w.kind === 'value') expected.push(w.value)
  }
  v.eq('exactly the values before the end', got.chunks, expected)
  if (!broken || end.kind !== 'skip') v.eq('how it ends', got.state, end.kind === 'skip' ? 'closed' : 'errored')
  if (broken && end.kind === 'skip') v.ensure('a broken transport errors the stream with its reason', got.state === 'errored' && got.error === reason)
  if (end.kind === 'unparsable') { v.ensure('ends with a parse error', got.error instanceof JSONParseError); v.eq('carrying the text', got.error.text, end.data) }
  if (end.kind === 'remote') { v.ensure('ends with a remote error', got.error instanceof RemoteAPIError); v.eq('carrying the payload', got.error.responseBody, end.data) }
}
