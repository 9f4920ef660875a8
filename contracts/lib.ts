// Shared pieces of the contracts: a recording transport and typed descriptions of the inputs.
import { T } from 'verif'

/** records every request and answers with reply(i) */
export const recorder = (reply) => {
  const sent = []
  const fetch = async (url, init, ...rest) => {
    sent.push({ url: String(url), init, extra: rest.length })
    return reply(sent.length - 1)
  }
  return { sent, fetch }
}
/** a settled view of f() whether it throws, returns or is asynchronous */
export const run = async (v, f) => {
  let p
  try { p = f() }
  catch (e) { return { state: 'rejected', value: e } }
  return v.settled(p)
}
export const plainURL = s => !/[?#]/.test(s)
/** common request options */
export const common = v => ({
  apiKey: v.any('apiKey', T.opt(T.str)),
  baseURL: base(v),
  headers: v.any('headers', T.opt(T.rec(T.opt(T.str)))),
  abortSignal: v.any('abortSignal', T.opt(T.opaque)),
})
export const base = v => 'http://host.test/' + v.any('basePath', T.oneOf('', 'v1', 'v1/', 'a/b', 'a/b/'))
/** one of a few values, decided on this path */
export const pick = (v, name, ...values) => {
  const x = v.any(name, T.oneOf(...values))
  for (const y of values) if (x === y) return y
  v.stop()
}
/** a streaming answer: the chunks as server-sent JSON messages; tap sees each one when the library asks for it; last: the data of one more message */
export const server = (v, chunks, tap, end, last) => {
  const message = data => v.isSymbolic() ? { data } : new TextEncoder().encode(`data: ${data}\n\n`)
  const body = v.source(chunks, end).pipeThrough(new TransformStream({
    transform: (c, k) => { tap(c); k.enqueue(message(JSON.stringify(c))) },
    flush: (k) => { if (last !== undefined) k.enqueue(message(last)) },
  }))
  return { ok: true, status: 200, statusText: '', url: '', headers: new Headers({}), body }
}
/** an event of streamSpeech; decoding of the base64 text is the platform's */
export const audio = v => T.obj({ type: T.lit('speech.audio.delta'), audio: v.isSymbolic() ? T.str : T.oneOf('', 'AAAA', 'AQID', '/w==') })
