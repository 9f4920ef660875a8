import { T } from 'verif'
import { responseCatch, responseJSON, APICallError, InvalidResponseError, JSONParseError } from '@xsai/shared'
import { all } from './endpoints'
import { run } from './lib'

const meta = v => ({ status: v.any('status', T.oneOf(200, 201, 299, 199, 300, 304, 400, 401, 404, 429, 500, 503, 599)), statusText: v.any('statusText', T.oneOf('', 'Bad Request', 'OK')), headers: v.any('headers', T.rec(T.str)) })

const fake = (v, o) => ({ ...o, headers: new Headers({ 'content-type': v.any('ct', T.oneOf('application/json', 'text/plain')) }) })

export const C04_ok = async (v) => {
  const status = v.any('status', T.int)
  v.assume(status >= 200 && status <= 299)
  const stream = new ReadableStream({ start: (c) => { c.enqueue('x'); c.close() } })
  const res = fake(v, { ok: true, status, body: stream, url: 'http://h/', statusText: '' })
  const r = await run(v, () => responseCatch(res))
  v.ensure('a good response is passed on', r.state === 'fulfilled' && r.value === res)
}
export const C04_status = async (v) => {
  const status = v.any('status', T.int)
  v.assume(status < 200 || status > 299)
  const text = v.any('text', T.str), statusText = v.any('statusText', T.str), url = v.any('url', T.str)
  const headers = v.any('headers', T.obj({ 'x-a': T.opt(T.text), 'x-b': T.opt(T.text) }))
  const sentHeaders = Object.fromEntries(Object.entries(headers).filter(e => e[1] !== undefined))
  const res = { ok: false, status, statusText, url, headers: { entries: () => Object.entries(sentHeaders), get: () => null }, body: v.any('body', T.nullable(T.opaque)), text: async () => text }
  const r = await run(v, () => responseCatch(res))
  v.ensure('a bad status rejects', r.state === 'rejected')
  const e = r.value
  v.ensure('with an API-call error', e instanceof APICallError)
  v.eq('its code', e.code, 'api_call_error')
  v.eq('its status', e.statusCode, status)
  v.eq('its status text', e.statusText, statusText)
  v.eq('its URL', e.url, url)
  v.eq('its body', e.responseBody, text)
  v.eq('its headers', e.responseHeaders, sentHeaders)
}
export const C04_body = async (v) => {
  const body = v.any('body', T.or(T.null, T.undef, T.text, T.obj({ a: T.str }), T.arr(T.str)))
  const res = fake(v, { ok: true, status: 200, body, url: 'http://h/', statusText: '' })
  const r = await run(v, () => responseCatch(res))
  v.ensure('a response without a stream rejects', r.state === 'rejected')
  v.ensure('with an invalid-response error', r.value instanceof InvalidResponseError)
  v.eq('its code', r.value.code, 'invalid_response')
  v.eq('naming which of the two it was', r.value.reason, body == null ? 'empty_body' : 'invalid_body')
}
export const C04_json = async (v) => {
  const text = v.any('text', T.str)
  const r = await run(v, () => responseJSON({ text: async () => text }))
  let parsed
  try { parsed = { value: JSON.parse(text) } }
  catch (cause) { parsed = { cause } }
  if (parsed.cause === undefined) {
    v.ensure('JSON is returned', r.state === 'fulfilled')
    v.eq('as it is', r.value, parsed.value)
  }
  else {
    v.ensure('other text rejects', r.state === 'rejected' && r.value instanceof JSONParseError)
    v.eq('code of the parse error', r.value.code, 'json_parse_error')
    v.eq('text of the parse error', r.value.text, text)
  }
}

// the same through every endpoint
const options = (e, reply) => ({ ...e.own, model: 'm', baseURL: 'http://h.test/v1/', fetch: async () => reply })
const bad = async (v, e) => {
  const status = v.any('status', T.int)
  v.assume(status < 200 || status > 299)
  const text = v.any('text', T.str), url = v.any('url', T.str), noBody = v.any('noBody', T.bool)
  const reply = { ok: false, status, statusText: 'S', url, headers: new Headers({ 'x-a': 'b' }), body: noBody ? null : 'stream', text: async () => text }
  const r = await run(v, () => e.go(options(e, reply)))
  v.ensure('a bad status makes the call fail', r.state === 'rejected' && r.value instanceof APICallError)
  v.eq('with the status', r.value.statusCode, status)
  v.eq('the URL', r.value.url, url)
  v.eq('the body', r.value.responseBody, text)
  v.eq('the headers', r.value.responseHeaders, { 'x-a': 'b' })
}
const bodyless = async (v, e) => {
  const missing = v.any('missing', T.bool)
  const body = missing ? v.any('empty', T.or(T.null, T.undef)) : v.any('other', T.or(T.text, T.arr(T.str)))
  const r = await run(v, () => e.go(options(e, { ok: true, status: 200, statusText: '', url: '', headers: new Headers({}), body, text: async () => '{}' })))
  v.ensure('a response without a stream makes the call fail', r.state === 'rejected' && r.value instanceof InvalidResponseError)
  v.eq('naming which', r.value.reason, missing ? 'empty_body' : 'invalid_body')
}
const notJSON = async (v, e) => {
  const text = v.any('text', T.str)
  let ok = true
  try { JSON.parse(text) }
  catch { ok = false }
  v.assume(!ok)
  const r = await run(v, () => e.go(options(e, new Response(text))))
  v.ensure('text that is not JSON makes the call fail', r.state === 'rejected' && r.value instanceof JSONParseError)
  v.eq('carrying the text', r.value.text, text)
}
export const C04_bad_chat = v => bad(v, all.chat)
export const C04_bad_generateText = v => bad(v, all.generateText)
export const C04_bad_streamText = v => bad(v, all.streamText)
export const C04_bad_responses = v => bad(v, all.responses)
export const C04_bad_embed = v => bad(v, all.embed)
export const C04_bad_embedMany = v => bad(v, all.embedMany)
export const C04_bad_image = v => bad(v, all.image)
export const C04_bad_speech = v => bad(v, all.speech)
export const C04_bad_streamSpeech = v => bad(v, all.streamSpeech)
export const C04_bad_transcription = v => bad(v, all.transcription)
export const C04_bad_streamTranscription = v => bad(v, all.streamTranscription)
export const C04_bad_listModels = v => bad(v, all.listModels)
export const C04_bad_retrieveModel = v => bad(v, all.retrieveModel)
export const C04_bodyless_chat = v => bodyless(v, all.chat)
export const C04_bodyless_generateText = v => bodyless(v, all.generateText)
export const C04_bodyless_streamText = v => bodyless(v, all.streamText)
export const C04_bodyless_responses = v => bodyless(v, all.responses)
export const C04_bodyless_embed = v => bodyless(v, all.embed)
export const C04_bodyless_embedMany = v => bodyless(v, all.embedMany)
export const C04_bodyless_image = v => bodyless(v, all.image)
export const C04_bodyless_speech = v => bodyless(v, all.speech)
export const C04_bodyless_streamSpeech = v => bodyless(v, all.streamSpeech)
export const C04_bodyless_transcription = v => bodyless(v, all.transcription)
export const C04_bodyless_streamTranscription = v => bodyless(v, all.streamTranscription)
export const C04_bodyless_listModels = v => bodyless(v, all.listModels)
export const C04_bodyless_retrieveModel = v => bodyless(v, all.retrieveModel)
export const C04_notJSON_generateText = v => notJSON(v, all.generateText)
export const C04_notJSON_embed = v => notJSON(v, all.embed)
export const C04_notJSON_embedMany = v => notJSON(v, all.embedMany)
export const C04_notJSON_image = v => notJSON(v, all.image)
export const C04_notJSON_transcription = v => notJSON(v, all.transcription)
export const C04_notJSON_listModels = v => notJSON(v, all.listModels)
export const C04_notJSON_retrieveModel = v => notJSON(v, all.retrieveModel)
export const C04_noChoices = async (v) => {
  const body = v.any('answer', T.or(T.obj({ choices: T.opt(T.null) }), T.obj({ choices: T.lit(0) }), T.open({ id: T.str }), T.obj({ choices: T.arr(T.json) })))
  v.assume(body.choices === undefined || body.choices === null || body.choices.length === 0 || body.choices === 0)
  const r = await run(v, () => all.generateText.go(options(all.generateText, Response.json(body))))
  v.ensure('an answer without choices makes the call fail', r.state === 'rejected' && r.value instanceof InvalidResponseError)
  v.eq('naming the reason', r.value.reason, 'no_choices')
}
