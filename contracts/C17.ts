import { T } from 'verif'
import { APICallError, InvalidResponseError, JSONParseError, RemoteAPIError } from '@xsai/shared'
import { responses } from '@xsai-ext/responses'
import { streamText } from '@xsai/stream-text'
import { streamTranscription } from '@xsai/stream-transcription'
import { streamSpeech } from '@xsai/stream-speech'
import { ends, simple } from './endspec'
import { audio, server } from './lib'

const base = { baseURL: 'http://h.test/', model: 'm', messages: [] }

const run = (v, o, expected) => {
  let ended = 0
  const r = streamText({ ...base, onFinish: () => { ended++ }, ...o })
  return ends(v, r, () => ended, expected)
}
export const C17_success = async (v) => {
  const chunks = v.any('chunks', T.arr(simple))
  await run(v, { fetch: async () => server(v, chunks, () => {}) })
}
export const C17_fetch = async (v) => {
  const e = v.any('e', T.any)
  await run(v, { fetch: async () => { throw e } }, x => x === e)
}
export const C17_status = async (v) => {
  const status = v.any('status', T.nat)
  v.assume(status >= 300 && status < 600 && status !== 304)
  const text = v.any('text', T.str)
  await run(v, { fetch: async () => new Response(text, { status }) }, x => x instanceof APICallError && x.statusCode === status && x.responseBody === text)
}
export const C17_bodyless = v => run(v, { fetch: async () => new Response(null) }, x => x instanceof InvalidResponseError && x.reason === 'empty_body')
export const C17_broken = async (v) => {
  const chunks = v.any('chunks', T.arr(simple))
  const e = v.any('e', T.any)
  await run(v, { fetch: async () => server(v, chunks, () => {}, { error: e }) }, x => x === e)
}
export const C17_malformed = async (v) => {
  const chunks = v.any('chunks', T.arr(simple))
  await run(v, { fetch: async () => server(v, chunks, () => {}, undefined, '{oops') }, x => x instanceof JSONParseError && x.text === '{oops')
}
export const C17_reported = async (v) => {
  const chunks = v.any('chunks', T.arr(simple))
  const error = v.any('error', T.json)
  await run(v, { fetch: async () => server(v, chunks, () => {}, undefined, JSON.stringify({ error })) }, x => x instanceof RemoteAPIError && x.responseBody === JSON.stringify({ error }))
}
/** callbacks */
const thrower = (v, where) => {
  const chunks = v.any('chunks', T.arr(simple))
  const e = v.any('e', T.any)
  return run(v, { fetch: async () => server(v, chunks, () => {}), [where]: () => { throw e } }, x => x === e)
}
export const C17_prepareStep = v => thrower(v, 'prepareStep')
export const C17_stopWhen = v => thrower(v, 'stopWhen')
export const C17_onStepFinish = v => thrower(v, 'onStepFinish')
export const C17_onFinish = async (v) => {
  const chunks = v.any('chunks', T.arr(simple))
  const e = v.any('e', T.any)
  let ended = 0
  const r = streamText({ ...base, fetch: async () => server(v, chunks, () => {}), onFinish: () => { ended++; throw e } })
  await ends(v, r, () => ended, x => x === e)
}
export const C17_onEvent = async (v) => {
  const chunks = v.any('chunks', T.arr(simple))
  const e = v.any('e', T.any)
  const bad = v.fn('bad', { returns: T.bool })
  const g = { n: 0, thrown: false, ended: 0 }
  const r = streamText({
    ...base, fetch: async () => server(v, chunks, () => {}), onFinish: () => { g.ended++ },
    onEvent: () => { g.n++; if (bad(g.n)) { g.thrown = true; throw e } },
  })
  const steps = await v.settled(r.steps)
  v.ensure('the run fails iff the callback failed', (steps.state === 'rejected') === g.thrown)
  await ends(v, r, () => g.ended, g.thrown ? x => x === e : undefined)
}
/** an abort seen when the answer has ended, with any reason (also none) */
export const C17_abort = async (v) => {
  const chunks = v.any('chunks', T.arr(simple))
  const reason = v.any('reason', T.any)
  const abortSignal = { aborted: false, reason, addEventListener: () => {}, removeEventListener: () => {} }
  const fetch = async () => { abortSignal.aborted = true; return server(v, chunks, () => {}) }
  await run(v, { fetch, abortSignal }, x => x === reason || ((reason === null || reason === undefined) && x instanceof Error))
}

const respond = async (v, o, expected, endings, failed = () => true) => {
  let ended = 0
  const r = responses({ baseURL: 'http://h.test/', model: 'm', input: 'hi', onFinish: () => { ended++ }, ...o })
  await v.settled(r.steps)
  await ends(v, r, endings ?? (() => ended), failed() ? expected : undefined)
}
const completed = JSON.stringify({ type: 'response.completed', response: { output: [], usage: null } })
const event = T.or(T.obj({ type: T.oneOf('response.output_text.delta', 'response.reasoning.delta'), delta: T.str }), T.obj({ type: T.lit('response.in_progress') }))
export const C17_responsesSuccess = async (v) => {
  const chunks = v.any('chunks', T.arr(event))
  await respond(v, { fetch: async () => server(v, chunks, () => {}, undefined, completed) })
}
export const C17_responsesFetch = async (v) => {
  const e = v.any('e', T.any)
  await respond(v, { fetch: async () => { throw e } }, x => x === e)
}
export const C17_responsesStatus = async (v) => {
  const status = v.any('status', T.nat)
  v.assume(status >= 300 && status < 600 && status !== 304)
  const text = v.any('text', T.str)
  await respond(v, { fetch: async () => new Response(text, { status }) }, x => x instanceof APICallError && x.statusCode === status && x.responseBody === text)
}
export const C17_responsesBodyless = v => respond(v, { fetch: async () => new Response(null) }, x => x instanceof InvalidResponseError && x.reason === 'empty_body')
export const C17_responsesBroken = async (v) => {
  const chunks = v.any('chunks', T.arr(event))
  const e = v.any('e', T.any)
  await respond(v, { fetch: async () => server(v, chunks, () => {}, { error: e }) }, x => x === e)
}
export const C17_responsesMalformed = async (v) => {
  const chunks = v.any('chunks', T.arr(event))
  await respond(v, { fetch: async () => server(v, chunks, () => {}, undefined, '{oops') }, x => x instanceof JSONParseError && x.text === '{oops')
}
export const C17_responsesReported = async (v) => {
  const chunks = v.any('chunks', T.arr(event))
  const error = v.any('error', T.json)
  await respond(v, { fetch: async () => server(v, chunks, () => {}, undefined, JSON.stringify({ error })) }, x => x instanceof RemoteAPIError && x.responseBody === JSON.stringify({ error }))
}
const responder = (v, where, last = completed) => {
  const chunks = v.any('chunks', T.arr(event))
  const e = v.any('e', T.any)
  return respond(v, { fetch: async () => server(v, chunks, () => {}, undefined, last), [where]: () => { throw e } }, x => x === e)
}
export const C17_responsesPrepareStep = v => responder(v, 'prepareStep')
export const C17_responsesStopWhen = v => responder(v, 'stopWhen')
export const C17_responsesOnStepFinish = v => responder(v, 'onStepFinish')
export const C17_responsesOnFinish = async (v) => {
  const chunks = v.any('chunks', T.arr(event))
  const e = v.any('e', T.any)
  let ended = 0
  await respond(v, { fetch: async () => server(v, chunks, () => {}, undefined, completed), onFinish: () => { ended++; throw e } }, x => x === e, () => ended)
}
export const C17_responsesOnEvent = async (v) => {
  const chunks = v.any('chunks', T.arr(event))
  const e = v.any('e', T.any)
  const bad = v.fn('bad', { returns: T.bool })
  const g = { n: 0, thrown: false }
  const onEvent = () => { g.n++; if (bad(g.n)) { g.thrown = true; throw e } }
  await respond(v, { fetch: async () => server(v, chunks, () => {}, undefined, completed), onEvent }, x => x === e, undefined, () => g.thrown)
}
/** an abort seen when a response completes, with any reason (also none) */
export const C17_responsesAbort = async (v) => {
  const chunks = v.any('chunks', T.arr(event))
  const reason = v.any('reason', T.any)
  const abortSignal = { aborted: false, reason, addEventListener: () => {}, removeEventListener: () => {} }
  const fetch = async () => { abortSignal.aborted = true; return server(v, chunks, () => {}, undefined, completed) }
  await respond(v, { fetch, abortSignal }, x => x === reason || ((reason === null || reason === undefined) && x instanceof Error))
}

/** streamTranscription: both streams and the text */
const transcribed = async (v, fetch, expected) => {
  const r = streamTranscription({ baseURL: 'http://h.test/', model: 'm', file: new Blob(['x']), fetch })
  const [text, full, all] = await Promise.all([v.collect(r.textStream), v.collect(r.fullStream), v.settled(r.text)])
  for (const s of [text, full]) v.ensure('the stream fails with the failure', s.state === 'errored' && expected(s.error))
  v.ensure('the text rejects with the failure', all.state === 'rejected' && expected(all.value))
}
const transcript = T.or(T.obj({ type: T.lit('transcript.text.delta'), delta: T.str }), T.obj({ type: T.lit('transcript.text.done'), text: T.str }))
export const C17_transcriptionFetch = async (v) => {
  const e = v.any('e', T.any)
  await transcribed(v, async () => { throw e }, x => x === e)
}
export const C17_transcriptionStatus = async (v) => {
  const status = v.any('status', T.nat)
  v.assume(status >= 300 && status < 600 && status !== 304)
  const text = v.any('text', T.str)
  await transcribed(v, async () => new Response(text, { status }), x => x instanceof APICallError && x.statusCode === status && x.responseBody === text)
}
export const C17_transcriptionBodyless = v => transcribed(v, async () => new Response(null), x => x instanceof InvalidResponseError && x.reason === 'empty_body')
export const C17_transcriptionBroken = async (v) => {
  const chunks = v.any('chunks', T.arr(transcript))
  const e = v.any('e', T.any)
  await transcribed(v, async () => server(v, chunks, () => {}, { error: e }), x => x === e)
}
export const C17_transcriptionMalformed = async (v) => {
  const chunks = v.any('chunks', T.arr(transcript))
  await transcribed(v, async () => server(v, chunks, () => {}, undefined, '{oops'), x => x instanceof JSONParseError && x.text === '{oops')
}
export const C17_transcriptionReported = async (v) => {
  const chunks = v.any('chunks', T.arr(transcript))
  const error = v.any('error', T.json)
  await transcribed(v, async () => server(v, chunks, () => {}, undefined, JSON.stringify({ error })), x => x instanceof RemoteAPIError && x.responseBody === JSON.stringify({ error }))
}

/** streamSpeech: a call that does not get an answer rejects; later the stream and the usage fail */
const spoken = async (v, fetch, expected) => {
  const call = await v.settled(streamSpeech({ baseURL: 'http://h.test/', model: 'm', input: 'hi', voice: 'x', fetch }))
  if (call.state === 'rejected') { v.ensure('the call fails with the failure', expected(call.value)); return false }
  const [full, usage] = await Promise.all([v.collect(call.value.fullStream), v.settled(call.value.usage)])
  v.ensure('the stream fails with the failure', full.state === 'errored' && expected(full.error))
  v.ensure('the usage rejects with the failure', usage.state === 'rejected' && expected(usage.value))
  return true
}
export const C17_speechFetch = async (v) => {
  const e = v.any('e', T.any)
  v.ensure('the call rejects', !await spoken(v, async () => { throw e }, x => x === e))
}
export const C17_speechStatus = async (v) => {
  const status = v.any('status', T.nat)
  v.assume(status >= 300 && status < 600 && status !== 304)
  const text = v.any('text', T.str)
  v.ensure('the call rejects', !await spoken(v, async () => new Response(text, { status }), x => x instanceof APICallError && x.statusCode === status && x.responseBody === text))
}
export const C17_speechBodyless = async v => v.ensure('the call rejects', !await spoken(v, async () => new Response(null), x => x instanceof InvalidResponseError && x.reason === 'empty_body'))
export const C17_speechBroken = async (v) => {
  const chunks = v.any('chunks', T.arr(audio(v)))
  const e = v.any('e', T.any)
  v.ensure('the call succeeds', await spoken(v, async () => server(v, chunks, () => {}, { error: e }), x => x === e))
}
export const C17_speechMalformed = async (v) => {
  const chunks = v.any('chunks', T.arr(audio(v)))
  v.ensure('the call succeeds', await spoken(v, async () => server(v, chunks, () => {}, undefined, '{oops'), x => x instanceof JSONParseError && x.text === '{oops'))
}
export const C17_speechReported = async (v) => {
  const chunks = v.any('chunks', T.arr(audio(v)))
  const error = v.any('error', T.json)
  v.ensure('the call succeeds', await spoken(v, async () => server(v, chunks, () => {}, undefined, JSON.stringify({ error })), x => x instanceof RemoteAPIError && x.responseBody === JSON.stringify({ error })))
}
