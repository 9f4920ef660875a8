import { T } from 'verif'
import { APICallError } from '@xsai/shared'
import { embed, embedMany } from '@xsai/embed'
import { generateImage } from '@xsai/generate-image'
import { generateSpeech } from '@xsai/generate-speech'
import { generateTranscription } from '@xsai/generate-transcription'
import { streamSpeech } from '@xsai/stream-speech'
import { streamTranscription } from '@xsai/stream-transcription'
import { listModels, retrieveModel } from '@xsai/model'
import { audio, run, server } from './lib'

const base = { baseURL: 'http://h.test/v1/', model: 'm' }
const ok = (v, r) => { v.ensure('the call succeeds', r.state === 'fulfilled'); return r.value }
const answering = x => async () => Response.json(x)
const vectors = min => T.arr(T.open({ embedding: T.arr(T.nat), index: T.nat }), min)

export const C31_embed = async (v) => {
  const answer = v.any('answer', T.open({ data: vectors(1), usage: T.json }))
  const input = v.any('input', T.str)
  const r = ok(v, await run(v, () => embed({ ...base, input, fetch: answering(answer) })))
  v.eq('the embedding', r, { embedding: answer.data[0].embedding, input, usage: answer.usage })
}
export const C31_embedMany = async (v) => {
  const answer = v.any('answer', T.open({ data: vectors(0), usage: T.json }))
  const input = v.any('input', T.arr(T.str))
  const r = ok(v, await run(v, () => embedMany({ ...base, input, fetch: answering(answer) })))
  v.eq('the embeddings in order', r, { embeddings: answer.data.map(d => d.embedding), input, usage: answer.usage })
}
export const C31_models = async (v) => {
  const answer = v.any('answer', T.open({ data: T.arr(T.open({ id: T.str })) }))
  v.eq('the list', ok(v, await run(v, () => listModels({ ...base, fetch: answering(answer) }))), answer.data)
  const one = v.any('one', T.open({ id: T.str }))
  v.eq('the model', ok(v, await run(v, () => retrieveModel({ ...base, fetch: answering(one) }))), one)
}
export const C31_speech = async (v) => {
  const audio = { audio: true }
  const reply = { ok: true, status: 200, statusText: '', url: '', headers: new Headers({}), body: new ReadableStream({}), arrayBuffer: async () => audio }
  const r = ok(v, await run(v, () => generateSpeech({ ...base, input: 'x', voice: 'v', fetch: async () => reply })))
  v.ensure('the audio', r === audio)
}
/** the type an image's data denotes */
const typeOf = b64 => b64.startsWith('/9j/') ? 'image/jpg' : b64.startsWith('AAAAIGZ0eXBhdmlm') ? 'image/avif' : b64.startsWith('iVBORw0KGgo') ? 'image/png' : b64.startsWith('R0lGOD') ? 'image/gif' : b64.startsWith('UklGR') ? 'image/webp' : 'image/png'
const image = b64 => ({ base64: `data:${typeOf(b64)};base64,${b64}`, mimeType: typeOf(b64) })
export const C31_imageData = async (v) => {
  const answer = v.any('answer', T.open({ data: T.arr(T.obj({ b64_json: T.str, revised_prompt: T.opt(T.str) })) }))
  const r = ok(v, await run(v, () => generateImage({ ...base, prompt: 'x', fetch: answering(answer) })))
  v.eq('every image in order', r.images, answer.data.map(d => image(d.b64_json)))
  v.eq('the first image', r.image, answer.data.length > 0 ? image(answer.data[0].b64_json) : undefined)
}
export const C31_imageUnknown = async (v) => {
  const answer = v.any('answer', T.open({ data: T.arr(T.or(T.obj({ b64_json: T.str }), T.obj({ b64_json: T.null }), T.obj({ url: T.nat }), T.obj({}))) }))
  const r = await run(v, () => generateImage({ ...base, prompt: 'x', fetch: answering(answer) }))
  const known = d => typeof d.b64_json === 'string'
  if (r.state === 'fulfilled') {
    const i = v.any('i', T.nat)
    if (i < answer.data.length) v.ensure('no unrecognisable entry is accepted', known(answer.data[i]))
  }
  else { v.ensure('only an unrecognisable entry fails the call', answer.data.some(d => !known(d))) }
}
const form = (v, format) => {
  const o = { fileName: v.any('fileName', T.opt(T.str)), language: v.any('language', T.opt(T.str)), prompt: v.any('prompt', T.opt(T.str)), temperature: v.any('temperature', T.opt(T.str)) }
  const file = new Blob(['x'])
  const fields = [['model', 'm'], o.fileName === undefined ? ['file', file] : ['file', file, o.fileName], ...format]
  for (const k of ['language', 'prompt', 'temperature']) if (o[k] !== undefined) fields.push([k, o[k]])
  return { o: { ...base, file, ...o }, fields, file }
}
const same = (v, sent, fields, file) => {
  if (v.isSymbolic()) { v.eq('the form fields', [...sent.entries()].map(x => x[0] === 'file' ? ['file', x[1] === file, x[2]] : x), fields.map(x => x[0] === 'file' ? ['file', true, x[2]] : x)); return }
  v.eq('the form fields', [...sent.entries()].filter(x => x[0] !== 'file'), fields.filter(x => x[0] !== 'file'))
  const f = fields.find(x => x[0] === 'file')
  v.ensure('the file', sent.get('file').name === (f.length === 3 ? f[2] : 'blob'))
}
export const C31_transcription = async (v) => {
  const responseFormat = v.any('format', T.opt(T.oneOf('json', 'verbose_json'))), timestampGranularities = v.any('granularity', T.opt(T.oneOf('word', 'segment')))
  const { o, fields, file } = form(v, [['response_format', responseFormat ?? 'json'], ...responseFormat === 'verbose_json' ? [['timestamp_granularities[]', timestampGranularities ?? 'segment']] : []])
  const answer = v.any('answer', T.open({ text: T.str }))
  let sent
  const r = ok(v, await run(v, () => generateTranscription({ ...o, responseFormat, timestampGranularities, fetch: async (url, init) => { sent = init.body; return Response.json(answer) } })))
  v.eq('the transcription', r, answer)
  same(v, sent, fields, file)
}
export const C31_streamTranscriptionForm = async (v) => {
  const { o, fields, file } = form(v, [['stream', 'true']])
  let sent
  await run(v, () => streamTranscription({ ...o, fetch: async (url, init) => { sent = init.body; throw new Error('offline') } }).text)
  same(v, sent, fields, file)
}
export const C31_streamTranscription = async (v) => {
  const chunks = v.any('chunks', T.arr(T.or(T.obj({ type: T.lit('transcript.text.delta'), delta: T.str }), T.obj({ type: T.lit('transcript.text.done'), text: T.str }))))
  const g = { text: '', deltas: [], events: [] }
  const r = streamTranscription({ ...base, file: new Blob(['x']), fetch: async () => server(v, chunks, (c) => {
    if (c.type !== 'transcript.text.delta') return
    g.text += c.delta
    g.deltas.push(c.delta)
    g.events.push(c)
  }) })
  const [text, full, all] = await Promise.all([v.collect(r.textStream), v.collect(r.fullStream), v.settled(r.text)])
  v.eq('the text deltas', text.chunks, g.deltas)
  v.eq('the events', full.chunks, g.events)
  v.ensure('both streams close', text.state === 'closed' && full.state === 'closed')
  v.eq('the full text', all, { state: 'fulfilled', value: g.text })
}
/** without usage, or reported with the last event */
const speech = async (v, last, check) => {
  const chunks = v.any('chunks', T.arr(audio(v)))
  const r = await streamSpeech({ ...base, input: 'hi', voice: 'x', fetch: async () => server(v, chunks, () => {}, undefined, last) })
  const [full, told] = await Promise.all([v.collect(r.fullStream), v.settled(r.usage)])
  v.eq('the decoded audio', full.chunks, chunks.map(c => decoded(c.audio)))
  v.ensure('the stream ends', full.state === 'closed')
  check(told)
}
const decoded = s => Uint8Array.fromBase64(s)
export const C31_streamSpeech = v => speech(v, undefined, told => v.eq('no usage', told, { state: 'fulfilled', value: undefined }))
export const C31_streamSpeechUsage = (v) => {
  const usage = v.any('usage', T.obj({ input_tokens: T.nat, output_tokens: T.nat, total_tokens: T.nat }))
  return speech(v, JSON.stringify({ type: 'speech.audio.done', usage }), told => v.eq('the usage', told, { state: 'fulfilled', value: { inputTokens: usage.input_tokens, outputTokens: usage.output_tokens, totalTokens: usage.total_tokens } }))
}
