// Every request-sending function of the library, with a way to call it and a minimal valid answer.
import { embed, embedMany } from '@xsai/embed'
import { generateImage } from '@xsai/generate-image'
import { generateObject } from '@xsai/generate-object'
import { generateSpeech } from '@xsai/generate-speech'
import { generateText } from '@xsai/generate-text'
import { generateTranscription } from '@xsai/generate-transcription'
import { listModels, retrieveModel } from '@xsai/model'
import { streamObject } from '@xsai/stream-object'
import { streamSpeech } from '@xsai/stream-speech'
import { streamText } from '@xsai/stream-text'
import { streamTranscription } from '@xsai/stream-transcription'
import { responses } from '@xsai-ext/responses'
import { bytes, byteStream, jsonRes, sse } from './lib'

if (!(Uint8Array as any).fromBase64) (Uint8Array as any).fromBase64 = (s: string) => { if (!/^[A-Za-z0-9+/]*={0,2}$/.test(s.replace(/\s/g, ''))) throw new SyntaxError('bad base64'); return new Uint8Array(Buffer.from(s, 'base64')) }

export interface Endpoint {
  name: string
  path: (o: any) => string
  method: 'GET' | 'POST'
  kind: 'json' | 'form' | 'none'
  /** required options */
  base: (g: any) => any
  /** a good answer */
  ok: (g: any) => Response
  /** runs the call and waits for its final outcome (rejecting with its failure) */
  run: (o: any) => Promise<any>
  /** fields the endpoint itself adds to the body */
  adds: (o: any) => any
  /** names not sent */
  chat?: boolean
  hooks?: string[]
  /** does the call parse a JSON answer / a stream / raw bytes */
  answer: 'json' | 'sse' | 'bytes'
}
export const usage = { completion_tokens: 2, prompt_tokens: 1, total_tokens: 3 }
export const completion = (message: any = { role: 'assistant', content: 'hi' }, extra: any = {}) => ({ id: 'c', object: 'chat.completion', created: 1, model: 'm', system_fingerprint: 'fp', choices: [{ index: 0, finish_reason: 'stop', message }], usage, ...extra })
const sseR = (g: any, msgs: unknown[]) => new Response(byteStream(g.split(bytes(sse(g, msgs)))), { headers: { 'content-type': 'text/event-stream' } })
export const drain = async (s: ReadableStream) => { const r = s.getReader(); for (;;) { const x = await r.read(); if (x.done) return } }

const chatHooks = ['maxSteps', 'onEvent', 'onFinish', 'onStepFinish', 'postToolCall', 'prepareStep', 'preToolCall', 'stopWhen', 'steps', 'totalUsage']
const msgs = (g: any) => [{ role: 'system', content: g.str() }, { role: 'user', content: g.str() }]
export const plainSchema = { '~standard': { vendor: 'valibot', version: 1, validate: (value: any) => ({ value }) }, type: 'object', properties: { a: { type: 'string' } } } as any
// a schema object carrying its own JSON-schema support, so that no vendor package is needed
export const stdSchema = (json: any, validate: (v: any) => any = value => ({ value })) => ({ '~standard': { vendor: 'test', version: 1, validate, jsonSchema: { input: () => structuredClone(json), output: () => structuredClone(json) } } }) as any

export const endpoints: Endpoint[] = [
  { name: 'embed', path: () => 'embeddings', method: 'POST', kind: 'json', base: g => ({ input: g.str() }), ok: () => jsonRes({ data: [{ embedding: [1, 2], index: 0, object: 'embedding' }], usage: { prompt_tokens: 1, total_tokens: 1 } }), run: o => embed(o), adds: () => ({}), answer: 'json' },
  { name: 'embedMany', path: () => 'embeddings', method: 'POST', kind: 'json', base: g => ({ input: [g.str(), g.str()] }), ok: () => jsonRes({ data: [{ embedding: [1, 2], index: 0, object: 'embedding' }], usage: { prompt_tokens: 1, total_tokens: 1 } }), run: o => embedMany(o), adds: () => ({}), answer: 'json' },
  { name: 'generateImage', path: () => 'images/generations', method: 'POST', kind: 'json', base: g => ({ prompt: g.str() }), ok: () => jsonRes({ created: 1, data: [{ b64_json: 'iVBORw0KGgoAAA' }] }), run: o => generateImage(o), adds: () => ({}), answer: 'json' },
  { name: 'generateSpeech', path: () => 'audio/speech', method: 'POST', kind: 'json', base: g => ({ input: g.str(), voice: g.str() }), ok: () => new Response(new Uint8Array([1, 2, 3])), run: o => generateSpeech(o), adds: () => ({}), answer: 'bytes' },
  { name: 'streamSpeech', path: () => 'audio/speech', method: 'POST', kind: 'json', base: g => ({ input: g.str(), voice: g.str() }), ok: g => sseR(g, [{ type: 'speech.audio.delta', audio: 'AQID' }, { type: 'speech.audio.done' }]), run: async (o) => { const r = await streamSpeech(o); await drain(r.fullStream); return r.usage }, adds: () => ({ stream_format: 'sse' }), answer: 'sse' },
  { name: 'generateText', path: () => 'chat/completions', method: 'POST', kind: 'json', base: g => ({ messages: msgs(g) }), ok: () => jsonRes(completion()), run: o => generateText(o), adds: () => ({ stream: false }), chat: true, hooks: chatHooks, answer: 'json' },
  { name: 'streamText', path: () => 'chat/completions', method: 'POST', kind: 'json', base: g => ({ messages: msgs(g) }), ok: g => sseR(g, [{ choices: [{ index: 0, delta: { content: 'hi' } }] }]), run: async (o) => { const r = streamText(o); for (const p of [r.messages, r.usage, r.totalUsage]) p.catch(() => {}); return r.steps }, adds: () => ({ stream: true }), chat: true, hooks: chatHooks.filter(h => !['steps', 'totalUsage'].includes(h)), answer: 'sse' },
  { name: 'generateObject', path: () => 'chat/completions', method: 'POST', kind: 'json', base: g => ({ messages: msgs(g), schema: stdSchema({ type: 'object', properties: {} }) }), ok: () => jsonRes(completion({ role: 'assistant', content: '{}' })), run: o => generateObject(o), adds: () => ({ stream: false, response_format: { type: 'json_schema', json_schema: { name: 'json_schema', strict: true, schema: { type: 'object', properties: {}, additionalProperties: false } } } }), chat: true, hooks: [...chatHooks, 'schema', 'output', 'strict', 'schemaName', 'schemaDescription'], answer: 'json' },
  { name: 'streamObject', path: () => 'chat/completions', method: 'POST', kind: 'json', base: g => ({ messages: msgs(g), schema: stdSchema({ type: 'object', properties: {} }) }), ok: g => sseR(g, [{ choices: [{ index: 0, delta: { content: '{}' } }] }]), run: async (o) => { const r = await streamObject(o); for (const p of [r.messages, r.usage, r.totalUsage]) p.catch(() => {}); return r.steps }, adds: () => ({ stream: true, response_format: { type: 'json_schema', json_schema: { name: 'json_schema', strict: true, schema: { type: 'object', properties: {}, additionalProperties: false } } } }), chat: true, hooks: [...chatHooks.filter(h => !['steps', 'totalUsage'].includes(h)), 'schema', 'output', 'strict', 'schemaName', 'schemaDescription'], answer: 'sse' },
  { name: 'responses', path: () => 'responses', method: 'POST', kind: 'json', base: g => ({ input: g.str() }), ok: g => sseR(g, [{ type: 'response.completed', response: { output: [], usage: null } }]), run: async (o) => { const r = responses(o); for (const p of [r.input, r.usage, r.totalUsage]) p.catch(() => {}); return r.steps }, adds: () => ({ stream: true }), hooks: chatHooks.filter(h => !['maxSteps', 'steps', 'totalUsage'].includes(h)), answer: 'sse' },
  { name: 'generateTranscription', path: () => 'audio/transcriptions', method: 'POST', kind: 'form', base: () => ({ file: new Blob(['abc']) }), ok: () => jsonRes({ text: 'x' }), run: o => generateTranscription(o), adds: () => ({}), answer: 'json' },
  { name: 'streamTranscription', path: () => 'audio/transcriptions', method: 'POST', kind: 'form', base: () => ({ file: new Blob(['abc']) }), ok: g => sseR(g, [{ type: 'transcript.text.delta', delta: 'a' }, { type: 'transcript.text.done' }]), run: async o => streamTranscription(o).text, adds: () => ({}), answer: 'sse' },
  { name: 'listModels', path: () => 'models', method: 'GET', kind: 'none', base: () => ({}), ok: () => jsonRes({ object: 'list', data: [{ id: 'a' }] }), run: o => listModels(o), adds: () => ({}), answer: 'json' },
  { name: 'retrieveModel', path: o => `models/${o.model}`, method: 'GET', kind: 'none', base: () => ({}), ok: () => jsonRes({ id: 'a' }), run: o => retrieveModel(o), adds: () => ({}), answer: 'json' },
]
export const byName = (n: string) => endpoints.find(e => e.name === n)!

/** the endpoints that make one request per step */
export const looping = endpoints.filter(e => ['generateText', 'streamText', 'generateObject', 'streamObject', 'responses'].includes(e.name))
/** n steps with one tool call each, then a last answer */
export const stepped = (g: any, e: Endpoint) => {
  const n = g.int(1, 3)
  const call = (i: number) => ({ id: `call_${i}`, type: 'function', function: { name: 't', arguments: '{}' } })
  const respond = (_c: any, i: number) => i >= n ? e.ok(g)
    : e.name === 'responses' ? (c => sseR(g, [{ type: 'response.output_item.done', item: c }, { type: 'response.completed', response: { output: [c], usage: null } }]))({ type: 'function_call', id: `fc_${i}`, call_id: `call_${i}`, name: 't', arguments: '{}', status: 'completed' })
    : e.answer === 'json' ? jsonRes(completion({ role: 'assistant', content: null, tool_calls: [call(i)] }))
    : sseR(g, [{ choices: [{ index: 0, delta: { tool_calls: [{ index: 0, ...call(i) }] } }] }, { choices: [{ index: 0, delta: {}, finish_reason: 'tool_calls' }] }])
  return { n, respond, options: { tools: [{ type: 'function', function: { name: 't', parameters: { type: 'object', properties: {} } }, execute: () => 'done' }], stopWhen: () => false } }
}
