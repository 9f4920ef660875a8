import { T } from 'verif'
import * as plain from '@xsai-ext/providers/create'
import * as utils from '@xsai-ext/providers/utils'
import { createAzure, createPlayer2, createWorkersAI } from '@xsai-ext/providers/special/create'
import { embed } from '@xsai/embed'
import { generateSpeech } from '@xsai/generate-speech'
import { run } from './lib'

const METHODS = ['chat', 'embed', 'image', 'model', 'speech', 'transcription']
/** every method of a provider: exactly the fields it was made with, whatever happened to other handles */
const probe = (v, name, p, want, hasFetch) => {
  const model = v.any('model', T.str), other = v.any('other', T.str)
  const methods = METHODS.filter(m => typeof p[m] === 'function')
  v.ensure(`${name} has a method`, methods.length > 0)
  const handle = (m, x) => m === 'model' ? p[m]() : p[m](x)
  const exact = (what, m, h, x) => {
    const { fetch, ...rest } = h
    v.eq(`${name}.${m} ${what}`, rest, m === 'model' ? want : { ...want, model: x })
    v.ensure(`${name}.${m} fetch ${what}`, hasFetch(m) ? typeof fetch === 'function' : fetch === undefined)
    v.ensure(`${name}.${m} is a plain handle ${what}`, METHODS.every(n => typeof h[n] !== 'function'))
  }
  for (const m of methods) {
    const a = handle(m, model)
    exact('first', m, a, model)
    const b = handle(m, other)
    v.ensure(`${name}.${m} makes another object`, a !== b)
    for (const n of methods) { const c = handle(n, other); c.model = 'CHANGED'; c.apiKey = 'CHANGED'; c.baseURL = 'CHANGED'; c.headers = 'CHANGED'; c.fetch = 'CHANGED' }
    b.model = 'CHANGED'; b.apiKey = 'CHANGED'; b.baseURL = 'CHANGED'; b.headers = 'CHANGED'; b.fetch = 'CHANGED'
    exact('afterwards', m, a, model)
    exact('again', m, handle(m, other), other)
  }
}
export const C27_factories = (v) => {
  const key = v.any('key', T.str), baseURL = v.any('url', T.str)
  const names = Object.keys(plain).filter(n => n.startsWith('create') && n !== 'createOpenRouter')
  v.ensure('the factories', names.length > 40)
  for (const n of names) probe(v, n, plain[n](key, baseURL), { apiKey: key, baseURL }, m => m === 'model' && (n === 'createFeatherless' || n === 'createTogetherAI'))
}
export const C27_defaults = (v) => {
  const key = v.any('key', T.str)
  for (const n of Object.keys(plain).filter(n => n.startsWith('create'))) {
    const p = plain[n](key)
    const urls = METHODS.filter(m => typeof p[m] === 'function').map(m => p[m]('z').baseURL)
    v.ensure(`${n}: one endpoint`, urls.every(u => typeof u === 'string' && u === urls[0] && u.startsWith('http')))
    v.ensure(`${n}: its key`, METHODS.filter(m => typeof p[m] === 'function').every(m => p[m]('z').apiKey === key))
  }
}
const PLAIN = { createChatProvider: 'chat', createEmbedProvider: 'embed', createImageProvider: 'image', createModelProvider: 'model', createSpeechProvider: 'speech', createTranscriptionProvider: 'transcription' }
const EXTRA = { createChatProviderWithExtraOptions: 'chat', createEmbedProviderWithExtraOptions: 'embed', createModelProviderWithExtraOptions: 'model', createSpeechProviderWithExtraOptions: 'speech', createTranscriptionProviderWithExtraOptions: 'transcription' }
const givenType = T.open({ baseURL: T.str, apiKey: T.opt(T.str), headers: T.opt(T.rec(T.str)) })
export const C27_builders = (v) => {
  const o = v.any('options', givenType), model = v.any('model', T.str)
  for (const [b, m] of Object.entries(PLAIN)) {
    const p = utils[b](o)
    v.eq(`${b} offers one method`, Object.keys(p), [m])
    const h = m === 'model' ? p[m]() : p[m](model)
    v.eq(b, h, m === 'model' ? { ...o } : { ...o, model })
    v.ensure(`${b} makes a copy`, h !== o)
    h.model = 'CHANGED'; h.baseURL = 'CHANGED'
    v.eq(`${b} again`, m === 'model' ? p[m]() : p[m](model), m === 'model' ? { ...o } : { ...o, model })
  }
}
export const C27_extra = (v) => {
  const o = v.any('options', givenType), model = v.any('model', T.str)
  const extra = v.any('extra', T.opt(T.open({ thinking: T.opt(T.json), apiKey: T.opt(T.str) })))
  for (const [b, m] of Object.entries(EXTRA)) {
    const p = utils[b](o)
    v.eq(`${b} offers one method`, Object.keys(p), [m])
    const h = m === 'model' ? p[m](extra) : p[m](model, extra)
    const want = m === 'model' ? { ...o, ...extra } : { ...o, model, ...extra }
    v.eq(b, h, want)
    v.ensure(`${b} makes a copy`, h !== o && h !== extra)
    h.model = 'CHANGED'; h.baseURL = 'CHANGED'; h.thinking = 'CHANGED'
    v.eq(`${b} again`, m === 'model' ? p[m](extra) : p[m](model, extra), want)
  }
}
export const C27_merge = (v) => {
  const o = v.any('options', givenType), model = v.any('model', T.str)
  const p = utils.merge(utils.createChatProvider(o), utils.createEmbedProvider({ ...o, baseURL: 'http://e/' }), utils.createModelProvider(o), utils.createSpeechProvider(o))
  v.eq('the methods of all parts', METHODS.filter(m => typeof p[m] === 'function'), ['chat', 'embed', 'model', 'speech'])
  v.eq('merged chat', p.chat(model), { ...o, model })
  v.eq('merged embed', p.embed(model), { ...o, baseURL: 'http://e/', model })
  v.eq('merged model', p.model(), { ...o })
  v.eq('merged speech', p.speech(model), { ...o, model })
}
const snake = s => s.replace(/[A-Z]/g, c => '_' + c.toLowerCase())
export const C27_openRouter = (v) => {
  const apiKey = v.any('key', T.str), baseURL = v.any('url', T.str), model = v.any('model', T.str)
  const p = plain.createOpenRouter(apiKey, baseURL)
  const provider = v.any('provider', T.opt(T.obj({ allowFallbacks: T.opt(T.bool), dataCollection: T.opt(T.str), ignore: T.opt(T.arr(T.str)), order: T.opt(T.arr(T.str)), quantizations: T.opt(T.arr(T.str)), requireParameters: T.opt(T.bool), sort: T.opt(T.str) })))
  const list = v.any('extraHeaders', T.opt(T.rec(T.str)))
  const headers = list !== undefined && v.any('asHeaders', T.bool) ? new Headers({ 'X-Title': v.any('title', T.token) }) : list
  const o = { extraHeaders: headers, models: v.any('models', T.opt(T.arr(T.str))), transforms: v.any('transforms', T.opt(T.arr(T.str))), provider }
  const before = provider === undefined ? undefined : { ...provider }
  const h = p.chat(model, o)
  const want = { apiKey, baseURL, model, models: o.models, transforms: o.transforms }
  if (provider !== undefined) want.provider = Object.fromEntries(Object.entries(provider).map(([k, x]) => [snake(k), x]))
  if (headers !== undefined) want.headers = headers instanceof Headers ? Object.fromEntries(headers.entries()) : { ...headers }
  v.eq('the routed request', h, want)
  v.eq('the options', provider, before)
  if (headers !== undefined) v.ensure('headers of its own', h.headers !== headers)
  v.eq('without routing', p.chat(model), { apiKey, baseURL, model })
  v.eq('routed again', p.chat(model, o), want)
}
export const C27_workersAI = (v) => {
  const key = v.any('key', T.str), id = v.any('account', T.str)
  probe(v, 'workersAI', createWorkersAI(key, id), { apiKey: key, baseURL: `https://api.cloudflare.com/client/v4/accounts/${id}/ai/v1/` }, () => false)
}
const withFetch = async (fetch, f) => {
  const saved = globalThis.fetch
  globalThis.fetch = fetch
  try { return await f() }
  finally { globalThis.fetch = saved }
}
export const C27_azureHandles = async (v) => {
  const key = v.any('key', T.str), resourceName = v.any('resource', T.text)
  const asked = v.any('asked', T.bool)
  const p = await createAzure({ apiKey: asked ? () => key : key, resourceName, apiVersion: v.any('version', T.opt(T.text)) })
  v.eq('the methods', METHODS.filter(m => typeof p[m] === 'function'), ['chat', 'embed', 'model', 'speech', 'transcription'])
  const want = { baseURL: `https://${resourceName}.services.ai.azure.com/models/` }
  probe(v, 'azure', p, asked ? want : { ...want, headers: { 'api-key': key } }, () => true)
}
export const C27_azureFetch = async (v) => {
  const key = v.any('key', T.token), version = v.any('version', T.opt(T.token)), resourceName = v.any('resource', T.token)
  const kind = v.any('kind', T.oneOf('text', 'function', 'async'))
  let n = 0
  const apiKey = kind === 'text' ? key : kind === 'function' ? () => { n++; return key } : async () => { n++; return key }
  const p = await createAzure({ apiKey, resourceName, apiVersion: version })
  const sent = []
  const form = v.any('form', T.oneOf('none', 'object', 'headers'))
  const mine = v.any('mine', T.token), input = v.any('input', T.text)
  const signal = v.any('signal', T.opt(T.opaque))
  const headers = form === 'none' ? undefined : form === 'object' ? { 'x-mine': mine } : new Headers({ 'x-mine': mine })
  const h = p.embed('m')
  const down = new Error('down')
  const r = await withFetch(async (...a) => { sent.push(a); throw down }, () => run(v, () => embed({ ...h, ...(form === 'none' ? {} : { headers }), input, abortSignal: signal })))
  v.ensure('the failure is passed on', r.state === 'rejected' && r.value === down)
  v.eq('one request', sent.length, 1)
  const [url, init] = sent[0]
  v.eq('its version', url.searchParams.get('api-version'), version === undefined ? null : version)
  url.searchParams.delete('api-version')
  v.eq('its address', String(url), `https://${resourceName}.services.ai.azure.com/models/embeddings`)
  const { headers: h2, ...rest } = init
  v.eq('the rest of the request', { method: rest.method, signal: rest.signal, body: JSON.parse(rest.body) }, { method: 'POST', signal, body: { input, model: 'm' } })
  const got = new Headers(h2)
  v.eq('its token', got.get('Authorization'), `Bearer ${key}`)
  v.eq('its key', got.get('api-key'), form === 'none' && kind === 'text' ? key : null)
  v.eq('the caller\'s header', got.get('x-mine'), form === 'none' ? null : mine)
  v.eq('its type', got.get('content-type'), 'application/json')
  v.eq('one token request', n, kind === 'text' ? 0 : 1)
}
export const C27_lists = async (v) => {
  const make = v.any('which', T.bool) ? plain.createFeatherless : plain.createTogetherAI
  const list = v.any('list', T.arr(T.obj({ id: T.str }))), good = v.any('good', T.bool)
  const answer = good ? Response.json(list) : new Response('no', { status: 429 })
  const sent = [], input = v.any('input', T.opaque), init = v.any('init', T.opaque)
  const r = await withFetch(async (...a) => { sent.push(a); return answer }, () => make('k', 'http://h/').model().fetch(input, init))
  v.eq('one request', sent.length, 1)
  v.ensure('as it is', sent[0].length === 2 && sent[0][0] === input && sent[0][1] === init)
  if (!good) v.ensure('a failure is passed on', r === answer)
  else {
    v.ensure('a good answer', r.ok)
    v.eq('the list', await r.json(), { data: list, object: 'list' })
  }
}
export const C27_player2 = async (v) => {
  const root = v.any('root', T.url)
  v.assume(!root.endsWith('/'))
  const key = v.any('key', T.token)
  const p = createPlayer2(root, key)
  v.eq('the chat handle', p.chat('m'), { baseURL: root, headers: { 'player2-game-key': key }, model: 'm' })
  const { fetch, ...rest } = p.speech('m')
  v.eq('the speech handle', rest, { baseURL: root, headers: { 'player2-game-key': key }, model: 'm' })
  const sent = [], bad = new Response('no', { status: 429 }), down = new Error('down'), dead = v.any('dead', T.bool), signal = v.any('signal', T.opt(T.opaque))
  const input = v.any('input', T.str), model = v.any('model', T.str), speed = v.any('speed', T.opt(T.nat)), voice = v.any('voice', T.opt(T.str)), instructions = v.any('instructions', T.opt(T.str))
  const responseFormat = v.any('format', T.opt(T.oneOf('mp3', 'wav')))
  const r = await withFetch(async (...a) => { sent.push(a); if (dead) throw down; return bad }, () => run(v, () => generateSpeech({ ...p.speech(model), input, speed, voice, instructions, responseFormat, abortSignal: signal })))
  v.ensure('the call fails', r.state === 'rejected')
  if (dead) v.ensure('a failure is passed on', r.value === down)
  else v.ensure('a refusal is passed on', r.value.statusCode === 429)
  v.eq('one request', sent.length, 1)
  const [url, init] = sent[0]
  v.eq('its address', String(url), root + '/tts/speak')
  const { body, ...others } = init
  v.eq('the rest of the request', { method: others.method, signal: others.signal }, { method: 'POST', signal })
  v.eq('its headers', others.headers, { 'Content-Type': 'application/json', 'player2-game-key': key })
  v.eq('its body', JSON.parse(body), { audio_format: responseFormat, play_in_app: false, speed: speed ?? 1, text: input, voice_ids: voice == null ? [] : [voice], model, instructions })
}
