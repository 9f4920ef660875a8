import { T } from 'verif'
import { requestURL } from '@xsai/shared'
import { all } from './endpoints'
import { run } from './lib'
import { respRun } from './resprun'
import { textRun } from './runspec'
import { streamRun } from './streamrun'

/** any base URL text without a trailing slash, a query or a fragment */
const root_ = (v) => { const r = v.any('root', T.url); v.assume(!r.endsWith('/')); return r }

export const C02_requestURL = (v) => {
  const root = root_(v)
  const expected = root + '/models'
  v.eq('without a slash', String(requestURL('models', root)), expected)
  v.eq('with a slash', String(requestURL('models', root + '/')), expected)
  v.eq('as an object', String(requestURL('models', new URL(root + '/'))), expected)
  const path = v.any('path', T.oneOf('chat/completions', 'responses', 'embeddings', 'models', 'audio/speech', 'audio/transcriptions', 'images/generations'))
  v.eq('any endpoint', String(requestURL(path, root)), root + '/' + path)
}
const check = async (v, { path, method, go, own: args }) => {
  const root = root_(v)
  const form = v.any('form', T.oneOf('string', 'slash', 'url'))
  const baseURL = form === 'string' ? root : form === 'slash' ? root + '/' : new URL(root + '/')
  const own = v.any('own', T.bool)
  const signal = v.any('signal', T.opt(T.opaque))
  const sent = [], strayed = []
  const fail = new Error('offline')
  const record = log => async (...args) => { log.push(args); throw fail }
  const saved = globalThis.fetch
  globalThis.fetch = record(own ? strayed : sent)
  const options = { ...args, baseURL, model: 'm', apiKey: v.any('key', T.opt(T.str)), abortSignal: signal, fetch: own ? record(sent) : undefined }
  try {
    const r = await run(v, () => go(options))
    v.ensure('the transport failure is the failure of the call', r.state === 'rejected' && r.value === fail)
    v.eq('one request', sent.length, 1)
    v.eq('nothing through another transport', strayed.length, 0)
    const [url, init] = sent[0]
    v.eq('its URL', String(url), root + '/' + path)
    v.eq('its method', init.method, method)
    v.ensure('its signal', init.signal === signal)
  }
  finally { globalThis.fetch = saved }
}
export const C02_chat = v => check(v, all.chat)
export const C02_generateText = v => check(v, all.generateText)
export const C02_streamText = v => check(v, all.streamText)
export const C02_responses = v => check(v, all.responses)
export const C02_embed = v => check(v, all.embed)
export const C02_embedMany = v => check(v, all.embedMany)
export const C02_image = v => check(v, all.image)
export const C02_speech = v => check(v, all.speech)
export const C02_streamSpeech = v => check(v, all.streamSpeech)
export const C02_transcription = v => check(v, all.transcription)
export const C02_streamTranscription = v => check(v, all.streamTranscription)
export const C02_listModels = v => check(v, all.listModels)
export const C02_retrieveModel = v => check(v, all.retrieveModel)
/** every request of a run of any number of steps */
export const C02_generateTextSteps = async (v) => { const { r } = await textRun(v, { request: { url: true }, plain: true }); v.ensure('the run succeeds', r.state === 'fulfilled') }
export const C02_streamTextSteps = async (v) => { const { steps } = await streamRun(v, { request: { url: true } }); v.ensure('the run succeeds', steps.state === 'fulfilled') }
export const C02_responsesSteps = async (v) => { const { steps } = await respRun(v, { request: { url: true } }); v.ensure('the run succeeds', steps.state === 'fulfilled') }
