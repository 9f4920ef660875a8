import { T } from 'verif'
import { requestHeaders } from '@xsai/shared'
import { all } from './endpoints'
import { run } from './lib'
import { respRun } from './resprun'
import { textRun } from './runspec'
import { streamRun } from './streamrun'

export const C03_requestHeaders = (v) => {
  const custom = v.any('headers', T.opt(T.rec(T.opt(T.str))))
  const key = v.any('apiKey', T.opt(T.str))
  const h = requestHeaders(custom, key)
  const own = custom !== undefined && Object.keys(custom).some(n => n.toLowerCase() === 'authorization')
  if (key !== undefined && !own) v.eq('authorization', h.Authorization, 'Bearer ' + key)
  const k = v.any('k', T.str)
  if (custom !== undefined) { if (k !== 'Authorization' || own) v.eq('custom header', h[k], custom[k]) }
}
const has = (custom, name) => custom !== undefined && Object.keys(custom).some(n => n.toLowerCase() === name)
/** the headers of the endpoint's request */
const headers = async (v, e) => {
  const form = v.any('form', T.oneOf('none', 'object', 'Headers'))
  const key = v.any('key', T.opt(T.token))
  let custom, given
  if (form === 'object') given = custom = v.any('custom', T.rec(T.opt(T.token)))
  if (form === 'Headers') {
    custom = { 'x-a': v.any('xa', T.token) }
    if (v.any('withAuth', T.bool)) custom.authorization = v.any('auth', T.token)
    if (v.any('withType', T.bool)) custom['content-type'] = v.any('type', T.token)
    given = new Headers(custom)
  }
  const sent = []
  await run(v, () => e.go({ ...e.own, model: 'm', baseURL: 'http://h.test/v1/', apiKey: key, headers: given, fetch: async (url, init) => { sent.push(init.headers); throw new Error('offline') } }))
  v.eq('one request', sent.length, 1)
  v.eq('its headers', sent[0] ?? {}, {
    ...(!e.json || has(custom, 'content-type') ? {} : { 'Content-Type': 'application/json' }),
    ...(key === undefined || has(custom, 'authorization') ? {} : { Authorization: 'Bearer ' + key }),
    ...custom,
  })
  const k = v.any('k', T.str)
  v.ensure('no header with an undefined value', !Object.keys(sent[0] ?? {}).includes(k) || sent[0][k] !== undefined)
}
export const C03_chat = v => headers(v, all.chat)
export const C03_generateText = v => headers(v, all.generateText)
export const C03_streamText = v => headers(v, all.streamText)
export const C03_responses = v => headers(v, all.responses)
export const C03_embed = v => headers(v, all.embed)
export const C03_embedMany = v => headers(v, all.embedMany)
export const C03_image = v => headers(v, all.image)
export const C03_speech = v => headers(v, all.speech)
export const C03_streamSpeech = v => headers(v, all.streamSpeech)
export const C03_transcription = v => headers(v, all.transcription)
export const C03_streamTranscription = v => headers(v, all.streamTranscription)
export const C03_listModels = v => headers(v, all.listModels)
export const C03_retrieveModel = v => headers(v, all.retrieveModel)
/** every request of a run of any number of steps */
export const C03_generateTextSteps = async (v) => { const { r } = await textRun(v, { request: { headers: true }, plain: true }); v.ensure('the run succeeds', r.state === 'fulfilled') }
export const C03_streamTextSteps = async (v) => { const { steps } = await streamRun(v, { request: { headers: true } }); v.ensure('the run succeeds', steps.state === 'fulfilled') }
export const C03_responsesSteps = async (v) => { const { steps } = await respRun(v, { request: { headers: true } }); v.ensure('the run succeeds', steps.state === 'fulfilled') }
