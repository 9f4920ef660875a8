import { T } from 'verif'
import { clean, objCamelToSnake, requestBody, strCamelToSnake } from '@xsai/shared'
import { json } from './endpoints'
import { run } from './lib'
import { reserved, snake } from './request'
import { respRun } from './resprun'
import { textRun } from './runspec'
import { streamRun } from './streamrun'



export const C01_clean = (v) => {
  const o = v.any('o', T.rec(T.any))
  const r = clean(o)
  v.eq('exactly the defined entries are kept', r, Object.fromEntries(Object.entries(o).filter(e => e[1] !== undefined)), 'strict')
  const k = v.any('k', T.str)
  v.eq('each kept value is unchanged', r[k], o[k])
}
export const C01_requestBody = (v) => {
  const extra = v.any('extra', T.rec(T.any))
  const opts = { ...extra, model: v.any('model', T.any), apiKey: v.any('apiKey', T.any), baseURL: v.any('baseURL', T.any), headers: v.any('headers', T.any), fetch: v.any('fetch', T.any), abortSignal: v.any('abortSignal', T.any), maxOutputTokens: v.any('mot', T.any) }
  const body = JSON.parse(requestBody(opts))
  const priv = ['apiKey', 'baseURL', 'headers', 'fetch', 'abortSignal']
  v.eq('body', body, Object.fromEntries(Object.entries(opts).filter(e => e[1] !== undefined && !priv.includes(e[0])).map(e => [snake(e[0]), e[1]])))
}
/** the body of the endpoint's first request; extra: any caller options whose names mean nothing to the library */
const body = async (v, e, tools) => {

  const extra = v.any('extra', T.rec(T.any, [...reserved, ...reserved.map(snake)]))
  const priv = v.any('private', T.opt(T.str))
  const sent = []
  const options = {
    ...extra, ...e.own, model: v.any('model', T.str), apiKey: priv, headers: priv === undefined ? undefined : { 'x-a': priv }, baseURL: 'http://h.test/v1/',
    ...Object.fromEntries((e.hooks ?? []).map(h => [h, priv === undefined ? undefined : () => priv])),
    fetch: async (url, init) => { sent.push(init.body); throw new Error('offline') },
  }
  const choice = e.hooks ? v.any('choice', T.opt(T.oneOf('auto', 'none'))) : undefined
  if (e.hooks) options.toolChoice = choice
  const list = e.hooks && tools ? v.any('tools', T.opt(T.arr(T.obj({ type: T.lit('function'), function: T.open({ name: T.str, parameters: T.json }), execute: T.str })))) : undefined
  if (list !== undefined) options.tools = list
  await run(v, () => e.go(options))
  v.eq('one request', sent.length, 1)
  const want = { ...Object.fromEntries(Object.entries(extra).filter(x => x[1] !== undefined).map(x => [snake(x[0]), x[1]])), ...e.own, model: options.model, ...e.adds }
  if (choice !== undefined) want.tool_choice = choice
  if (list !== undefined) want.tools = list.map(t => ({ type: t.type, function: t.function }))
  v.eq('the body', JSON.parse(sent[0]), want)
}
export const C01_chat = v => body(v, json.chat, true)
export const C01_generateText = v => body(v, json.generateText, true)
export const C01_streamText = v => body(v, json.streamText, true)
export const C01_responses = v => body(v, json.responses)
export const C01_embed = v => body(v, json.embed)
export const C01_embedMany = v => body(v, json.embedMany)
export const C01_image = v => body(v, json.image)
export const C01_speech = v => body(v, json.speech)
export const C01_streamSpeech = v => body(v, json.streamSpeech)
/** every request of a run of any number of steps */
export const C01_generateTextSteps = async (v) => { const { r } = await textRun(v, { request: { body: true }, plain: true }); v.ensure('the run succeeds', r.state === 'fulfilled') }
export const C01_streamTextSteps = async (v) => { const { steps } = await streamRun(v, { request: { body: true } }); v.ensure('the run succeeds', steps.state === 'fulfilled') }
export const C01_responsesSteps = async (v) => { const { steps } = await respRun(v, { request: { body: true } }); v.ensure('the run succeeds', steps.state === 'fulfilled') }
