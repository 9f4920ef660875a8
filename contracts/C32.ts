// No contract allows the code to write to an object it does not own: every write to an object of the caller is a failed
// obligation of its own ("frame: …"), wherever it happens. The contracts here run the entry points on options that are unknown
// at every depth; the options object must be as it was and a second call must send the same request.
import { T } from 'verif'
import { defineTool, rawTool, tool } from '@xsai/tool'
import { strictJsonSchema } from 'xsschema'
import { induct, options, schemaType, standard, whole } from './C26'
import { all } from './endpoints'
import { run, server } from './lib'
import { textRun } from './runspec'
import { streamRun } from './streamrun'
import { respRun } from './resprun'
import { executeTool } from '@xsai/shared-chat'
import { callerMessage } from './runspec'
import { callerItem } from './resprun'

const reserved = ['model', 'messages', 'input', 'prompt', 'voice', 'stream', 'tools', 'apiKey', 'baseURL', 'headers', 'fetch', 'abortSignal', 'streamOptions', 'streamFormat', 'toolChoice', 'file', 'fileName', 'onEvent', 'onFinish', 'onStepFinish', 'postToolCall', 'preToolCall', 'prepareStep', 'stopWhen', 'maxSteps', 'steps', 'usage', 'totalUsage', 'finishReason', 'stepType', 'toolCalls', 'toolResults', 'text', 'n', 'responseFormat']
const snake = s => s.replace(/[A-Z]/g, c => '_' + c.toLowerCase())
/** any options, used for two calls */
const twice = async (v, e, more = {}, answer) => {
  const extra = e.json ? v.any('extra', T.rec(T.json, [...reserved, ...reserved.map(snake)])) : {}
  const sent = []
  const fetch = async (url, init) => {
    sent.push({ url: String(url), body: init.body, headers: { ...init.headers } })
    if (answer === undefined) throw new Error('offline')
    return answer()
  }
  const options = { ...extra, ...e.own, model: v.any('model', T.str), baseURL: 'http://h.test/v1/', apiKey: v.any('key', T.opt(T.token)), headers: v.any('headers', T.opt(T.rec(T.opt(T.token)))), fetch, ...more }
  const before = { ...options }
  await run(v, () => e.go(options))
  v.eq('the options after a call', options, before)
  await run(v, () => e.go(options))
  v.eq('the options after two calls', options, before)
  v.eq('two requests', sent.length, 2)
  v.eq('the same request', sent[1], sent[0])
}
const anyTools = v => v.any('tools', T.opt(T.arr(T.obj({ type: T.lit('function'), function: T.open({ name: T.str, parameters: T.json }), execute: T.opaque }))))
const chatOptions = v => ({ messages: v.any('messages', T.arr(callerMessage)), tools: anyTools(v), toolChoice: v.any('choice', T.json) })
export const C32_chat = v => twice(v, all.chat, chatOptions(v))
export const C32_generateText = v => twice(v, all.generateText, chatOptions(v))
export const C32_streamText = v => twice(v, all.streamText, { ...chatOptions(v), streamOptions: v.any('streamOptions', T.opt(T.open({ include_usage: T.opt(T.bool) }))) })
export const C32_responses = v => twice(v, all.responses, { input: v.any('input', T.or(T.str, T.arr(callerItem))), tools: anyTools(v) })
const anyJson = (v) => { const answer = v.any('answer', T.json); return () => Response.json(answer) }
export const C32_embed = v => twice(v, all.embed, {}, anyJson(v))
export const C32_embedMany = v => twice(v, all.embedMany, { input: v.any('inputs', T.arr(T.str)) }, anyJson(v))
export const C32_image = v => twice(v, all.image)
export const C32_speech = v => twice(v, all.speech, {}, () => new Response(new Uint8Array([1])))
export const C32_streamSpeech = v => twice(v, all.streamSpeech)
export const C32_transcription = v => twice(v, all.transcription, {}, anyJson(v))
export const C32_streamTranscription = v => twice(v, all.streamTranscription)
export const C32_listModels = v => twice(v, all.listModels, {}, anyJson(v))
export const C32_retrieveModel = v => twice(v, all.retrieveModel, {}, anyJson(v))
// whole runs, with any number of steps
export const C32_textRun = async (v) => {
  const { r } = await textRun(v, { history: true })
  v.ensure('the run succeeds', r.state === 'fulfilled')
}
export const C32_streamRun = async (v) => {
  const { steps } = await streamRun(v, { history: true })
  v.ensure('the run succeeds', steps.state === 'fulfilled')
}
export const C32_responsesRun = async (v) => {
  const { steps } = await respRun(v, { history: true })
  v.ensure('the run succeeds', steps.state === 'fulfilled')
}
/** one tool call: the tools, the messages, the call and what hooks and validators give */
export const C32_tool = async (v) => {
  const tools = v.any('tools', T.arr(T.obj({ type: T.lit('function'), function: T.obj({ name: T.str, parameters: T.json }), execute: T.opaque })))
  const messages = v.any('messages', T.arr(callerMessage))
  const toolCall = v.any('call', T.obj({ id: T.str, type: T.lit('function'), function: T.obj({ name: T.str, arguments: T.str }) }))
  const given = v.any('given', T.json), result = v.any('result', T.json)
  const one = { type: 'function', function: { name: 't', parameters: {} }, execute: () => result, validate: () => ({ value: given }) }
  const r = await run(v, () => executeTool({ messages, toolCall, tools: [one] }))
  v.ensure('the call is answered', r.state === 'fulfilled')
  const args = v.any('args', T.json)
  const hooked = await run(v, () => executeTool({ messages, toolCall, tools: [one], preToolCall: () => ({ args: '{}', toolCallId: toolCall.id, toolCallType: 'function', toolName: 't' }), postToolCall: x => ({ ...x, args, result }) }))
  v.ensure('the hooked call is answered', hooked.state === 'fulfilled')
}
/** the builders: schemas at every depth (by induction, see C26) and the options of a tool */
export const C32_strict = (v) => {
  const strict = induct(v)
  const given = v.any('schema', schemaType)
  const made = strictJsonSchema(given)
  v.ensure('another object', made !== given)
  v.eq('the same again', strictJsonSchema(given), made)
}
const built = async (v, make, o) => {
  const before = { ...o }
  const [first, second] = [await run(v, () => make(o)), await run(v, () => make(o))]
  v.eq('the options of the tool', o, before)
  v.ensure('both are built', first.state === 'fulfilled' && second.state === 'fulfilled')
  v.eq('the same schema', second.value.function, first.value.function)
}
export const C32_rawTool = async (v) => {
  whole(v)
  await built(v, rawTool, { ...options(v), parameters: v.any('schema', schemaType) })
}
export const C32_defineTool = async (v) => {
  whole(v)
  await built(v, defineTool, { ...options(v), parameters: standard(v, v.any('schema', schemaType)).schema })
}
export const C32_toolBuilder = async (v) => {
  whole(v)
  await built(v, tool, { ...options(v), parameters: standard(v, v.any('schema', schemaType)).schema })
}
