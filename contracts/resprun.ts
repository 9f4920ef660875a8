// A whole Responses run of any length; each step's answer is a text delta, one completed item, possibly two completed function calls and the end of the response.
// (Which events a step yields for arbitrary server events is C21.) See streamrun.ts for streamText.
import { T } from 'verif'
import { executeTool } from '@xsai/shared-chat'
import { responses } from '@xsai-ext/responses'

import { server } from './lib'
import { request } from './request'

const callType = T.obj({ id: T.str, type: T.lit('function_call'), call_id: T.str, name: T.str, arguments: T.text })
const usageType = T.obj({ input_tokens: T.nat, output_tokens: T.nat, total_tokens: T.nat })
const answer = u => T.obj({ item: T.obj({ type: T.lit('message'), id: T.str }), delta: T.str, first: callType, second: callType, calls: T.bool, end: T.oneOf('completed', 'failed', 'incomplete'), usage: u })
export const usageOf = u => u === undefined || u === null ? undefined : ({ inputTokens: u.input_tokens, outputTokens: u.output_tokens, totalTokens: u.total_tokens })
export const add = (a, b) => b === undefined ? a : a === undefined ? b : { inputTokens: a.inputTokens + b.inputTokens, outputTokens: a.outputTokens + b.outputTokens, totalTokens: a.totalTokens + b.totalTokens }
const callOf = c => ({ args: c.arguments, toolCallId: c.call_id, toolCallType: 'function', toolName: c.name })
export const callerItem = T.obj({ type: T.oneOf('message', 'function_call', 'function_call_output', 'reasoning'), content: T.json })

export const respRun = async (v, o) => {
  if (!v.isSymbolic()) v.stop() // executeTool is replaced by its contract; the oracles of these properties run whole conversations on the real code
  v.unroll(6) // the reading of one step's answer
  const answerOf = v.fn('answer', { returns: answer(o.steps ? T.opt(usageType) : T.undef) }), stops = v.fn('stops', { returns: T.bool }), abort = v.fn('aborts', { returns: T.bool })
  const perform = v.fn('perform', { returns: T.obj({ content: T.or(T.str, T.arr(T.obj({ type: T.lit('input_text'), text: T.str }))), value: T.any, isError: T.opt(T.lit(true)), toolName: T.str, args: T.any }) })
  const uuid = v.fn('uuid', { returns: T.str })
  crypto.randomUUID = () => uuid(g.ids++)
  const prepare = v.fn('prepare', { returns: T.opt(T.obj(o.prepare ?? {})) })
  const given = v.any('input', o.text ? T.str : T.arr(callerItem))
  const model = v.any('model', T.str), toolChoice = v.any('choice', T.opt(T.oneOf('auto', 'required')))
  const reason = new Error('user abort')
  const g = { k: 0, requests: 0, history: o.text ? [{ type: 'message', role: 'user', content: given }] : [...given], expect: 'more', aborted: false, inTools: false, asked: 0, finished: 0, ended: 0, total: undefined, steps: [], step: undefined, before: [], last: undefined, events: [], told: [], ids: 0 }
  if (o.abort) g.aborted = o.abort.includes('before') && v.any('abortedBefore', T.bool)
  const flip = (at) => { if (o.abort && o.abort.includes(at) && abort(at, g.k)) g.aborted = true }
  const abortSignal = o.abort ? { get aborted() { return g.aborted || (g.inTools && o.abort.includes('tools') && abort('tools', g.k)) }, reason, addEventListener: () => {}, removeEventListener: () => {} } : undefined
  const tools = [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'unused' }]
  v.contract(executeTool, async (x) => {
    if (o.abort) v.ensure('no tool runs after an abort that was seen', g.expect !== 'rejected')
    v.ensure('it is given the options of the run', x.abortSignal === (req ? req.signal : abortSignal) && x.tools === tools && x.preToolCall === preToolCall && x.postToolCall === postToolCall)
    const r = perform(g.k, x.toolCall.id)
    return {
      completionToolCall: { args: x.toolCall.function.arguments, toolCallId: x.toolCall.id, toolCallType: x.toolCall.type, toolName: x.toolCall.function.name },
      completionToolResult: { args: r.args, isError: r.isError, result: r.value, toolCallId: x.toolCall.id, toolName: r.toolName },
      result: r.content,
    }
  })
  const outputOf = (k, c, id) => ({ type: 'function_call_output', id, status: 'completed', call_id: c.call_id, output: perform(k, c.call_id).content })
  const resultOf = (k, c) => { const x = perform(k, c.call_id); return { args: x.args, isError: x.isError, result: x.value, toolCallId: c.call_id, toolName: x.toolName } }
  // o.request: what every request of the run is (C01..C03)
  const req = o.request ? request(v, o.request, { path: 'responses', conversation: 'input', own: { model, stream: true, tools: [{ type: 'function', name: 't', description: null, parameters: {}, strict: true }], ...toolChoice === undefined ? {} : { tool_choice: toolChoice } } }) : undefined
  const fetch = async (url, init) => {
    const body = JSON.parse(init.body)
    if (req) req.check(url, init, body)
    const k = g.k
    v.ensure('a request is sent only while the run goes on', g.expect === 'more')
    const over = o.prepare ? prepare(k) : undefined
    if (o.history) v.eq('the input of the request', body.input, over?.input ?? g.history)
    if (o.override) {
      v.eq('the model of the request', body.model, over?.model ?? model)
      v.eq('the tool choice of the request', body.tool_choice, over?.toolChoice ?? toolChoice)
    }
    if (o.steps) v.eq('the callbacks before the request', g.finished, g.requests)
    const r = answerOf(k)
    const end = o.ends ? r.end : 'completed'
    const calls = r.calls ? [r.first, r.second] : []
    const stop = stops(k)
    const ran = end === 'completed' && calls.length > 0 && !stop
    if (o.history || o.context) {
      g.after = [...g.history, r.item, ...calls]
      g.history = ran ? [...g.after, ...calls.map((c, i) => outputOf(k, c, uuid(g.ids + i)))] : g.after
    }
    if (o.steps || o.context) {
      g.last = usageOf(r.usage)
      g.before = g.steps
      g.step = {
        finishReason: end === 'failed' ? 'error' : end === 'incomplete' ? 'length' : calls.length > 0 ? 'tool-calls' : 'stop', text: undefined, usage: g.last,
        toolCalls: calls.map(callOf), toolResults: ran ? calls.map(c => resultOf(k, c)) : [],
      }
      g.steps = [...g.steps, { ...g.step }]
      g.total = add(g.total, g.last)
    }
    if (o.events) {
      g.events = [...g.events, { type: 'text.delta', delta: r.delta }, ...calls.map(c => ({ ...callOf(c), type: 'tool-call.done' })), ...ran ? calls.map(c => ({ ...resultOf(k, c), type: 'tool-result.done' })) : [], { type: 'step.done', usage: usageOf(r.usage) }]
    }
    g.requests++
    flip('fetch')
    g.expect = g.aborted && end === 'completed' ? 'rejected' : ran ? 'more' : 'done'
    return server(v, [
      { type: 'response.output_text.delta', delta: r.delta },
      { type: 'response.output_item.done', item: r.item },
      ...calls.map(item => ({ type: 'response.output_item.done', item })),
      { type: `response.${end}`, response: { output: calls, usage: r.usage } },
    ], () => {})
  }
  const stopWhen = (c) => {
    if (o.context) {
      v.eq('the history given to the stop condition', c.input, g.after)
      v.eq('the step given to the stop condition', c.step, { ...g.step, toolResults: [] })
      v.eq('the steps given to the stop condition', c.steps, [...g.before, { ...g.step, toolResults: [] }])
    }
    g.asked++
    v.eq('the stop condition is asked once per step', g.asked, g.requests)
    flip('stop')
    if (o.abort && g.expect === 'more') g.inTools = true
    if (o.abort && abortSignal.aborted) g.expect = 'done'
    return stops(g.k)
  }
  const onStepFinish = (s) => {
    if (o.steps) v.eq('the step given to the callback', s, g.step)
    g.inTools = false
    g.finished++
    g.k++
    flip('finish')
  }
  const preToolCall = () => {}, postToolCall = () => {}
  const s = responses({
    ...req ? req.options : { apiKey: 'key', baseURL: 'http://host.test/' }, model, input: given, toolChoice, fetch, abortSignal: req ? req.signal : abortSignal, tools, preToolCall, postToolCall,
    prepareStep: o.prepare ? () => prepare(g.k) : undefined,
    stopWhen, onStepFinish,
    onEvent: o.events ? (e) => { g.told.push(e) } : undefined,
    onFinish: (last) => { g.ended++; if (o.steps) v.eq('the last step', last, g.step) },
  })
  const [steps, input, usage, total] = await Promise.all([v.settled(s.steps), v.settled(s.input), v.settled(s.usage), v.settled(s.totalUsage)])
  return { s, steps, input, usage, total, g, given, model, reason }
}
