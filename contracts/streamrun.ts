// A whole streamText run of any length; each step's answer is a text (or reasoning) fragment, possibly two tool calls and a last chunk.
// (How a step's answer is put together from arbitrary chunks is C13, C14 and C15.) See runspec.ts for generateText.
import { T } from 'verif'
import { executeTool } from '@xsai/shared-chat'
import { streamText } from '@xsai/stream-text'
import { callerMessage, usageType } from './streamspec'
import { server } from './lib'
import { fine, tracing } from './tracing'
import { request } from './request'

const callType = T.obj({ id: T.str, type: T.lit('function'), function: T.obj({ name: T.str, arguments: T.text }) })
const answer = usage => T.obj({ content: T.str, first: callType, second: callType, calls: T.bool, finish: T.oneOf('stop', 'length', 'tool_calls'), usage })
const usageOf = u => u === undefined ? undefined : ({ inputTokens: u.prompt_tokens, outputTokens: u.completion_tokens, totalTokens: u.total_tokens })
const callOf = c => ({ args: c.function.arguments, toolCallId: c.id, toolCallType: 'function', toolName: c.function.name })
const add = (a, b) => b === undefined ? a : a === undefined ? b : { inputTokens: a.inputTokens + b.inputTokens, outputTokens: a.outputTokens + b.outputTokens, totalTokens: a.totalTokens + b.totalTokens }

export const streamRun = async (v, o) => {
  if (!v.isSymbolic()) v.stop() // executeTool is replaced by its contract; the oracles of these properties run whole conversations on the real code
  const answerOf = v.fn('answer', { returns: answer(o.steps || o.context ? usageType : T.undef) }), stops = v.fn('stops', { returns: T.bool }), abort = v.fn('aborts', { returns: T.bool })
  const perform = v.fn('perform', { returns: T.obj({ content: T.or(T.str, T.arr(T.obj({ type: T.lit('text'), text: T.str }))), value: T.any, isError: T.opt(T.lit(true)), toolName: T.str, args: T.any }) })
  const prepare = v.fn('prepare', { returns: T.opt(T.obj(o.prepare ?? {})) })
  const given = v.any('messages', T.arr(callerMessage))
  const model = v.any('model', T.str), toolChoice = v.any('choice', T.opt(T.oneOf('auto', 'required')))
  const reason = new Error('user abort')
  const g = { k: 0, requests: 0, model: undefined, history: [...given], expect: 'more', aborted: false, inTools: false, mayReject: false, asked: 0, finished: 0, ended: 0, total: undefined, steps: [], step: undefined, before: [], last: undefined }
  if (o.abort) g.aborted = o.abort.includes('before') && v.any('abortedBefore', T.bool)
  const flip = (at) => { if (o.abort && o.abort.includes(at) && abort(at, g.k)) g.aborted = true }
  const abortSignal = o.abort ? { get aborted() { return g.aborted || (g.inTools && o.abort.includes('tools') && abort('tools', g.k)) }, reason, addEventListener: () => {}, removeEventListener: () => {} } : undefined
  const tools = [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'unused' }]
  const preToolCall = () => {}, postToolCall = () => {}
  v.contract(executeTool, async (x) => {
    if (o.abort) v.ensure('no tool runs after an abort that was seen', g.expect !== 'rejected')
    v.ensure('it is given the options of the run', x.abortSignal === (req ? req.signal : abortSignal) && x.preToolCall === preToolCall && x.postToolCall === postToolCall)
    v.ensure('and its tools', o.telemetry ? x.tools.length === 1 && x.tools[0].function === tools[0].function : x.tools === tools)
    const r = perform(g.k, x.toolCall.id)
    return {
      completionToolCall: callOf(x.toolCall),
      completionToolResult: { args: r.args, isError: r.isError, result: r.value, toolCallId: x.toolCall.id, toolName: r.toolName },
      result: r.content,
    }
  })
  // o.telemetry: the version with telemetry, with a span per request
  const spans = o.telemetry ? tracing(v, { start: rec => o.described && v.eq('the conversation on the span', rec.attributes['gen_ai.input.messages'], JSON.stringify(g.history)), end: (rec) => {
    v.ensure('a span ends after its request', spans.ended === g.requests)
    v.eq('the name of the span', rec.name, 'chat ' + g.model)
    if (g.expect === 'rejected') return
    fine(v, rec)
    if (o.steps) v.eq('the usage on the span', [rec.attributes['gen_ai.usage.input_tokens'], rec.attributes['gen_ai.usage.output_tokens']], [g.step.usage.inputTokens, g.step.usage.outputTokens])
  } }) : undefined
  // o.request: what every request of the run is (C01..C03)
  const req = o.request ? request(v, o.request, { path: 'chat/completions', conversation: 'messages', own: { model, stream: true, tools: [{ type: 'function', function: tools[0].function }], ...toolChoice === undefined ? {} : { tool_choice: toolChoice } } }) : undefined
  const fetch = async (url, init) => {
    const body = JSON.parse(init.body)
    if (req) req.check(url, init, body)
    const k = g.k
    if (spans) { v.ensure('a request has a span of its own', spans.opened === g.requests + 1 && spans.ended === g.requests); g.model = body.model; v.ensure('the telemetry option is not sent', body.telemetry === undefined) }
    v.ensure('a request is sent only while the run goes on', g.expect === 'more')
    const over = o.prepare ? prepare(k) : undefined
    if (o.history) v.eq('the messages of the request', body.messages, over?.input ?? g.history)
    if (o.override) {
      v.eq('the model of the request', body.model, over?.model ?? model)
      v.eq('the tool choice of the request', body.tool_choice, over?.toolChoice ?? toolChoice)
    }
    if (o.steps) v.eq('the callbacks before the request', g.finished, g.requests)
    const r = answerOf(k)
    const calls = r.calls ? [{ index: 0, ...r.first }, { index: 1, ...r.second }] : []
    const stop = stops(k)
    const ran = calls.length > 0 && !stop
    if (o.history || o.context) {
      const m = { role: 'assistant', content: r.content, tool_calls: calls.length > 0 ? calls : undefined }
      g.after = [...g.history, m]
      g.history = ran ? [...g.after, ...calls.map(c => ({ role: 'tool', tool_call_id: c.id, content: perform(k, c.id).content }))] : g.after
    }
    if (o.steps || o.context) {
      g.last = usageOf(r.usage)
      g.before = g.steps
      g.step = {
        finishReason: r.finish, text: r.content, usage: g.last, toolCalls: calls.map(callOf),
        toolResults: ran ? calls.map((c) => { const x = perform(k, c.id); return { args: x.args, isError: x.isError, result: x.value, toolCallId: c.id, toolName: x.toolName } }) : [],
      }
      g.steps = [...g.steps, { ...g.step }]
      g.total = add(g.total, g.last)
    }
    g.requests++
    flip('fetch')
    g.expect = g.aborted ? 'rejected' : ran ? 'more' : 'done'
    return server(v, [
      { choices: [{ delta: { content: r.content } }] },
      ...calls.length > 0 ? [{ choices: [{ delta: { tool_calls: calls } }] }] : [],
      { choices: [{ delta: {}, finish_reason: r.finish }], usage: r.usage },
    ], () => {})
  }
  const stopWhen = (c) => {
    if (o.context) {
      v.eq('the history given to the stop condition', c.input, g.after)
      v.eq('the step given to the stop condition', c.step, { ...g.step, toolResults: [] })
      v.eq('the steps given to the stop condition', c.steps, [...g.before, { ...g.step, toolResults: [] }])
    }
    g.asked++
    v.eq('the stop condition is asked once per step', g.asked, g.requests)
    flip('stop')
    if (o.abort && g.expect === 'more') g.inTools = true
    if (o.abort && abortSignal.aborted) { g.expect = 'done'; g.mayReject = true }
    return stops(g.k)
  }
  const onStepFinish = (s) => {
    if (o.steps) v.eq('the step given to the callback', s, g.step)
    if (o.abort && abortSignal.aborted) g.aborted = true
    g.inTools = false
    g.finished++
    g.k++
    flip('finish')
  }
  const s = (o.telemetry ?? streamText)({
    ...req ? req.options : { apiKey: 'key', baseURL: 'http://host.test/' }, model, messages: given, toolChoice, fetch, abortSignal: req ? req.signal : abortSignal,
    tools, preToolCall, postToolCall,
    ...o.telemetry ? { telemetry: { attributes: { a: 'b' } } } : {},
    prepareStep: o.prepare ? () => prepare(g.k) : undefined,
    stopWhen, onStepFinish,
    onFinish: (last) => { g.ended++; if (o.steps) v.eq('the last step', last, g.step) },
  })
  const [steps, messages, usage, total] = await Promise.all([v.settled(s.steps), v.settled(s.messages), v.settled(s.usage), v.settled(s.totalUsage)])
  if (spans) v.ensure('every span was ended', spans.opened === g.requests && spans.ended === g.requests)
  return { s, steps, messages, usage, total, g, given, model, reason }
}
