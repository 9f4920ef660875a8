// A whole generateText run of any length against a server, tools, hooks and stop condition that behave as they like.
// The ghost state (g) follows the documentation step by step; the loop invariant relating it to the code is inferred.
import { T } from 'verif'
import { executeTool } from '@xsai/shared-chat'
import { generateText } from '@xsai/generate-text'
import { run } from './lib'
import { fine, tracing } from './tracing'
import { request } from './request'

const calls = T.opt(T.arr(T.obj({ id: T.str, type: T.lit('function'), function: T.obj({ name: T.str, arguments: T.str }) })))
const plainMessage = T.obj({ role: T.lit('assistant'), content: T.str, tool_calls: calls })
const message = T.obj({
  role: T.lit('assistant'),
  content: T.or(T.str, T.null, T.arr(T.obj({ type: T.oneOf('text', 'refusal'), text: T.str }))),
  reasoning: T.opt(T.str), reasoning_content: T.opt(T.str), refusal: T.opt(T.str),
  tool_calls: calls,
})
// no tool calls, so that only one step is made
const partsMessage = T.obj({ role: T.lit('assistant'), content: T.or(T.null, T.str, T.arr(T.obj({ type: T.oneOf('text', 'refusal'), text: T.str }))), reasoning: T.opt(T.str), reasoning_content: T.opt(T.str) })
const usageType = T.obj({ prompt_tokens: T.nat, completion_tokens: T.nat, total_tokens: T.nat })
const reply = message => T.obj({ choices: T.arr(T.obj({ finish_reason: T.oneOf('stop', 'length', 'tool_calls', 'content_filter'), index: T.nat, message }), 1), usage: usageType })
export const callerMessage = T.obj({ role: T.oneOf('system', 'user', 'assistant', 'tool', 'developer'), content: T.json })
export const overrideInput = { input: T.opt(T.arr(callerMessage)) }, overrideModel = { model: T.opt(T.str) }, overrideChoice = { toolChoice: T.opt(T.oneOf('auto', 'none', 'required')) }
const textOf = m => Array.isArray(m.content) ? m.content.filter(p => p.type === 'text').map(p => p.text).join('\n') : m.content
const usageOf = u => ({ inputTokens: u.prompt_tokens, outputTokens: u.completion_tokens, totalTokens: u.total_tokens })
const callOf = c => ({ args: c.function.arguments, toolCallId: c.id, toolCallType: 'function', toolName: c.function.name })
const add = (a, b) => a === undefined ? b : { inputTokens: a.inputTokens + b.inputTokens, outputTokens: a.outputTokens + b.outputTokens, totalTokens: a.totalTokens + b.totalTokens }

/** o: what to check (history, override, steps, context, going) and how the environment behaves (prepare: the overrides the hook may return, abort, stop), plain: only replies with a plain string as content, parts: only replies without tool calls, telemetry: the version with telemetry */
export const textRun = async (v, o) => {
  if (!v.isSymbolic()) v.stop() // executeTool is replaced by its contract; the oracles of these properties run whole conversations on the real code
  const replyOf = v.fn('reply', { returns: reply(o.plain ? plainMessage : o.parts ? partsMessage : message) }), stops = v.fn('stops', { returns: T.bool }), abort = v.fn('aborts', { returns: T.bool })
  const perform = v.fn('perform', { returns: T.obj({ content: T.or(T.str, T.arr(T.obj({ type: T.lit('text'), text: T.str }))), value: T.any, isError: T.opt(T.lit(true)), toolName: T.str, args: T.any }) })
  const prepare = v.fn('prepare', { returns: T.opt(T.obj(o.prepare ?? {})) })
  const given = v.any('messages', T.arr(callerMessage))
  const model = v.any('model', T.str), toolChoice = v.any('choice', T.opt(T.oneOf('auto', 'required')))
  const reason = new Error('user abort')

  // --- what the documentation says, kept in step with the run
  const g = { k: 0, requests: 0, model: undefined, history: [...given], expect: 'more', aborted: false, inTools: false, mayReject: false, asked: 0, finished: 0, executed: [], mustExecute: [], total: undefined, steps: [], step: undefined, before: [], message: undefined }
  if (o.abort) g.aborted = o.abort.includes('before') && v.any('abortedBefore', T.bool)
  const flip = (at) => { if (o.abort && o.abort.includes(at) && abort(at, g.k)) g.aborted = true }
  // o.abort: where the abort may happen (once seen nothing else matters, so the contracts together cover every place)
  // the caller may abort before the run, at a request, in the stop condition, while the tools run, or in the step callback
  const abortSignal = o.abort ? { get aborted() { return g.aborted || (g.inTools && o.abort.includes('tools') && abort('tools', g.k)) }, reason, addEventListener: () => {}, removeEventListener: () => {} } : undefined
  // one tool call, by the contract of executeTool (C07..C09): an outcome for the same id
  const tools = [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'unused' }]
  const preToolCall = () => {}, postToolCall = () => {}
  v.contract(executeTool, async (x) => {
    if (o.abort) v.ensure('no tool runs after an abort that was seen', g.expect !== 'rejected')
    if (o.going) g.executed.push(x.toolCall.id)
    v.ensure('it is given the options of the run', x.abortSignal === (req ? req.signal : abortSignal) && x.preToolCall === preToolCall && x.postToolCall === postToolCall)
    v.ensure('and its tools', o.telemetry ? x.tools.length === 1 && x.tools[0].function === tools[0].function : x.tools === tools)
    const r = perform(g.k, x.toolCall)
    return {
      completionToolCall: callOf(x.toolCall),
      completionToolResult: { args: r.args, isError: r.isError, result: r.value, toolCallId: x.toolCall.id, toolName: r.toolName },
      result: r.content,
    }
  })
  // o.telemetry: the version with telemetry, with a span per request
  const spans = o.telemetry ? tracing(v, { start: rec => o.described && v.eq('the conversation on the span', rec.attributes['gen_ai.input.messages'], JSON.stringify(g.history)), end: (rec) => {
    v.ensure('a span ends after its request', spans.ended === g.requests)
    v.eq('the name of the span', rec.name, 'chat ' + g.model)
    if (g.expect === 'rejected') return
    fine(v, rec)
    if (o.steps) v.eq('the usage on the span', [rec.attributes['gen_ai.usage.input_tokens'], rec.attributes['gen_ai.usage.output_tokens']], [g.step.usage.inputTokens, g.step.usage.outputTokens])
  } }) : undefined
  // o.request: what every request of the run is (C01..C03)
  const req = o.request ? request(v, o.request, { path: 'chat/completions', conversation: 'messages', own: { model, stream: false, tools: [{ type: 'function', function: tools[0].function }], ...toolChoice === undefined ? {} : { tool_choice: toolChoice } } }) : undefined
  const fetch = async (url, init) => {
    const body = JSON.parse(init.body)
    if (req) req.check(url, init, body)
    const k = g.k
    if (spans) { v.ensure('a request has a span of its own', spans.opened === g.requests + 1 && spans.ended === g.requests); g.model = body.model; v.ensure('the telemetry option is not sent', body.telemetry === undefined) }
    v.ensure('a request is sent only while the run goes on', g.expect === 'more')
    const over = o.prepare ? prepare(k) : undefined
    if (o.history) v.eq('the messages of the request', body.messages, over?.input ?? g.history)
    if (o.override) {
      v.eq('the model of the request', body.model, over?.model ?? model)
      v.eq('the tool choice of the request', body.tool_choice, over?.toolChoice ?? toolChoice)
    }
    if (o.steps) v.eq('the callbacks before the request', g.finished, g.requests)
    const r = replyOf(k)
    const m = r.choices[0].message
    const calls = m.tool_calls ?? []
    const stop = o.defaultStop ? true : stops(k)
    const ran = calls.length > 0 && !stop
    if (o.history || o.context) {
      g.after = [...g.history, m]
      g.history = ran ? [...g.history, m, ...calls.map(c => ({ role: 'tool', tool_call_id: c.id, content: perform(k, c).content }))] : [...g.history, m]
    }
    if (o.steps || o.context) {
      const usage = usageOf(r.usage)
      g.before = g.steps
      g.step = {
        finishReason: r.choices[0].finish_reason, text: textOf(m), usage, toolCalls: calls.map(callOf),
        toolResults: ran ? calls.map((c) => { const x = perform(k, c); return { args: x.args, isError: x.isError, result: x.value, toolCallId: c.id, toolName: x.toolName } }) : [],
      }
      g.steps = [...g.steps, { ...g.step }]
      g.total = add(g.total, usage)
      g.reasoning = m.reasoning ?? m.reasoning_content
    }
    if (o.going && ran) g.mustExecute = [...g.mustExecute, ...calls.map(c => c.id)]
    g.requests++
    flip('fetch')
    g.expect = g.aborted ? 'rejected' : ran ? 'more' : 'done'
    return Response.json(r)
  }
  const stopWhen = (c) => {
    if (o.context) {
      v.eq('the history given to the stop condition', c.input, g.after)
      v.eq('the step given to the stop condition', c.step, { ...g.step, toolResults: [] })
      v.eq('the steps given to the stop condition', c.steps, [...g.before, { ...g.step, toolResults: [] }])
    }
    g.asked++
    v.eq('the stop condition is asked once per step', g.asked, g.requests)
    flip('stop')
    if (o.abort && g.expect === 'more') g.inTools = true
    if (o.abort && abortSignal.aborted) { g.expect = 'done'; g.mayReject = true }
    return stops(g.k)
  }
  const onStepFinish = (s) => {
    if (o.steps) v.eq('the step given to the callback', s, g.step)
    if (o.abort && abortSignal.aborted) g.aborted = true
    g.inTools = false
    g.finished++
    g.k++
    flip('finish')
  }
  const r = await run(v, () => (o.telemetry ?? generateText)({
    ...req ? req.options : { apiKey: 'key', baseURL: 'http://host.test/' }, model, messages: given, toolChoice, fetch, abortSignal: req ? req.signal : abortSignal,
    tools, preToolCall, postToolCall,
    ...o.telemetry ? { telemetry: { attributes: { a: 'b' } } } : {},
    prepareStep: o.prepare ? () => prepare(g.k) : undefined,
    stopWhen: o.defaultStop ? undefined : stopWhen, onStepFinish,
  }))
  if (spans) v.ensure('every span was ended', spans.opened === g.requests && spans.ended === g.requests)
  return { r, g, given, model, reason }
}
