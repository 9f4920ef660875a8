// One Responses step with any number of completed output items, among them any number of function calls, in any order.
import { T } from 'verif'
import { executeTool } from '@xsai/shared-chat'
import { responses } from '@xsai-ext/responses'

import { callerItem } from './resprun'
import { run, server } from './lib'

const callType = T.obj({ id: T.str, type: T.lit('function_call'), call_id: T.str, name: T.str, arguments: T.text })
const other = T.obj({ type: T.oneOf('message', 'reasoning', 'compaction'), id: T.str })
const done = T.obj({ type: T.lit('response.output_item.done'), item: T.or(callType, other) })
const callOf = c => ({ args: c.arguments, toolCallId: c.call_id, toolCallType: 'function', toolName: c.name })

export const callStep = async (v) => {
  const chunks = v.any('chunks', T.arr(done)), stop = v.any('stop', T.bool), uuid = v.any('uuid', T.str), given = v.any('input', T.arr(callerItem))
  const perform = v.fn('perform', { returns: T.obj({ content: T.or(T.str, T.arr(T.obj({ type: T.lit('input_text'), text: T.str }))), value: T.any, isError: T.opt(T.lit(true)), toolName: T.str, args: T.any }) })
  if (!v.isSymbolic()) v.stop() // executeTool is replaced by its contract
  crypto.randomUUID = () => uuid
  v.contract(executeTool, async (x) => {
    const r = perform(x.toolCall.id)
    return {
      completionToolCall: { args: x.toolCall.function.arguments, toolCallId: x.toolCall.id, toolCallType: x.toolCall.type, toolName: x.toolCall.function.name },
      completionToolResult: { args: r.args, isError: r.isError, result: r.value, toolCallId: x.toolCall.id, toolName: r.toolName },
      result: r.content,
    }
  })
  const g = { history: [...given], calls: [], summaries: [], events: [], told: [], sent: [], steps: [] }
  const tap = (e) => {
    if (e.type !== 'response.output_item.done') return
    g.history.push(e.item)
    if (e.item.type === 'function_call') { g.calls.push(e.item); g.summaries.push(callOf(e.item)); g.events.push({ ...callOf(e.item), type: 'tool-call.done' }) }
  }
  const resultOf = (c) => { const x = perform(c.call_id); return { args: x.args, isError: x.isError, result: x.value, toolCallId: c.call_id, toolName: x.toolName } }
  const offline = new Error('offline')
  const tools = [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'unused' }]
  const r = responses({
    baseURL: 'http://h.test/', model: 'm', input: given, tools,
    fetch: async (url, init) => {
      g.sent.push(JSON.parse(init.body).input)
      if (g.sent.length > 1) throw offline
      return server(v, chunks, tap, undefined, JSON.stringify({ type: 'response.completed', response: { output: [], usage: null } }))
    },
    stopWhen: (c) => { v.eq('the history given to the stop condition', c.input, g.history); v.eq('its calls', c.step.toolCalls, g.summaries); return stop },
    onStepFinish: (s) => { g.steps.push(s) },
    onEvent: (e) => { g.told.push(e) },
  })
  const [steps] = await Promise.all([v.settled(r.steps), v.settled(r.input), v.settled(r.usage), v.settled(r.totalUsage)])
  const ran = !stop && g.calls.length > 0
  v.ensure('one step', g.steps.length === 1)
  v.eq('the calls of the step', g.steps[0].toolCalls, ran ? g.calls.map(callOf) : g.summaries)
  v.eq('their results', g.steps[0].toolResults, ran ? g.calls.map(resultOf) : [])
  v.eq('the events', g.told, [...g.events, ...ran ? g.calls.map(c => ({ ...resultOf(c), type: 'tool-result.done' })) : [], { type: 'step.done', usage: undefined }])
  v.ensure('it goes on if there were calls and it did not stop', g.sent.length === (ran ? 2 : 1))
  if (ran) {
    v.ensure('and then fails as the server is gone', steps.state === 'rejected' && steps.value === offline)
    v.eq('the input of the next request', g.sent[1], [...g.history, ...g.calls.map(c => ({ type: 'function_call_output', id: uuid, status: 'completed', call_id: c.call_id, output: perform(c.call_id).content }))])
  }
  else v.ensure('the run succeeds', steps.state === 'fulfilled')
}
