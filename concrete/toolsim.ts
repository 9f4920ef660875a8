// Random tool-call scenarios and what the documentation says must happen for one call.
import { check, diff, fail, same } from './lib'

export interface Scenario { tools: any[] | undefined, call: any, pre: any, post: any, abort: 'none' | 'live' | 'before' | 'in-pre' | 'in-validate' | 'in-execute', spec: any }

export const resultValue = (g: any): any => g.weighted([
  [3, () => g.str()], [2, () => g.obj(2)], [1, () => ({ text: g.str(), type: 'text' })], [1, () => []],
  [2, () => g.list(() => ({ type: g.pick(['text', 'image_url', 'input_audio', 'file', 'input_text', 'input_image', 'input_file', 'other']), text: g.str() }), 0, 3)],
  [1, () => g.list(() => g.json(1), 0, 3)], [1, () => [null]], [1, () => ['text']], [1, () => [{ type: 'text', text: 'x' }, 'y']], [1, () => g.int(0, 9) as any], [1, true as any], [1, null as any],
])
export const CHAT_PARTS = ['file', 'image_url', 'input_audio', 'text']
export const RESP_PARTS = ['input_file', 'input_image', 'input_text']
export const encode = (r: any, parts: string[]) => typeof r === 'string' ? r : Array.isArray(r) && r.every(x => x !== null && typeof x === 'object' && 'type' in x && parts.includes(x.type)) ? r : JSON.stringify(r)

const thrown = (g: any) => g.weighted([[4, () => new Error('E-' + g.word())], [1, () => new TypeError('T-' + g.word())], [1, () => 'S-' + g.word()], [1, () => 42], [1, () => null], [1, () => undefined]])
const msgOf = (e: any) => e instanceof Error ? e.message : String(e)
const NAMES = ['weather', 'add', 'Search_2', 'a']
const badJson = ['{', '{"a":', 'oops', '{a:1}', '[1,', "{'a':1}", 'undefined', '{"a":1}}', '"unterminated']

/** a tool whose behaviour is drawn at random but fixed; log receives what happens */
export const mkTool = (g: any, name: string, log: any[], fired: { abort?: () => void } = {}, abortIn?: string): any => {
  const v = g.pick(['none', 'none', 'same', 'transform', 'issues', 'throws', 'async-transform', 'maybe', 'null', 'undef'])
  const x = g.pick(['value', 'value', 'value', 'throws', 'async-throws', 'async'])
  const val = resultValue(g), err = thrown(g), verr = thrown(g)
  const wait = g.int(0, 2)
  const t: any = {
    type: 'function',
    function: { name, parameters: { type: 'object', properties: {} } },
    execute: (input: any, options: any) => {
      log.push({ k: 'execute', name, input, options })
      if (abortIn === 'in-execute') fired.abort?.()
      if (x === 'throws') throw err
      if (x === 'async-throws') return (async () => { for (let i = 0; i < wait; i++) await null; throw err })()
      return x === 'async' ? (async () => { for (let i = 0; i < wait; i++) await new Promise(r => setImmediate(r)); return val })() : val
    },
  }
  Object.defineProperty(t, 'meta', { value: { v, x, val, err, verr }, enumerable: false })
  if (v !== 'none') t.validate = (input: any) => {
    log.push({ k: 'validate', name, input: structuredClone(input) })
    if (abortIn === 'in-validate') fired.abort?.()
    switch (v) {
      case 'same': return { value: input }
      case 'transform': return { value: { validated: input } }
      case 'async-transform': return (async () => ({ value: [input] }))()
      case 'null': return { value: null }
      case 'undef': return (async () => ({ value: undefined }))()
      case 'maybe': return input && typeof input === 'object' && 'a' in input ? { value: input } : { issues: [{ message: 'needs a' }] }
      case 'issues': return { issues: input && typeof input === 'object' && Object.keys(input).length % 2 ? [] : [{ message: 'bad' }] }
      default: throw verr
    }
  }
  return t
}
const validated = (t: any, input: any): { value: any } | { issues: true } | { throws: any } => {
  switch (t.meta.v) {
    case 'none': case 'same': return { value: input }
    case 'transform': return { value: { validated: input } }
    case 'async-transform': return { value: [input] }
    case 'null': return { value: null }
    case 'undef': return { value: undefined }
    case 'maybe': return input && typeof input === 'object' && 'a' in input ? { value: input } : { issues: true }
    case 'issues': return { issues: true }
    default: return { throws: t.meta.verr }
  }
}
export const argsText = (g: any) => g.weighted([[5, () => JSON.stringify(g.json(2))], [3, () => JSON.stringify({ a: g.json(1) })], [1, ''], [1, '  \n'], [1, ' {"a":1} '], [2, () => g.pick(badJson)], [1, 'null'], [1, '0'], [1, '"s"']])
export const toolCall = (g: any, id = 'call_' + g.word()) => ({ id, type: 'function', function: { name: g.weighted([[8, () => g.pick(NAMES)], [1, () => g.word()], [1, '']]), arguments: argsText(g) } })

export const scenario = (g: any, o: { hooks?: boolean, missing?: boolean } = {}) => {
  const log: any[] = []
  const abortIn = g.weighted([[4, 'none'], [2, 'live'], [1.5, 'before'], [0.7, 'in-pre'], [0.7, 'in-validate'], [0.7, 'in-execute']])
  const ac = new AbortController()
  const fired = { abort: () => ac.abort(new Error('user abort')) }
  const names = g.shuffle(NAMES).slice(0, g.int(0, 4))
  const tools = names.length || g.bool() ? names.map((n: string) => mkTool(g, n, log, fired, abortIn)) : undefined
  if (tools && tools.length && g.bool(0.15)) tools.push(mkTool(g, tools[0].function.name, log, fired, abortIn)) // a duplicate name: the first counts
  const call: any = toolCall(g)
  if (o.missing !== false && g.bool(0.06)) { if (g.bool()) delete call.function.name; else call.function.name = null }
  if (o.missing !== false && g.bool(0.06)) { if (g.bool()) delete call.function.arguments; else call.function.arguments = null }
  const pre = g.weighted([[5, 'none'], [1, 'nothing'], [2, 'call'], [2, 'result'], [1, 'throws'], [0.7, 'call-other-id'], [0.7, 'result-other-id'], [0.6, 'error-result']])
  const post = g.weighted([[5, 'none'], [1, 'nothing'], [2, 'result'], [1, 'throws'], [0.7, 'result-other-id']])
  const preName = g.pick([...NAMES, 'nope']), preArgs = argsText(g), preVal = resultValue(g), postVal = resultValue(g), preErr = thrown(g), postErr = thrown(g), preAsync = g.bool(), postAsync = g.bool()
  const id = call.id
  const preHook = pre === 'none' ? undefined : (c: any, opt: any) => {
    log.push({ k: 'pre', call: structuredClone(c), options: opt })
    if (abortIn === 'in-pre') fired.abort()
    const go = () => {
      switch (pre) {
        case 'nothing': return undefined
        case 'call': return { args: preArgs, toolCallId: id, toolCallType: 'function', toolName: preName }
        case 'call-other-id': return { args: preArgs, toolCallId: id + 'x', toolCallType: 'function', toolName: preName }
        case 'result': return { args: {}, result: preVal, toolCallId: id, toolName: 'w' }
        case 'error-result': return { args: {}, result: preVal, isError: true, toolCallId: id, toolName: 'w' }
        case 'result-other-id': return { args: {}, result: preVal, toolCallId: '', toolName: 'w' }
        default: throw preErr
      }
    }
    return preAsync ? (async () => go())() : go()
  }
  const postHook = post === 'none' ? undefined : (r: any, opt: any) => {
    log.push({ k: 'post', result: structuredClone(r), options: opt })
    const go = () => {
      switch (post) {
        case 'nothing': return undefined
        case 'result': return { args: r.args, result: postVal, toolCallId: id, toolName: r.toolName, isError: r.isError }
        case 'result-other-id': return { args: r.args, result: postVal, toolCallId: id + '!', toolName: r.toolName }
        default: throw postErr
      }
    }
    return postAsync ? (async () => go())() : go()
  }
  if (abortIn === 'before') fired.abort()
  const signal = abortIn === 'none' ? undefined : ac.signal
  g.note('tools', tools?.map((t: any) => [t.function.name, t.meta])); g.note('call', structuredClone(call)); g.note('hooks', { pre, preName, preArgs, preVal, preErr, post, postVal, postErr, preAsync, postAsync }); g.note('abort', abortIn)

  // what must happen
  const want: any = { executed: undefined, validated: 0, post: 0, pre: preHook ? 1 : 0 }
  const decide = () => {
    if (call.function.name == null) { want.pre = 0; return { reject: 'missing_name' } }
    if (call.function.arguments == null) { want.pre = 0; return { reject: 'missing_arguments' } }
    let cur = { name: call.function.name, args: call.function.arguments }
    let aborted = abortIn === 'before'
    const error = (name: string, text: string | undefined) => ({ error: { toolName: name, text: aborted ? 'abort' : text } })
    if (preHook) {
      if (abortIn === 'in-pre') aborted = true
      if (pre === 'throws') return error(cur.name, msgOf(preErr))
      if (pre === 'call-other-id' || pre === 'result-other-id') return { reject: 'tool_call_id_mismatch' }
      if (pre === 'result' || pre === 'error-result') return { result: { result: preVal, toolName: 'w', isError: pre === 'error-result' ? true : undefined, args: {} } }
      if (pre === 'call') cur = { name: preName, args: preArgs }
    }
    want.call = cur
    const t = tools?.find((t: any) => t.function.name === cur.name)
    if (!t) return error(cur.name, cur.name)
    let input: any
    try { input = JSON.parse(cur.args.trim() === '' ? '{}' : cur.args) }
    catch { return error(cur.name, cur.name) }
    if (t.meta.v !== 'none') { want.validated = 1; want.validateInput = input; if (abortIn === 'in-validate') aborted = true }
    const v: any = validated(t, input)
    if ('throws' in v) return error(cur.name, msgOf(v.throws))
    if ('issues' in v) return error(cur.name, cur.name)
    if (aborted) return error(cur.name, undefined)
    want.executed = { name: cur.name, input: v.value, tool: t }
    want.post = postHook ? 1 : 0
    if (abortIn === 'in-execute') aborted = true
    const failed = t.meta.x === 'throws' || t.meta.x === 'async-throws'
    const base: any = failed ? error(cur.name, msgOf(t.meta.err)) : { result: { result: t.meta.val, toolName: cur.name, args: v.value } }
    want.beforePost = base
    if (!postHook || post === 'nothing') return base
    if (post === 'throws') return error(cur.name, msgOf(postErr))
    if (post === 'result-other-id') return { reject: 'tool_call_id_mismatch' }
    return { result: { result: postVal, toolName: cur.name, isError: failed ? true : undefined, args: v.value } }
  }
  const expected: any = decide()
  return { log, tools, call, preHook, postHook, signal, want, expected, abortIn, id }
}

/** C07: what ran */
export const checkRuns = (s: any) => {
  const ex = s.log.filter((l: any) => l.k === 'execute')
  if (!s.want.executed) same('executions (none allowed)', ex.map((l: any) => [l.name, l.input]), [])
  else {
    same('number of executions', ex.length, 1)
    same('tool executed', ex[0].name, s.want.executed.name)
    same('input of the tool', ex[0].input, s.want.executed.input, 'strict')
    same('tool call id told to the tool', ex[0].options.toolCallId, s.id)
    check(ex[0].options.abortSignal === s.signal, 'abort signal told to the tool')
  }
  const va = s.log.filter((l: any) => l.k === 'validate')
  same('validations', va.length, s.want.validated)
  if (va.length) same('validated input', va[0].input, s.want.validateInput, 'strict')
  const order = s.log.map((l: any) => l.k)
  same('order', order, ['pre', 'validate', 'execute', 'post'].filter(k => order.includes(k)))
}
/** C08: result and hooks */
export const checkResult = (s: any, out: { ok: boolean, value?: any, error?: any }, parts = CHAT_PARTS) => {
  const pre = s.log.filter((l: any) => l.k === 'pre'), post = s.log.filter((l: any) => l.k === 'post')
  same('pre-call hook runs', pre.length, s.want.pre)
  same('post-call hook runs', post.length, s.want.post)
  if (pre.length) same('call given to the pre-call hook', pre[0].call, { args: s.call.function.arguments, toolCallId: s.id, toolCallType: 'function', toolName: s.call.function.name })
  if (post.length) {
    const r = post[0].result, b = s.want.beforePost
    same('id given to the post-call hook', r.toolCallId, s.id); same('name given to the post-call hook', r.toolName, s.want.executed.name)
    if (b.error) { check(r.isError === true, 'the post-call hook is not told about the failure', r); check(String(r.result).includes(b.error.text), 'the failure message is not given to the post-call hook', r) }
    else { check(r.isError !== true, 'the post-call hook is told about a failure', r); same('result given to the post-call hook', r.result, b.result.result, 'strict') }
  }
  const e = s.expected
  if (e.reject) {
    check(!out.ok, `expected an invalid-tool-call error (${e.reject})`, out.value)
    same('error code', out.error?.code, 'invalid_tool_call'); same('reason', out.error.reason, e.reject)
    return
  }
  check(out.ok, 'the call was rejected', out.error)
  const { completionToolCall: c, completionToolResult: r, result } = out.value
  same('call id', c.toolCallId, s.id); same('result id', r.toolCallId, s.id)
  if (e.error) {
    check(r.isError === true, 'a failure is not marked as an error', r)
    same('tool name of the error', r.toolName, e.error.toolName)
    check(typeof r.result === 'string' && r.result.includes(e.error.text), `the message lacks "${e.error.text}"`, r)
  }
  else {
    check(Boolean(r.isError) === Boolean(e.result.isError), 'isError is wrong', r)
    same('result', r.result, e.result.result, 'strict')
    same('tool name', r.toolName, e.result.toolName)
    same('args', r.args, e.result.args)
  }
  same('message content', result, encode(r.result, parts), 'strict')
}
