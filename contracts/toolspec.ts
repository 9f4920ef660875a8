// One tool call under every behaviour of the tool, its validator and the hooks; what the documentation says must happen.
import { T } from 'verif'
import { InvalidToolCallError } from '@xsai/shared'
import { pick, run } from './lib'

const toolType = T.obj({ name: T.str, kind: T.oneOf('plain', 'validated') })
const msgOf = e => e instanceof Error ? e.message : String(e)
const failure = T.or(T.error, T.str)

/** draws the scenario; go({call, tools, preToolCall, postToolCall, abortSignal}) runs the code */
export const toolCase = (v, o = {}) => {
  const log = []
  const abort = pick(v, 'abort', ...(o.abort ?? ['none', 'live', 'before', 'in-pre', 'in-validate', 'in-execute']))
  const ac = new AbortController()
  const abortSignal = abort === 'none' ? undefined : ac.signal
  const fire = (at) => { if (abort === at) ac.abort(new Error('user abort')) }
  fire('before')

  // the tools: any list; each executes and validates as it likes
  const execute = v.fn('execute', { returns: T.any, throws: true, error: failure })
  const validate = v.fn('validate', { returns: T.or(T.obj({ value: T.any }), T.obj({ issues: T.arr(T.obj({ message: T.str })) })), throws: true, error: failure })
  const wrapAsync = (async_, f) => async_ ? async () => f() : f
  const asyncTools = o.sync !== true
  const mk = (t, i) => ({
    type: 'function',
    function: { name: t.name, parameters: {} },
    execute: (input, options) => {
      log.push({ k: 'execute', name: t.name, input, options })
      fire('in-execute')
      return wrapAsync(asyncTools, () => execute(t.name, input))()
    },
    validate: t.kind === 'validated'
      ? (input) => {
          log.push({ k: 'validate', name: t.name, input })
          fire('in-validate')
          return wrapAsync(asyncTools, () => validate(t.name, input))()
        }
      : undefined,
  })
  const list = v.any('tools', T.opt(T.arr(toolType)))
  const tools = list === undefined ? undefined : list.map(mk)

  const id = v.any('id', T.str)
  const name = v.any('name', T.opt(T.str)), args = v.any('args', T.opt(T.str))
  const call = { id, type: 'function', function: { name, arguments: args } }

  // the hooks
  const pre = pick(v, 'pre', ...o.pre)
  const post = pick(v, 'post', ...o.post)
  const preId = pre !== 'call' && pre !== 'result' ? id : v.any('preKeeps', T.bool) ? id : v.any('preId', T.str), postId = post !== 'result' ? id : v.any('postKeeps', T.bool) ? id : v.any('postId', T.str)
  const preName = v.any('preName', T.str), preArgs = v.any('preArgs', T.str), preVal = v.any('preVal', T.any), postVal = v.any('postVal', T.any)
  const preErr = v.any('preErr', failure), postErr = v.any('postErr', failure)
  const asyncHooks = asyncTools
  const preCall = { args: preArgs, toolCallId: preId, toolCallType: 'function', toolName: preName }
  const preResult = { args: {}, result: preVal, toolCallId: preId, toolName: 'w' }
  const preToolCall = pre === 'none' ? undefined : (c, options) => {
    log.push({ k: 'pre', call: c, options })
    fire('in-pre')
    return wrapAsync(asyncHooks, () => {
      if (pre === 'throws') throw preErr
      return pre === 'call' ? preCall : pre === 'result' ? preResult : undefined
    })()
  }
  const postToolCall = post === 'none' ? undefined : (r, options) => {
    log.push({ k: 'post', result: r, was: { ...r }, options })
    return wrapAsync(asyncHooks, () => {
      if (post === 'throws') throw postErr
      return post === 'result' ? { args: r.args, result: postVal, toolCallId: postId, toolName: r.toolName, isError: r.isError } : undefined
    })()
  }

  // what must happen
  const decide = () => {
    const want = { pre: 0, validate: undefined, execute: undefined, post: undefined }
    if (name === undefined) return { want, reject: 'missing_name' }
    if (args === undefined) return { want, reject: 'missing_arguments' }
    if (pre !== 'none') want.pre = 1
    let aborted = abort === 'before' || (abort === 'in-pre' && pre !== 'none')
    const failed = (toolName, message) => ({ isError: true, toolName, message: aborted ? 'This operation was aborted' : message })
    let n = name, a = args
    if (pre === 'throws') return { want, outcome: failed(n, msgOf(preErr)) }
    if (pre === 'call' || pre === 'result') { if (preId !== id) return { want, reject: 'tool_call_id_mismatch' } }
    if (pre === 'result') return { want, outcome: { isError: false, toolName: 'w', value: preVal } }
    if (pre === 'call') { n = preName; a = preArgs }
    want.name = n; want.args = a
    const t = list === undefined ? undefined : list.find(x => x.name === n)
    if (t === undefined) return { want, outcome: failed(n, n) }
    let input
    try { input = a.trim() === '' ? {} : JSON.parse(a.trim()) }
    catch { return { want, outcome: failed(n, n) } }
    if (t.kind === 'validated') {
      want.validate = { name: n, input }
      if (abort === 'in-validate') aborted = true
      let r
      try { r = validate(n, input) }
      catch (e) { return { want, outcome: failed(n, msgOf(e)) } }
      if (r.issues) return { want, outcome: failed(n, n) }
      input = r.value
    }
    if (aborted) return { want, outcome: failed(n, '') }
    want.execute = { name: n, input }
    if (abort === 'in-execute') aborted = true
    let out
    try { out = { isError: false, toolName: n, value: execute(n, input) } }
    catch (e) { out = failed(n, msgOf(e)) }
    if (post === 'none') return { want, outcome: out }
    want.post = out
    if (post === 'throws') return { want, outcome: failed(n, msgOf(postErr)) }
    if (post === 'result') { if (postId !== id) return { want, reject: 'tool_call_id_mismatch' } }
    return { want, outcome: post === 'result' ? { isError: out.isError, toolName: n, value: postVal, replaced: true } : out }
  }
  return { log, call, tools, id, name, args, preToolCall, postToolCall, abortSignal, decide, args0: args }
}
export const runs = (v, s, want) => {
  const at = k => s.log.filter(e => e.k === k)
  const ex = at('execute'), va = at('validate')
  v.eq('executions', ex.length, want.execute === undefined ? 0 : 1)
  if (want.execute !== undefined) {
    v.eq('only the tool of that name', ex[0].name, want.execute.name)
    v.eq('with the parsed and validated input', ex[0].input, want.execute.input)
    v.eq('and the id of the call', ex[0].options.toolCallId, s.id)
    v.ensure('and the abort signal', ex[0].options.abortSignal === s.abortSignal)
  }
  v.eq('validations', va.length, want.validate === undefined ? 0 : 1)
  if (want.validate !== undefined) {
    v.eq('by the validator of that tool', va[0].name, want.validate.name)
    v.eq('of the parsed input', va[0].input, want.validate.input)
  }
}
export const outcome = (v, s, d, r) => {
  const { want } = d
  const at = k => s.log.filter(e => e.k === k)
  const pre = at('pre'), post = at('post')
  v.eq('runs of the pre-call hook', pre.length, want.pre)
  if (want.pre === 1) v.eq('it is given the call', pre[0].call, { args: s.args, toolCallId: s.id, toolCallType: 'function', toolName: s.name })
  v.eq('runs of the post-call hook', post.length, want.post === undefined ? 0 : 1)
  if (want.post !== undefined) matches(v, 'it is given', post[0].was, want.post, s.id)
  if (d.reject !== undefined) {
    v.ensure('the call fails', r.state === 'rejected')
    v.ensure('with an invalid-tool-call error', r.value instanceof InvalidToolCallError)
    v.eq('naming the reason', r.value.reason, d.reject)
    return
  }
  v.ensure('the call never rejects', r.state === 'fulfilled')
  matches(v, 'result', r.value.completionToolResult, d.outcome, s.id)
  v.eq('the call keeps its id', r.value.completionToolCall.toolCallId, s.id)
}
const matches = (v, label, got, want, id) => {
  v.eq(label + ': id of the call', got.toolCallId, id)
  v.eq(label + ': name of the tool', got.toolName, want.toolName)
  v.eq(label + ': marked as an error', got.isError === true, want.isError)
  if (want.isError && want.replaced !== true) v.ensure(label + ': the message of the failure', typeof got.result === 'string' && got.result.includes(want.message))
  else v.eq(label + ': value', got.result, want.value)
}
