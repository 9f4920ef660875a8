import { T } from 'verif'
import { createFetch } from 'xsfetch'
import { run } from './lib'

const DEFAULTS = { retry: 3, retryDelay: 500, codes: [408, 409, 425, 429, 500, 502, 503, 504] }
/** any number of retries of any sequence of responses and rejections; the loop invariant is inferred */
const calls = async (v, o, want) => {
  const answer = v.fn('answer', { returns: T.obj({ ok: T.bool, status: T.int }) }), fails = v.fn('fails', { returns: T.bool })
  const input = v.any('input', T.opaque), init = v.any('init', T.opt(T.opaque))
  const down = new Error('down')
  // what the documentation says: left = retries left, due = a delay is still to be waited before the next request
  const g = { k: 0, last: undefined, left: want.retry, go: true, due: false, rejected: false }
  const fetch = async (...args) => {
    v.ensure('a request only while there is a reason for it', g.go)
    v.ensure('the delay is waited before a retry', !g.due)
    v.ensure('the same request', args.length === 2 && args[0] === input && args[1] === init)
    const k = g.k
    g.k++
    if (fails(k)) { g.go = false; g.rejected = true; throw down }
    const r = answer(k)
    g.go = !r.ok && g.left !== 0 && want.codes.includes(r.status)
    if (!v.isSymbolic()) g.last = r
    if (g.go) { g.left--; g.due = true }
    return r
  }
  const wait = (f, ms) => {
    v.ensure('a delay only before a retry', g.due)
    v.eq('the configured delay', ms, want.retryDelay)
    g.due = false
    f()
  }
  const saved = globalThis.fetch, timer = globalThis.setTimeout
  globalThis.fetch = fetch
  globalThis.setTimeout = wait
  try {
    const f = createFetch(o)
    const r = await run(v, () => f(input, init))
    v.ensure('it goes on while it should', !g.go)
    if (g.rejected) v.ensure('a rejected request rejects the call', r.state === 'rejected' && r.value === down)
    else v.ensure('the last response is returned', r.state === 'fulfilled' && r.value === (v.isSymbolic() ? answer(g.k - 1) : g.last))
  }
  finally { globalThis.fetch = saved; globalThis.setTimeout = timer }
}
const settings = v => ({ retry: v.any('retry', T.nat), retryDelay: v.any('delay', T.nat), retryStatusCodes: v.any('codes', T.arr(T.int)) })
export const C30_configured = async (v) => {
  const o = settings(v)
  v.assume(o.retry < 50)
  await calls(v, o, { ...o, codes: o.retryStatusCodes })
}
export const C30_defaults = v => calls(v, undefined, DEFAULTS)
export const C30_partial = (v) => {
  const retryDelay = v.any('delay', T.nat)
  return calls(v, { retryDelay }, { ...DEFAULTS, retryDelay })
}
export const C30_instances = async (v) => {
  const o = settings(v)
  v.assume(o.retry < 50)
  createFetch({ retry: 99, retryDelay: 1, retryStatusCodes: [200] })
  await calls(v, undefined, DEFAULTS)
  await calls(v, o, { ...o, codes: o.retryStatusCodes })
}
