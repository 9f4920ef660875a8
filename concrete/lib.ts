// Helpers shared by the concrete oracles: assertions, a recording fetch, server simulators, stream collectors.
import { Violation, Discard, printable } from '../engine/conc/runner.mjs'

export { Violation, Discard }
export const fail = (msg: string, detail?: unknown): never => { throw new Violation(msg, detail) }
export const check = (cond: unknown, msg: string, detail?: unknown) => { if (!cond) fail(msg, typeof detail === 'function' ? detail() : detail) }
export const discard = (): never => { throw new Discard('discard') }

/** structural difference; 'loose' treats an undefined property as an absent one, key order never matters */
export const diff = (a: any, b: any, mode: 'loose' | 'strict' = 'loose', at = ''): string | undefined => {
  if (Object.is(a, b) || a === b) return
  const pa = JSON.stringify(printable(a)), pb = JSON.stringify(printable(b))
  const no = () => `${at || 'value'}: got ${String(pa).slice(0, 400)}, expected ${String(pb).slice(0, 400)}`
  if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') return no()
  if (Array.isArray(a) !== Array.isArray(b)) return no()
  if (a instanceof Uint8Array || b instanceof Uint8Array) return a instanceof Uint8Array && b instanceof Uint8Array && a.length === b.length && a.every((x, i) => x === b[i]) ? undefined : no()
  if (a instanceof URL || b instanceof URL) return String(a) === String(b) ? undefined : no()
  if (a instanceof Error || b instanceof Error) return no()
  if (Array.isArray(a)) {
    if (a.length !== b.length) return `${at || 'value'}: got ${a.length} items, expected ${b.length}: ${String(pa).slice(0, 600)} against ${String(pb).slice(0, 600)}`
    for (let i = 0; i < a.length; i++) {
      if (mode === 'strict' && (i in a) !== (i in b)) return `${at}[${i}]: hole`
      const d = diff(a[i], b[i], mode, `${at}[${i}]`); if (d) return d
    }
    return
  }
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
    if (mode === 'strict' && Object.hasOwn(a, k) !== Object.hasOwn(b, k)) return `${at}.${k}: ${Object.hasOwn(a, k) ? 'present' : 'absent'}, expected otherwise`
    const d = diff(a[k], b[k], mode, `${at}.${k}`); if (d) return d
  }
}
export const same = (msg: string, a: unknown, b: unknown, mode: 'loose' | 'strict' = 'loose') => { const d = diff(a, b, mode); if (d) fail(`${msg}: ${d}`) }

export const clone = <X>(x: X): X => structuredClone(x)

/** deep copy that keeps functions by identity, to compare caller-owned objects before and after */
export const snapshot = (x: any, seen = new Map()): any => {
  if (x === null || typeof x !== 'object') return x
  if (seen.has(x)) return seen.get(x)
  if (Array.isArray(x)) { const r: any[] = []; seen.set(x, r); x.forEach((v, i) => { r[i] = snapshot(v, seen) }); return r }
  const proto = Object.getPrototypeOf(x)
  if (proto !== Object.prototype && proto !== null) return x
  const r: any = {}
  seen.set(x, r)
  for (const k of Object.keys(x)) r[k] = snapshot(x[k], seen)
  return r
}
export const deepFreeze = (x: any, seen = new Set()): any => {
  if (x === null || typeof x !== 'object' || seen.has(x)) return x
  const proto = Object.getPrototypeOf(x)
  if (!Array.isArray(x) && proto !== Object.prototype && proto !== null) return x
  seen.add(x)
  for (const k of Object.keys(x)) deepFreeze(x[k], seen)
  return Object.freeze(x)
}

export const sleep = (ms: number) => new Promise<void>(r => setTimeout(r, ms))
export const tick = () => new Promise<void>(r => setImmediate(r))
export const ticks = async (n = 20) => { for (let i = 0; i < n; i++) await tick() }

export const PENDING = Symbol('pending')
export const within = async <X>(p: Promise<X>, what: string, ms = 8000): Promise<X> => {
  let t: any
  const r = await Promise.race([p, new Promise<typeof PENDING>((res) => { t = setTimeout(() => res(PENDING), ms) })]).finally(() => clearTimeout(t))
  if (r === PENDING) fail(`${what} is still pending after ${ms} ms`)
  return r as X
}
export type Settled = { ok: true, value: any } | { ok: false, error: any }
export const settle = async (p: Promise<any> | (() => any), what = 'the promise'): Promise<Settled> => {
  try { return { ok: true, value: await within(typeof p === 'function' ? (async () => p())() : p, what) } }
  catch (e) { if (e instanceof Violation) throw e; return { ok: false, error: e } }
}
/** reads a stream to its end: items and how it ended */
export const collect = async <X>(s: ReadableStream<X>, what = 'the stream'): Promise<{ items: X[], end: 'closed' | 'errored', error?: any }> => {
  const items: X[] = []
  const rd = s.getReader()
  for (;;) {
    let r
    try { r = await within(rd.read(), what) }
    catch (e) { if (e instanceof Violation) throw e; return { items, end: 'errored', error: e } }
    if (r.done) return { items, end: 'closed' }
    items.push(r.value!)
  }
}

export interface Call { url: any, init: any, body: any, headers: Record<string, string>, thisArg?: unknown }
export type Responder = (call: Call, n: number) => Response | Promise<Response>
/** a fetch that records its calls; body is the parsed JSON body (or the raw body) */
export const recorder = (respond: Responder) => {
  const calls: Call[] = []
  const fetch = async (url: any, init: any) => {
    const headers: Record<string, string> = {}
    const h = url instanceof Request ? url.headers : init?.headers
    if (h) new Headers(h).forEach((v, k) => { headers[k] = v })
    let body = init?.body
    if (typeof body === 'string') { try { body = JSON.parse(body) } catch {} }
    const call = { url, init, body, headers }
    calls.push(call)
    return respond(call, calls.length - 1)
  }
  return { calls, fetch: fetch as typeof globalThis.fetch }
}
export const urlOf = (c: Call) => c.url instanceof Request ? c.url.url : String(c.url)

export const bytes = (s: string) => new TextEncoder().encode(s)
export const jsonRes = (x: unknown, init: ResponseInit = {}) => new Response(typeof x === 'string' ? x : JSON.stringify(x), { headers: { 'content-type': 'application/json' }, ...init })
export const setUrl = (r: Response, url: string) => { Object.defineProperty(r, 'url', { value: url }); return r }

/** a byte stream that delivers the pieces one by one (optionally failing at the end) */
export const byteStream = (pieces: Uint8Array[], opts: { error?: { reason: unknown }, pause?: () => Promise<void> | void, onCancel?: (r: unknown) => void, onPull?: (i: number) => void } = {}) => {
  let i = 0
  return new ReadableStream<Uint8Array>({
    async pull(c) {
      await opts.pause?.()
      opts.onPull?.(i)
      if (i < pieces.length) c.enqueue(pieces[i++])
      else if (opts.error) c.error(opts.error.reason)
      else c.close()
    },
    cancel(r) { opts.onCancel?.(r) },
  })
}
/** server-sent event text for a list of JSON messages, with random framing */
export const sse = (g: any, msgs: unknown[], done = true) => {
  let s = ''
  const nl = g.pick(['\n', '\n', '\r\n'])
  for (const m of msgs) {
    if (g.bool(0.08)) s += `: keep-alive${nl}${nl}`
    if (g.bool(0.05)) s += `data:${nl}${nl}`
    if (g.bool(0.1)) s += `event: message${nl}`
    if (g.bool(0.05)) s += `id: ${g.int(0, 9)}${nl}`
    const t = typeof m === 'string' ? m : JSON.stringify(m)
    s += `data:${g.bool(0.9) ? ' ' : ''}${t}${nl}${nl}`
    if (g.bool(0.05)) s += `data: null${nl}${nl}`
  }
  if (done) s += `data: [DONE]${nl}${nl}`
  return s
}
export const sseRes = (g: any, msgs: unknown[], opts: { done?: boolean, error?: { reason: unknown }, pause?: () => Promise<void> | void, onCancel?: (r: unknown) => void } = {}) =>
  new Response(byteStream(g.split(bytes(sse(g, msgs, opts.done ?? g.bool(0.8)))), opts), { headers: { 'content-type': 'text/event-stream' } })

export const snake = (s: string) => s.replace(/[A-Z]/g, c => '_' + c.toLowerCase())
