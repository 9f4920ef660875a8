// The 'verif' module when a contract is executed on the real code: inputs are drawn from the declared types.
import { Gen, hash } from './gen.mjs'
import { Discard, Violation, printable } from './runner.mjs'

const ty = (k, x = {}) => ({ __type: true, k, ...x })
export const T = {
  any: ty('any'), json: ty('json'), str: ty('str'), text: ty('str', { nonempty: true }), token: ty('str', { nonempty: true, token: true }), url: ty('str', { url: true }), sse: ty('str', { sse: true }), bool: ty('bool'), int: ty('int'), nat: ty('int', { min: 0 }), undef: ty('undef'), null: ty('null'), opaque: ty('opaque'), error: ty('error'), absent: ty('undef'),
  lit: v => ty('lit', { v }), obj: fields => ty('obj', { fields }), open: (fields, r) => ty('obj', { fields, open: r ?? true }), rec: (t, not) => ty('rec', { t, not }), arr: (t, min) => ty('arr', { t, min }),
  opt: t => ty('opt', { t }), nullable: t => ty('nullable', { t }), or: (...ts) => ty('or', { ts }), oneOf: (...vs) => ty('or', { ts: vs.map(v => ty('lit', { v })) }), fn: (name, spec = {}) => ty('fn', { name, ...spec }),
}
const canon = (v, d = 0, seen = new Set()) => {
  if (v === undefined) return 'u'
  if (typeof v === 'function') return 'f'
  if (v === null || typeof v !== 'object') return typeof v + String(v)
  if (d > 12 || seen.has(v)) return '?'
  if (v instanceof Error) return 'E' + v.name + v.message
  if (v instanceof Headers) return 'H' + [...v.entries()]
  seen.add(v)
  const r = Array.isArray(v) ? '[' + v.map(x => canon(x, d + 1, seen)).join(',') + ']' : '{' + Object.keys(v).filter(k => v[k] !== undefined).sort().map(k => k + ':' + canon(v[k], d + 1, seen)).join(',') + '}'
  seen.delete(v)
  return r
}
class Opaque { constructor(id) { Object.defineProperty(this, 'id', { value: id, enumerable: false }) } }
export const gen = (g, t, path = '', d = 3) => {
  switch (t.k) {
    case 'any': return g.weighted([[1, undefined], [6, () => g.json(2)]])
    case 'json': return g.json(2)
    case 'str': return t.sse ? g.weighted([[4, () => JSON.stringify(g.json(2))], [1, '[DONE]'], [1, 'null'], [1, ''], [1, () => JSON.stringify({ error: g.json(1) })], [1, '{"error":null}'], [1, () => g.str()], [1, '[DONE'], [1, '{}']]) : t.url ? g.pick(['http://', 'https://']) + g.pick(['h.test', 'x.y:8080', '127.0.0.1:1', 'api.h.test']) + g.pick(['', '/v1', '/a/b', '/v1beta/openai', '/a.b/%20c']) : t.token ? g.word() : t.nonempty ? g.text() : g.str()
    case 'bool': return g.bool()
    case 'int': return t.min !== undefined ? g.int(t.min, t.min + g.pick([0, 1, 2, 3, 10, 1000])) : g.pick([0, 1, 2, 3, -1, 200, 404, 500, 7, 99])
    case 'undef': return undefined
    case 'null': return null
    case 'lit': return t.v
    case 'opt': return g.bool(0.4) ? undefined : gen(g, t.t, path, d)
    case 'nullable': return g.bool(0.3) ? null : gen(g, t.t, path, d)
    case 'or': return gen(g, g.pick(t.ts), path, d)
    case 'obj': {
      const o = {}
      for (const [k, f] of Object.entries(t.fields)) { const v = gen(g, f, `${path}.${k}`, d - 1); if (v !== undefined || g.bool(0.2)) o[k] = v }
      if (t.open) for (let i = g.int(0, 2); i > 0; i--) { const k = g.key(); if (!Object.hasOwn(t.fields, k)) o[k] = gen(g, t.open === true ? T.any : t.open, `${path}.${k}`, d - 1) }
      return o
    }
    case 'rec': { const o = {}; for (let i = g.int(0, 4); i > 0; i--) { const k = g.key(); if (!t.not?.includes(k)) o[k] = gen(g, t.t, `${path}.${k}`, d - 1) } return o }
    case 'arr': return g.list(i => gen(g, t.t, `${path}[${i}]`, d - 1), t.min ?? 0, Math.max(t.min ?? 0, d > 1 ? 4 : 2))
    case 'fn': return mkFn(g, t, path)
    case 'error': return g.bool(0.3) ? new TypeError(g.str()) : new Error(g.str())
    case 'opaque': return new Opaque(g.int(0, 1e9))
  }
  throw new Error('gen ' + t.k)
}
const mkFn = (g, t, path) => {
  const salt = g.int(0, 2 ** 30)
  const calls = [], outcomes = new Map() // equal arguments give the same outcome, as in the proofs
  const f = (...args) => {
    const h = hash(salt, t.name, canon(args), t.pure === false ? calls.length : '')
    const gg = new Gen(h, 4)
    calls.push(args)
    const go = () => {
      if (!outcomes.has(h)) outcomes.set(h, t.throws && gg.bool(0.25) ? { error: t.error ? gen(gg, t.error, path) : new Error(`${t.name} failed ${h % 100}`) } : { value: t.returns ? gen(gg, t.returns, path) : undefined })
      const o = outcomes.get(h)
      if ('error' in o) throw o.error
      return o.value
    }
    return t.async ? (async () => go())() : go()
  }
  f.calls = calls
  return f
}
const diff = (a, b, mode, at = '') => {
  if (Object.is(a, b) || a === b) return
  const no = () => `${at || 'value'}: got ${cut(a)}, expected ${cut(b)}`
  if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') return no()
  if (Array.isArray(a) !== Array.isArray(b)) return no()
  if (a instanceof Error || b instanceof Error) return a instanceof Error && b instanceof Error && a.name === b.name && a.message === b.message && mode !== 'strict' ? undefined : no()
  if (a instanceof URL || b instanceof URL) return String(a) === String(b) ? undefined : no()
  if (a instanceof Headers && b instanceof Headers) return diff([...a.entries()], [...b.entries()], mode, at)
  if (Array.isArray(a)) {
    if (a.length !== b.length) return `${at}.length: got ${cut(a)}, expected ${cut(b)}`
    for (let i = 0; i < a.length; i++) { const d = diff(a[i], b[i], mode, `${at}[${i}]`); if (d) return d }
    return
  }
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
    if (mode === 'strict' && Object.hasOwn(a, k) !== Object.hasOwn(b, k)) return `${at}.${k}: ${Object.hasOwn(a, k) ? 'present' : 'absent'}, expected otherwise`
    const d = diff(a[k], b[k], mode, `${at}.${k}`); if (d) return d
  }
}
const cut = v => String(JSON.stringify(printable(v))).slice(0, 500)

export const makeV = (g) => {
  const specs = new Map()
  return {
    any: (n, t) => g.note(n, gen(g, t, n)),
    fn: (n, spec = {}) => mkFn(g, { name: n, ...spec }, n),
    assume: (c) => { if (!c) throw new Discard('assume') },
    ensure: (l, c) => { if (!c) throw new Violation(l) },
    eq: (l, a, b, mode = 'loose') => { const d = diff(a, b, mode); if (d) throw new Violation(`${l}: ${d}`) },
    fail: (l) => { throw new Violation(l) },
    cover: () => {},
    contract: (f, spec) => { specs.set(f, spec) },
    regex: n => g.note(n, new RegExp(g.pick(['\\S+\\s+', '[,.;]', 'a|bb', 'x*', '(?:)', '[^]', '\\w+\\s', 'b+', '[aeiou]{2}', 'never', '\\s*\\S+\\s+', '[^\\n]*\\n']), g.pick(['', '', 'g', 'y', 'gy', 'i', 'u']))),
    recursive: () => {}, prefix: () => {}, unroll: () => {}, hurry: () => {},
    isSymbolic: () => false,
    settled: (p) => p && typeof p.then === 'function' ? p.then(value => ({ state: 'fulfilled', value }), value => ({ state: 'rejected', value })) : { state: 'fulfilled', value: p },
    collect: async (st) => {
      const chunks = []
      const r = st.getReader()
      try { for (;;) { const { done, value } = await r.read(); if (done) break; chunks.push(value) } }
      catch (error) { return { chunks, state: 'errored', error } }
      return { chunks, state: 'closed', error: undefined }
    },
    source: (items, end) => { let i = 0; return new ReadableStream({ pull: (c) => { if (i < items.length) c.enqueue(items[i++]); else if (end !== undefined) c.error(end.error); else c.close() } }, { highWaterMark: 0 }) },
    stop: () => { throw new Discard('stop') },
  }
}

// not in this Node.js yet
if (!Uint8Array.fromBase64) Uint8Array.fromBase64 = (s) => { if (!/^[A-Za-z0-9+/]*={0,2}$/.test(s.replace(/\s/g, ''))) throw new SyntaxError('bad base64'); return new Uint8Array(Buffer.from(s, 'base64')) }
