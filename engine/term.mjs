// Hash-consed terms of the verification-condition language.
// Sorts: B (Bool) I (Int: JS numbers, treated as mathematical integers) S (String)
//        V (any JavaScript value) O (identity of an opaque object)
const table = new Map()
let nextId = 1

export class Term {
  constructor(op, args, sort, data, key) {
    this.op = op; this.args = args; this.sort = sort; this.data = data; this.key = key; this.id = nextId++
  }
}
export const isTerm = x => x instanceof Term

export const mk = (op, args, sort, data = undefined, dataKey = undefined) => {
  const key = `${op}|${sort}|${dataKey ?? (data === undefined ? '' : typeof data === 'bigint' ? `${data}n` : JSON.stringify(data))}|${args.map(a => a.id).join(',')}`
  let t = table.get(key)
  if (!t) table.set(key, t = new Term(op, args, sort, data, key))
  return t
}

export const TRUE = mk('bool', [], 'B', true)
export const FALSE = mk('bool', [], 'B', false)
export const bool = b => b ? TRUE : FALSE
export const int = n => mk('int', [], 'I', n)
export const str = s => mk('str', [], 'S', s)
export const UNDEF = mk('undef', [], 'V')
export const NUL = mk('nul', [], 'V')
export const variable = (name, sort) => mk('var', [], sort, name)
export const app = (name, args, sort) => {
  if (name === 'trim' && args[0].op === 'app' && args[0].data === 'json') return args[0] // JSON text has no space around it
  if (name === 'lower' && args[0].op === 'str') return str(args[0].data.toLowerCase())
  if (name === 'upper' && args[0].op === 'str') return str(args[0].data.toUpperCase())
  if ((name === 'get' || name === 'at' || name === 'len' || name === 'kind' || name === 'has') && isCloneObj(args[0])) {
    // a copy has the parts of the original
    const o = mk('oval', [args[0].args[0].args[0]], 'O')
    if (name === 'get' || name === 'at') return app('clone', [app(name, [o, args[1]], 'V')], 'V')
    if (name === 'has') return and(app('has', [o, args[1]], 'B'), not(is('undef', app('get', [o, args[1]], 'V'))))
    return app(name, [o, ...args.slice(1)], sort)
  }
  if ((name === 'at' || name === 'len' || name === 'kind') && isSlice(args[0])) {
    const [o, f, t] = args[0].args[0].args
    return name === 'at' ? atOf(o, add(f, args[1])) : name === 'len' ? sub(t, f) : int(1)
  }
  if (name === 'slice' && isSlice(args[0])) { const [o, f] = args[0].args[0].args; return app('slice', [o, add(f, args[1]), add(f, args[2])], sort) }
  if (name === 'clone' && args[0].op === 'app' && args[0].data === 'clone') return args[0]
  return mk('app', args, sort, name)
}
const isClone = v => v.op === 'app' && v.data === 'clone'
export const original = o => isCloneObj(o) ? original(mk('oval', [o.args[0].args[0]], 'O')) : o
const isCloneObj = o => o.op === 'oval' && isClone(o.args[0])

export const isConst = t => t.op === 'bool' || t.op === 'int' || t.op === 'str' || t.op === 'undef' || t.op === 'nul'

export const not = a => a === TRUE ? FALSE : a === FALSE ? TRUE : a.op === 'not' ? a.args[0] : mk('not', [a], 'B')
const nary = (op, unit, zero) => (...as) => {
  const out = []
  const seen = new Set()
  for (const a0 of as.flat()) {
    for (const a of a0.op === op ? a0.args : [a0]) {
      if (a === unit) continue
      if (a === zero) return zero
      if (seen.has(a)) continue
      if (seen.has(not(a))) return zero
      seen.add(a); out.push(a)
    }
  }
  if (out.length === 0) return unit
  if (out.length === 1) return out[0]
  return mk(op, out, 'B')
}
export const and = nary('and', TRUE, FALSE)
export const or = nary('or', FALSE, TRUE)
export const implies = (a, b) => or(not(a), b)

export const ite = (c, a, b) => {
  if (c === TRUE) return a
  if (c === FALSE) return b
  if (a === b) return a
  if (c.op === 'not') return ite(c.args[0], b, a)
  if (a.sort !== b.sort) { a = toV(a); b = toV(b) }
  if (a.sort === 'B') {
    if (a === TRUE) return or(c, b)
    if (a === FALSE) return and(not(c), b)
    if (b === TRUE) return or(not(c), a)
    if (b === FALSE) return and(c, a)
  }
  return mk('ite', [c, a, b], a.sort)
}

// --- V constructors / testers / selectors
export const toV = (t) => {
  switch (t.sort) {
    case 'V': return t
    case 'B': return t.op === 'bval' ? ctor(t, 'vbool') : mk('vbool', [t], 'V')
    case 'I': return mk('vnum', [t], 'V')
    case 'S': return mk('vstr', [t], 'V')
    case 'O': return t.op === 'oval' ? mk('vobj', [t], 'V') : mk('vobj', [t], 'V')
  }
  throw new Error('toV ' + t.sort)
}
const ctor = (t, c) => mk(c, [t], 'V')
const CTORS = { undef: 1, nul: 1, vbool: 1, vnum: 1, vstr: 1, vobj: 1 }
export const is = (c, v) => {
  v = toV(v)
  if (CTORS[v.op]) return bool(v.op === c)
  if (v.op === 'frz') return bool(c === 'vobj')
  if (isClone(v)) return is(c, v.args[0])
  if (v.op === 'app' && v.data === 'slice') return bool(c === 'vobj')
  if (v.op === 'ite') return ite(v.args[0], is(c, v.args[1]), is(c, v.args[2]))
  return mk('is', [v], 'B', c)
}
const SEL = { vbool: ['bval', 'B'], vnum: ['nval', 'I'], vstr: ['sval', 'S'], vobj: ['oval', 'O'] }
export const sel = (c, v) => {
  v = toV(v)
  if (v.op === c) return v.args[0]
  if (c !== 'vobj' && isClone(v)) return sel(c, v.args[0])
  const [op, sort] = SEL[c]
  if (v.op === 'ite') {
    const a = v.args[1], b = v.args[2]
    if ((CTORS[a.op] && a.op !== c)) return sel(c, b)
    if ((CTORS[b.op] && b.op !== c)) return sel(c, a)
    return ite(v.args[0], sel(c, a), sel(c, b))
  }
  return mk(op, [v], sort)
}

export const eq = (a, b) => {
  if (a === b) return TRUE
  if (a.sort !== b.sort) {
    if (a.sort === 'V') return eqVprim(a, b)
    if (b.sort === 'V') return eqVprim(b, a)
    return FALSE // different primitive sorts are never equal
  }
  if (isConst(a) && isConst(b)) return FALSE
  if (a.sort === 'B') {
    if (a === TRUE) return b
    if (b === TRUE) return a
    if (a === FALSE) return not(b)
    if (b === FALSE) return not(a)
  }
  if (a.sort === 'V') {
    if (a.op === 'undef' || a.op === 'nul') return is(a.op, b)
    if (b.op === 'undef' || b.op === 'nul') return is(b.op, a)
    if (CTORS[a.op] && CTORS[b.op]) return a.op !== b.op ? FALSE : eq(a.args[0], b.args[0])
    if (CTORS[a.op] && b.op === 'frz' && a.op !== 'vobj') return FALSE
    if (CTORS[b.op] && a.op === 'frz' && b.op !== 'vobj') return FALSE
  }
  if (a.sort === 'S') {
    const [x, y] = a.op === 'str' ? [a, b] : [b, a]
    if (x.op === 'str' && y.op === 'app' && y.data === 'json') try { JSON.parse(x.data) } catch { return FALSE }
    if (x.op === 'str' && y.op === 'concat') { // quick prefix refutation
      const h = y.args[0]
      if (h.op === 'str' && !x.data.startsWith(h.data)) return FALSE
      const l = y.args[y.args.length - 1]
      if (l.op === 'str' && !x.data.endsWith(l.data)) return FALSE
    }
  }
  if (a.op === 'ite' && isConst(b)) return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
  if (b.op === 'ite' && isConst(a)) return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
  if (a.id > b.id) [a, b] = [b, a]
  return mk('eq', [a, b], 'B')
}
const eqVprim = (v, p) => {
  const c = { B: 'vbool', I: 'vnum', S: 'vstr', O: 'vobj' }[p.sort]
  return and(is(c, v), eq(sel(c, v), p))
}

// --- integers
export const add = (a, b) => {
  if (a.op === 'int' && b.op === 'int') return int(a.data + b.data)
  if (a.op === 'int' && a.data === 0) return b
  if (b.op === 'int' && b.data === 0) return a
  if (b.op === 'int' && a.op === 'add' && a.args[1].op === 'int') return add(a.args[0], int(a.args[1].data + b.data))
  if (a.op === 'int') [a, b] = [b, a]
  return mk('add', [a, b], 'I')
}
const offset = t => t.op === 'add' && t.args[1].op === 'int' ? [t.args[0], t.args[1].data] : t.op === 'int' ? [int(0), t.data] : [t, 0]
export const sub = (a, b) => {
  if (a === b) return int(0)
  if (b.op === 'int') return add(a, int(-b.data))
  const [x, c] = offset(a), [y, d] = offset(b)
  if (x === y) return int(c - d)
  if (c || d) return add(sub(x, y), int(c - d))
  return mk('sub', [a, b], 'I')
}
export const mul = (a, b) => a.op === 'int' && b.op === 'int' ? int(a.data * b.data) : mk('mul', [a, b], 'I')
export const lt = (a, b) => a.op === 'int' && b.op === 'int' ? bool(a.data < b.data) : a === b ? FALSE : mk('lt', [a, b], 'B')
export const le = (a, b) => a.op === 'int' && b.op === 'int' ? bool(a.data <= b.data) : a === b ? TRUE : mk('le', [a, b], 'B')

// --- strings
export const concat = (...xs) => {
  const out = []
  for (const x0 of xs.flat()) {
    for (const x of x0.op === 'concat' ? x0.args : [x0]) {
      if (x.op === 'str' && x.data === '') continue
      const last = out[out.length - 1]
      if (last?.op === 'str' && x.op === 'str') out[out.length - 1] = str(last.data + x.data)
      else out.push(x)
    }
  }
  if (out.length === 0) return str('')
  if (out.length === 1) return out[0]
  return mk('concat', out, 'S')
}
export const strlen = (s) => {
  if (s.op === 'str') return int(s.data.length)
  if (s.op === 'concat') return s.args.map(strlen).reduce(add)
  // a match of a regular expression in a string is a part of it (and both are 0 where there is none)
  if (s.op === 'substr' && s.args[1].data === 'rx:index' && s.args[2].data === 'rx:length' && s.args[1].args.every((x, i) => x === s.args[2].args[i]) && s.args[0] === s.args[1].args[2]) return s.args[2]
  return mk('strlen', [s], 'I')
}
export const prefixof = (p, s) => p.op === 'str' && s.op === 'str' ? bool(s.data.startsWith(p.data)) : p.op === 'str' && p.data === '' ? TRUE : mk('prefixof', [p, s], 'B')
export const suffixof = (p, s) => {
  if (p.op === 'str' && s.op === 'str') return bool(s.data.endsWith(p.data))
  if (p.op === 'str' && s.op === 'concat') {
    const l = s.args[s.args.length - 1]
    if (l.op === 'str' && l.data.length >= p.data.length) return bool(l.data.endsWith(p.data))
  }
  return mk('suffixof', [p, s], 'B')
}
export const contains = (s, p) => p.op === 'str' && s.op === 'str' ? bool(s.data.includes(p.data)) : mk('contains', [s, p], 'B')
export const indexof = (s, p, i) => p.op === 'str' && s.op === 'str' && i.op === 'int' ? int(s.data.indexOf(p.data, i.data)) : mk('indexof', [s, p, i], 'I')
export const substr = (s, i, n) => {
  if (s.op === 'str' && i.op === 'int' && n.op === 'int' && i.data >= 0) return str(n.data <= 0 ? '' : s.data.substr(i.data, n.data))
  if (i.op === 'int' && i.data === 0) { // a known prefix
    if (n === strlen(s)) return s
    if (s.op === 'concat') for (let k = 1, l = strlen(s.args[0]); k < s.args.length; l = add(l, strlen(s.args[k++]))) if (l === n) return concat(s.args.slice(0, k))
  }
  return mk('substr', [s, i, n], 'S')
}

// --- opaque object access
export const get = (o, k) => app('get', [o, k], 'V')
export const has = (o, k) => app('has', [o, k], 'B')
export const kindOf = o => app('kind', [o], 'I')
export const lenOf = o => app('len', [o], 'I')
export const atOf = (o, i) => app('at', [o, i], 'V')
/** the elements f..t (exclusive) of the array o, where 0 <= f <= t <= its length */
export const sliceOf = (o, f, t) => f.op === 'int' && f.data === 0 && t === lenOf(o) && o.op === 'oval' ? o.args[0] : app('slice', [o, f, t], 'V')
export const isSlice = o => o.op === 'oval' && o.args[0].op === 'app' && o.args[0].data === 'slice'
export const KIND = { object: 0, array: 1, function: 2 }

// --- substitution (for skolem parameters of comprehensions); `fz` maps frozen data
export const subst = (t, map, fz, memo = new Map()) => {
  if (map.has(t)) return map.get(t)
  if (t.args.length === 0 && t.op !== 'frz' && t.data?.frozen === undefined) return t
  let r = memo.get(t)
  if (r) return r
  if (t.op === 'frz') r = fz(t, map)
  else {
    const args = t.args.map(a => subst(a, map, fz, memo))
    r = args.every((a, i) => a === t.args[i]) ? t : rebuild(t, args)
  }
  memo.set(t, r)
  return r
}
export const rebuild = (t, args) => {
  switch (t.op) {
    case 'not': return not(args[0])
    case 'and': return and(args)
    case 'or': return or(args)
    case 'ite': return ite(...args)
    case 'eq': return eq(...args)
    case 'is': return is(t.data, args[0])
    case 'bval': return sel('vbool', args[0])
    case 'nval': return sel('vnum', args[0])
    case 'sval': return sel('vstr', args[0])
    case 'oval': return sel('vobj', args[0])
    case 'vbool': case 'vnum': case 'vstr': case 'vobj': return toV(args[0])
    case 'add': return add(...args)
    case 'sub': return sub(...args)
    case 'mul': return mul(...args)
    case 'lt': return lt(...args)
    case 'le': return le(...args)
    case 'concat': return concat(args)
    case 'strlen': return strlen(args[0])
    case 'prefixof': return prefixof(...args)
    case 'suffixof': return suffixof(...args)
    case 'contains': return contains(...args)
    case 'indexof': return indexof(...args)
    case 'substr': return substr(...args)
    case 'app': return app(t.data, args, t.sort)
    default: return mk(t.op, args, t.sort, t.data)
  }
}

// --- SMT-LIB printing
const SORT = { B: 'Bool', I: 'Int', S: 'String', V: 'V', O: 'O' }
export const smtSort = s => SORT[s]
const esc = (s) => {
  let r = ''
  for (const ch of s) {
    const c = ch.codePointAt(0)
    if (c === 34) r += '""'
    else if (c >= 32 && c < 127 && c !== 92) r += ch
    else r += `\\u{${c.toString(16)}}`
  }
  return `"${r}"`
}
const OPS = { not: 'not', and: 'and', or: 'or', ite: 'ite', eq: '=', add: '+', sub: '-', mul: '*', lt: '<', le: '<=', concat: 'str.++', strlen: 'str.len', prefixof: 'str.prefixof', suffixof: 'str.suffixof', contains: 'str.contains', indexof: 'str.indexof', substr: 'str.substr', vbool: 'vbool', vnum: 'vnum', vstr: 'vstr', vobj: 'vobj', bval: 'bval', nval: 'nval', sval: 'sval', oval: 'oval' }
const qn = s => /^[A-Za-z_][A-Za-z0-9_]*$/.test(s) ? s : `|${s.replace(/[|\\]/g, '_')}|`
const BUILTIN_FUNS = new Set(['get', 'has', 'kind', 'len', 'at'])
/** decl(name, argSorts, sort) is called for each free symbol; name(term) may return a defined name for a shared term */
export const smt = (t, name, decl) => {
  switch (t.op) {
    case 'bool': return String(t.data)
    case 'int': return t.data < 0 ? `(- ${-t.data})` : String(t.data)
    case 'str': return esc(t.data)
    case 'undef': case 'nul': return t.op
    case 'var': decl(`v_${t.data}`, [], t.sort); return qn(`v_${t.data}`)
    case 'frz': decl(`frz_${t.id}`, [], t.sort); return `frz_${t.id}`
    case 'is': return `((_ is ${t.data}) ${name(t.args[0])})`
    case 'app': {
      if (t.data === 'inre') return `(str.in_re ${name(t.args[0])} ${t.args[1].data})`
      const f = BUILTIN_FUNS.has(t.data) ? t.data : qn(`f_${t.data}`)
      if (!BUILTIN_FUNS.has(t.data)) decl(`f_${t.data}`, t.args.map(a => a.sort), t.sort)
      return t.args.length ? `(${f} ${t.args.map(name).join(' ')})` : f
    }
    default: return `(${OPS[t.op] ?? (() => { throw new Error('smt op ' + t.op) })()} ${t.args.map(name).join(' ')})`
  }
}
export const smtQuote = qn

export const show = (t, d = 0) => {
  if (d > 6) return '…'
  switch (t.op) {
    case 'bool': case 'int': return String(t.data)
    case 'str': return JSON.stringify(t.data)
    case 'undef': return 'undefined'
    case 'nul': return 'null'
    case 'var': return t.data
    case 'frz': return `frz${t.id}`
    case 'is': return `is-${t.data}(${show(t.args[0], d + 1)})`
    case 'app': return `${t.data}(${t.args.map(a => show(a, d + 1)).join(', ')})`
    case 'vbool': case 'vnum': case 'vstr': case 'vobj': case 'bval': case 'nval': case 'sval': case 'oval':
      return show(t.args[0], d)
    case 'eq': return `(${show(t.args[0], d + 1)} = ${show(t.args[1], d + 1)})`
    case 'and': return `(${t.args.map(a => show(a, d + 1)).join(' ∧ ')})`
    case 'or': return `(${t.args.map(a => show(a, d + 1)).join(' ∨ ')})`
    case 'not': return `¬${show(t.args[0], d + 1)}`
    default: return `${t.op}(${t.args.map(a => show(a, d + 1)).join(', ')})`
  }
}
