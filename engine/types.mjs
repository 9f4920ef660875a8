// Types of opaque inputs: descriptors and the facts they give.
import * as T from './term.mjs'

export const unwrap = t => (t && (t.k === 'opt' || t.k === 'nullable')) ? unwrap(t.t) : t

/** type of field k (a JS string) of a value of type t; undefined = unknown, {k:'absent'} = not there */
export const fieldType = (t, k) => {
  t = unwrap(t)
  if (!t) return undefined
  switch (t.k) {
    case 'obj': return Object.hasOwn(t.fields, k) ? t.fields[k] : t.open ? { k: 'opt', t: t.open === true ? { k: 'any' } : t.open } : { k: 'absent' }
    case 'rec': return t.not?.includes(k) ? { k: 'absent' } : { k: 'opt', t: t.t }
    case 'json': return { k: 'opt', t }
    case 'error': return k === 'message' || k === 'name' ? { k: 'str' } : { k: 'opt', t: { k: 'any' } }
    case 'or': {
      const fs = t.ts.map(x => fieldType(x, k)).filter(Boolean)
      if (!fs.length) return undefined
      if (fs.every(f => f.k === 'absent')) return { k: 'absent' }
      return { k: 'or', ts: fs.map(f => f.k === 'absent' ? { k: 'undef' } : f) }
    }
    case 'any': return { k: 'opt', t }
  }
  return undefined
}
export const elemType = (t) => {
  t = unwrap(t)
  if (!t) return undefined
  if (t.k === 'arr') return t.t
  if (t.k === 'json') return t
  if (t.k === 'or') { const es = t.ts.map(elemType).filter(Boolean); return es.length === 1 ? es[0] : es.length ? { k: 'or', ts: es } : undefined }
  return undefined
}
export const isExactly = (t, k) => !!t && (t.k === k || (t.k === 'or' && t.ts.every(x => isExactly(x, k))) || (t.k === 'lit' && k === 'str' && typeof t.v === 'string'))

const tag = f => f.k === 'lit' || (f.k === 'or' && f.ts.every(u => u.k === 'lit' && u.v !== undefined))
/** a union of objects told apart by a literal field: the other fields' types are known per alternative */
const discriminated = t => t.ts.length > 1 && t.ts.every(u => u.k === 'obj') && Object.keys(t.ts[0].fields).some(k => t.ts.every(u => u.fields[k] && tag(u.fields[k])))

export const typeFact = (x, t, depth = 0) => {
  if (!t) return T.TRUE
  switch (t.k) {
    case 'any': return T.TRUE
    case 'json': return T.and(T.not(T.is('undef', x)), T.implies(T.is('vobj', x), T.or(T.eq(T.kindOf(T.sel('vobj', x)), T.int(0)), T.and(T.eq(T.kindOf(T.sel('vobj', x)), T.int(1)), T.le(T.int(0), T.lenOf(T.sel('vobj', x)))))))
    case 'str': return t.nonempty ? T.and(T.is('vstr', x), T.not(T.eq(T.sel('vstr', x), T.str('')))) : T.is('vstr', x)
    case 'bool': return T.is('vbool', x)
    case 'int': return t.min === undefined ? T.is('vnum', x) : T.and(T.is('vnum', x), T.le(T.int(t.min), T.sel('vnum', x)))
    case 'undef': case 'absent': return T.is('undef', x)
    case 'null': return T.is('nul', x)
    case 'lit': return T.eq(x, lit(t.v))
    case 'opt': return T.or(T.is('undef', x), typeFact(x, t.t, depth))
    case 'nullable': return T.or(T.is('nul', x), typeFact(x, t.t, depth))
    case 'or': return T.or(t.ts.map(u => T.and(typeFact(x, u, depth), depth < 2 && discriminated(t) ? T.and(Object.entries(u.fields).filter(([, f]) => !tag(f)).map(([k, f]) => typeFact(T.get(T.sel('vobj', x), T.str(k)), f, depth + 1))) : T.TRUE)))
    case 'obj': case 'rec': {
      const o = T.sel('vobj', x)
      const fs = [T.is('vobj', x), T.eq(T.kindOf(o), T.int(0))]
      if (depth < 1 && t.k === 'obj') for (const [k, f] of Object.entries(t.fields)) if (f.k === 'lit') fs.push(T.has(o, T.str(k)), T.eq(T.get(o, T.str(k)), lit(f.v))); else if (f.k === 'or' && f.ts.every(u => u.k === 'lit' && u.v !== undefined)) fs.push(T.has(o, T.str(k)), T.or(f.ts.map(u => T.eq(T.get(o, T.str(k)), lit(u.v)))))
      return T.and(fs)
    }
    case 'arr': {
      const o = T.sel('vobj', x)
      return T.and(T.is('vobj', x), T.eq(T.kindOf(o), T.int(1)), T.le(T.int(t.min ?? 0), T.lenOf(o)), t.max === undefined ? T.TRUE : T.le(T.lenOf(o), T.int(t.max)))
    }
    case 'fn': return T.and(T.is('vobj', x), T.eq(T.kindOf(T.sel('vobj', x)), T.int(2)))
    case 'error': return T.and(T.is('vobj', x), T.eq(T.kindOf(T.sel('vobj', x)), T.int(4)))
    case 'opaque': return T.and(T.is('vobj', x), T.eq(T.kindOf(T.sel('vobj', x)), T.int(3)))
  }
  throw new Error('typeFact ' + t.k)
}
const lit = v => typeof v === 'string' ? T.toV(T.str(v)) : typeof v === 'number' ? T.toV(T.int(v)) : typeof v === 'boolean' ? T.toV(T.bool(v)) : v === null ? T.NUL : T.UNDEF
export const litTerm = v => typeof v === 'string' ? T.str(v) : typeof v === 'number' ? T.int(v) : typeof v === 'boolean' ? T.bool(v) : v === null ? T.NUL : T.UNDEF

/** sort a value of this type can be represented in directly */
export const sortOf = (t) => {
  if (!t) return undefined
  if (isExactly(t, 'str')) return 'vstr'
  if (isExactly(t, 'bool')) return 'vbool'
  if (isExactly(t, 'int')) return 'vnum'
  return undefined
}

/** alternatives of a type */
export const alts = (t) => !t ? [] : t.k === 'or' ? t.ts.flatMap(alts) : t.k === 'opt' || t.k === 'nullable' ? [{ k: 'undef' }, ...alts(t.t)] : [t]
