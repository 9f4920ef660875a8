// Heap objects, frozen structural values, comprehensions.
import * as T from './term.mjs'

export class Unsupported extends Error {}
export class Throw { constructor(value) { this.value = value } }
export class PathEnd { constructor(why) { this.why = why } }

// id: deterministic within a path (restarted when a path is replayed; objects of module initialisers count from -1 down), uid: unique
let objId = 1, staticId = -1, uid = 1, inStatic = 0, registry = []
export const currentObjId = () => objId
export const setObjId = (n) => { objId = n }
export const objById = id => registry[id]
export const register = (o) => { o.uid = uid++; if (inStatic) o.id = staticId--; else { o.id = objId++; registry[o.id] = o } }
export const asStatic = (f) => { inStatic++; try { return f() } finally { inStatic-- } }
export const isStatic = () => inStatic > 0
export const asDynamic = (f) => { const s = inStatic; inStatic = 0; try { return f() } finally { inStatic = s } }
/** hook(object): told of every look at the contents of an object while a loop is summarised (not of appending to it) */
export const watch = { hook: undefined }
export class HObj {
  constructor(kind) { this.kind = kind; register(this); this.layers_ = []; this.segs_ = undefined; this.slots = undefined; this.cls = undefined }
  get layers() { if (watch.hook && this.kind === 'obj') watch.hook(this); return this.layers_ }
  set layers(x) { this.layers_ = x }
  get segs() { if (watch.hook) watch.hook(this); return this.segs_ }
  set segs(x) { this.segs_ = x }
}
export const rawField = (o, f) => o[f === 'layers' ? 'layers_' : f === 'segs' ? 'segs_' : f]
export const isObj = x => x instanceof HObj

// --- frozen structural values: terms with op 'frz'
// data: {kind:'obj', layers:[{t:'set',k:Term,v:Term}|{t:'spread',src}|{t:'del',k:Term}]}
//       {kind:'arr', segs:[{u:Term}|{q:Comp}]}
//       {kind:'ref', obj:HObj}          identity
//       {kind:'exists'|'findidx'|'join'|'len', comp, ...}   opaque functions of a comprehension
// Property sources: {p:'opaque', o:Term O} | {p:'layers', layers} | {p:'comp', comp}   (comp over a keyed base, out = [key, value])
// Comp: {base:{b:'arr',o}|{b:'keys',src}|{b:'cat', segs}, bind:[Term vars], cases:[{cond, out:[{u}|{q}]}], facts:[Term]}
export const canonical = (data) => {
  const parts = []
  ser(data, parts, [])
  return parts.join('')
}
const cvar = (n, sort) => T.variable(`$b${n}`, sort)
const serTerm = (t, parts, env) => {
  if (env.length) {
    const m = new Map(env)
    t = T.subst(t, m, substFrz)
  }
  parts.push('t', t.id, ';')
}
const ser = (d, parts, env) => {
  switch (d.kind) {
    case 'obj': parts.push('{', d.cls ? `@${d.cls.uid}` : ''); serLayers(d.layers, parts, env); parts.push('}'); return
    case 'arr': parts.push('['); serSegs(d.segs, parts, env); parts.push(']'); return
    case 'ref': parts.push('#', d.obj.uid); return
    case 'func': parts.push('f#', d.obj.uid, '('); for (const a of d.args ?? []) serTerm(a, parts, env); parts.push(')'); return
    case 'promise': parts.push('P', d.state); serTerm(d.value, parts, env); return
    default:
      parts.push(d.kind, '(')
      if (d.comp) serComp(d.comp, parts, env)
      for (const a of d.args ?? []) serTerm(a, parts, env)
      if (d.tag) parts.push(d.tag)
      parts.push(')')
  }
}
const serLayers = (ls, parts, env) => {
  // purely concrete sets: order does not matter
  if (ls.every(l => l.t === 'set' && l.k.op === 'str')) {
    const m = new Map()
    for (const l of ls) m.set(l.k.data, l.v)
    for (const k of [...m.keys()].sort()) { parts.push(JSON.stringify(k), ':'); serTerm(m.get(k), parts, env) }
    return
  }
  for (const l of ls) {
    parts.push(l.t)
    if (l.t === 'set') { serTerm(l.k, parts, env); serTerm(l.v, parts, env) }
    else if (l.t === 'del') serTerm(l.k, parts, env)
    else serSrc(l.src, parts, env)
  }
}
const serSrc = (s, parts, env) => {
  if (s.p === 'opaque') { parts.push('o'); serTerm(s.o, parts, env) }
  else if (s.p === 'layers') { parts.push('('); serLayers(s.layers, parts, env); parts.push(')') }
  else serComp(s.comp, parts, env)
}
const serSegs = (segs, parts, env) => { for (const s of segs) { if (s.u) serTerm(s.u, parts, env); else serComp(s.q, parts, env) } }
const serComp = (c, parts, env) => {
  parts.push('C<')
  if (c.base.b === 'arr') serTerm(c.base.o, parts, env)
  else if (c.base.b === 'keys') serSrc(c.base.src, parts, env)
  else parts.push('?' + c.base.id)
  const env2 = [...env, ...c.bind.map((b, i) => [b, cvar(env.length + i, b.sort)])]
  for (const k of c.cases) {
    if (k.out.length === 0) continue
    parts.push('|'); serTerm(k.cond, parts, env2); serSegs(k.out, parts, env2)
  }
  parts.push('>')
}

export const frz = (data, sort = 'V') => {
  const key = canonical(data)
  const t = T.mk('frz', [], sort, data, key)
  return t
}
// substitution inside frozen data
export function substFrz(t, map) { const d = substData(t.data, map); return d === t.data ? t : frz(d, t.sort) }
const sT = (t, map) => T.subst(t, map, substFrz)
const substLayers = (ls, map) => ls.map(l => l.t === 'set' ? { t: 'set', k: sT(l.k, map), v: sT(l.v, map) } : l.t === 'del' ? { t: 'del', k: sT(l.k, map) } : { t: 'spread', src: substSrc(l.src, map) })
const substSrc = (s, map) => s.p === 'opaque' ? { p: 'opaque', o: sT(s.o, map) } : s.p === 'layers' ? { p: 'layers', layers: substLayers(s.layers, map) } : { p: 'comp', comp: substComp(s.comp, map) }
const substSegs = (segs, map) => segs.map(s => s.u ? { u: sT(s.u, map) } : { q: substComp(s.q, map) })
export const substComp = (c, map) => ({
  ...c,
  base: c.base.b === 'arr' ? { ...c.base, o: sT(c.base.o, map) } : c.base.b === 'keys' ? { ...c.base, src: substSrc(c.base.src, map) } : c.base,
  cases: c.cases.map(k => ({ ...k, cond: sT(k.cond, map), out: substSegs(k.out, map), err: k.err ? sT(k.err, map) : undefined })),
  facts: c.facts.map(f => sT(f, map)),
})
const substData = (d, map) => {
  switch (d.kind) {
    case 'obj': return { ...d, layers: substLayers(d.layers, map) }
    case 'arr': return { ...d, segs: substSegs(d.segs, map) }
    case 'ref': return d
    case 'promise': return { ...d, value: sT(d.value, map) }
    default: return { ...d, comp: d.comp && substComp(d.comp, map), args: d.args?.map(a => sT(a, map)) }
  }
}
export const instComp = (c, vars) => substComp({ ...c, base: { b: 'none' } }, new Map(c.bind.map((b, i) => [b, vars[i]])))
