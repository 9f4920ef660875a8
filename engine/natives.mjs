// Built-in objects and methods.
import * as T from './term.mjs'
import { HObj, PathEnd, Throw, Unsupported, asStatic, frz, isObj, substComp, substFrz, rawField, watch } from './heap.mjs'
import { Cell, native } from './interp.mjs'
import { unwrap } from './types.mjs'

const { UNDEF, NUL, str } = T
const I = T.int
const isT = T.isTerm
const cstr = t => t !== undefined && isT(t) && t.op === 'str' ? t.data : undefined

// ---------- arrays
const cb = (ip, f, ...args) => ip.callFn(f, UNDEF, args)
/** the elements with their index, where the callback takes one and it is known */
const indexed = (a, f, ip) => {
  const q = a.segs.length === 1 && a.segs[0].q
  if (!q || !q.total || q.base.b !== 'arr' || !(isObj(f) && f.node?.parameters.length > 1)) return [a.segs, x => cb(ip, f, x, ip.idxArg())]
  return [ip.asArr(arrMethods.entries(a, [], ip)).segs, (p) => { const e = ip.asArr(p); return cb(ip, f, ip.val(e.segs[1].u), ip.val(e.segs[0].u)) }]
}
const arrMethods = {
  map: (a, [f], ip) => {
    const [segs, call] = indexed(a, f, ip)
    if (segs !== a.segs) return ip.newArr(ip.mapSegs(segs, x => [{ u: call(x) }]))
    let i = 0
    const pure = a.segs.every(s => s.u)
    return ip.newArr(a.segs.flatMap((s) => {
      if (s.u) return [{ u: cb(ip, f, ip.val(s.u), pure ? I(i++) : ip.ctx.fresh('idx', 'I')) }]
      return ip.iterate(s.q, o => ({ segs: ip.mapSegs(o, x => [{ u: cb(ip, f, x, ip.idxArg()) }]) })).segs
    }))
  },
  forEach: (a, [f], ip) => { arrMethods.map(a, [f], ip); return UNDEF },
  filter: (a, [f], ip) => indexed(a, f, ip)[0] !== a.segs ? ip.newArr(ip.mapSegs(indexed(a, f, ip)[0], p => ip.test(indexed(a, f, ip)[1](p)) ? [ip.asArr(p).segs[1]] : [])) : ip.newArr(ip.mapSegs(a.segs, x => ip.test(cb(ip, f, x, ip.idxArg())) ? [{ u: x }] : [])),
  flatMap: (a, [f], ip) => ip.newArr(ip.mapSegs(indexed(a, f, ip)[0], (x) => { const r = indexed(a, f, ip)[1](x); const b = ip.asArr(r); return b ? b.segs.map(s => s.u ? { u: s.u } : s) : [{ u: r }] })),
  flat: (a, _, ip) => ip.newArr(ip.mapSegs(a.segs, (x) => { const b = ip.asArr(x); return b ? b.segs : [{ u: x }] })),
  some: (a, [f], ip) => {
    for (const s of a.segs) {
      if (s.u) { if (ip.test(cb(ip, f, ip.val(s.u), ip.idxArg()))) return T.TRUE; continue }
      const r = ip.iterate(s.q, o => ({ segs: ip.mapSegs(o, x => ip.test(cb(ip, f, x, ip.idxArg())) ? [{ u: T.toV(T.TRUE) }] : []) }))
      if (ip.ctx.branch(ip.existsComp(r.segs[0].q))) return T.TRUE
    }
    return T.FALSE
  },
  every: (a, [f], ip) => {
    for (const s of a.segs) {
      if (s.u) { if (!ip.test(cb(ip, f, ip.val(s.u), ip.idxArg()))) return T.FALSE; continue }
      const r = ip.iterate(s.q, o => ({ segs: ip.mapSegs(o, x => ip.test(cb(ip, f, x, ip.idxArg())) ? [] : [{ u: T.toV(T.TRUE) }]) }))
      if (ip.ctx.branch(ip.existsComp(r.segs[0].q))) return T.FALSE
    }
    return T.TRUE
  },
  find: (a, [f], ip) => {
    for (const s of a.segs) {
      if (s.u) { const x = ip.val(s.u); if (ip.test(cb(ip, f, x, ip.idxArg()))) return x; continue }
      const r = ip.iterate(s.q, o => ({ segs: ip.mapSegs(o, x => ip.test(cb(ip, f, x, ip.idxArg())) ? [{ u: x }] : []) }))
      const q = r.segs[0].q
      if (ip.ctx.branch(ip.existsComp(q))) return ip.firstOf(q)
    }
    return UNDEF
  },
  findLast: (a, [f], ip) => { if (a.segs.every(s => s.u)) { for (const s of [...a.segs].reverse()) { const x = ip.val(s.u); if (ip.test(cb(ip, f, x))) return x } return UNDEF } ip.unsupported('findLast') },
  findIndex: (a, [f], ip) => {
    if (a.segs.every(s => s.u)) { for (let i = 0; i < a.segs.length; i++) if (ip.test(cb(ip, f, ip.val(a.segs[i].u), I(i)))) return I(i); return I(-1) }
    const q = a.segs.length === 1 && a.segs[0].q
    if (q && q.total && q.base.b === 'arr' && q.bind.length === 1) {
      const r = ip.iterate(q, o => ({ segs: ip.mapSegs(o, x => ip.test(cb(ip, f, x, ip.idxArg())) ? [{ u: x }] : []) })).segs[0].q
      return ip.ctx.branch(ip.existsComp(r)) ? ip.firstIndex(r) : I(-1)
    }
    ip.unsupported('findIndex')
  },
  includes: (a, [x], ip) => {
    const alts = []
    for (const s of a.segs) {
      if (s.u) { alts.push(ip.strictEq(ip.val(s.u), x)); continue }
      const r = ip.iterate(s.q, o => ({ segs: ip.mapSegs(o, y => ip.ctx.branch(ip.strictEq(y, x)) ? [{ u: T.toV(T.TRUE) }] : []) }))
      alts.push(ip.existsComp(r.segs[0].q))
    }
    return T.or(alts)
  },
  indexOf: (a, [x], ip) => {
    if (a.segs.every(s => s.u)) { for (let i = 0; i < a.segs.length; i++) if (ip.ctx.branch(ip.strictEq(ip.val(a.segs[i].u), x))) return I(i); return I(-1) }
    ip.unsupported('indexOf')
  },
  push: (a, args, ip) => { ip.checkWritable(a); ip.setSegs(a, [...rawField(a, 'segs'), ...args.flatMap(x => x.spread ? x.spread : [{ u: x }])]); return ip.lazyLen(a) },
  unshift: (a, args, ip) => { ip.checkWritable(a); ip.setSegs(a, [...args.flatMap(x => x.spread ? x.spread : [{ u: x }]), ...a.segs]); return ip.lazyLen(a) },
  pop: (a, _, ip) => {
    ip.checkWritable(a)
    for (let k = a.segs.length - 1; k >= 0; k--) {
      const s = a.segs[k]
      if (s.u) { ip.setSegs(a, a.segs.slice(0, k)); return ip.val(s.u) }
      if (ip.ctx.branch(ip.existsComp(s.q))) ip.unsupported('pop of an unknown array')
    }
    return UNDEF
  },
  shift: (a, _, ip) => {
    ip.checkWritable(a)
    for (let k = 0; k < a.segs.length; k++) {
      const s = a.segs[k]
      if (s.u) { ip.setSegs(a, a.segs.slice(k + 1)); return ip.val(s.u) }
      if (ip.ctx.branch(ip.existsComp(s.q))) ip.unsupported('shift of an unknown array')
    }
    return UNDEF
  },
  slice: (a, [i, j], ip) => {
    const st = i === undefined || i.op === 'undef' ? 0 : i.op === 'int' ? i.data : undefined
    if (st !== undefined && (j === undefined || j.op === 'undef')) {
      if (st === 0) return ip.newArr(a.segs)
      if (st > 0 && a.segs.slice(0, st).every(s => s.u)) return ip.newArr(a.segs.slice(st))
      if (st < 0 && a.segs.slice(st).every(s => s.u) && a.segs.length >= -st) return ip.newArr(a.segs.slice(st))
    }
    if (a.segs.every(s => s.u) && st !== undefined && (j === undefined || j.op === 'int')) return ip.newArr(a.segs.slice(st, j?.data))
    if (st === 0 && j?.op === 'int' && j.data === -1 && a.segs.at(-1)?.u) return ip.newArr(a.segs.slice(0, -1))
    return ip.sliceSym(a, i ?? I(0), j)
  },
  splice: (a, [i, n, ...ins], ip) => {
    ip.checkWritable(a)
    if (!a.segs.every(s => s.u) || i.op !== 'int') ip.unsupported('splice')
    const x = [...a.segs]
    const del = x.splice(i.data, n === undefined ? x.length : n.data, ...ins.map(u => ({ u })))
    ip.setSegs(a, x)
    return ip.newArr(del)
  },
  concat: (a, args, ip) => ip.newArr([...a.segs, ...args.flatMap((x) => { const b = ip.asArr(x); return b ? b.segs : [{ u: x }] })]),
  join: (a, [sep], ip) => ip.arrJoin(a, sep === undefined || sep.op === 'undef' ? str(',') : ip.toStr(sep)),
  at: (a, [i], ip) => ip.arrAt(a, ip.toInt(i)),
  reverse: (a, _, ip) => { if (!a.segs.every(s => s.u)) ip.unsupported('reverse'); ip.checkWritable(a); ip.setSegs(a, [...a.segs].reverse()); return a },
  toReversed: (a, _, ip) => { if (!a.segs.every(s => s.u)) ip.unsupported('reverse'); return ip.newArr([...a.segs].reverse()) },
  reduce: (a, [f, init], ip) => {
    let acc = init
    let segs = a.segs
    if (acc === undefined) { if (!segs[0]?.u) ip.unsupported('reduce without an initial value'); acc = ip.val(segs[0].u); segs = segs.slice(1) }
    for (const s of segs) {
      if (s.u) acc = cb(ip, f, acc, ip.val(s.u))
      else acc = ip.foldReduce(s.q, f, acc)
    }
    return acc
  },
  entries: (a, _, ip) => {
    let i = 0
    if (a.segs.every(s => s.u)) return ip.newArr(a.segs.map(s => ({ u: ip.newArr([{ u: I(i++) }, { u: s.u }]) })))
    if (a.segs.length === 1 && a.segs[0].q.total && a.segs[0].q.base.b === 'arr') {
      const q = a.segs[0].q
      return ip.newArr([{ q: { ...q, cases: q.cases.map(k => ({ cond: k.cond, out: [{ u: frz({ kind: 'arr', segs: [{ u: T.toV(q.bind[0]) }, k.out[0]] }) }] })) } }])
    }
    ip.unsupported('entries')
  },
  keys: (a, _, ip) => { if (a.segs.every(s => s.u)) return ip.newArr(a.segs.map((s, i) => ({ u: I(i) }))); ip.unsupported('keys') },
  values: (a, _, ip) => ip.newArr(a.segs),
  sort: (a, _, ip) => ip.unsupported('sort'),
  toString: (a, _, ip) => ip.toStr(a),
  fill: (a, [x], ip) => { if (!a.segs.every(s => s.u)) ip.unsupported('fill'); ip.setSegs(a, a.segs.map(() => ({ u: x }))); return a },
}
// ---------- strings
const uf = (name, nat) => (s, args, ip) => {
  const as = args.map(x => isT(x) ? ip.norm(x) : x)
  if (s.op === 'str' && as.every(x => isT(x) && T.isConst(x))) return ip.fromJS(nat(s.data, ...as.map(x => x.op === 'undef' ? undefined : x.data)))
  return T.app(`${name}`, [s, ...as.map(x => ip.V(x))], 'S')
}
const strMethods = {
  toLowerCase: (s) => s.op === 'str' ? str(s.data.toLowerCase()) : T.app('lower', [s], 'S'),
  toUpperCase: (s) => s.op === 'str' ? str(s.data.toUpperCase()) : T.app('upper', [s], 'S'),
  toString: s => s, valueOf: s => s,
  trim: uf('trim', s => s.trim()), trimStart: uf('trimStart', s => s.trimStart()), trimEnd: uf('trimEnd', s => s.trimEnd()),
  repeat: uf('repeat', (s, n) => s.repeat(n)), padStart: uf('padStart', (s, n, p) => s.padStart(n, p)), padEnd: uf('padEnd', (s, n, p) => s.padEnd(n, p)),
  startsWith: (s, [p], ip) => T.prefixof(ip.toStr(p), s),
  endsWith: (s, [p], ip) => T.suffixof(ip.toStr(p), s),
  includes: (s, [p], ip) => T.contains(s, ip.toStr(p)),
  indexOf: (s, [p, i], ip) => T.indexof(s, ip.toStr(p), i === undefined || i.op === 'undef' ? I(0) : ip.toInt(i)),
  lastIndexOf: (s, [p], ip) => { const q = ip.toStr(p); if (s.op === 'str' && q.op === 'str') return I(s.data.lastIndexOf(q.data)); return T.app('lastIndexOf', [s, q], 'I') },
  concat: (s, args, ip) => T.concat(s, ...args.map(x => ip.toStr(x))),
  slice: (s, [i, j], ip) => ip.strSlice(s, i, j, true),
  substring: (s, [i, j], ip) => ip.strSlice(s, i, j, false),
  substr: (s, [i, n], ip) => n === undefined ? ip.strSlice(s, i, undefined, true) : T.substr(s, ip.toInt(i), ip.toInt(n)),
  charAt: (s, [i], ip) => T.substr(s, i === undefined ? I(0) : ip.toInt(i), I(1)),
  at: (s, [i], ip) => ip.strAt(s, ip.toInt(i), true),
  charCodeAt: (s, [i], ip) => s.op === 'str' && i.op === 'int' ? I(s.data.charCodeAt(i.data)) : T.app('charCodeAt', [s, ip.toInt(i)], 'I'),
  codePointAt: (s, [i], ip) => s.op === 'str' && i.op === 'int' ? ip.fromJS(s.data.codePointAt(i.data)) : T.app('codePointAt', [s, ip.toInt(i)], 'I'),
  split: (s, [p], ip) => {
    const sep = cstr(p)
    if (s.op === 'str' && sep !== undefined) return ip.newArr(s.data.split(sep).map(x => ({ u: str(x) })))
    if (!isT(p) || p.sort !== 'S') ip.unsupported('split')
    ip.ctx.funTypes.set('split', { k: 'arr', t: { k: 'str' }, min: 1 })
    return ip.norm(T.app('split', [s, p], 'V'))
  },
  replace: (s, args, ip) => ip.strReplace(s, args, false),
  replaceAll: (s, args, ip) => ip.strReplace(s, args, true),
  match: (s, [r], ip) => ip.strMatch(s, r),
  matchAll: (s, [r], ip) => ip.strMatchAll(s, r),
  localeCompare: (s, args, ip) => ip.unsupported('localeCompare'),
  normalize: uf('normalize', s => s.normalize()),
}
const objMethods = {
  hasOwnProperty: (o, [k], ip) => ip.hasProp(o, ip.toKey(k)),
  toString: (o, _, ip) => ip.toStr(o),
}
const funcMethods = {
  call: (f, [t, ...args], ip) => ip.callFn(f, t ?? UNDEF, args),
  apply: (f, [t, a], ip) => ip.callFn(f, t ?? UNDEF, a === undefined || a.op === 'undef' ? [] : ip.iterSegs(a).map(s => s.u ? ip.val(s.u) : { spread: [s] })),
  bind: (f, [t, ...pre], ip) => native(f.fname, (_, args) => ip.callFn(f, t ?? UNDEF, [...pre, ...args])),
}
const promiseMethods = {
  then: (p, [f, g], ip) => ip.then(p, f, g),
  catch: (p, [g], ip) => ip.then(p, undefined, g),
  finally: (p, [f], ip) => {
    const q = ip.newPromise()
    ip.subscribe(p, () => {
      try { const r = ip.callFn(f, UNDEF, []); if (isObj(r) && r.kind === 'promise') ip.awaitVal(r); ip.settle(q, p.state, p.value) }
      catch (e) { if (e instanceof Throw) ip.settle(q, 'rejected', e.value); else throw e }
    })
    return q
  },
}
const numMethods = { toString: (n, _, ip) => ip.toStr(n), toFixed: (n, _, ip) => ip.unsupported('toFixed') }
const regexMethods = {
  test: (r, [s], ip) => {
    const x = ip.toStr(s)
    const re = ip.jsRegex(r)
    if (x.op === 'str' && re) return T.bool(re.test(x.data))
    return T.app(`retest:${T.show(r.source)}:${T.show(r.flags)}`, [x, r.source], 'B')
  },
  exec: (r, [s], ip) => ip.regexExec(r, ip.toStr(s)),
  toString: (r, _, ip) => T.concat(str('/'), r.source, str('/'), r.flags),
}
const PROTOS = { arr: arrMethods, str: strMethods, obj: objMethods, func: funcMethods, promise: promiseMethods, num: numMethods, regex: regexMethods }
const protoCache = new Map()

export const installNatives = (ip) => {
  const g = new HObj('obj'); g.owner = 'harness'; g.shared = true
  ip.globalObj = g
  const def = (o, n, v) => { o.layers = [...o.layers, { t: 'set', k: str(n), v }] }
  const ns = (name, methods, base) => {
    const o = base ?? new HObj('obj'); o.owner = 'prelude'
    for (const [n, f] of Object.entries(methods)) def(o, n, native(n, (_, a) => f(...a)))
    def(g, name, o)
    return o
  }
  const fn = (name, f) => { const o = native(name, (_, a) => f(...a)); def(g, name, o); return o }
  const arrOf = xs => ip.newArr(xs.map(u => ({ u })))
  ns('Object', {
    assign: (t, ...srcs) => {
      t = ip.val(t)
      if (isT(t)) ip.frameViolation('Object.assign to an opaque input object')
      ip.checkWritable(t)
      for (const s of srcs) {
        if (s.spread) ip.unsupported('Object.assign of unknown sources')
        const ls = ip.spreadLayers(s)
        if (ls.length) ip.setLayers(t, [...t.layers, ...ls])
      }
      return t
    },
    entries: v => ip.newArr(ip.entrySegs(v)),
    keys: v => ip.newArr(ip.objectKeys(v)),
    values: v => ip.newArr(ip.mapSegs(ip.entrySegs(v), e => [{ u: ip.arrGet(e, I(1)) }])),
    fromEntries: v => ip.fromEntries(v),
    freeze: v => v, seal: v => v, preventExtensions: v => v,
    hasOwn: (o, k) => ip.hasProp(o, ip.toKey(k)),
    is: (a, b) => ip.strictEq(a, b),
    create: (p) => { if (!isT(p) || p.op !== 'nul') ip.unsupported('Object.create'); return ip.newObj() },
    getOwnPropertyDescriptor: (o, k) => ip.ctx.branch(ip.hasProp(o, ip.toKey(k))) ? ip.objOf({ value: ip.getProp(o, ip.toKey(k)), writable: T.TRUE, enumerable: T.TRUE, configurable: T.TRUE }) : UNDEF,
    getPrototypeOf: v => ip.unsupported('getPrototypeOf'),
    defineProperty: (o, k, d) => { const has = ip.hasProp(d, str('value')); if (has !== T.TRUE) ip.unsupported('defineProperty'); ip.setProp(o, ip.toKey(k), ip.getProp(d, str('value'))); return o },
  }, (() => { const o = native('Object', (_, [v]) => v ?? ip.newObj()); o.nativeNew = () => ip.newObj(); return o })())
  const A = ns('Array', {
    isArray: (v) => { v = ip.val(v); return isObj(v) ? T.bool(v.kind === 'arr') : v.sort === 'V' && !T.isConst(v) ? ip.isArrTerm(v) : T.FALSE },
    from: (v, f) => {
      const vv = ip.val(v)
      let segs
      if (isObj(vv) && vv.kind === 'obj' && !vv.cls) { const n = ip.getProp(vv, str('length')); if (n.op !== 'int') ip.unsupported('Array.from'); segs = Array.from({ length: n.data }, () => ({ u: UNDEF })) }
      else segs = ip.iterSegs(vv)
      const a = ip.newArr(segs)
      return f && f.op !== 'undef' ? arrMethods.map(a, [f], ip) : a
    },
    of: (...xs) => arrOf(xs),
  }, native('Array', (_, xs) => arrOf(xs)))
  A.nativeNew = (args) => { if (args.length === 1 && args[0].op === 'int') return arrOf(Array.from({ length: args[0].data }, () => UNDEF)); return arrOf(args) }
  A.nativeIs = v => isObj(v) ? T.bool(v.kind === 'arr') : v.sort === 'V' && !T.isConst(v) ? ip.isArrTerm(v) : T.FALSE
  // bytes are an array of numbers
  const U8 = ns('Uint8Array', { fromBase64: s => T.app('fromBase64', [ip.toStr(s)], 'V') }, native('Uint8Array', () => ip.throwType('Constructor Uint8Array requires new')))
  U8.nativeNew = ([x]) => { const a = x === undefined ? ip.newArr() : ip.tryArr(x); if (!a) ip.unsupported('Uint8Array'); return ip.newArr([...a.segs]) }
  U8.nativeIs = () => ip.unsupported('instanceof Uint8Array')
  ns('JSON', {
    stringify: (v, rep, ind) => {
      v = ip.val(v)
      const extra = [rep, ind].filter(x => x && x.op !== 'undef' && x.op !== 'nul')
      if (rep && rep.op !== 'undef' && rep.op !== 'nul') ip.unsupported('JSON.stringify replacer')
      if (isT(v)) {
        if (v.op === 'undef') return UNDEF
        if (v.sort === 'V' && !ip.ctx.entails(T.not(T.is('undef', v))) && ip.ctx.branch(T.is('undef', v))) return UNDEF
        if (v.op === 'int') return str(String(v.data)); if (v.op === 'str') return str(JSON.stringify(v.data)); if (v.op === 'nul') return str('null'); if (v.op === 'bool') return str(String(v.data))
      }
      else if (v.kind === 'func') return UNDEF
      return T.app('json', [ip.freeze(ip.jsonClean(v)), ...extra.map(x => ip.freeze(x))], 'S')
    },
    parse: (s) => {
      s = ip.toStr(s)
      if (s.op === 'str') { try { return ip.fromJS(JSON.parse(s.data)) } catch (e) { throw new Throw(ip.makeError('SyntaxError', e.message)) } }
      if (s.op === 'app' && s.data === 'json') return ip.privateCopy(s.args[0])
      if (!ip.ctx.branch(T.app('jsonok', [s], 'B'))) { const e = ip.makeError('SyntaxError', ''); e.layers = [...e.layers, { t: 'set', k: str('message'), v: T.app('jsonerror', [s], 'S') }]; throw new Throw(e) }
      ip.ctx.fact(T.implies(T.app('jsonok', [s], 'B'), T.not(T.eq(s, str('')))))
      ip.ctx.funTypes.set('jsonparse', { k: 'json' })
      return ip.norm(T.app('jsonparse', [s], 'V'))
    },
  })
  const P = ns('Promise', {
    all: v => ip.promiseAll(v), allSettled: v => ip.promiseAll(v, true),
    resolve: v => ip.resolvedWith(v ?? UNDEF), reject: v => ip.rejected(v ?? UNDEF),
    withResolvers: () => {
      const p = ip.newPromise()
      return ip.objOf({ promise: p, resolve: native('resolve', (_, [v]) => { if (p.state === 'pending' && !p.locked) ip.resolveInto(p, v ?? UNDEF); return UNDEF }), reject: native('reject', (_, [v]) => { ip.settle(p, 'rejected', v ?? UNDEF); return UNDEF }) })
    },
    race: (v) => { const s = ip.iterSegs(v)[0]; if (!s?.u) ip.unsupported('race'); return ip.resolvedWith(ip.val(s.u)) },
  }, (() => { const o = native('Promise', () => ip.throwType('Promise requires new')); o.isClass = false; return o })())
  P.nativeNew = ([ex]) => {
    const p = ip.newPromise()
    try { ip.callFn(ex, UNDEF, [native('resolve', (_, [v]) => { if (p.state === 'pending') ip.resolveInto(p, v ?? UNDEF); return UNDEF }), native('reject', (_, [v]) => { ip.settle(p, 'rejected', v ?? UNDEF); return UNDEF })]) }
    catch (e) { if (e instanceof Throw) ip.settle(p, 'rejected', e.value); else throw e }
    return p
  }
  P.nativeIs = v => isObj(v) ? T.bool(v.kind === 'promise') : T.FALSE
  ns('Math', {
    max: (...xs) => xs.map(x => ip.toInt(x)).reduce((a, b) => a.op === 'int' && b.op === 'int' ? I(Math.max(a.data, b.data)) : T.ite(T.lt(a, b), b, a)),
    min: (...xs) => xs.map(x => ip.toInt(x)).reduce((a, b) => a.op === 'int' && b.op === 'int' ? I(Math.min(a.data, b.data)) : T.ite(T.lt(b, a), b, a)),
    floor: x => ip.toInt(x), ceil: x => ip.toInt(x), round: x => ip.toInt(x), random: () => ip.ctx.fresh('random', 'I'),
    abs: x => T.ite(T.lt(ip.toInt(x), I(0)), T.sub(I(0), ip.toInt(x)), ip.toInt(x)),
  })
  const S = ns('String', { fromCharCode: x => x.op === 'int' ? str(String.fromCharCode(x.data)) : T.app('fromCharCode', [x], 'S'), raw: () => ip.unsupported('raw') }, native('String', (_, [v]) => v === undefined ? str('') : ip.toStr(v)))
  S.nativeIs = () => T.FALSE
  ns('Number', {
    isInteger: v => T.bool(isT(v) && ip.norm(v).sort === 'I'), isFinite: v => T.bool(isT(v) && ip.norm(v).sort === 'I'), isNaN: v => T.FALSE,
    parseInt: (s) => { const x = ip.toStr(s); return x.op === 'str' ? I(Number.parseInt(x.data)) : T.app('parseInt', [x], 'I') },
  }, native('Number', (_, [v]) => { const x = isT(v) ? ip.norm(v) : v; if (isT(x) && x.op === 'str') return I(Number(x.data)); if (isT(x) && x.sort === 'S') return T.app('tonumber', [x], 'I'); return ip.toInt(v) }))
  fn('Boolean', v => v === undefined ? T.FALSE : ip.truthy(v))
  fn('structuredClone', v => ip.structuredClone(v))
  fn('parseInt', (s) => { const x = ip.toStr(s); return x.op === 'str' ? I(Number.parseInt(x.data)) : T.app('parseInt', [x], 'I') })
  const R = fn('RegExp', (s, f) => ip.newRegex(s, f))
  R.nativeNew = ([s, f]) => ip.newRegex(s, f)
  R.nativeIs = v => isObj(v) ? T.bool(v.kind === 'regex') : T.FALSE
  const F = fn('Function', () => ip.unsupported('Function'))
  F.nativeIs = v => isObj(v) ? T.bool(v.kind === 'func') : v.sort === 'V' && !T.isConst(v) ? ip.isFnTerm(v) : T.FALSE
  const sym = native('Symbol', (_, [d]) => { const s = new HObj('symbol'); s.fname = `sym${s.id}`; return s })
  for (const n of ['iterator', 'asyncIterator', 'toStringTag', 'dispose', 'asyncDispose']) { const s = new HObj('symbol'); s.fname = n; def(sym, n, s) }
  def(g, 'Symbol', sym)
  fn('setTimeout', f => { ip.callFn(f, UNDEF, []); return UNDEF }) // timers fire at once
  ns('console', { log: () => UNDEF, warn: () => UNDEF, error: () => UNDEF, info: () => UNDEF, debug: () => UNDEF })
  ns('crypto', { randomUUID: () => ip.ctx.fresh('uuid', 'S') })
  ns('Date', { now: () => ip.ctx.fresh('now', 'I') })
  ns('performance', { now: () => ip.ctx.fresh('now', 'I') })
  fn('btoa', s => T.app('btoa', [ip.toStr(s)], 'S'))
  fn('atob', s => T.app('atob', [ip.toStr(s)], 'S'))
  fn('queueMicrotask', (f) => { ip.callFn(f, UNDEF, []); return UNDEF })
  fn('encodeURIComponent', s => { const x = ip.toStr(s); return x.op === 'str' ? str(encodeURIComponent(x.data)) : T.app('encodeURIComponent', [x], 'S') })
  fn('__await', v => ip.awaitVal(v ?? UNDEF))
  fn('__native', (n, ...args) => ip.preludeNative(n.data, args))
  def(g, 'globalThis', g)
  ip.protoMethod = (kind, k) => {
    const m = PROTOS[kind]
    if (!m || k === undefined || !Object.hasOwn(m, k)) return undefined
    const key = kind + '.' + k
    let f = protoCache.get(key)
    if (!f) {
      f = asStatic(() => native(k, (self, args, ip2) => {
        let s = ip2.val(self)
        if (kind === 'arr') s = ip2.asArr(s) ?? ip2.unsupported('array method on a non-array')
        if (kind === 'str') s = ip2.toStr(s)
        return m[k](s, args, ip2)
      }))
      protoCache.set(key, f)
    }
    return f
  }
  Object.assign(ip, methods)
}

const methods = {
  idxArg() { return this.ctx.fresh('idx', 'I') },
  // in a summarised loop the length after an append depends on the rounds before
  lazyLen(a) { return watch.hook && a.id < watch.top ? this.norm(this.ctx.fresh('pushed', 'V', { k: 'int', min: 0 })) : a.segs.every(s => s.u) ? I(a.segs.length) : this.arrLen(a) },
  fromJS(x) {
    if (x === undefined) return UNDEF
    if (x === null) return NUL
    switch (typeof x) {
      case 'string': return str(x)
      case 'boolean': return T.bool(x)
      case 'number': if (!Number.isInteger(x)) this.unsupported('fraction'); return I(x)
    }
    if (Array.isArray(x)) return this.newArr(x.map(y => ({ u: this.fromJS(y) })))
    return this.objOf(Object.fromEntries(Object.entries(x).map(([k, y]) => [k, this.fromJS(y)])))
  },
  /** value as JSON.stringify sees it: functions and undefined dropped */
  jsonClean(v) {
    v = this.val(v)
    if (isT(v)) return v
    if (v.kind === 'func') return UNDEF
    if (v.kind === 'arr') { if (v.viewOf) return v; const a = this.newArr(v.segs.map(s => s.u ? { u: this.jsonClean(s.u) } : { q: this.mapComp(s.q, t => this.freeze(this.jsonClean(this.val(t)))) })); return a }
    if (v.kind === 'obj') {
      if (v.viewOf && v.owner !== 'frozen') return v
      if (v.cls) { const m = this.findMethod(v.cls, 'toJSON'); if (m) return this.jsonClean(this.callFn(m, v, [])) }
      const o = this.newObj()
      const ls = []
      for (const l of v.layers) {
        if (l.t !== 'set') { ls.push(l); continue }
        const x = this.val(l.v)
        if (isObj(x) && x.kind === 'func') { ls.push({ t: 'del', k: l.k }); continue }
        if (isT(x) && x.sort === 'V' && unwrap(this.typeOf(x))?.k === 'fn') { ls.push({ t: 'del', k: l.k }); continue }
        if (isT(x) && x.op === 'undef') { ls.push({ t: 'del', k: l.k }); continue }
        ls.push({ t: 'set', k: l.k, v: this.jsonClean(x) })
      }
      o.layers = this.compactLayers(ls)
      return o
    }
    if (v.kind === 'promise') return this.newObj()
    return v
  },
  mapComp(q, f) {
    // f works on element terms under the binders
    const nb = q.bind.map(b => this.ctx.newBinder(b.sort))
    const c = substComp(q, new Map(q.bind.map((b, i) => [b, nb[i]])))
    const go = segs => segs.map(s => s.u ? { u: f(s.u) } : { q: this.mapComp(s.q, f) })
    const saveB = this.ctx.binders; this.ctx.binders = [...saveB, ...nb]
    const r = { ...c, bind: nb, cases: c.cases.map(k => ({ ...k, out: go(k.out) })) }
    this.ctx.binders = saveB
    return r
  },
  /** mutable private deep copy of a frozen structure (JSON.parse of JSON.stringify, structuredClone) */
  privateCopy(v) {
    v = this.val(v)
    if (isT(v)) {
      if (v.sort !== 'V' || T.isConst(v)) return v
      const ty = unwrap(this.typeOf(v))
      if (ty?.k === 'arr') { const a = this.viewArr(v); return this.privateCopy(Object.assign(a, { viewOf: undefined })) }
      if (ty && ['obj', 'rec'].includes(ty.k) && this.ctx.entails(T.is('vobj', v))) { const o = this.newObj(); o.layers = [{ t: 'spread', src: { p: 'opaque', o: T.sel('vobj', v), clone: true } }]; return o }
      return this.cloneOf(v)
    }
    if (v.kind === 'arr') return this.newArr(v.segs.map(s => s.u ? { u: this.privateCopy(s.u) } : { q: this.mapComp(s.q, t => this.cloneTerm(t)) }))
    if (v.kind === 'obj') {
      const o = this.newObj()
      o.layers = v.layers.map(l => l.t === 'set' ? { ...l, v: this.privateCopy(l.v) } : l.t === 'spread' ? { t: 'spread', src: l.src.p === 'opaque' ? { ...l.src, clone: true } : l.src } : l)
      return o
    }
    return v
  },
  cloneTerm(t) {
    if (t.op === 'frz') {
      const d = t.data
      if (d.kind === 'obj') return frz({ ...d, layers: d.layers.map(l => l.t === 'set' ? { ...l, v: this.cloneTerm(l.v) } : l) })
      if (d.kind === 'arr') return frz({ ...d, segs: d.segs.map(s => s.u ? { u: this.cloneTerm(s.u) } : { q: this.mapComp(s.q, x => this.cloneTerm(x)) }) })
      return t
    }
    if (T.isConst(t) || t.op === 'vstr' || t.op === 'vbool' || t.op === 'vnum') return t
    return T.app('clone', [t], 'V')
  },
  structuredClone(v) {
    v = this.val(v)
    const bad = (x, d = 0) => {
      x = this.val(x)
      if (isObj(x) && x.kind === 'func') return true
      if (isT(x) && x.sort === 'V' && unwrap(this.typeOf(x))?.k === 'fn') return true
      if (isObj(x) && x.kind === 'obj') return x.layers.some(l => l.t === 'set' && bad(l.v, d + 1))
      if (isObj(x) && x.kind === 'arr') return x.segs.some(s => s.u && bad(s.u, d + 1))
      return false
    }
    if (bad(v)) { const e = this.makeError('Error', 'DataCloneError: value could not be cloned'); throw new Throw(e) }
    return this.privateCopy(v)
  },
  strSlice(s, i, j, neg) {
    const n = T.strlen(s)
    const fix = (x, dflt) => {
      if (x === undefined || x.op === 'undef') return dflt
      x = this.toInt(x)
      if (x.op === 'int' && x.data >= 0) return x
      if (x.op === 'int') return neg ? T.add(n, x) : I(0)
      if (this.ctx.branch(T.lt(x, I(0)))) return neg ? T.add(n, x) : I(0)
      return x
    }
    if (s.op === 'str' && (i === undefined || T.isConst(i)) && (j === undefined || T.isConst(j))) { const f = x => x === undefined || x.op === 'undef' ? undefined : x.data; return str(neg ? s.data.slice(f(i), f(j)) : s.data.substring(f(i), f(j))) }
    let a = fix(i, I(0))
    let b = fix(j, n)
    if (a.op !== 'int' && this.ctx.branch(T.lt(a, I(0)))) a = I(0)
    if (b === n) { if (a.op === 'int' && a.data === 0) return s; return T.substr(s, a, T.sub(n, a)) }
    return T.substr(s, a, T.sub(b, a)) // str.substr clips at the end and is empty for non-positive lengths
  },
  strAt(s, i, at) {
    if (i.op === 'int' && i.data < 0) { if (!at) return UNDEF; i = T.add(T.strlen(s), i) }
    if (this.ctx.branch(T.and(T.le(I(0), i), T.lt(i, T.strlen(s))))) return T.substr(s, i, I(1))
    return UNDEF
  },
  newRegex(s, f) {
    const r = new HObj('regex'); r.owner = 'repo'
    s = this.val(s)
    if (isObj(s) && s.kind === 'regex') { r.source = s.source; r.flags = f === undefined || f.op === 'undef' ? s.flags : this.toStr(f) }
    else { r.source = this.toStr(s); r.flags = f === undefined || f.op === 'undef' ? str('') : this.toStr(f) }
    return r
  },
  jsRegex(r) { return r.source.op === 'str' && r.flags.op === 'str' ? new RegExp(r.source.data, r.flags.data) : undefined },
  strReplace(s, [p, rep], all) {
    p = this.val(p)
    const isRe = isObj(p) && p.kind === 'regex'
    const re = isRe ? this.jsRegex(p) : undefined
    const f = this.val(rep)
    const isF = isObj(f) && f.kind === 'func'
    const ps = isRe ? undefined : this.toStr(p)
    if (s.op === 'str' && (re || ps?.op === 'str') && (isF || (isT(f) && f.op === 'str'))) {
      const parts = []
      if (!isF) return str(all ? s.data.replaceAll(re ?? ps.data, f.data) : s.data.replace(re ?? ps.data, f.data))
      let last = 0
      const cbk = (...m) => { const off = m.findIndex((x, i) => i > 0 && typeof x === 'number'); const pos = m[off]; parts.push(str(s.data.slice(last, pos)), this.toStr(this.callFn(f, UNDEF, m.slice(0, off + 1).map(x => this.fromJS(x))))); last = pos + m[0].length; return '' }
      if (all && !isRe) s.data.replaceAll(ps.data, cbk); else s.data.replace(re ?? ps.data, cbk)
      parts.push(str(s.data.slice(last)))
      return T.concat(parts)
    }
    // a pattern that is one group as a whole: the group is the match
    const whole = re && /^\((?!\?)((?:\[[^\]\\]*\]|[^()[\]\\])*)\)$/.exec(p.source.data)
    const source = whole ? str(whole[1]) : p.source
    if (re) all = re.global
    if (isF && f.node?.parameters && (f.node.parameters.length > (whole ? 2 : 1) || f.node.parameters.some(x => x.dotDotDotToken))) this.unsupported('replacer with more parameters')
    const tag = `${all}:${isRe ? T.show(source) + '/' + T.show(p.flags) : 'str'}`
    const args = [T.toV(s), ...(isRe ? [T.toV(source), T.toV(p.flags)] : [T.toV(ps)])]
    if (!isF) return frz({ kind: 'replace', tag, args: [...args, T.toV(this.toStr(f))] }, 'S')
    const m = this.ctx.newBinder('S')
    const cases = []
    const save = this.ctx.binders
    this.ctx.explore(() => { this.ctx.binders = [...save, m]; return T.toV(this.toStr(this.callFn(f, UNDEF, whole ? [m, m] : [m]))) }, { keep: o => { if (o.error) this.unsupported('throwing replacer'); cases.push({ cond: T.and(o.conds), out: [{ u: o.value }] }) } })
    return frz({ kind: 'replace', tag, args, comp: { base: { b: 'any', id: '' }, bind: [m], facts: [], cases } }, 'S')
  },
  strMatch(s, r) {
    r = this.val(r)
    const re = isObj(r) && r.kind === 'regex' ? this.jsRegex(r) : undefined
    if (s.op === 'str' && re) { const m = re.exec(s.data); if (!m) return NUL; const a = this.newArr([...m].map(x => ({ u: this.fromJS(x) }))); return a }
    this.unsupported('regular expression on an unknown string')
  },
  lastIndexOf_(r) { return this.toInt(r.layers.findLast(l => l.k.data === 'lastIndex')?.v ?? I(0)) },
  /** exec: which text a pattern matches is not modelled, only that a match is a part of the string at or after the start position */
  regexExec(r, s) {
    const { ctx } = this
    const stateful = r.flags.op === 'str' ? /[gy]/.test(r.flags.data) : ctx.branch(T.or(T.contains(r.flags, str('g')), T.contains(r.flags, str('y'))))
    const setLast = (v) => { if (stateful) { this.checkWritable(r); this.defineProp(r, str('lastIndex'), v) } }
    const start = stateful ? this.lastIndexOf_(r) : I(0)
    const re = this.jsRegex(r)
    let at, n, groups, found
    if (s.op === 'str' && re && start.op === 'int') {
      re.lastIndex = start.data
      const m = re.exec(s.data)
      found = m !== null
      if (m) { at = I(m.index); n = I(m[0].length); groups = [...m].slice(1).map(x => this.fromJS(x)) }
    }
    else {
      const args = [r.source, r.flags, s, start]
      at = T.app('rx:index', args, 'I'); n = T.app('rx:length', args, 'I')
      found = ctx.branch(T.app('rx:found', args, 'B'))
      if (found) {
        ctx.fact(T.and(T.le(start, at), T.le(I(0), at), T.le(I(0), n), T.le(T.add(at, n), T.strlen(s))))
        const count = r.source.op === 'str' ? new RegExp(r.source.data + '|').exec('').length - 1 : 0
        groups = Array.from({ length: count }, (_, i) => { ctx.funTypes.set('rx:group', { k: 'opt', t: { k: 'str' } }); return this.norm(T.app('rx:group', [...args, I(i + 1)], 'V')) })
      }
    }
    if (!found) { setLast(I(0)); return NUL }
    setLast(T.add(at, n))
    const a = this.newArr([this.strPart(s, at, n), ...groups].map(u => ({ u })))
    a.extra = { index: at, input: s, groups: UNDEF }
    return a
  },
  strPart(s, i, n) { return s.op === 'str' && i.op === 'int' && n.op === 'int' ? str(s.data.substr(i.data, n.data)) : T.substr(s, i, n) },
  strMatchAll(s, r) {
    r = this.val(r)
    const re = isObj(r) && r.kind === 'regex' ? this.jsRegex(r) : undefined
    if (s.op === 'str' && re) return this.newArr([...s.data.matchAll(re)].map(m => ({ u: this.newArr([...m].map(x => ({ u: this.fromJS(x) }))) })))
    this.unsupported('regular expression on an unknown string')
  },
  sliceSym(a, i, j) {
    const { ctx } = this, n = this.arrLen(a)
    const clamp = (k) => {
      if (k === undefined || k.op === 'undef') return undefined
      k = this.toInt(k)
      if (ctx.branch(T.lt(k, I(0)))) { k = T.add(n, k); return ctx.branch(T.lt(k, I(0))) ? I(0) : k }
      return ctx.branch(T.le(n, k)) ? n : k
    }
    return this.newArr(this.sliceSegs(a.segs, clamp(i) ?? I(0), clamp(j) ?? n))
  },
  /** the elements from..to of the segments; 0 <= from, to <= length */
  sliceSegs(segs, from, to) {
    const { ctx } = this, out = []
    if (!ctx.branch(T.lt(from, to))) return out
    for (const s of segs) {
      if (!s.u && !s.q.total) this.unsupported('slice of a filtered collection')
      const L = s.u ? I(1) : T.lenOf(s.q.base.o)
      if (!ctx.branch(T.lt(I(0), to))) break
      if (!ctx.branch(T.lt(from, L))) { from = T.sub(from, L); to = T.sub(to, L); continue }
      if (s.u) out.push(s)
      else {
        const f = ctx.branch(T.le(from, I(0))) ? I(0) : from, t = ctx.branch(T.le(L, to)) ? L : to
        out.push(f.op === 'int' && f.data === 0 && t === L ? s : { q: this.sliceComp(s.q, f, t) })
      }
      from = T.sub(from, L); to = T.sub(to, L)
    }
    return out
  },
  foldReduce() { this.unsupported('reduce over a collection of unknown size') },
  preludeNative(name, args) {
    switch (name) {
      case 'blobtext': return T.app('blobtext', [this.freeze(args[0])], 'S')
      case 'buffer': return this.norm(T.app('buffer', [this.freeze(args[0])], 'V'))
      case 'atMost': this.ctx.fact(T.le(this.norm(args[0]), this.norm(args[1]))); return UNDEF
      case 'lastRounds': this.lastRounds = true; return UNDEF
      case 'fresh': return this.ctx.fresh(args[0].data, 'S')
      case 'unsupported': return this.unsupported(args[0].data)
      case 'urlpart': {
        const [part, url] = args.map(x => this.toStr(x))
        if (url.op === 'str') { try { return str(new URL(url.data)[part.data]) } catch (e) { throw new Throw(this.makeError('TypeError', 'Invalid URL')) } }
        return T.app('url:' + part.data, [url], 'S')
      }
      case 'urljoin': {
        const [path, base] = args.map(x => this.toStr(x))
        if (path.op === 'str' && base.op === 'str') { try { return str(new URL(path.data, base.data).href) } catch (e) { throw new Throw(this.makeError('TypeError', 'Invalid URL')) } }
        if (path.op === 'str' && /^[\w./-]*$/.test(path.data) && !path.data.startsWith('/') && !path.data.includes('..') && this.ctx.entails(T.suffixof(str('/'), base))) return T.concat(base, path)
        const known = base.op === 'concat' && base.args[base.args.length - 1]
        if (known && known.op === 'str' && known.data.endsWith('/') && !(path.op === 'str' && (path.data.startsWith('/') || path.data.includes('..') || path.data.includes(':')))) return T.concat(base, path)
        return T.app('urljoin', [path, base], 'S')
      }
    }
    this.unsupported('native ' + name)
  },
}
