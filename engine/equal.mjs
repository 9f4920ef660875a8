// Proof of (deep) equality of two values on the current path.
import * as T from './term.mjs'
import { HObj, PathEnd, Throw, Unsupported, frz, isObj, substComp, substFrz } from './heap.mjs'
import { ts } from './program.mjs'
import { isSpecial } from './seq.mjs'
import { unwrap } from './types.mjs'

const { UNDEF, str } = T

export const installEqual = (Interp) => {
  Object.assign(Interp.prototype, {
    /** proves a ≡ b for all paths; mode 'loose': an undefined property equals an absent one; returns undefined or a reason */
    proveEq(a, b, mode = 'loose') {
      let why
      const outs = this.ctx.explore(() => {
        const r = this.eqGo(a, b, mode, '', 0)
        if (r !== undefined && why === undefined) why = r
        return UNDEF
      })
      if (outs.some(o => o.error !== undefined) && why === undefined) why = 'exception while comparing'
      return why
    },
    stripClone(t) {
      while (isTerm(t) && t.op === 'app' && t.data === 'clone') t = t.args[0]
      if (isTerm(t) && t.op === 'app' && (t.data === 'get' || t.data === 'at') && t.args[0].op === 'oval') {
        const x = this.stripClone(t.args[0].args[0])
        if (x !== t.args[0].args[0]) return T.app(t.data, [T.sel('vobj', x), t.args[1]], 'V')
      }
      if (isTerm(t) && (t.op === 'sval' || t.op === 'bval' || t.op === 'nval')) { const x = this.stripClone(t.args[0]); if (x !== t.args[0]) return T.rebuild(t, [x]) }
      return t
    },
    eqGo(a, b, mode, at, d) {
      if (d > 40) return `${at}: too deep`
      a = this.val(a); b = this.val(b)
      if (a === b) return
      if (isObj(a) && isObj(b)) return this.eqObj(a, b, mode, at, d)
      if (isObj(b)) [a, b] = [b, a]
      if (isObj(a)) {
        b = this.norm(this.stripClone(b))
        if (b.op === 'ite') return this.eqGo(a, this.ctx.branch(b.args[0]) ? b.args[1] : b.args[2], mode, at, d + 1)
        if (b.sort !== 'V' || T.isConst(b)) return `${at}: object against ${T.show(b)}`
        if (a.viewOf && this.ctx.entails(T.eq(this.stripClone(a.viewOf), b))) return
        if (!this.ctx.branch(T.is('vobj', b))) return `${at}: object against a primitive ${T.show(b)}`
        const isA = this.ctx.branch(T.eq(T.kindOf(T.sel('vobj', b)), T.int(1)))
        if (a.kind === 'arr') return isA ? this.eqSegs(a.segs, this.viewArr(b).segs, mode, at, d) : `${at}: array against ${T.show(b)}`
        if (a.kind === 'obj' && !isA) return this.eqLayers(a.layers, [{ t: 'spread', src: { p: 'opaque', o: T.sel('vobj', b) } }], mode, at, d)
        return `${at}: ${a.kind} against ${T.show(b)}`
      }
      return this.eqTerm(a, b, mode, at, d)
    },
    eqTerm(a, b, mode, at, d) {
      a = this.stripClone(a); b = this.stripClone(b)
      if (a === b) return
      const { ctx } = this
      const e = T.eq(a, b)
      if (ctx.entails(e)) return
      const fail = `${at}: ${T.show(a)}  ≠  ${T.show(b)}`
      for (const [x, y] of [[a, b], [b, a]]) if (x.op === 'ite') { const t = ctx.branch(x.args[0]) ? x.args[1] : x.args[2]; return this.eqGo(t, y, mode, at, d + 1) }
      if (a.sort !== b.sort) { a = this.norm(T.toV(a)); b = this.norm(T.toV(b)); if (a.sort !== b.sort) { if (a.sort === 'V' && b.sort !== 'V') [a, b] = [b, a]; if (b.sort === 'V') return this.splitV(a, b, mode, at, d, fail); return fail } }
      if (a.op === 'frz' && b.op === 'frz') return this.eqFrz(a, b, mode, at, d, fail)
      if (a.op === b.op && a.data === b.data && a.args.length === b.args.length && a.args.length && ['app', 'vstr', 'vbool', 'vnum', 'sval', 'nval', 'bval', 'not', 'concat', 'add', 'lt', 'le', 'and', 'or', 'eq', 'is'].includes(a.op)) {
        let r
        for (let i = 0; i < a.args.length && !r; i++) {
          const x = a.args[i], y = b.args[i]
          if (x.sort === 'O' || y.sort === 'O') { if (x !== y && !ctx.entails(T.eq(x, y))) { if (x.op === 'oval' && y.op === 'oval') r = this.eqGo(x.args[0], y.args[0], mode, at, d + 1); else r = fail } continue }
          r = this.eqGo(x.sort === 'V' ? x : x, y, a.op === 'app' ? 'loose' : mode, `${at}<${a.data ?? a.op}#${i}>`, d + 1)
        }
        if (!r) return
        if (a.op === 'app' && !(a.data === 'get' || a.data === 'at')) return r
      }
      if (a.op === 'concat' || b.op === 'concat') { const r = this.eqConcat(a, b, mode, at, d); if (r === undefined) return }
      if (a.sort === 'V' && b.sort === 'V' && !T.isConst(a) && !T.isConst(b)) {
        // both opaque: equal identities only, unless both are collections of equal contents
      }
      if (a.sort === 'B') { // split
        const va = ctx.branch(a)
        return ctx.entails(va ? b : T.not(b)) ? undefined : fail
      }
      return fail
    },
    splitV(p, v, mode, at, d, fail) {
      const c = { B: 'vbool', I: 'vnum', S: 'vstr' }[p.sort]
      if (!c || !this.ctx.entails(T.is(c, v))) return fail
      return this.eqTerm(p, T.sel(c, v), mode, at, d + 1)
    },
    eqConcat(a, b, mode, at, d) {
      const xs = a.op === 'concat' ? [...a.args] : [a], ys = b.op === 'concat' ? [...b.args] : [b]
      while (xs.length && ys.length) {
        let x = xs.shift(), y = ys.shift()
        if (x.op === 'str' && y.op === 'str') {
          if (x.data.startsWith(y.data)) { if (x.data.length > y.data.length) xs.unshift(str(x.data.slice(y.data.length))); continue }
          if (y.data.startsWith(x.data)) { ys.unshift(str(y.data.slice(x.data.length))); continue }
          return `${at}: ${T.show(x)} ≠ ${T.show(y)}`
        }
        const r = xs.length || ys.length ? this.eqGo(x, y, mode, at, d + 1) : this.eqTerm(x, y, mode, at, d + 1)
        if (r) return r
      }
      return xs.length || ys.length ? `${at}: strings of different shape` : undefined
    },
    eqFrz(a, b, mode, at, d, fail) {
      const x = a.data, y = b.data
      if (x.kind !== y.kind) return fail
      if (x.kind === 'ref' || x.kind === 'func') {
        if (x.kind === 'func' && x.obj.node === y.obj?.node && x.args.every((t, i) => t === y.args[i] || this.ctx.entails(T.eq(t, y.args[i])))) return x.obj === y.obj ? undefined : this.eqCaptured(x, y, mode, at, d, fail)
        return fail
      }
      if (a.sort === 'V') return this.eqGo(this.thaw(a), this.thaw(b), mode, at, d + 1)
      if (x.comp) { const r = this.compEq(x.comp, y.comp, mode, at, d + 1); if (r) return r }
      for (let i = 0; i < (x.args ?? []).length; i++) { const r = this.eqGo(x.args[i], y.args[i], mode, at, d + 1); if (r) return r }
      return x.tag === y.tag ? undefined : fail
    },
    /** two closures of one function expression: equal if everything they capture is */
    eqCaptured(x, y, mode, at, d, fail) {
      const mx = new Map(x.obj.bindersAt.map((b, i) => [b, x.args[i]])), my = new Map(y.obj.bindersAt.map((b, i) => [b, y.args[i]]))
      const value = (c, m) => T.subst(this.freeze(c.v), m, substFrz)
      for (const name of freeNames(x.obj.node)) {
        const cx = x.obj.env.find(name), cy = y.obj.env.find(name)
        if (cx === cy) continue
        if (!cx || !cy) return fail
        const r = this.eqGo(value(cx, mx), value(cy, my), mode, `${at}{${name}}`, d + 1)
        if (r) return r
      }
    },
    eqObj(a, b, mode, at, d) {
      if (a.viewOf && b.viewOf && a.viewOf === b.viewOf) return
      if (a.kind !== b.kind) return `${at}: ${a.kind} against ${b.kind}`
      switch (a.kind) {
        case 'arr': return this.eqSegs(a.segs, b.segs, mode, at, d)
        case 'obj':
          if (a.cls !== b.cls && mode !== 'data') return `${at}: different classes ${a.cls?.fname ?? 'Object'} / ${b.cls?.fname ?? 'Object'}`
          return this.eqLayers(a.layers, b.layers, mode, at, d)
        case 'promise': if (a.state !== b.state) return `${at}: promise ${a.state} / ${b.state}`; return a.state === 'pending' ? `${at}: pending promises` : this.eqGo(a.value, b.value, mode, at + '.then', d + 1)
        case 'func': {
          if (a.frozen && b.frozen) return this.eqFrz(a.frozen, b.frozen, mode, at, d, `${at}: different functions`)
          return `${at}: different functions`
        }
        case 'regex': return this.eqGo(a.source, b.source, mode, at, d + 1) ?? this.eqGo(a.flags, b.flags, mode, at, d + 1)
        default: return `${at}: different ${a.kind}`
      }
    },
    eqLayers(A, B, mode, at, d) {
      const { ctx } = this
      A = this.compactLayers(A); B = this.compactLayers(B)
      const cs = A.filter(l => l.t === 'spread' && l.src.p === 'comp')
      if (cs.length) B = B.map(l => l.t === 'spread' && l.src.p === 'comp' ? cs.find(x => this.compEq(x.src.comp, l.src.comp, mode, at, d + 1) === undefined) ?? l : l)
      const keys = new Set()
      let general = false
      const scan = ls => { for (const l of ls) { if (l.t === 'spread') general = true; else if (l.k.op === 'str') keys.add(l.k.data); else general = true } }
      scan(A); scan(B)
      // a value of a closed object type has no other keys
      const closed = []
      const expand = ls => { for (const l of ls) if (l.t === 'spread' && l.src.p === 'opaque' && l.src.o.op === 'oval') { const ty = unwrap(this.typeOf(l.src.o.args[0])); if (ty?.k === 'obj' && !ty.open) { Object.keys(ty.fields).forEach(k => keys.add(k)); closed.push(l.src.o) } } }
      expand(A); expand(B)
      for (const k of keys) {
        const r = this.eqAt(A, B, str(k), mode, `${at}.${k}`, d)
        if (r) return r
      }
      if (!general) return
      // layers that are spreads of the same opaque object only
      const k = ctx.fresh('key', 'S')
      for (const x of keys) ctx.fact(T.not(T.eq(k, str(x))))
      for (const o of closed) ctx.fact(T.not(T.has(o, k)))
      return this.eqAt(A, B, k, mode, `${at}[${k.data ?? 'key'}]`, d)
    },
    eqAt(A, B, k, mode, at, d) {
      const { ctx } = this
      const x = this.lookupProp(A, k), y = this.lookupProp(B, k)
      if (mode === 'strict') { const h = this.eqTerm(x.has, y.has, mode, at + ' (presence)', d + 1); if (h) return h }
      const gx = x.v, gy = y.v
      return this.eqGo(gx, gy, mode, at, d + 1)
    },
    eqSpecial(A, B, mode, at, d) {
      const { ctx } = this
      const a = this.specials(A), b = this.specials(B)
      if (!a || !b) return `${at}: an array written at unknown positions`
      if (!a.base !== !b.base) return `${at}: an array written at unknown positions against a new one`
      if (a.base) { const r = this.compEq(a.base, b.base, mode, at, d + 1); if (r) return r }
      const rest = [...b.ws]
      // an element that was looked at and is as it was
      const same = ({ i, v }) => {
        if (!a.base || !ctx.entails(T.lt(i, T.lenOf(a.base.base.o)))) return `${at}: an element at ${T.show(i)} in only one of them`
        return this.eqGo(v, T.atOf(a.base.base.o, i), mode, `${at}[${T.show(i)}]`, d + 1)
      }
      for (const w of a.ws) {
        const j = rest.findIndex(x => x.i === w.i || ctx.entails(T.eq(x.i, w.i)))
        const r = j < 0 ? same(w) : this.eqGo(w.v, rest.splice(j, 1)[0].v, mode, `${at}[${T.show(w.i)}]`, d + 1)
        if (r) return r
      }
      for (const w of rest) { const r = same(w); if (r) return r }
    },
    eqSegs(A, B, mode, at, d) {
      const { ctx } = this
      if (A.some(isSpecial) || B.some(isSpecial)) return this.eqSpecial(A, B, mode, at, d)
      A = this.pieces(A) ?? [...A]; B = this.pieces(B) ?? [...B]
      let i = 0
      for (;;) {
        if (!A.length && !B.length) return
        const a = A[0], b = B[0]
        if (a?.u && b?.u) { A.shift(); B.shift(); const r = this.eqGo(a.u, b.u, mode, `${at}[${i++}]`, d + 1); if (r) return r; continue }
        const slice = x => x.q && x.q.base.b === 'arr' && T.isSlice(x.q.base.o)
        const pa = a && b && (slice(a) || slice(b) || !a.q !== !b.q) ? this.piece(a) : undefined, pb = pa && this.piece(b)
        if (pa && pb && pa.o === pb.o && ctx.entails(T.and(T.eq(pa.f, pb.f), T.le(T.int(0), pa.f)))) {
          if (pa.unit !== pb.unit) { const q = pa.unit ? pb : pa; if (!ctx.branch(T.lt(q.f, q.t))) { (pa.unit ? B : A).shift(); continue } } // pieces of one array that start at the same place
          const end = ctx.entails(T.eq(pa.t, pb.t)) ? 0 : ctx.branch(T.lt(pa.t, pb.t)) ? -1 : ctx.branch(T.lt(pb.t, pa.t)) ? 1 : 0
          A.shift(); B.shift(); i++
          if (end < 0) B.unshift({ q: this.identComp(T.sel('vobj', T.sliceOf(pa.o, pa.t, pb.t))) })
          if (end > 0) A.unshift({ q: this.identComp(T.sel('vobj', T.sliceOf(pa.o, pb.t, pa.t))) })
          continue
        }
        if (a?.q && b?.q) {
          const r = this.compEq(a.q, b.q, mode, `${at}[*]`, d + 1)
          if (!r) { A.shift(); B.shift(); i++; continue }
          if (ctx.entails(T.not(this.existsComp(a.q)))) { A.shift(); continue }
          if (ctx.entails(T.not(this.existsComp(b.q)))) { B.shift(); continue }
          return r
        }
        if (a?.q) { if (!ctx.branch(this.existsComp(a.q))) { A.shift(); continue } return `${at}[${i}]: unknown elements against ${b ? 'a single element' : 'the end'}` }
        if (b?.q) { if (!ctx.branch(this.existsComp(b.q))) { B.shift(); continue } return `${at}[${i}]: unknown elements against ${a ? 'a single element' : 'the end'}` }
        if (process.env.DBG) console.error('FACTS', ctx.facts.filter((_, i) => ctx.kinds[i] !== 'axiom').map(f => T.show(f)).join('\n  '))
        return `${at}: different lengths (${A.length ? 'extra' : 'missing'} element)`
      }
    },
    compEq(c1, c2, mode, at, d) {
      const { ctx } = this
      if (frz({ kind: 'arr', segs: [{ q: c1 }] }) === frz({ kind: 'arr', segs: [{ q: c2 }] })) return
      if (c1.base.b !== c2.base.b) return `${at}: collections over different sources`
      if (c1.base.b === 'arr') {
        const o1 = this.stripClone(c1.base.o.op === 'oval' ? c1.base.o.args[0] : c1.base.o), o2 = this.stripClone(c2.base.o.op === 'oval' ? c2.base.o.args[0] : c2.base.o)
        if (o1 !== o2 && !ctx.entails(T.eq(o1, o2))) return `${at}: collections over ${T.show(o1)} / ${T.show(o2)}`
      }
      else if (c1.base.b === 'keys') { const r = this.eqLayers([{ t: 'spread', src: c1.base.src }], [{ t: 'spread', src: c2.base.src }], 'strict', at + '(source)', d + 1); if (r) return r }
      else return c1.base.id === c2.base.id ? undefined : `${at}: unknown collections`
      let why
      ctx.explore(() => {
        const nb = c1.bind.map(b => ctx.newBinder(b.sort))
        const i1 = substComp(c1, new Map(c1.bind.map((b, i) => [b, nb[i]]))), i2 = substComp(c2, new Map(c2.bind.map((b, i) => [b, nb[i]])))
        ctx.binders = [...ctx.binders, ...nb]
        for (const f of i1.facts) ctx.fact(f)
        this.noteIndex(c1, nb)
        const pick = (c) => { for (const k of c.cases) if (ctx.branch(this.typeAxioms(k.cond))) return k.out; return [] }
        const o1 = pick(i1), o2 = pick(i2)
        const r = this.eqSegs(o1, o2, mode, at, d + 1)
        if (r && !why) why = r
        return UNDEF
      })
      return why
    },
  })
}
const isTerm = T.isTerm
const names = new WeakMap()
/** identifiers a function expression mentions (a superset of what it captures) */
const freeNames = (node) => {
  let out = names.get(node)
  if (!out) {
    names.set(node, out = new Set())
    const go = (n) => {
      if (ts.isIdentifier(n) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n) && !(ts.isPropertyAssignment(n.parent) && n.parent.name === n)) out.add(n.text)
      ts.forEachChild(n, go)
    }
    go(node)
  }
  return out
}
