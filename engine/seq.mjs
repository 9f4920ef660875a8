// Arrays and collections of unknown size: comprehensions, summarised loops.
import * as T from './term.mjs'
import { HObj, PathEnd, Throw, Unsupported, frz, isObj, substComp, substFrz, rawField, watch, currentObjId } from './heap.mjs'

const { UNDEF, str } = T
const I0 = T.int(0)
const inst = (c, vars) => substComp({ ...c }, new Map(c.bind.map((b, i) => [b, vars[i]])))

/** Segments of an array written at unknown positions: [its elements before (base)]? then writes (w: {i, v}) at distinct positions.
 * Only reading and writing single elements, comparison and the loop cut know them; everything else ends in Unsupported. */
class Special {
  constructor(x) { Object.assign(this, x) }
  get u() { throw new Unsupported('an array written at unknown positions') }
  get q() { throw new Unsupported('an array written at unknown positions') }
}
export const isSpecial = s => s instanceof Special
export const special = x => new Special(x)

export const installSeq = (Interp) => {
  Object.assign(Interp.prototype, {
    identComp(o) {
      const i = T.variable('$i', 'I')
      return { base: { b: 'arr', o }, bind: [i], cases: [{ cond: T.TRUE, out: [{ u: T.atOf(o, i) }] }], facts: [T.le(I0, i), T.lt(i, T.lenOf(o))], total: true }
    },
    /** positions f..t of a total collection over an array */
    sliceComp(q, f, t) {
      const o = T.sel('vobj', T.sliceOf(q.base.o, f, t))
      const id = this.identComp(o)
      const c = inst(q, [T.add(f, id.bind[0])])
      return { base: id.base, bind: id.bind, cases: c.cases, facts: id.facts, total: true }
    },
    /** a segment as a piece f..t of an array whose elements it lists as they are */
    piece(s) {
      const at = (x) => {
        if (isObj(x)) x = x.viewOf
        if (!x) return
        if (x.op === 'sval' || x.op === 'bval' || x.op === 'nval') x = x.args[0]
        x = this.stripClone(x)
        if (x?.op === 'app' && x.data === 'at') return { o: x.args[0], f: x.args[1], t: T.add(x.args[1], T.int(1)), unit: true }
      }
      if (s.u) return at(this.val(s.u))
      const { q } = s
      if (q.base.b !== 'arr' || q.cases.length !== 1 || q.cases[0].cond !== T.TRUE || q.cases[0].out.length !== 1 || !q.cases[0].out[0].u || q.bind.length !== 1) return
      const u = q.cases[0].out[0].u
      if (T.toV(u) !== T.toV(this.val(T.atOf(q.base.o, q.bind[0]))) && T.toV(u) !== T.toV(T.atOf(q.base.o, q.bind[0])) && !(u.op === 'vstr' && u.args[0].op === 'sval' && u.args[0].args[0] === T.atOf(q.base.o, q.bind[0]))) return
      let o = this.stripClone(q.base.o.args?.[0] ?? q.base.o), f = T.int(0), t = T.lenOf(q.base.o)
      if (q.base.o.op !== 'oval') return
      if (T.isSlice(q.base.o)) { [o, f, t] = q.base.o.args[0].args }
      else o = T.sel('vobj', o)
      return { o, f, t }
    },
    /** a sequence with neighbouring pieces of the same array joined; undefined if it has none */
    pieces(segs) {
      const { ctx } = this, out = []
      if (!segs.some(s => s.q && s.q.base.b === 'arr' && T.isSlice(s.q.base.o))) return
      for (const s of segs) {
        const p = this.piece(s), l = out.at(-1)?.p
        if (p && l && p.o === l.o && (l.t === p.f || ctx.entails(T.eq(l.t, p.f))) && (!p.unit || ctx.entails(T.lt(p.f, T.lenOf(p.o)))) && (!l.unit || ctx.entails(T.and(T.le(T.int(0), l.f), T.lt(l.f, T.lenOf(l.o)))))) { out[out.length - 1] = { p: { o: l.o, f: l.f, t: p.t } }; continue }
        out.push({ s, p })
      }
      return out.map((x) => {
        if (x.s) return x.s
        const { o, f, t } = x.p
        if (ctx.entails(T.and(T.eq(f, T.int(0)), T.eq(t, T.lenOf(o))))) return { q: this.identComp(o) }
        return { q: this.identComp(T.sel('vobj', T.sliceOf(o, f, t))) }
      })
    },
    baseKey(c) { return c.base.b === 'arr' ? `a${T.original(c.base.o).id}` : c.base.b === 'keys' ? `k${frz({ kind: 'obj', layers: [{ t: 'spread', src: c.base.src }] }).id}` : `o${c.base.id}` },

    // --- index instantiation
    noteIndex(comp, vars) {
      const { ctx } = this
      const key = this.baseKey(comp)
      if (ctx.idx.some(x => x.key === key && x.vars.every((v, i) => v === vars[i]))) return
      ctx.idx = [...ctx.idx, { key, vars }]
      if (comp.base.b === 'arr') this.norm(T.atOf(comp.base.o, vars[0]))
      for (const e of ctx.exs) if (e.key === key) this.linkExists(e, vars)
    },
    linkExists(e, vars) {
      const c = inst(e.comp, vars)
      const cond = T.and(c.facts, T.or(c.cases.map(k => k.cond)))
      this.typeAxioms(cond)
      this.ctx.fact(T.implies(cond, T.and(e.term, e.wit[0].sort === 'I' ? T.le(e.wit[0], vars[0]) : T.TRUE)))
    },
    /** B term: some element of the base produces an output */
    existsComp(comp) {
      const cases = []
      for (const c of comp.cases) {
        let cond = T.FALSE
        for (const s of c.out) cond = T.or(cond, s.u ? T.TRUE : this.rawExists(s.q))
        const k = T.and(c.cond, cond)
        if (k !== T.FALSE) cases.push(k)
      }
      if (!cases.length) return T.FALSE
      return this.registerExists(comp, T.or(cases)).term
    },
    rawExists(comp) { return this.existsComp(comp) },
    registerExists(comp, cond) {
      const { ctx } = this
      const pc = { base: comp.base, bind: comp.bind, facts: comp.facts, cases: [{ cond, out: [{ u: T.toV(T.TRUE) }] }] }
      const term = frz({ kind: 'exists', comp: pc }, 'B')
      if (comp.base.b === 'arr') this.noteIndex(comp, [I0])
      let e = ctx.exs.find(x => x.term === term)
      if (e) return e
      const wit = comp.bind.map((b, i) => T.variable(`wit!${term.id}!${i}`, b.sort))
      e = { term, comp: pc, wit, key: this.baseKey(comp) }
      ctx.exs = [...ctx.exs, e]
      const c = inst(pc, wit)
      this.typeAxioms(c.cases[0].cond)
      ctx.fact(T.implies(term, T.and(c.facts, c.cases[0].cond)))
      for (const x of ctx.idx) if (x.key === e.key) this.linkExists(e, x.vars)
      this.noteIndex(comp, wit)
      return e
    },
    /** run f under fresh binders of comp */
    underBinder(comp, f) {
      const { ctx } = this
      const nb = comp.bind.map(b => ctx.newBinder(b.sort))
      const c = inst(comp, nb)
      ctx.binders = [...ctx.binders, ...nb]
      for (const x of c.facts) ctx.fact(x)
      this.noteIndex(comp, nb)
      return f(c, nb)
    },
    /** all outcomes of run(out) for an arbitrary element of comp */
    summarise(comp, run) {
      const { ctx } = this
      const nb = comp.bind.map(b => ctx.newBinder(b.sort))
      const c = inst(comp, nb)
      const cases = []
      // what earlier rounds append is not seen by later ones here: nothing may look at it
      const looked = new Set(), top = currentObjId(), outer = watch.hook, outerTop = watch.top
      watch.top = top
      watch.hook = (o) => { if (o.id < top) { if (process.env.DBGLOOK && !looked.has(o)) (looked.st ??= new Map()).set(o, new Error().stack); looked.add(o) } outer?.(o) }
      try { for (const k of c.cases) {
        ctx.explore(() => {
          ctx.binders = [...ctx.binders, ...nb]
          for (const x of c.facts) ctx.fact(x)
          this.noteIndex(comp, nb)
          if (k.cond !== T.TRUE) { if (ctx.solver.check(ctx.facts, k.cond).r === 'unsat') throw new PathEnd('case'); ctx.fact(k.cond, 'case') }
          return run(k.out)
        }, {
          keep: (o, jmark, objMark) => {
            const appended = new Map()
            if (o.error !== undefined || o.value?.exit) { cases.push({ cond: T.and(k.cond, ...o.conds), appended, value: undefined, exit: true }); return } // run again at the witness
            const seen = new Map()
            for (const e of ctx.journal.slice(jmark)) {
              if (e.obj.id >= objMark) continue
              const kk = e.obj.id + ':' + e.field
              if (!seen.has(kk)) seen.set(kk, e)
            }
            for (const e of seen.values()) {
              const now = rawField(e.obj, e.field)
              if (now === e.old) continue
              if (e.field === 'layers' && e.obj.kind === 'obj' && now.length > e.old.length && e.old.every((l, i) => l === now[i]) && now.slice(e.old.length).every(l => l.t === 'set' && l.k.op !== 'str')) {
                appended.set(e.obj, this.freezeSegs(now.slice(e.old.length).map(l => ({ u: this.newArr([{ u: l.k }, { u: l.v }]) })), []))
                continue
              }
              if (e.field === 'segs' && now.length >= e.old.length && e.old.every((s, i) => s === now[i])) { appended.set(e.obj, this.freezeSegs(now.slice(e.old.length), [])); continue }
              const err = new Unsupported(`loop-carried state (${e.field}) in a loop over a collection of unknown size at ${this.where()}`)
              err.loopState = true
              throw err
            }
            const cs = { cond: T.and(k.cond, ...o.conds), appended, value: undefined, exit: false }
            if (o.value?.segs) cs.value = this.freezeSegs(o.value.segs, [])
            cases.push(cs)
          },
        })
      } }
      finally { watch.hook = outer; watch.top = outerTop }
      for (const k of cases) {
        for (const o of k.appended.keys()) {
          if (!looked.has(o)) continue
          if (process.env.DBGLOOK) console.error(o.kind, looked.st.get(o).split('\n').slice(3, 9).join('\n'))
          const err = new Unsupported(`a loop over a collection of unknown size looks at what it appends at ${this.where()}`)
          err.loopState = true
          throw err
        }
      }
      return { nb, c, cases }
    },
    /** apply run(out)->{segs}|{exit} to every element in order; returns {segs} or {exit:…} or throws */
    iterate(comp, run) {
      const { ctx } = this
      const { nb, c, cases } = this.summarise(comp, run)
      const mk = (f, extra = T.TRUE) => ({ base: comp.base, bind: nb, facts: c.facts, cases: cases.filter(k => !k.exit).map(k => ({ cond: T.and(k.cond, extra), out: f(k) })) })
      const arrays = new Set(cases.flatMap(k => [...k.appended.keys()]))
      const exits = cases.filter(k => k.exit)
      if (exits.length) {
        const e = this.registerExists({ base: comp.base, bind: nb, facts: c.facts }, T.or(exits.map(k => k.cond)))
        if (ctx.branch(e.term)) {
          const j = e.wit
          for (const a of arrays) if (a.kind === 'obj') {
            if (comp.base.b !== 'arr') this.unsupported('leaving a loop that fills an object')
            this.setLayers(a, [...rawField(a, 'layers'), { t: 'spread', src: { p: 'comp', comp: mk(k => k.appended.get(a) ?? [], T.lt(nb[0], j[0])) } }])
          }
          else if (comp.base.b === 'arr') this.setSegs(a, [...rawField(a, 'segs'), { q: mk(k => k.appended.get(a) ?? [], T.lt(nb[0], j[0])) }]); else this.setSegs(a, [...rawField(a, 'segs'), { q: { base: { b: 'unknown', id: ctx.newBinder('I').data }, bind: nb, facts: [], cases: [] } }])
          const cj = inst(comp, j)
          for (const f of cj.facts) ctx.fact(f)
          for (let i = 0; i < cj.cases.length; i++) {
            if (!ctx.branch(cj.cases[i].cond)) continue
            const r = run(cj.cases[i].out)
            if (r?.exit) return r
            throw new PathEnd('exit witness does not exit')
          }
          throw new PathEnd('no case')
        }
      }
      for (const a of arrays) {
        const q = mk(k => k.appended.get(a) ?? [])
        if (a.kind === 'obj') this.setLayers(a, [...rawField(a, 'layers'), { t: 'spread', src: { p: 'comp', comp: q } }])
        else this.setSegs(a, [...rawField(a, 'segs'), { q }])
      }
      const q = mk(k => k.value ?? [])
      if (comp.total && q.cases.every(k => k.out.length === 1 && k.out[0].u)) q.total = true
      return { segs: [{ q }] }
    },
    mapSegs(segs, f) {
      const out = []
      for (const s of segs) {
        if (s.u) out.push(...f(this.val(s.u)))
        else out.push(...this.iterate(s.q, o => ({ segs: this.mapSegs(o, f) })).segs)
      }
      return out
    },
    forSegs(segs, body) {
      for (const s of segs) {
        if (s.u) { const d = body(s.u); if (!d.go) return d.c }
        else {
          let r
          const nob = this.ctx.obligations.length
          try {
            r = this.iterate(s.q, (o) => {
              for (const x of o) {
                if (x.u) { const d = body(this.val(x.u)); if (!d.go) return { exit: true, c: d.c } }
                else { const c = this.forSegs([x], body); if (c) return { exit: true, c } }
              }
              return { segs: [] }
            })
          }
          catch (e) {
            if (!(e instanceof Unsupported) || !e.loopState || !this.foldLoop) throw e
            this.ctx.obligations.length = nob
            r = this.foldLoop(s.q, body)
          }
          if (r.exit) return r.c
        }
      }
    },
    elementAt(comp, t) {
      const c = inst(comp, [t])
      for (const f of c.facts) this.ctx.fact(f)
      this.noteIndex(comp, [t])
      for (let i = 0; i < c.cases.length; i++) {
        const k = c.cases[i]
        if (i === c.cases.length - 1 ? (this.ctx.assume(k.cond), true) : this.ctx.branch(k.cond)) return this.val(k.out[0].u)
      }
      throw new PathEnd('no case')
    },
    firstOf(comp) {
      const cases = comp.cases.filter(k => k.out.length)
      const e = this.registerExists(comp, T.or(cases.map(k => k.cond)))
      const c = inst({ ...comp, cases }, e.wit)
      for (let i = 0; i < c.cases.length; i++) {
        const k = c.cases[i]
        if (i === c.cases.length - 1 ? (this.ctx.assume(k.cond), true) : this.ctx.branch(k.cond)) {
          if (!k.out[0].u) this.unsupported('first of nested collection')
          return this.val(k.out[0].u)
        }
      }
    },
    firstIndex(comp) {
      const cases = comp.cases.filter(k => k.out.length)
      return this.norm(this.registerExists(comp, T.or(cases.map(k => k.cond))).wit[0])
    },
    compLen(comp) {
      if (comp.total) return T.lenOf(comp.base.o)
      const cases = comp.cases.filter(k => k.out.length)
      if (!cases.length) return I0
      const t = frz({ kind: 'len', comp }, 'I')
      const { ctx } = this
      if (!ctx.asserted.has('flen' + t.id)) {
        ctx.asserted.add('flen' + t.id)
        ctx.fact(T.le(I0, t))
        const ex = this.existsComp(comp)
        ctx.fact(T.eq(ex, T.lt(I0, t)))
        if (comp.base.b === 'arr' && comp.cases.every(k => k.out.length <= 1 && k.out.every(s => s.u))) ctx.fact(T.le(t, T.lenOf(comp.base.o)))
      }
      return t
    },
    specials(segs) {
      if (!segs.length) return { ws: [] }
      if (!segs.every(isSpecial)) return
      return { base: segs[0].base, ws: segs.filter(s => s.w).map(s => s.w) }
    },
    /** an element of an array changed in a loop, as an object of its own that can be written to */
    ownElement(t) {
      if (isObj(t) || t.sort !== 'V' || T.isConst(t)) return t
      let ty = this.typeOf(t)
      const parts = x => x.k === 'or' ? x.ts.flatMap(parts) : x.k === 'opt' ? [{ k: 'undef' }, ...parts(x.t)] : x.k === 'nullable' ? [{ k: 'null' }, ...parts(x.t)] : [x]
      const all = ty ? parts(ty) : [{ k: 'any' }]
      if (all.some(x => ['any', 'json', 'arr', 'rec'].includes(x.k))) this.unsupported('an element of an array written at unknown positions')
      const objs = all.filter(x => x.k === 'obj')
      if (!objs.length) return t
      if (all.length > objs.length && !this.ctx.branch(T.is('vobj', t))) return this.val(t)
      if (objs.length > 1) this.unsupported('elements of several kinds in an array written at unknown positions')
      const O = T.sel('vobj', t), o = this.newObj()
      const layers = [{ t: 'spread', src: { p: 'opaque', o: O } }]
      for (const [k, f] of Object.entries(objs[0].fields)) {
        if (parts(f).every(x => ['str', 'int', 'bool', 'lit', 'undef', 'null', 'any', 'json'].includes(x.k))) continue
        const own = this.ownElement(this.val(T.app('get', [O, str(k)], 'V')))
        if (!isObj(own) || own.kind !== 'obj') this.unsupported('an element of an array written at unknown positions')
        layers.push({ t: 'set', k: str(k), v: own })
      }
      o.layers = layers
      return o
    },
    arrLen(a) {
      const sp = a.segs.length && this.specials(a.segs)
      if (!sp) return this.segsLen(a)
      let n = sp.base ? this.compLen(sp.base) : I0
      for (const { i } of sp.ws) n = T.ite(T.lt(i, n), n, T.add(i, T.int(1)))
      return n
    },
    segsLen(a) { return a.segs.map(s => s.u ? T.int(1) : this.compLen(s.q)).reduce(T.add, I0) },
    arrGet(a, i) {
      const { ctx } = this
      if (i.op === 'int' && i.data < 0) return UNDEF
      if (i.op !== 'int' && ctx.branch(T.lt(i, I0))) return UNDEF
      const sp = a.segs.length && this.specials(a.segs)
      if (sp) {
        for (const w of sp.ws) if (ctx.branch(T.eq(i, w.i))) return this.val(w.v)
        if (!sp.base || !ctx.branch(T.lt(i, T.lenOf(sp.base.base.o)))) return UNDEF
        const v = this.ownElement(this.elementAt(sp.base, i))
        if (isObj(v)) this.setSegs(a, [...a.segs, new Special({ w: { i, v } })])
        return v
      }
      for (const s of a.segs) {
        if (s.u) {
          if (ctx.branch(T.eq(i, I0))) return this.val(s.u)
          i = T.sub(i, T.int(1))
        }
        else if (s.q.total) {
          const n = T.lenOf(s.q.base.o)
          if (ctx.branch(T.lt(i, n))) return this.elementAt(s.q, i)
          i = T.sub(i, n)
        }
        else {
          if (ctx.branch(T.not(this.existsComp(s.q)))) continue
          if (ctx.entails(T.eq(i, I0))) return this.firstOf(s.q)
          const n = this.compLen(s.q)
          if (ctx.branch(T.le(n, i))) { i = T.sub(i, n); continue }
          if (ctx.branch(T.eq(i, I0))) return this.firstOf(s.q)
          const t = T.app('elem', [frz({ kind: 'arr', segs: [s] }), i], 'V')
          return this.val(t)
        }
      }
      return UNDEF
    },
    arrLast(a) {
      const { ctx } = this
      if (a.segs.some(isSpecial)) return this.arrGet(a, T.sub(this.arrLen(a), T.int(1)))
      for (let k = a.segs.length - 1; k >= 0; k--) {
        const s = a.segs[k]
        if (s.u) return this.val(s.u)
        if (s.q.total) {
          const n = T.lenOf(s.q.base.o)
          if (ctx.branch(T.lt(I0, n))) return this.elementAt(s.q, T.sub(n, T.int(1)))
        }
        else {
          if (ctx.branch(T.not(this.existsComp(s.q)))) continue
          return this.val(T.app('lastelem', [frz({ kind: 'arr', segs: [s] })], 'V'))
        }
      }
      return UNDEF
    },
    arrAt(a, i) {
      if (a.segs.some(isSpecial)) return this.arrGet(a, i.op === 'int' ? (i.data >= 0 ? i : T.add(i, this.arrLen(a))) : this.ctx.branch(T.le(I0, i)) ? i : T.add(i, this.arrLen(a)))
      if (i.op === 'int' && i.data >= 0) return this.arrGet(a, i)
      if (i.op === 'int' && i.data === -1) return this.arrLast(a)
      if (i.op === 'int' && a.segs.slice(i.data).every(s => s.u)) return a.segs.length + i.data >= 0 ? this.val(a.segs[a.segs.length + i.data].u) : a.segs.every(s => s.u) ? UNDEF : this.unsupported('at')
      if (this.ctx.branch(T.le(I0, i))) return this.arrGet(a, i)
      return this.arrGet(a, T.add(i, this.arrLen(a)))
    },
    arrSetSym(a, i, v) {
      const { ctx } = this
      this.checkWritable(a)
      const sp = this.specials(a.segs)
      if (!sp) this.unsupported('array write at a symbolic index')
      if (!ctx.entails(T.le(I0, i))) this.unsupported('array write at an index that may be negative')
      for (const s of a.segs) if (s.w && ctx.branch(T.eq(i, s.w.i))) { this.setSegs(a, a.segs.map(x => x === s ? new Special({ w: { i: s.w.i, v } }) : x)); return }
      this.setSegs(a, [...a.segs, new Special({ w: { i, v } })])
    },
    tryArr(v) {
      v = this.val(v)
      if (isObj(v)) return v.kind === 'arr' ? v : undefined
      if (v.sort !== 'V' || T.isConst(v)) return undefined
      if (this.ctx.entails(this.isArrTerm(v))) return this.viewArr(v)
      return undefined
    },
    asArr(v) {
      v = this.val(v)
      const a = this.tryArr(v)
      if (a) return a
      if (!isObj(v) && v.sort === 'V' && !T.isConst(v)) { if (this.ctx.branch(this.isArrTerm(v))) return this.viewArr(v) }
      return undefined
    },
    /** segments of an iterable */
    iterSegs(v) {
      v = this.val(v)
      const a = this.asArr(v)
      if (a) return a.segs
      if (isObj(v)) {
        if (v.kind === 'obj' && v.cls) {
          const m = this.findMethod(v.cls, '@@iterator') ?? this.findMethod(v.cls, 'entries')
          if (m) return this.iterSegs(this.callFn(m, v, []))
          const s = this.findMethod(v.cls, '@@asyncIterator')
          if (s) return this.iterSegs(this.callFn(s, v, []))
        }
        if (v.kind === 'iter') return v.segs
        if (v.kind === 'obj' || v.kind === 'func') this.throwType('not iterable')
      }
      else if (v.sort === 'S' && v.op === 'str') return [...v.data].map(c => ({ u: str(c) }))
      else if (v.sort === 'S') this.unsupported('iteration over a string')
      else if (v.sort !== 'V' || T.isConst(v)) this.throwType('not iterable')
      this.unsupported(`iteration over ${isObj(v) ? v.kind : T.show(v)}`)
    },

    // --- keys and entries of objects
    entrySegs(v) {
      v = this.val(v)
      if (isObj(v) && v.kind === 'arr') { if (v.segs.every(s => s.u)) return v.segs.map((s, i) => ({ u: this.newArr([{ u: str(String(i)) }, { u: s.u }]) })); this.unsupported('entries of an array') }
      const layers = isObj(v) ? (v.kind === 'obj' ? v.layers : v.kind === 'func' ? v.layers : []) : this.spreadLayers(v)
      if (!isObj(v) && this.ctx.entails(T.or(T.is('undef', v), T.is('nul', v)))) this.throwType('Cannot convert undefined or null to object')
      const out = []
      const ls = this.compactLayers(layers)
      ls.forEach((l, i) => {
        if (l.t === 'del') return
        const later = ls.slice(i + 1)
        const hidden = k => T.or(later.map(m => m.t === 'spread' ? this.srcHas(m.src, k) : T.eq(m.k, k)))
        if (l.t === 'set') {
          const h = hidden(l.k)
          // overridden by a later spread: the spread's own entry stands for it
          if (h !== T.FALSE && this.ctx.branch(h)) return
          out.push({ u: this.newArr([{ u: l.k }, { u: this.val(l.v) }]) })
          return
        }
        const q = this.srcEntries(l.src)
        if (!later.length) { out.push({ q }); return }
        const r = this.iterate(q, o => ({ segs: this.mapSegs(o, (e) => {
          const k = this.toKey(this.arrGet(e, I0))
          return this.ctx.branch(hidden(k)) ? [] : [{ u: e }]
        }) }))
        out.push(...r.segs)
      })
      return out
    },
    srcEntries(src) {
      if (src.p === 'comp') return src.comp
      if (src.p === 'layers') this.unsupported('entries of nested layers')
      const k = T.variable('$k', 'S')
      const val = src.o.op === 'oval' ? T.get(src.o, k) : T.get(src.o, k)
      const facts = [T.has(src.o, k)]
      if (src.o.op === 'oval') {
        let ty = this.typeOf(src.o.args[0]); while (ty && (ty.k === 'opt' || ty.k === 'nullable')) ty = ty.t
        if (ty?.k === 'obj' && !ty.open) facts.push(T.or(Object.keys(ty.fields).filter(f => ty.fields[f].k !== 'absent').map(f => T.eq(k, str(f)))))
        if (ty?.k === 'obj' && ty.open) for (const f of Object.keys(ty.fields)) if (ty.fields[f].k === 'absent') facts.push(T.not(T.eq(k, str(f))))
        if (ty?.k === 'rec' && ty.not) for (const f of ty.not) facts.push(T.not(T.eq(k, str(f))))
      }
      const v = src.clone ? T.app('clone', [val], 'V') : val
      return { base: { b: 'keys', src: { p: 'opaque', o: src.o } }, bind: [k], facts, cases: [{ cond: T.TRUE, out: [{ u: frz({ kind: 'arr', segs: [{ u: T.toV(k) }, { u: v }] }) }] }] }
    },
    objectKeys(v) { return this.mapSegs(this.entrySegs(v), e => [{ u: this.arrGet(e, I0) }]) },
    fromEntries(v) {
      const o = this.newObj()
      let layers = []
      for (const s of this.iterSegs(v)) {
        if (s.u) { const e = this.val(s.u); layers.push({ t: 'set', k: this.toKey(this.getProp(e, str('0'))), v: this.getProp(e, str('1')) }) }
        else layers.push({ t: 'spread', src: { p: 'comp', comp: s.q } })
      }
      o.layers = this.compactLayers(layers)
      return o
    },

    // --- Promise.all
    promiseAll(v, settledMode) {
      const out = []
      for (const s of this.iterSegs(v)) {
        if (s.u) {
          const p = this.val(s.u)
          if (isObj(p) && p.kind === 'promise') {
            if (settledMode) { if (p.state === 'pending') this.unsupported('pending'); out.push({ u: this.objOf(p.state === 'fulfilled' ? { status: str('fulfilled'), value: p.value } : { status: str('rejected'), reason: p.value }) }); continue }
            if (p.state === 'rejected') return p
            if (p.state === 'pending') this.unsupported('Promise.all over a pending promise')
            out.push({ u: this.val(p.value) })
          }
          else out.push({ u: p })
          continue
        }
        const errs = [], oks = []
        for (const k of s.q.cases) {
          const st = k.out.map((x) => {
            if (!x.u) this.unsupported('nested Promise.all')
            if (x.u.op === 'frz' && x.u.data.kind === 'promise') return { state: x.u.data.state, v: x.u.data.value }
            if (x.u.op === 'frz' && x.u.data.kind === 'ref' && x.u.data.obj.kind === 'promise') this.unsupported('pending promise in a summarised collection')
            return { state: 'fulfilled', v: x.u }
          })
          if (settledMode) this.unsupported('allSettled over unknown size')
          const bad = st.find(x => x.state === 'rejected')
          if (bad) errs.push({ cond: k.cond, out: [{ u: bad.v }] })
          else oks.push({ cond: k.cond, out: st.map(x => ({ u: x.v })) })
        }
        if (errs.length) {
          const ec = { ...s.q, cases: errs, total: false }
          if (this.ctx.branch(this.existsComp(ec))) return this.rejected(this.firstOf(ec))
        }
        out.push({ q: { ...s.q, cases: oks } })
      }
      return this.resolvedWith(this.newArr(out))
    },
    arrJoin(a, sep) {
      if (a.segs.every(s => s.u)) {
        const parts = []
        a.segs.forEach((s, i) => { if (i) parts.push(sep); const v = this.val(s.u); parts.push(!isObj(v) && this.ctx.branch(this.nullish(v)) ? str('') : this.toStr(v)) })
        return T.concat(parts)
      }
      const t = frz({ kind: 'join', comp: undefined, args: [this.freeze(this.newArr(a.segs)), T.toV(sep)] }, 'S')
      // one term for all joins known to be equal: conditions on one decide those on the other
      const { ctx } = this
      const same = ctx.joins.find(x => x.t === t || (x.binders <= ctx.binders.length && this.provedEq(x.t, t)))
      if (same) return same.as
      ctx.joins = [...ctx.joins, { t, as: t, binders: ctx.binders.length }]
      return t
    },
  })
}
