// Path exploration: facts, decisions (replay forking), journal of heap writes, obligations, types of opaque values.
import * as T from './term.mjs'
import { PathEnd, Throw, Unsupported, currentObjId, rawField, setObjId } from './heap.mjs'

const ALL = ['undef', 'nul', 'vbool', 'vnum', 'vstr', 'vobj']
const memo = new Map()
const kindsOf = (ty) => {
  if (!ty) return ALL
  let r = memo.get(ty)
  if (!r) {
    const go = t => ({ str: ['vstr'], bool: ['vbool'], int: ['vnum'], undef: ['undef'], absent: ['undef'], null: ['nul'], obj: ['vobj'], rec: ['vobj'], arr: ['vobj'], fn: ['vobj'], error: ['vobj'], opaque: ['vobj'], any: ALL, json: ALL.slice(1) })[t.k]
      ?? (t.k === 'lit' ? [typeof t.v === 'string' ? 'vstr' : typeof t.v === 'number' ? 'vnum' : typeof t.v === 'boolean' ? 'vbool' : t.v === null ? 'nul' : 'undef'] : t.k === 'opt' ? ['undef', ...go(t.t)] : t.k === 'nullable' ? ['nul', ...go(t.t)] : t.k === 'or' ? t.ts.flatMap(go) : ALL)
    memo.set(ty, r = [...new Set(go(ty))])
  }
  return r
}
export const splits = new Map()
export class Ctx {
  constructor(solver, opts = {}) {
    this.solver = solver
    this.opts = opts
    this.facts = []; this.kinds = []; this.known = new Map(); this.consts = new Map()
    this.asserted = new Set()
    this.journal = []
    this.dec = undefined
    this.freshN = 0
    this.varTypes = new Map(); this.funTypes = new Map()
    this.binders = []; this.binderN = 0; this.idx = []; this.exs = []; this.joins = []
    this.obligations = []
    this.paths = 0
    this.depth = 0
    this.deadline = opts.deadline ?? Infinity
    this.proving = 0
  }

  // --- facts
  fact(t, kind = 'axiom') {
    if (t === T.TRUE) return
    if (t.op === 'and') { for (const a of t.args) this.fact(a, kind); return }
    if (this.holds(t)) return
    this.known.set(t.id, this.facts.length)
    if (t.op === 'eq') for (const [x, c] of [t.args, [t.args[1], t.args[0]]]) if (T.isConst(c)) this.consts.set(x.id, { c, at: this.facts.length, t })
    this.facts.push(t); this.kinds.push(kind)
  }
  kindsOf(x) { return kindsOf(this.typeOf?.(x)) }
  holds(t) { const i = this.known.get(t.id); return i !== undefined && this.facts[i] === t }
  constOf(x) { if (T.isConst(x)) return x; const e = this.consts.get(x.id); return e && this.facts[e.at] === e.t ? e.c : undefined }
  /** true / false when the facts settle t by lookup alone */
  quickly(t, d = 0) {
    if (t === T.TRUE) return true
    if (t === T.FALSE) return false
    if (t.op === 'not') { const q = this.quickly(t.args[0], d); return q === undefined ? undefined : !q }
    if (this.holds(t)) return true
    if (this.holds(T.not(t))) return false
    if (d > 4) return
    switch (t.op) {
      case 'and': case 'or': {
        const stop = t.op === 'or'
        let all = true
        for (const a of t.args) { const q = this.quickly(a, d + 1); if (q === stop) return stop; if (q === undefined) all = false }
        return all ? !stop : undefined
      }
      case 'is': {
        const x = t.args[0]
        let possible = kindsOf(this.typeOf?.(x))
        const left = []
        for (const k of possible) {
          const u = T.is(k, x)
          if (this.holds(u)) return k === t.data
          if (!this.holds(T.not(u))) left.push(k)
        }
        if (!left.includes(t.data)) return left.length || possible.length ? false : undefined
        return left.length === 1 ? true : undefined
      }
      case 'eq': {
        const a = this.constOf(t.args[0]), b = a && this.constOf(t.args[1])
        return b ? a === b : undefined
      }
    }
  }
  assume(t) {
    if (t === T.TRUE || this.quickly(t) === true) return
    if (t === T.FALSE || this.solver.check(this.facts, t).r === 'unsat') throw new PathEnd('assume')
    this.fact(t, 'assume')
  }
  entails(t) {
    if (t === T.TRUE) return true
    if (t === T.FALSE) return this.solver.check(this.facts, T.TRUE).r === 'unsat'
    const q = this.quickly(t)
    if (q !== undefined) return q
    return this.solver.check(this.facts, T.not(t)).r === 'unsat'
  }
  branch(cond) {
    if (cond.sort !== 'B') throw new Error('branch on ' + cond.sort)
    if (cond === T.TRUE) return true
    if (cond === T.FALSE) return false
    if (Date.now() > this.deadline) throw new Unsupported('time budget of this harness exhausted')
    const d = this.dec
    let take
    const q = this.quickly(cond)
    if (q !== undefined) { this.fact(q ? cond : T.not(cond), 'forced'); return q }
    if (d.pos < d.prefix.length) {
      const e = d.prefix[d.pos]
      take = e.take
      d.trail.push(e)
    }
    else {
      const ct = this.solver.check(this.facts, cond).r !== 'unsat'
      const cf = !ct || this.solver.check(this.facts, T.not(cond)).r !== 'unsat'
      if (ct && cf) {
        if (process.env.SPLITS) { const w = this.where?.() + ' ' + T.show(cond).slice(0, 150); splits.set(w, (splits.get(w) ?? 0) + 1) }
        d.work.push([...d.trail, { take: false, forced: false }])
        take = true
        d.trail.push({ take, forced: false })
      }
      else { take = ct; d.trail.push({ take, forced: true }) }
    }
    d.pos++
    const e = d.trail[d.trail.length - 1]
    this.fact(take ? cond : T.not(cond), e.forced ? 'forced' : 'decision')
    return take
  }

  // --- exploration of all paths of body(); state changes are undone after each path
  explore(body, { keep } = {}) {
    const saved = this.dec
    const mark = this.facts.length, jmark = this.journal.length
    const asserted = this.asserted
    const { binders, idx, exs, joins } = this
    const outs = []
    const n = saved ? saved.sub++ : 0
    const work = [[]]
    this.depth++
    const objMark = currentObjId()
    let top = objMark
    while (work.length) {
      if (outs.length > 6000) throw new Unsupported('too many paths')
      this.dec = { prefix: work.pop(), pos: 0, trail: [], work, up: saved, n, sub: 0 }
      this.asserted = new Set(asserted)
      this.binders = binders; this.idx = idx; this.exs = exs; this.joins = joins
      let out
      if (currentObjId() > top) top = currentObjId()
      setObjId(objMark)
      const leave = (e) => {
        this.undo(jmark, objMark)
        this.facts.length = mark; this.kinds.length = mark
        setObjId(Math.max(top, currentObjId()))
        this.depth--
        this.asserted = asserted; this.binders = binders; this.idx = idx; this.exs = exs; this.joins = joins; this.dec = saved
        throw e
      }
      try { out = { value: body() } }
      catch (e) {
        if (e instanceof Throw) out = { error: e.value }
        else if (e instanceof PathEnd) out = undefined
        else leave(e)
      }
      if (out) {
        const facts = this.facts.slice(mark), kinds = this.kinds.slice(mark)
        out.conds = facts.filter((_, i) => kinds[i] === 'decision' || kinds[i] === 'assume')
        out.axioms = facts.filter((_, i) => kinds[i] === 'axiom')
        out.trail = this.dec.trail
        if (keep) { try { keep(out, jmark, objMark) } catch (e) { leave(e) } }
        outs.push(out)
      }
      this.undo(jmark, objMark)
      this.facts.length = mark; this.kinds.length = mark
    }
    setObjId(Math.max(top, currentObjId()))
    this.depth--
    this.asserted = asserted
    this.binders = binders; this.idx = idx; this.exs = exs; this.joins = joins
    this.dec = saved
    return outs
  }
  /** names the position on the current path, the same in every replay of it */
  pathId() { const out = []; for (let d = this.dec; d; d = d.up) out.push(`${d.n}:${d.trail.map(e => e.take ? 1 : 0).join('')}:${d.sub}`); return out.join('/') }
  undo(mark, objMark) { while (this.journal.length > mark) { const e = this.journal.pop(); if (e.obj.id < objMark) e.obj[e.field] = e.old } }
  write(obj, field, value) {
    if (obj.sealed) throw new Unsupported('a value kept in a collection across loop iterations is changed')
    const old = rawField(obj, field)
    this.journal.push({ obj, field, old })
    obj[field] = value
  }

  newBinder(sort) { return T.variable(`b!${++this.binderN}`, sort) }

  // --- fresh symbols (functions of the current comprehension binders)
  fresh(name, sort, type) {
    const n = `${name}!${++this.freshN}`
    if (this.binders.length) {
      if (type) this.funTypes.set(n, type)
      return T.app(n, this.binders, sort)
    }
    if (type) this.varTypes.set(n, type)
    return T.variable(n, sort)
  }

  // --- obligations
  ensure(label, cond, info) {
    if (this.quiet) return
    const t0 = performance.now()
    let status = 'proved', model, backend = 'simplifier'
    if (cond !== T.TRUE) {
      const r = this.solver.check(this.facts, T.not(cond), { strong: true })
      backend = r.backend
      if (r.r !== 'unsat') { status = r.r === 'sat' ? 'failed' : 'unknown'; model = r.model }
    }
    this.obligations.push({ label, status, ms: performance.now() - t0, backend, model, info: status === 'proved' ? undefined : (info ?? T.show(cond)), path: status === 'proved' ? undefined : this.facts.filter((_, i) => this.kinds[i] === 'decision').map(f => T.show(f)), at: this.where?.() })
    return status === 'proved'
  }
}
