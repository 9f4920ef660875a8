// Loops of unknown length: cut by an inductive invariant that is inferred as a partition of the modified state
// (locations that are provably equal before the loop and after every iteration), checked inductive, and then used once.
import * as T from './term.mjs'
import { HObj, PathEnd, Throw, Unsupported, currentObjId, frz, isObj, objById, setObjId, substComp } from './heap.mjs'
import { Cell, Env } from './interp.mjs'
import { isSpecial, special } from './seq.mjs'
import { ts } from './program.mjs'

const { UNDEF, str } = T
const MAXROUNDS = 40
const ANY = { k: 'any' }

// ---------- joins of types
const flat = t => t.k === 'or' ? t.ts.flatMap(flat) : t.k === 'opt' ? [{ k: 'undef' }, ...flat(t.t)] : t.k === 'nullable' ? [{ k: 'null' }, ...flat(t.t)] : [t]
const key = t => JSON.stringify(t)
const keysOf = t => Object.keys(t.fields).sort().join('|')
const mergeObj = (a, b) => {
  if (a.k !== 'obj' || b.k !== 'obj' || a.open || b.open || keysOf(a) !== keysOf(b)) return
  for (const k of ['type', 'role']) if (a.fields[k]?.k === 'lit' && b.fields[k]?.k === 'lit' && a.fields[k].v !== b.fields[k].v) return
  return { k: 'obj', fields: Object.fromEntries(Object.keys(a.fields).sort().map(k => [k, joinType(a.fields[k], b.fields[k])])) }
}
export const joinType = (a, b) => {
  if (key(a) === key(b)) return a
  let out = []
  const add = (t) => {
    if (t.k === 'any') { out = [ANY]; return }
    if (out[0]?.k === 'any') return
    for (let i = 0; i < out.length; i++) {
      const u = out[i]
      if (key(u) === key(t)) return
      let m
      if (u.k === 'int' && t.k === 'int') m = u.min === t.min ? u : { k: 'int', ...(u.min !== undefined && t.min !== undefined ? { min: Math.min(u.min, t.min) } : {}) }
      else if (u.k === 'arr' && t.k === 'arr') m = { k: 'arr', t: joinType(u.t, t.t) }
      else if (u.k === 'obj' && t.k === 'obj') m = mergeObj(u, t)
      else if (u.k === 'str' && t.k === 'str') m = { k: 'str' }
      else if (u.k === 'str' && t.k === 'lit' && typeof t.v === 'string') m = { k: 'str' }
      else if (t.k === 'str' && u.k === 'lit' && typeof u.v === 'string') m = { k: 'str' }
      else if (u.k === 'bool' && t.k === 'lit' && typeof t.v === 'boolean') m = u
      else if (t.k === 'bool' && u.k === 'lit' && typeof u.v === 'boolean') m = t
      else if (t.k === 'lit' && u.k === 'lit' && typeof u.v === 'boolean' && typeof t.v === 'boolean') m = { k: 'bool' }
      else if (u.k === 'never') m = t
      else if (t.k === 'never') m = u
      if (m) { out.splice(i, 1); add(m); return }
    }
    out.push(t)
  }
  for (const t of [...flat(a), ...flat(b)]) add(t)
  const lits = out.filter(t => t.k === 'lit' && typeof t.v === 'string')
  if (lits.length > 6) out = [...out.filter(t => !lits.includes(t)), { k: 'str' }]
  if (out.length > 10) return ANY
  if (out.length === 1) return out[0]
  return { k: 'or', ts: out.sort((x, y) => key(x) < key(y) ? -1 : 1) }
}

export const installCut = (Interp) => {
  Object.assign(Interp.prototype, {
    // ---------- types of values
    inferType(v, d = 0) {
      v = this.decided(v)
      if (d > 7) return ANY
      if (isObj(v)) {
        if (v.kind === 'arr') return { k: 'arr', t: this.inferElem(v.segs, d + 1) }
        if (v.kind !== 'obj' || v.cls) return ANY
        const fields = {}
        let open
        for (const l of this.compactLayers(v.layers)) {
          if (l.t === 'set') { if (l.k.op !== 'str') return ANY; fields[l.k.data] = this.inferType(l.v, d + 1) }
          else if (l.t === 'spread' && l.src.p === 'opaque' && l.src.o.op === 'oval' && !Object.keys(fields).length) {
            let ty = this.typeOf(l.src.o.args[0])
            if (ty) { const os = flat(ty).filter(x => x.k !== 'undef' && x.k !== 'null'); ty = os.length === 1 ? os[0] : undefined }
            if (ty?.k !== 'obj') return ANY
            Object.assign(fields, ty.fields); open = ty.open
          }
          else return ANY
        }
        return { k: 'obj', fields, ...(open ? { open } : {}) }
      }
      if (v.sort === 'S') {
        if (v.op === 'str') return { k: 'lit', v: v.data }
        const ty = v.op === 'sval' && this.typeOf(v.args[0])
        if (ty && flat(ty).every(t => t.k !== 'any' && t.k !== 'json')) { const ls = flat(ty).filter(t => t.k === 'str' || (t.k === 'lit' && typeof t.v === 'string')); if (ls.length && ls.every(t => t.k === 'lit')) return ls.reduce(joinType) }
        return { k: 'str' }
      }
      if (v.sort === 'B') return T.isConst(v) ? { k: 'lit', v: v.data } : { k: 'bool' }
      if (v.sort === 'I') return this.ctx.entails(T.le(T.int(0), v)) ? { k: 'int', min: 0 } : { k: 'int' }
      if (v.op === 'undef') return { k: 'undef' }
      if (v.op === 'nul') return { k: 'null' }
      const t = v.op !== 'ite' ? this.typeOf(v) ?? ANY : joinType(this.inferType(v.args[1], d + 1), this.inferType(v.args[2], d + 1))
      // x ?? y is not undefined although x may be
      const ts = flat(t)
      if (ts.every(x => x.k !== 'undef' && x.k !== 'null')) return t
      const not = v.op === 'ite' ? x => this.ctx.entails(T.not(x)) : x => this.ctx.quickly(x) === false
      const keep = ts.filter(x => !(x.k === 'undef' && not(T.eq(v, UNDEF))) && !(x.k === 'null' && not(T.eq(v, T.NUL))))
      return keep.length && keep.length < ts.length ? keep.reduce(joinType) : t
    },
    inferElem(segs, d) {
      let t = { k: 'never' }
      for (const s of segs) {
        if (isSpecial(s)) t = joinType(t, s.w ? joinType({ k: 'undef' }, this.inferType(s.w.v, d)) : this.inferElem([{ q: s.base }], d))
        else if (s.u) t = joinType(t, this.inferType(s.u, d))
        else for (const c of s.q.cases) for (const o of c.out) t = joinType(t, o.u ? this.inferType(o.u, d) : this.inferElem([o], d))
      }
      return t
    },

    // ---------- skeletons: how the state at the loop head varies
    sameVal(a, b) {
      if (a === b) return true
      if (a === undefined || b === undefined) return false
      if (isObj(a) && isObj(b) && a.kind === 'arr' && b.kind === 'arr') { const x = this.freezeAny(a), y = this.freezeAny(b); return x === y && x.data?.kind !== 'ref' }
      if (isObj(a) || isObj(b)) return isObj(a) && isObj(b) && a.viewOf !== undefined && a.viewOf === b.viewOf
      return this.V(a) === this.V(b)
    },
    /** unknown members first (open), then those with known names */
    splitLayers(ls) {
      ls = this.compactLayers(ls)
      const n = ls.findLastIndex(l => l.t !== 'set' || l.k.op !== 'str') + 1
      return { open: ls.slice(0, n), sets: ls.slice(n) }
    },
    /** two objects with the same unknown members and the same other names */
    sameShape(A, B) {
      const a = this.splitLayers(A), b = this.splitLayers(B)
      const ks = ls => ls.map(l => l.k.data).sort().join('\n')
      return ks(a.sets) === ks(b.sets) && a.open.length === b.open.length && a.open.every((l, i) => {
        const m = b.open[i]
        if (l === m) return true
        if (l.t !== m.t) return false
        if (l.t === 'spread') return l.src === m.src || (l.src.p === 'opaque' && m.src.p === 'opaque' && l.src.o === m.src.o && l.src.clone === m.src.clone)
        return l.k === m.k && (l.t === 'del' || this.sameVal(this.val(l.v), this.val(m.v)))
      })
    },
    freeNames(node) {
      if (node._free) return node._free
      const s = new Set()
      const go = (n) => { if (ts.isIdentifier(n)) s.add(n.text); else if (n.kind === ts.SyntaxKind.ThisKeyword) s.add('this'); ts.forEachChild(n, go) }
      go(node.body); node.parameters.forEach(go)
      return node._free = [...s].sort()
    },
    closureVars(f, g) { // free variables bound to different cells
      const out = []
      for (const n of this.freeNames(f.node)) {
        const a = f.env.find(n), b = g.env.find(n)
        if (a === b) continue
        if (!a || !b || a.lazy || b.lazy) this.unsupported(`captured variable ${n} of a loop-carried function`)
        if (a.v === undefined && b.v === undefined) continue
        if (a.v === undefined || b.v === undefined) this.unsupported(`captured variable ${n} of a loop-carried function is not initialised`)
        out.push([n, a.v, b.v])
      }
      return out
    },
    /** a boolean the path settles is that constant, and a number it makes 0 is 0 */
    decided(v) {
      v = isObj(v) || T.isTerm(v) ? this.val(v) : v
      if (T.isTerm(v) && v.sort === 'I' && v.op !== 'int' && this.ctx.entails(T.eq(v, T.int(0)))) return T.int(0)
      if (T.isTerm(v) && v.sort === 'B' && !T.isConst(v)) return this.ctx.entails(v) ? T.TRUE : this.ctx.entails(T.not(v)) ? T.FALSE : v
      return v
    },
    skJoin(sk, s0, v, d = 0) {
      if (d > 12) return { k: 'leaf', type: ANY }
      s0 = this.decided(s0); v = this.decided(v)
      if (sk.k === 'const' && this.sameVal(s0, v)) return sk
      const leaf = () => ({ k: 'leaf', type: joinType(this.inferType(s0), sk.k === 'leaf' ? joinType(sk.type, this.inferType(v)) : this.inferType(v)) })
      if (sk.k === 'leaf' || !isObj(s0) || !isObj(v) || s0.kind !== v.kind) return leaf()
      if (v.kind === 'arr') return this.skArr(sk, s0.segs, v.segs)
      if (v.kind === 'obj' && s0.cls === v.cls && this.sameShape(s0.layers, v.layers)) return this.skLayers(sk, s0.layers, v.layers, d)
      if (v.kind === 'func' && s0.node && s0.node === v.node && s0.thisVal === v.thisVal) {
        const old = sk.k === 'func' ? sk.vars : {}
        const vars = {}
        for (const [n, a, b] of this.closureVars(s0, v)) vars[n] = this.skJoin(old[n] ?? { k: 'const' }, a, b, d + 1)
        for (const n of Object.keys(old)) if (!(n in vars)) vars[n] = old[n]
        return { k: 'func', vars }
      }
      if (v.kind === 'promise' && s0.state === 'fulfilled' && v.state === 'fulfilled') return { k: 'promise', v: this.skJoin(sk.k === 'promise' ? sk.v : { k: 'const' }, s0.value, v.value, d + 1) }
      return leaf()
    },
    /** spread: written at unknown positions in the loop; its elements are then objects of its own (checkAliases) */
    skArr(sk, s0, now) {
      const spread = sk.spread || now.some(isSpecial)
      if (spread && s0.length) this.unsupported('an array that is not new at the start of a loop is written at unknown positions')
      return { k: 'arr', type: joinType(sk.k === 'arr' ? sk.type : this.inferElem(s0, 1), this.inferElem(now, 1)), ...spread ? { spread } : {} }
    },
    unitsOf(segs) { return segs.flatMap(s => isSpecial(s) ? (s.w ? [s.w.v] : []) : s.u ? [s.u] : []) },
    skLayers(sk, L0, L1, d) {
      const get = (ls, k) => ls.findLast(l => l.t === 'set' && l.k.data === k)?.v
      const f = {}
      for (const l of this.splitLayers(L0).sets) { const k = l.k.data; f[k] = this.skJoin(sk.k === 'obj' ? sk.f[k] : { k: 'const' }, l.v, get(L1, k), d + 1) }
      return { k: 'obj', f }
    },
    /** every varying place: cb(path, skeleton, value at S0, value now) */
    skLeaves(sk, s0, v, path, cb) {
      switch (sk.k) {
        case 'const': return
        case 'leaf': case 'arr': cb(path, sk, s0, v); return
        case 'obj': {
          const L = x => Array.isArray(x) ? x : this.val(x).layers
          const get = (ls, k) => ls.findLast(l => l.t === 'set' && l.k.data === k)?.v
          for (const k of Object.keys(sk.f)) this.skLeaves(sk.f[k], get(L(s0), k), v === undefined ? undefined : get(L(v), k), `${path}.${k}`, cb)
          return
        }
        case 'func': for (const n of Object.keys(sk.vars)) this.skLeaves(sk.vars[n], s0.env.find(n).v, v === undefined ? undefined : v.env.find(n).v, `${path}/${n}`, cb); return
        case 'promise': this.skLeaves(sk.v, s0.value, v?.value, `${path}~`, cb)
      }
    },
    skInst(sk, s0, path, symOf, memo) {
      if (isObj(s0) && memo.has(s0)) return memo.get(s0)
      switch (sk.k) {
        case 'const': return s0
        case 'leaf': return this.norm(symOf(path))
        case 'arr': {
          const sym = symOf(path)
          this.norm(sym)
          const q = this.identComp(T.sel('vobj', sym))
          const a = this.newArr([sk.spread ? special({ base: q }) : { q }])
          if (isObj(s0)) { a.owner = s0.owner; memo.set(s0, a) }
          return a
        }
        case 'obj': {
          const o = new HObj('obj')
          o.owner = s0.owner; o.cls = s0.cls
          memo.set(s0, o)
          o.layers = this.instLayers(sk, s0.layers, path, symOf, memo)
          return o
        }
        case 'func': {
          const f = new HObj('func')
          Object.assign(f, { node: s0.node, thisVal: s0.thisVal, home: s0.home, fname: s0.fname, layers: s0.layers, owner: s0.owner, isArrow: s0.isArrow, bindersAt: s0.bindersAt })
          memo.set(s0, f)
          const e = new Env(s0.env)
          for (const n of Object.keys(sk.vars)) {
            const c0 = s0.env.find(n)
            let c = memo.get(c0)
            if (!c) { memo.set(c0, c = new Cell(undefined, true)); c.v = this.skInst(sk.vars[n], c0.v, `${path}/${n}`, symOf, memo) }
            e.vars.set(n, c)
          }
          f.env = e
          return f
        }
        case 'promise': { const p = this.newPromise(); p.state = 'fulfilled'; memo.set(s0, p); p.value = this.skInst(sk.v, s0.value, `${path}~`, symOf, memo); return p }
      }
    },
    instLayers(sk, L0, path, symOf, memo) {
      const { open, sets } = this.splitLayers(L0)
      return [...open, ...sets.map(l => ({ t: 'set', k: l.k, v: this.skInst(sk.f[l.k.data], l.v, `${path}.${l.k.data}`, symOf, memo) }))]
    },

    // ---------- locations
    locJoin(l, s0, now) {
      switch (l.field) {
        case 'v': return this.skJoin(l.sk, s0, now)
        case 'segs': return this.skArr(l.sk, s0, now)
        case 'layers': {
          if (!this.sameShape(s0, now)) this.unsupported('an object changes its shape in a loop')
          return this.skLayers(l.sk, s0, now, 0)
        }
        default: this.unsupported(`loop-carried ${l.field}`)
      }
    },
    locLeaves(l, i, s0, now, cb) {
      if (l.field === 'segs') cb(`${i}`, l.sk, this.bareArr(s0), now === undefined ? undefined : this.bareArr(now))
      else this.skLeaves(l.sk, s0, now, `${i}`, cb)
    },
    bareArr(segs) { const a = new HObj('arr'); a.owner = 'harness'; a.segs = segs; return a },
    locInst(l, i, s0, symOf, memo) {
      switch (l.field) {
        case 'v': return this.skInst(l.sk, s0, `${i}`, symOf, memo)
        case 'segs': return this.skInst(l.sk, undefined, `${i}`, symOf, memo).segs
        case 'layers': return l.sk.k === 'const' ? s0 : this.instLayers(l.sk, s0, `${i}`, symOf, memo)
      }
    },

    /** identities: cb.node(path, s0 object, object now) at structured places, cb.inside(object) for what a summarised place holds */
    skNodes(sk, a, b, path, cb) {
      switch (sk.k) {
        case 'const': return
        case 'leaf': this.reach(b, cb); return
        case 'arr': cb.node(path, a, b); if (cb.inside) for (const u of this.unitsOf(b.segs)) this.reach(this.val(u), cb); if (sk.spread) cb.spread?.(b.segs); return
        case 'obj': {
          cb.node(path, a, b)
          const get = (o, k) => o.layers.findLast(l => l.t === 'set' && l.k.data === k)?.v
          for (const k of Object.keys(sk.f)) this.skNodes(sk.f[k], this.val(get(a, k)), this.val(get(b, k)), `${path}.${k}`, cb)
          return
        }
        case 'func': for (const n of Object.keys(sk.vars)) { const x = a.env.find(n), y = b.env.find(n); cb.node(`${path}/${n}!`, x, y); this.skNodes(sk.vars[n], this.val(x.v), this.val(y.v), `${path}/${n}`, cb) } return
        case 'promise': cb.node(path, a, b); this.skNodes(sk.v, this.val(a.value), this.val(b.value), `${path}~`, cb)
      }
    },
    reach(v, cb, d = 0) {
      if (!cb.inside || !isObj(v)) return
      if (d > 40) this.unsupported('deep value carried by a loop')
      if (v.kind === 'arr') { cb.inside(v); for (const u of this.unitsOf(v.segs)) this.reach(this.val(u), cb, d + 1) }
      else if (v.kind === 'obj') { cb.inside(v); for (const l of v.layers) if (l.t === 'set') this.reach(this.val(l.v), cb, d + 1) }
      else if (v.kind === 'promise') { cb.inside(v); this.reach(v.value && this.val(v.value), cb, d + 1) }
    },
    locNodes(l, i, a, b, cb) {
      if (l.field === 'v') this.skNodes(l.sk, this.val(a), this.val(b), `${i}`, cb)
      else if (l.field === 'segs') { if (cb.inside && l.sk.k === 'arr') for (const u of this.unitsOf(b)) this.reach(this.val(u), cb); if (l.sk.spread) cb.spread?.(b) }
      else if (l.sk.k === 'obj') {
        const get = (ls, k) => ls.findLast(x => x.t === 'set' && x.k.data === k)?.v
        for (const k of Object.keys(l.sk.f)) this.skNodes(l.sk.f[k], this.val(get(a, k)), this.val(get(b, k)), `${i}.${k}`, cb)
      }
    },
    /** the objects of the loop-carried state are shared after an iteration exactly as before the loop */
    checkAliases(inv, head) {
      const fwd = new Map(), back = new Map(), inside = new Set(), places = [], count = new Map(), spread = new Set()
      inv.locs.forEach((l, i) => this.locNodes(l, i, head(l), objById(l.id)[l.field], {
        node: (p, a, b) => {
          places.push([p, b])
          if (fwd.has(a) && fwd.get(a) !== b) this.unsupported(`two places of the loop state stop sharing an object (${this.locName(inv, p)})`)
          if (back.has(b) && back.get(b) !== a) this.unsupported(`two places of the loop state start sharing an object (${this.locName(inv, p)})`)
          fwd.set(a, b); back.set(b, a)
        },
        inside: (o) => { if (spread.has(o)) this.unsupported('an element of an array written at unknown positions is shared'); inside.add(o); count.set(o, (count.get(o) ?? 0) + 1) },
        // the elements of such an array are reachable through it only
        spread: (segs) => {
          const own = new Set()
          const cb = { inside: (o) => { if (own.has(o)) this.unsupported('an element of an array written at unknown positions is shared'); own.add(o) } }
          for (const u of this.unitsOf(segs)) this.reach(this.val(u), cb)
          for (const o of own) { if (count.get(o) !== 1 || spread.has(o)) this.unsupported('an element of an array written at unknown positions is shared'); spread.add(o) }
        },
      }))
      for (const [, b] of places) if (spread.has(b)) this.unsupported('an element of an array written at unknown positions is shared')
      for (const l of inv.locs) if (inside.has(objById(l.id))) this.unsupported('an object that changes in a loop is stored in a collection')
      const n = inv.sealed.size
      for (const [p, b] of places) if (inside.has(b)) inv.sealed.add(p)
      return inv.sealed.size !== n
    },

    // ---------- the cut
    /**
     * One round. `last`: in this round a source of unknown length came to its end (prelude, _pull). What a loop does after that is no part
     * of what the invariant describes: such a round is a way out of it, and the few rounds that may follow are run as they are.
     */
    oneRound(step, pos) {
      const before = this.lastRounds
      this.lastRounds = false
      let last = false
      try { const d = step(pos); last = this.lastRounds; return { d, last } }
      finally { this.lastRounds = before || last }
    },
    finishRounds(step, index) {
      if (index) this.unsupported('a source ends inside a loop over a collection')
      for (let i = 0; i < 12; i++) { const d = step(); if (!d.go) return d }
      this.unsupported('a loop goes on for long after its source has ended')
    },
    /** opts.step() runs one iteration -> {go, c}; opts.index: {len} of a traversed collection (step receives its position) */
    cutLoop({ step, index, name, start = 0 }) {
      const { ctx } = this
      ctx.cuts ??= new Map()
      const id = `${name}+${start}@${ctx.pathId()}`
      let inv = ctx.cuts.get(id)
      if (!inv) {
        try { inv = this.inferInvariant(step, index, name, start) }
        catch (e) {
          // the first rounds may differ in shape from the later ones: run one of them as it is and cut the rest
          if (!(e instanceof Unsupported) || /time budget/.test(e.message) || start >= 2) throw e
          if (process.env.DBGCUT) console.error(`[cut ${name}] peeled: ${e.message}`)
          inv = { peel: true }
        }
        inv.ids = currentObjId(); inv.fresh = ctx.freshN; inv.binders = ctx.binderN; inv.sub = ctx.dec.sub
        ctx.cuts.set(id, inv)
      }
      setObjId(Math.max(inv.ids, currentObjId())); ctx.freshN = Math.max(inv.fresh, ctx.freshN); ctx.binderN = Math.max(inv.binders, ctx.binderN); ctx.dec.sub = Math.max(inv.sub, ctx.dec.sub)
      if (inv.peel) {
        if (index && !ctx.branch(T.lt(T.int(start), index.len))) return {}
        const { d, last } = this.oneRound(step, T.int(start))
        if (d.go && last) return this.finishRounds(step, index)
        return d.go ? this.cutLoop({ step, index, name, start: start + 1 }) : d
      }
      const pos = this.applyInvariant(inv)
      if (inv.search) this.searched(inv)
      this.invariants?.add(`${name}: ${inv.text}`)
      // after the loop these arrays are ordinary collections again
      const leave = (d) => {
        // (the last round may have left other values there: only what still has the shape is visited)
        const walk = (sk, v) => {
          v = v && this.val(v)
          if (!isObj(v)) return
          if (sk.k === 'arr' && v.kind === 'arr') ordinary(v)
          else if (sk.k === 'obj' && v.kind === 'obj') members(sk, v.layers)
          else if (sk.k === 'func' && v.kind === 'func' && v.env) for (const n of Object.keys(sk.vars)) walk(sk.vars[n], v.env.find(n)?.v)
          else if (sk.k === 'promise' && v.kind === 'promise') walk(sk.v, v.value)
        }
        const members = (sk, ls) => { for (const k of Object.keys(sk.f)) walk(sk.f[k], ls.findLast(x => x.t === 'set' && x.k.data === k)?.v) }
        for (const l of inv.locs) {
          const o = objById(l.id)
          if (l.field === 'v') walk(l.sk, o.v)
          else if (l.field === 'layers' && l.sk.k === 'obj') members(l.sk, o.layers)
        }
        for (const l of inv.locs) if (l.field === 'segs') ordinary(objById(l.id))
        return d
      }
      const ordinary = (a) => { if (a.segs.length === 1 && isSpecial(a.segs[0]) && a.segs[0].base) ctx.write(a, 'segs', [{ q: a.segs[0].base }]) }
      if (index) {
        if (!ctx.branch(T.lt(pos, index.len))) { ctx.fact(T.eq(pos, index.len)); return leave({}) }
      }
      const { d, last } = this.oneRound(step, pos)
      if (d.go && last) return leave(this.finishRounds(step, index))
      if (d.go) throw new PathEnd('loop')
      return leave(d)
    },
    /**
     * A loop that changes nothing but a counter, one up in every round, has gone on at every value of it so far: what makes it go on
     * held there. Stated for the integers the contract speaks of.
     */
    searched(inv) {
      const { ctx } = this
      const i = this.norm(inv.last[0]), { from, paths } = inv.search
      const up = inv.search.by === 1, lo = up ? from : T.add(i, T.int(1)), hi = up ? T.sub(i, T.int(1)) : from
      ctx.fact(up ? T.le(from, i) : T.le(i, from))
      for (const name of this.inputs ?? []) {
        if (ctx.varTypes.get(name)?.k !== 'int') continue
        // (the position before it: a condition tested at the end of a round speaks of the next value)
        for (const shift of [0, -inv.search.by]) {
          const k = T.add(this.norm(T.variable(name, 'V')), T.int(shift))
          const held = T.or(...paths.map(({ sym, conds }) => T.and(...conds.map(c => T.subst(c, new Map([[sym, T.sel('vnum', k)]]))))))
          ctx.fact(T.or(T.not(T.le(lo, k)), T.not(T.le(k, hi)), held))
        }
      }
    },
    searchOf(inv, head, outs, old) {
      if (inv.index || inv.classes.length !== 1 || inv.locs.some(l => l.field !== 'v' || l.sk.k !== 'leaf' || l.sk.type.k !== 'int')) return
      if (inv.locs.length !== 1 || this.val(head(inv.locs[0])).sort !== 'I') return
      const names = (t, to, seen = new Set()) => { if (seen.has(t)) return to; seen.add(t); if (t.op === 'var' || t.op === 'app') to.add(`${t.data}`); for (const a of t.args ?? []) if (a?.op) names(a, to, seen); return to }
      const paths = []
      let by
      for (const o of outs) {
        if (!o.value) continue
        const { sym, now } = o.value
        const d = T.sub(this.val(now), this.norm(sym))
        if (d.op !== 'int' || d.data !== 1 && d.data !== -1 || by && by !== d.data) return
        by = d.data
        paths.push({ sym, conds: o.conds.filter(c => [...names(c, new Set())].every(n => n === sym.data || !n.includes('!') && !n.startsWith('frz') || old.has(n))) })
      }
      return paths.length ? { from: this.val(head(inv.locs[0])), by, paths } : undefined
    },
    applyInvariant(inv) {
      const { ctx } = this
      const syms = inv.classes.map(c => c.along ? undefined : ctx.fresh(`inv`, 'V', c.type))
      for (const [i, c] of inv.classes.entries()) {
        if (!c.along) continue
        const j = inv.classes.findIndex(d => d.members.includes(c.members[0] + '#len')), F = T.sel('vobj', c.along)
        const o = inv.off.get(c.members[0] + '#len') ?? 0
        const n = T.add(this.norm(syms[j]), T.int(o))
        ctx.fact(T.and(T.le(T.int(0), n), T.le(n, T.lenOf(F))))
        syms[i] = T.app('slice', [F, T.int(0), n], 'V')
      }
      inv.last = syms
      const cls = new Map(inv.classes.flatMap((c, i) => c.members.map(m => [m, syms[i]])))
      const symOf = (p) => {
        const s = cls.get(p) ?? this.unsupported('invariant without ' + p)
        const o = inv.off.get(p)
        return o ? T.add(this.norm(s), T.int(o)) : s
      }
      const memo = new Map()
      const vals = inv.locs.map((l, i) => this.locInst(l, i, objById(l.id)[l.field], symOf, memo))
      inv.locs.forEach((l, i) => this.locNodes(l, i, objById(l.id)[l.field], objById(l.id)[l.field], { node: (p, a) => { const o = memo.get(a); if (o && inv.sealed.has(p)) o.sealed = true } }))
      inv.locs.forEach((l, i) => ctx.write(objById(l.id), l.field, vals[i]))
      for (const c of inv.classes) for (const m of c.members) {
        const min = inv.min.get(m)
        if (min !== undefined) ctx.fact(T.le(T.int(min), this.norm(symOf(m))))
        if (m.endsWith('#len')) ctx.fact(T.eq(T.lenOf(T.sel('vobj', cls.get(m.slice(0, -4)))), this.norm(symOf(m))))
      }
      return inv.index ? this.norm(symOf('#')) : undefined
    },
    inferInvariant(step, index, name, start) {
      const { ctx } = this
      const inv = { locs: [], classes: [], index: !!index, off: new Map(), min: new Map(), sealed: new Set(), notAlong: new Set() }
      const objMark = currentObjId()
      const quiet = ctx.quiet
      ctx.quiet = true
      const s0 = new Map() // loc -> value at the head
      const head = l => s0.get(l)
      const old = new Set() // the names that mean the same in every round
      { const seen = new Set(); const go = (t) => { if (seen.has(t)) return; seen.add(t); if (t.op === 'var' || t.op === 'app') old.add(`${t.data}`); for (const a of t.args ?? []) if (a?.op) go(a) }; ctx.facts.forEach(go) }
      let round = 0
      const LEN = { k: 'leaf', type: { k: 'int', min: 0 } }
      const leavesOf = (value, cb) => {
        inv.locs.forEach((l, i) => this.locLeaves(l, i, head(l), value(l), (path, sk, a, b) => {
          cb(path, sk, a, b)
          if (sk.k === 'arr') cb(path + '#len', LEN, isObj(a) ? this.arrLen(a) : undefined, isObj(b) ? this.arrLen(b) : undefined)
        }))
      }
      // leaves of clearly different kinds are not compared: while in one class each would take on the other's type
      const signature = (sk) => {
        const tags = new Set()
        if (sk.k === 'arr') {
          const elem = (t) => {
            if (!t || t.k === 'any' || t.k === 'json' || t.k === 'rec' || t.open) tags.add('any')
            else if (t.k === 'or') t.ts.forEach(elem)
            else if (t.k === 'opt' || t.k === 'nullable') elem(t.t)
            else if (t.k === 'obj') for (const [k, f] of Object.entries(t.fields)) { if (f.k !== 'undef') tags.add('.' + k) }
            else if (t.k !== 'undef' && t.k !== 'never') tags.add(t.k === 'lit' ? typeof t.v : t.k === 'str' ? 'string' : t.k === 'int' ? 'number' : t.k === 'bool' ? 'boolean' : t.k)
          }
          elem(sk.type)
          return tags.has('any') ? '[any]' : '[' + [...tags].sort().join() + ']'
        }
        if (sk.k !== 'leaf') return ''
        const go = (t) => { if (!t || t.k === 'any' || t.k === 'json') tags.add('any'); else if (t.k === 'or') t.ts.forEach(go); else if (t.k === 'opt') { tags.add('undef'); go(t.t) } else if (t.k === 'nullable') { tags.add('null'); go(t.t) } else tags.add(t.k === 'lit' ? 'lit ' + typeof t.v : t.k) }
        go(sk.type)
        return [...tags].sort().join()
      }
      const partition = () => {
        const leaves = []
        leavesOf(() => undefined, (path, sk, v) => leaves.push({ path, sk, v }))
        if (index) leaves.push({ path: '#', sk: LEN, v: T.int(start) })
        const groups = []
        inv.off = new Map(); inv.min = new Map()
        for (const x of leaves) {
          const v = this.val(x.v)
          const int = !isObj(v) && v.sort === 'I' && x.sk.k === 'leaf' && x.sk.type.k === 'int'
          if (int && x.sk.type.min !== undefined) inv.min.set(x.path, x.sk.type.min)
          const sig = signature(x.sk)
            // an array that grows along a given one (hint v.prefix): a class of its own
          const along = x.sk.k === 'arr' ? (ctx.prefixes ?? []).find(F => !inv.notAlong.has(x.path + '|' + F.id) && this.alongArr(v, F)) : undefined
          if (along) { groups.push(Object.assign([x], { sig: '', along })); continue }
          const g = groups.find((g) => {
            if (g.along || g.sig !== sig) return false
            if (!int || !g.int) return !g.int && !int && this.maybeEq(g[0].v, x.v)
            const d = T.sub(v, this.val(g[0].v))
            if (d.op !== 'int') return this.maybeEq(g[0].v, x.v)
            inv.off.set(x.path, d.data)
            return true
          })
          if (g) g.push(x); else groups.push(Object.assign([x], { int, sig }))
        }
        inv.classes = groups.map(g => ({ ...this.mkClass(g.map(x => [x.path, x.sk])), along: g.along }))
      }
      partition()
      try {
        for (;;) {
          if (++round > MAXROUNDS) this.unsupported('no inductive loop invariant found')
          let widened = false
          const cur = { ...inv, locs: inv.locs.map(l => ({ ...l })), sealed: new Set(inv.sealed) }
          const splits = new Map(inv.classes.map(c => [c, undefined]))
          const outs = ctx.explore(() => {
            const pos = this.applyInvariant(cur)
            if (index) ctx.assume(T.lt(pos, index.len))
            const mark = ctx.journal.length
            const { d, last } = this.oneRound(step, pos)
            if (!d.go || last) throw new PathEnd('exit')
            // new locations
            for (const e of ctx.journal.slice(mark)) {
              if (e.obj.id >= objMark || inv.locs.some(l => l.id === e.obj.id && l.field === e.field) ) continue
              const first = ctx.journal.slice(mark).find(x => x.obj === e.obj && x.field === e.field)
              const now = e.obj[e.field]
              if (now === first.old) continue
              if (e.obj.id < 0) this.unsupported('module-level state changes in a loop')
              if (e.field === 'v' && first.old === undefined) this.unsupported('a variable is first assigned in a loop')
              if (!['v', 'segs', 'layers'].includes(e.field)) this.unsupported(`loop-carried ${e.field}`)
              const l = { id: e.obj.id, field: e.field, sk: { k: 'const' } }
              inv.locs.push(l); s0.set(l, first.old)
              widened = true
            }
            for (const l of inv.locs) {
              const sk = this.locJoin(l, head(l), objById(l.id)[l.field])
              if (JSON.stringify(sk) !== JSON.stringify(l.sk)) { if (process.env.DBGCUT > 1) console.error('   widen', l.field + l.id, JSON.stringify(l.sk), '->', JSON.stringify(sk)); l.sk = sk; widened = true }
            }
            if (widened) return UNDEF
            if (this.checkAliases(inv, head)) { widened = true; return UNDEF }
            const now = new Map()
            leavesOf(l => objById(l.id)[l.field], (path, sk, _, v) => now.set(path, v))
            if (index) now.set('#', T.add(pos, T.int(1)))
            for (const c of inv.classes) if (c.along && !this.alongArr(now.get(c.members[0]), c.along)) { inv.notAlong.add(c.members[0] + '|' + c.along.id); widened = true; return UNDEF }
            for (const [p, o] of inv.off) if (o && now.has(p)) now.set(p, T.sub(this.val(now.get(p)), T.int(o)))
            for (const c of inv.classes) {
              if (c.members.length < 2) continue
              let parts = splits.get(c) ?? [c.members]
              parts = parts.flatMap((ms) => {
                const gs = []
                for (const m of ms) { const g = gs.find(g => this.provedEq(now.get(g[0]), now.get(m))); if (!g && gs.length && process.env.DBGCUT > 2) console.error('   split', gs.map(g => g[0]).join(), '/', m, this.whyNot(now.get(gs[0][0]), now.get(m)), '\n      ', ctx.facts.map(f => T.show(f)).slice(-25).join('\n       ')); if (g) g.push(m); else gs.push([m]) }
                return gs
              })
              splits.set(c, parts)
            }
            return { sym: cur.last[0], now: inv.locs.length === 1 ? objById(inv.locs[0].id)[inv.locs[0].field] : undefined }
          })
          if (process.env.DBGCUT) console.error(`[cut ${name}] round ${round}: ${inv.locs.length} locations, ${inv.classes.length} classes${widened ? ', widened' : ''}`)
          if (widened) { partition(); continue }
          let refined = false
          const sks = new Map()
          leavesOf(() => undefined, (path, sk) => sks.set(path, sk))
          sks.set('#', { k: 'leaf', type: { k: 'int', min: 0 } })
          inv.classes = inv.classes.flatMap((c) => {
            const parts = splits.get(c)
            if (!parts || parts.length === 1) return [c]
            refined = true
            return parts.map(ms => this.mkClass(ms.map(m => [m, sks.get(m)])))
          })
          if (!refined) { inv.search = this.searchOf(inv, head, outs, old); break }
        }
      }
      finally { ctx.quiet = quiet }
      inv.text = [...inv.classes.filter(c => c.along).map(c => `${this.locName(inv, c.members[0])} is a prefix of ${T.show(c.along)}`), ...inv.classes.filter(c => c.members.length > 1).map(c => c.members.map(m => this.locName(inv, m) + (inv.off.get(m) ? ` - ${inv.off.get(m)}` : '')).join(' = '))].join('; ') || 'true'
      if (process.env.DBGCUT) { console.error(`[cut ${name}] ${inv.text}`); for (const c of inv.classes) console.error('   ', c.members.join(' = '), JSON.stringify(c.type).slice(0, 300)) }
      return inv
    },
    locName(inv, m) { const i = Number.parseInt(m); return Number.isNaN(i) ? 'index' : `${inv.locs[i].field}${inv.locs[i].id}${m.slice(String(i).length)}` },
    mkClass(ms) {
      const arr = ms.find(([, sk]) => sk.k === 'arr')
      return { members: ms.map(x => x[0]), type: ms.every(x => x[1].k === 'leaf' && x[1].type.k === 'int') ? { k: 'int' } : arr ? { k: 'arr', t: arr[1].type.k === 'never' ? ANY : arr[1].type } : ms[0][1].type }
    },
    /** the array is a prefix of F */
    alongArr(a, F) {
      a = this.val(a)
      if (!isObj(a) || a.kind !== 'arr') return false
      if (a.segs.some(isSpecial)) return false
      const n = this.arrLen(a), O = T.sel('vobj', F)
      if (!this.ctx.entails(T.le(n, T.lenOf(O)))) return false
      return this.provedEq(a, this.newArr([{ q: this.identComp(T.sel('vobj', T.sliceOf(O, T.int(0), n))) }]))
    },
    /** equal at the loop head */
    maybeEq(a, b) { return this.provedEq(a, b) },
    whyNot(a, b) { try { return String(JSON.stringify(this.proveEq(this.val(a), this.val(b), 'strict'))) } catch (e) { return e.message } },
    provedEq(a, b) {
      if (a === b) return true
      if (a === undefined || b === undefined) return false
      a = this.val(a); b = this.val(b)
      if (a === b) return true
      if (isObj(a) !== isObj(b) && (isObj(a) ? b : a).sort !== 'V') return false
      if (!isObj(a) && !isObj(b)) {
        if (T.isConst(a) && T.isConst(b)) return a === b
        if (a.sort !== b.sort) return this.ctx.entails(T.eq(a, b))
      }
      if (isObj(a) && isObj(b) && a.kind !== b.kind) return false
      try { return this.proveEq(a, b, 'strict') === undefined }
      catch (e) { if (e instanceof Unsupported && !/time budget/.test(e.message)) return false; throw e }
    },

    // ---------- loops
    foldLoop(comp, body) {
      const one = (vars) => {
        const { ctx } = this
        const c = substComp({ ...comp }, new Map(comp.bind.map((b, i) => [b, vars[i]])))
        for (const f of c.facts) ctx.fact(f)
        this.noteIndex(comp, vars)
        let out = []
        for (const k of c.cases) if (ctx.branch(this.typeAxioms(k.cond))) { out = k.out; break }
        for (const x of out) {
          if (x.u) { const d = body(this.val(x.u)); if (!d.go) return { exit: true, c: d.c } }
          else { const r = this.forSegs([x], body); if (r) return { exit: true, c: r } }
        }
        return { go: true }
      }
      const name = `for ${this.where()}`
      if (comp.base.b === 'arr' && comp.bind.length === 1) return this.cutLoop({ name, index: { len: T.lenOf(comp.base.o) }, step: pos => one([pos]) })
      const { ctx } = this
      return this.cutLoop({ name, step: () => {
        if (!ctx.branch(ctx.fresh('more', 'B'))) return { exit: false }
        return one(comp.bind.map(b => ctx.fresh('key', b.sort)))
      } })
    },
  })
}
