// Symbolic interpreter for the TypeScript sources (the semantics the verification conditions are generated from).
import * as T from './term.mjs'
import { HObj, PathEnd, Throw, Unsupported, asStatic, currentObjId, frz, isObj, isStatic, register, setObjId, substFrz, rawField } from './heap.mjs'
import { alts, elemType, fieldType, isExactly, litTerm, sortOf, typeFact, unwrap } from './types.mjs'
import { parse, resolveModule, ts } from './program.mjs'
import { installNatives } from './natives.mjs'
import { installSeq } from './seq.mjs'
import { installEqual } from './equal.mjs'
import { installVerif } from './verif.mjs'
import { installCut } from './cut.mjs'
import { PRELUDE, REPO_ROOT } from './paths.mjs'

const K = ts.SyntaxKind
const { UNDEF, NUL, str } = T
export const isT = T.isTerm

export class Cell { constructor(v, konst) { register(this); this.v = v; this.konst = konst; this.tdz = false; this.lazy = undefined } }
export class Env {
  constructor(parent, info) { this.parent = parent; this.vars = new Map(); this.info = info ?? parent?.info }
  find(n) { for (let e = this; e; e = e.parent) { const c = e.vars.get(n); if (c) return c } }
}
const RET = v => ({ t: 'ret', v })
export const native = (name, fn) => { const f = new HObj('func'); f.native = fn; f.fname = name; return f }

const orTypes = new WeakMap()
const orType = (a, b) => { let m = orTypes.get(a); if (!m) orTypes.set(a, m = new WeakMap()); let t = m.get(b); if (!t) m.set(b, t = { k: 'or', ts: [a, b] }); return t }
const NOT_ARRAY = ['obj', 'rec', 'fn', 'error', 'opaque']
export class Interp {
  constructor(ctx, opts = {}) {
    this.ctx = ctx
    this.opts = opts
    this.modules = new Map()
    this.contracts = new Map()
    this.recursive = new Map() // contracts used for the calls a function makes to itself
    this.active = new Map()
    this.natives = new Map() // class name -> methods
    this.depth = 0
    this.node = undefined
    this.fnStack = []
    this.calls = opts.calls ?? new Map() // functions of the repository that were executed
    this.globalEnv = new Env(undefined, { file: '<global>', origin: 'prelude' })
    installNatives(this)
    this.globalObj ??= new HObj('obj')
    this.loadPrelude()
  }
  where() {
    const n = this.node
    if (!n) return ''
    const sf = n.getSourceFile()
    const { line } = sf.getLineAndCharacterOfPosition(n.getStart(sf))
    return `${sf.fileName}:${line + 1}`
  }
  unsupported(msg) { throw new Unsupported(`${msg} at ${this.where()}`) }
  loadPrelude() {
    const m = this.module(PRELUDE)
    for (const [n, c] of m.env.vars) if (!this.globalEnv.vars.has(n)) this.globalEnv.vars.set(n, c)
  }

  // ---------- modules
  module(file) {
    let m = this.modules.get(file)
    if (m) return m
    const sf = parse(file)
    const origin = file.startsWith(REPO_ROOT + '/') ? 'repo' : file === PRELUDE ? 'prelude' : 'harness'
    const env = new Env(this.globalEnv, { file, origin })
    m = { file, env, exports: new Map(), stars: [] }
    this.modules.set(file, m)
    const effects = []
    const exp = (name, get) => m.exports.set(name, get)
    for (const st of sf.statements) {
      if (ts.isImportDeclaration(st)) {
        const spec = st.moduleSpecifier.text
        const cl = st.importClause
        if (!cl || cl.isTypeOnly) continue
        const bind = (local, imported) => { const c = new Cell(); c.lazy = () => this.importName(spec, imported, file); c.konst = true; env.vars.set(local, c) }
        if (cl.name) bind(cl.name.text, 'default')
        const nb = cl.namedBindings
        if (nb && ts.isNamespaceImport(nb)) bind(nb.name.text, '*')
        else if (nb) for (const e of nb.elements) if (!e.isTypeOnly) bind(e.name.text, (e.propertyName ?? e.name).text)
      }
      else if (ts.isExportDeclaration(st)) {
        if (st.isTypeOnly) continue
        const spec = st.moduleSpecifier?.text
        if (!st.exportClause) m.stars.push(spec)
        else if (ts.isNamedExports(st.exportClause)) {
          for (const e of st.exportClause.elements) {
            if (e.isTypeOnly) continue
            const from = (e.propertyName ?? e.name).text
            exp(e.name.text, spec ? () => this.importName(spec, from, file) : () => this.readCell(env.find(from), from))
          }
        }
        else exp(st.exportClause.name.text, () => this.importName(spec, '*', file))
      }
      else if (ts.isExportAssignment(st)) {
        const c = new Cell(); c.lazy = () => this.eval(st.expression, env); env.vars.set('*default*', c); exp('default', () => this.readCell(c, 'default'))
      }
      else if (ts.isVariableStatement(st)) {
        if (st.modifiers?.some(x => x.kind === K.DeclareKeyword)) continue
        const exported = st.modifiers?.some(x => x.kind === K.ExportKeyword)
        for (const d of st.declarationList.declarations) {
          const names = []
          const collect = (b) => { if (ts.isIdentifier(b)) names.push(b.text); else for (const e of b.elements) if (!ts.isOmittedExpression(e)) collect(e.name) }
          collect(d.name)
          const konst = !!(st.declarationList.flags & ts.NodeFlags.Const)
          const cells = names.map((n) => { const c = new Cell(undefined, konst); c.modlevel = true; env.vars.set(n, c); if (exported) exp(n, () => this.readCell(c, n)); return c })
          let busy = false
          const init = () => {
            if (busy) this.unsupported('cyclic module initialisation')
            busy = true
            const tmp = new Env(env)
            for (const n of names) tmp.vars.set(n, new Cell())
            const save = this.initing; this.initing = true
            const v = d.initializer ? this.eval(d.initializer, env, names[0]) : UNDEF
            if (ts.isIdentifier(d.name)) tmp.vars.get(d.name.text).v = v
            else this.bindPattern(d.name, v, tmp, true)
            this.initing = save
            names.forEach((n, i) => { cells[i].lazy = undefined; cells[i].v = tmp.vars.get(n).v })
            busy = false
          }
          for (const c of cells) c.lazy = () => { init(); return c.v }
        }
      }
      else if (ts.isFunctionDeclaration(st)) {
        if (!st.body) continue
        const nm = st.name?.text ?? 'default'
        const c = new Cell(); c.lazy = () => this.makeFunc(st, env); c.konst = true
        env.vars.set(nm, c)
        if (st.modifiers?.some(x => x.kind === K.ExportKeyword)) exp(st.modifiers.some(x => x.kind === K.DefaultKeyword) ? 'default' : nm, () => this.readCell(c, nm))
      }
      else if (ts.isClassDeclaration(st)) {
        const nm = st.name.text
        const c = new Cell(); c.lazy = () => this.makeClass(st, env); c.konst = true
        env.vars.set(nm, c)
        if (st.modifiers?.some(x => x.kind === K.ExportKeyword)) exp(nm, () => this.readCell(c, nm))
      }
      else if (ts.isInterfaceDeclaration(st) || ts.isTypeAliasDeclaration(st) || ts.isModuleDeclaration(st) || ts.isEmptyStatement(st)) continue
      else effects.push(st)
    }
    for (const st of effects) this.exec(st, env)
    return m
  }
  importName(spec, name, from) {
    if (spec === 'verif') return this.verifModule(name)
    const file = resolveModule(spec, from)
    if (!file) {
      const pm = this.modules.get(PRELUDE)
      if (name === '*') return this.namespace(pm)
      const c = pm.env.vars.get(name)
      if (!c) this.unsupported(`external ${name} from ${spec}`)
      this.externals?.add(`${name} from ${spec}`)
      return this.readCell(c, name)
    }
    const m = this.module(file)
    if (name === '*') return this.namespace(m)
    const g = this.findExport(m, name, new Set())
    if (!g) this.unsupported(`no export ${name} in ${file}`)
    return g()
  }
  findExport(m, name, seen) {
    if (seen.has(m)) return
    seen.add(m)
    const g = m.exports.get(name)
    if (g) return g
    for (const s of m.stars) {
      const f = resolveModule(s, m.file)
      if (!f) continue
      const r = this.findExport(this.module(f), name, seen)
      if (r) return r
    }
  }
  namespace(m) {
    if (m.ns) return m.ns
    const o = new HObj('obj'); o.owner = 'repo'
    const names = new Map()
    const walk = (x, seen) => {
      if (seen.has(x)) return
      seen.add(x)
      for (const [n, g] of x.exports) if (!names.has(n) && (x === m || n !== 'default')) names.set(n, g)
      for (const s of x.stars) { const f = resolveModule(s, x.file); if (f) walk(this.module(f), seen) }
    }
    walk(m, new Set())
    for (const [n, g] of names) o.layers = [...o.layers, { t: 'set', k: str(n), v: g() }]
    return m.ns = o
  }

  // ---------- cells
  readCell(c, name) {
    if (c.lazy) { const l = c.lazy; const v = asStatic(l); if (c.lazy === l) { c.lazy = undefined; c.v = v } return c.v }
    if (c.v === undefined) this.unsupported(`${name} used before its definition has run (eager scheduling)`)
    return c.v
  }
  lookupEnv(env, name) {
    for (let e = env; e; e = e.parent) {
      const c = e.vars.get(name)
      if (c) { const v = this.readCell(c, name); return v }
      if (e.bindMap) { const v = this.lookupEnv(e.parent, name); return this.substValue(v, e.bindMap) }
    }
    if (name === 'undefined') return UNDEF
    if (name === 'NaN' || name === 'Infinity') return this.ctx.entails ? T.app(name, [], 'I') : UNDEF
    const g = this.globalObj.layers.find(l => l.k.data === name)
    if (g) return g.v
    this.unsupported(`unknown identifier ${name}`)
  }
  assign(env, name, v) {
    const c = env.find(name)
    if (!c) this.unsupported(`assignment to unknown ${name}`)
    if (c.konst) this.unsupported(`assignment to constant ${name}`)
    if (c.modlevel && !this.initing) {
      this.readCell(c, name)
      if (this.curOrigin(env) === 'repo') this.frameViolation(`module-level variable ${name} is written`)
    }
    this.noteWrite(c, 'v')
    this.ctx.write(c, 'v', v)
  }
  curOrigin(env) { return env.info.origin }
  noteWrite() {}
  frameViolation(what) {
    this.ctx.ensure(`frame: ${what} at ${this.where()}`, T.FALSE, what)
    throw new PathEnd('frame')
  }

  // ---------- types of terms
  typeOf(t) {
    if (t.sort !== 'V') return undefined
    switch (t.op) {
      case 'var': return this.ctx.varTypes.get(t.data)
      case 'ite': { const a = this.typeOf(t.args[1]), b = this.typeOf(t.args[2]); return a === b ? a : a && b && this.isPrim(t.args[1]) && this.isPrim(t.args[2]) ? orType(a, b) : undefined }
      case 'app': {
        if (t.data === 'get' && t.args[0].op === 'oval' && t.args[1].op === 'str') return fieldType(this.typeOf(t.args[0].args[0]), t.args[1].data)
        if (t.data === 'get' && t.args[0].op === 'oval') { const ty = unwrap(this.typeOf(t.args[0].args[0])); return ty?.k === 'rec' ? { k: 'opt', t: ty.t } : ty?.k === 'json' ? { k: 'opt', t: ty } : undefined }
        if (t.data === 'at' && t.args[0].op === 'oval') return elemType(this.typeOf(t.args[0].args[0]))
        if (t.data === 'clone') return this.typeOf(t.args[0])
        if (t.data === 'slice' && t.args[0].op === 'oval') return { k: 'arr', t: elemType(this.typeOf(t.args[0].args[0])) ?? { k: 'any' } }
        return this.ctx.funTypes.get(t.data)
      }
    }
  }
  /** canonical representation of a term value: primitive sorts where the type is known */
  norm(t) {
    if (!isT(t) || t.sort !== 'V') return t
    if (t.op === 'vbool' || t.op === 'vnum' || t.op === 'vstr') return t.args[0]
    if (t.op === 'undef' || t.op === 'nul') return t
    if (t.op === 'frz' && t.data.kind === 'ref') return t.data.obj
    if (t.op === 'ite') return t
    const ty = this.typeOf(t)
    if (ty) {
      this.assertType(t, ty)
      const s = sortOf(ty)
      if (s) return T.sel(s, t)
    }
    return t
  }
  /** type facts of every subterm (for terms that come from instantiating a summary) */
  typeAxioms(t) {
    const { asserted } = this.ctx
    const go = (x) => {
      if (asserted.has('ax' + x.id)) return
      asserted.add('ax' + x.id)
      for (const a of x.args) go(a)
      if (x.sort === 'V' && (x.op === 'var' || x.op === 'app')) {
        const ty = this.typeOf(x)
        if (ty) this.assertType(x, ty)
        else if (x.op === 'app' && x.data === 'get' && !asserted.has(x.id)) { asserted.add(x.id); this.ctx.fact(T.or(T.has(x.args[0], x.args[1]), T.is('undef', x))) }
      }
    }
    go(t)
    return t
  }
  assertType(t, ty) {
    const ctx = this.ctx
    if (ctx.asserted.has(t.id)) return
    ctx.asserted.add(t.id)
    if (t.op === 'app' && t.data === 'get') {
      const [o, k] = t.args
      ctx.fact(T.or(T.has(o, k), T.is('undef', t)))
      if (ty.k !== 'opt' && ty.k !== 'absent' && ty.k !== 'undef' && !(ty.k === 'or' && ty.ts.some(x => x.k === 'undef' || x.k === 'opt')) && ty.k !== 'any' && !o.noHas) ctx.fact(T.has(o, k))
      if (ty.k === 'absent') ctx.fact(T.not(T.has(o, k)))
    }
    ctx.fact(typeFact(t, ty))
  }
  /** V-sorted term for storing a value inside terms */
  V(v) {
    if (isObj(v)) return this.freeze(v)
    if (v.sort === 'V') return v
    if ((v.op === 'sval' || v.op === 'bval' || v.op === 'nval') && sortOf(this.typeOf(v.args[0]))) return v.args[0]
    return T.toV(v)
  }
  opaqueType(v) { return isT(v) && v.sort === 'V' ? this.typeOf(v) : undefined }

  // ---------- freezing and thawing
  freeze(v, seen = []) {
    if (isT(v)) return this.V(v)
    if (v.viewOf) return v.viewOf
    if (seen.includes(v)) this.unsupported('cyclic object')
    if (seen.length > 30) this.unsupported('object too deep')
    const s2 = [...seen, v]
    switch (v.kind) {
      case 'obj':
        if (v.cls?.opaqueIdentity || v.identity) return frz({ kind: 'ref', obj: v })
        return frz({ kind: 'obj', layers: this.freezeLayers(v.layers, s2), cls: v.cls })
      case 'arr': return frz({ kind: 'arr', segs: this.freezeSegs(v.segs, s2) })
      case 'promise':
        if (v.state === 'pending') return frz({ kind: 'ref', obj: v })
        return frz({ kind: 'promise', state: v.state, value: this.freeze(v.value, s2) })
      case 'func':
        if (v.bindersAt?.length) return frz({ kind: 'func', obj: v, args: v.bindersAt })
        return frz({ kind: 'ref', obj: v })
      default: return frz({ kind: 'ref', obj: v })
    }
  }
  freezeLayers(ls, seen) { return ls.map(l => l.t === 'set' ? { t: 'set', k: l.k, v: this.freeze(l.v, seen) } : l.t === 'spread' && l.src.p === 'layers' ? { t: 'spread', src: { p: 'layers', layers: this.freezeLayers(l.src.layers, seen) } } : l) }
  freezeSegs(segs, seen) { return segs.map(s => s.u ? { u: this.freeze(s.u, seen) } : s) }
  thaw(t) {
    const d = t.data
    if (d.kind === 'ref') return d.obj
    if (d.kind === 'func') {
      const f = new HObj('func'); const o = d.obj
      Object.assign(f, { node: o.node, thisVal: o.thisVal, home: o.home, fname: o.fname, layers: o.layers, owner: o.owner, isArrow: o.isArrow })
      const e = new Env(o.env); e.bindMap = new Map(o.bindersAt.map((b, i) => [b, d.args[i]])); f.env = e
      f.frozen = t
      return f
    }
    const o = new HObj(d.kind === 'promise' ? 'promise' : d.kind)
    o.owner = 'frozen'; o.viewOf = t
    if (d.kind === 'obj') { o.layers = d.layers; o.cls = d.cls }
    else if (d.kind === 'arr') o.segs = d.segs
    else if (d.kind === 'promise') { o.state = d.state; o.value = d.value }
    else this.unsupported('thaw ' + d.kind)
    return o
  }
  substValue(v, map) {
    if (isT(v)) return T.subst(v, map, substFrz)
    const t = this.freezeAny(v)
    if (t.data?.kind === 'ref') return v
    const s = T.subst(t, map, substFrz)
    return s === t ? v : this.val(s)
  }
  freezeAny(v) { try { return this.freeze(v) } catch (e) { if (e instanceof Unsupported) return frz({ kind: 'ref', obj: v }); throw e } }
  /** value of a V term */
  val(t) {
    if (!isT(t)) return t
    if (t.op === 'frz' && t.sort === 'V') return this.thaw(t)
    return this.norm(t)
  }

  // ---------- functions and classes
  makeFunc(node, env, name) {
    const f = new HObj('func')
    f.node = node; f.env = env; f.fname = node.name?.text ?? name ?? ''
    f.isArrow = ts.isArrowFunction(node)
    f.owner = env.info.origin
    if (this.ctx.binders.length && !isStatic()) f.bindersAt = [...this.ctx.binders]
    if (f.isArrow) f.thisEnv = env
    return f
  }
  makeClass(node, env) {
    const c = new HObj('func')
    c.fname = node.name?.text ?? ''
    c.isClass = true; c.owner = env.info.origin; c.env = new Env(env); c.node = node
    if (node.name) { const cell = new Cell(c, true); c.env.vars.set(node.name.text, cell) }
    const ext = node.heritageClauses?.find(h => h.token === K.ExtendsKeyword)
    c.superCls = ext ? this.eval(ext.types[0].expression, env) : undefined
    c.methods = new Map(); c.fields = []
    for (const m of node.members) {
      if (ts.isConstructorDeclaration(m)) { if (m.body) c.ctor = m; continue }
      const isStatic = m.modifiers?.some(x => x.kind === K.StaticKeyword)
      if (m.modifiers?.some(x => x.kind === K.DeclareKeyword || x.kind === K.AbstractKeyword)) continue
      if (ts.isMethodDeclaration(m) || ts.isGetAccessor(m) || ts.isSetAccessor(m)) {
        if (!m.body) continue
        const f = this.makeFunc(m, c.env, m.name.getText()); f.home = c
        const nm = this.memberName(m.name, c.env)
        const key = ts.isGetAccessor(m) ? `get ${nm}` : ts.isSetAccessor(m) ? `set ${nm}` : nm
        if (isStatic) { if (key.startsWith('get ')) this.unsupported('static accessor'); c.layers = [...c.layers, { t: 'set', k: str(nm), v: f }] }
        else c.methods.set(key, f)
      }
      else if (ts.isPropertyDeclaration(m)) {
        if (isStatic) c.layers = [...c.layers, { t: 'set', k: str(this.memberName(m.name, c.env)), v: m.initializer ? this.evalThis(m.initializer, c.env, c) : UNDEF }]
        else c.fields.push(m)
      }
      else if (ts.isSemicolonClassElement(m) || ts.isIndexSignatureDeclaration(m)) continue
      else this.unsupported('class member')
    }
    return c
  }
  memberName(n, env) {
    if (ts.isComputedPropertyName(n)) { const k = this.toKey(this.eval(n.expression, env)); if (k.op !== 'str') this.unsupported('computed member'); return k.data }
    return n.text
  }
  evalThis(node, env, thisVal) { const e = new Env(env); e.vars.set('this', new Cell(thisVal, true)); return this.eval(node, e) }
  construct(cls, args) {
    if (!isObj(cls) || cls.kind !== 'func') this.unsupported('new on a non-class')
    if (cls.nativeNew) return cls.nativeNew(args)
    if (!cls.isClass) this.unsupported('new of function ' + cls.fname)
    const o = new HObj('obj'); o.cls = cls; o.owner = this.node ? this.originOfNode(this.node) : 'prelude'
    if (this.node) this.fnStack.push(this.node)
    const saveNode = this.node
    try { this.constructInto(cls, o, args) }
    finally { this.node = saveNode; if (saveNode) this.fnStack.pop() }
    return o
  }
  constructInto(cls, o, args) {
    if (cls.nativeInit) return cls.nativeInit(o, args)
    const initFields = () => { for (const f of cls.fields) this.defineProp(o, str(this.memberName(f.name, cls.env)), f.initializer ? this.evalThis(f.initializer, cls.env, o) : UNDEF) }
    if (!cls.ctor) {
      if (cls.superCls) this.constructInto(cls.superCls, o, args)
      initFields()
      return
    }
    if (!cls.superCls) initFields()
    const env = new Env(cls.env)
    env.vars.set('this', new Cell(o, true))
    env.vars.set('super()', new Cell(native('super', (_, as) => { this.constructInto(cls.superCls, o, as); initFields(); return UNDEF }), true))
    this.bindParams(cls.ctor, args, env)
    for (const p of cls.ctor.parameters) if (p.modifiers?.length) this.defineProp(o, str(p.name.text), this.lookupEnv(env, p.name.text))
    this.execBlock(cls.ctor.body.statements, env)
  }
  bindParams(node, args, env) {
    node.parameters.forEach((p, i) => {
      if (p.name.kind === K.Identifier && p.name.text === 'this') return
      if (p.dotDotDotToken) {
        const rest = this.newArr(args.slice(i).flatMap(a => a.spread ? a.spread : [{ u: a }]))
        this.bindPattern(p.name, rest, env, false)
        return
      }
      let v = args[i]
      if (v?.spread) this.unsupported('spread of an unknown array into parameters')
      v ??= UNDEF
      if (p.initializer) v = this.orDefault(v, () => this.eval(p.initializer, env))
      this.bindPattern(p.name, v, env, false)
    })
  }
  orDefault(v, f) { return isObj(v) ? v : this.ctx.branch(T.is('undef', this.V(v))) ? f() : v }
  bindPattern(name, v, env, konst, assignMode) {
    if (ts.isIdentifier(name)) { const c = new Cell(v, konst); env.vars.set(name.text, c); return }
    if (ts.isObjectBindingPattern(name)) {
      this.requireObjectCoercible(v)
      const used = []
      for (const e of name.elements) {
        if (e.dotDotDotToken) {
          const o = this.newObj(); o.layers = [...this.spreadLayers(v), ...used.map(k => ({ t: 'del', k }))]
          o.layers = this.compactLayers(o.layers)
          this.bindPattern(e.name, o, env, konst)
          continue
        }
        const key = e.propertyName ? (ts.isComputedPropertyName(e.propertyName) ? this.toKey(this.eval(e.propertyName.expression, env)) : str(e.propertyName.text)) : str(e.name.text)
        used.push(key)
        let x = this.getProp(v, key)
        if (e.initializer) x = this.orDefault(x, () => this.eval(e.initializer, env))
        this.bindPattern(e.name, x, env, konst)
      }
      return
    }
    // array pattern
    const segs = this.iterSegs(v)
    name.elements.forEach((e, i) => {
      if (ts.isOmittedExpression(e)) return
      if (e.dotDotDotToken) {
        if (segs.slice(0, i).some(s => !s.u)) this.unsupported('rest pattern over unknown prefix')
        this.bindPattern(e.name, this.newArr(segs.slice(i)), env, konst)
        return
      }
      const arr = this.newArr(segs)
      let x = this.arrGet(arr, T.int(i))
      if (e.initializer) x = this.orDefault(x, () => this.eval(e.initializer, env))
      this.bindPattern(e.name, x, env, konst)
    })
  }
  originOfNode(n) { const f = n.getSourceFile().fileName; return f.startsWith(REPO_ROOT + '/') ? 'repo' : f === PRELUDE ? 'prelude' : 'harness' }

  callFn(f, thisVal, args) {
    f = this.val(f)
    if (isT(f)) return this.callOpaque(f, thisVal, args)
    if (f.kind !== 'func') return this.throwType(`not a function`)
    if (f.native) return f.native(thisVal, args, this)
    if (f.isClass) return this.throwType('Class constructor cannot be invoked without new')
    const spec = this.contracts.get(f.node) ?? (this.active.get(f.node) ? this.recursive.get(f.node) : undefined)
    if (spec && !this.inSpec) {
      this.usedContracts?.add(this.fnName(f))
      return this.callFn(spec, thisVal, args)
    }
    if (++this.depth > 120) { this.depth = 0; this.unsupported('call depth (unbounded recursion needs a contract)') }
    const node = f.node
    if (f.owner === 'repo') this.noteCall(f)
    const isAsync = node.modifiers?.some(m => m.kind === K.AsyncKeyword)
    if (node.asteriskToken) this.unsupported('generator function')
    const saveNode = this.node
    if (saveNode) this.fnStack.push(saveNode)
    this.active.set(node, (this.active.get(node) ?? 0) + 1)
    const run = () => {
      const env = new Env(f.env)
      env.fn = f
      if (!f.isArrow) env.vars.set('this', new Cell(thisVal ?? UNDEF, true))
      if (f.home) env.home = f.home
      this.bindParams(node, args, env)
      if (!ts.isBlock(node.body)) return this.eval(node.body, env)
      const c = this.execBlock(node.body.statements, env)
      return c?.t === 'ret' ? c.v : UNDEF
    }
    try {
      if (!isAsync) return run()
      let v
      try { v = run() }
      catch (e) { if (e instanceof Throw) return this.rejected(e.value); throw e }
      return this.resolvedWith(v)
    }
    finally { this.active.set(node, this.active.get(node) - 1); this.depth--; this.node = saveNode; if (saveNode) this.fnStack.pop() }
  }
  fnName(f) { const sf = f.node.getSourceFile(); return `${f.fname || '(anonymous)'} @ ${sf.fileName.replace(REPO_ROOT + '/', '')}` }
  noteCall(f) { if (f.fname) { const n = this.fnName(f); this.calls.set(n, (this.calls.get(n) ?? 0) + 1) } }
  callOpaque(f, thisVal, args) {
    const ty = unwrap(this.typeOf(f))
    if (!ty || ty.k !== 'fn') {
      if (f.sort !== 'V' || this.ctx.entails(T.or(T.is('undef', f), T.is('nul', f)))) return this.throwType('not a function')
      if (ty && alts(ty).every(a => ['json', 'str', 'int', 'bool', 'null', 'undef', 'lit', 'arr', 'rec', 'obj', 'absent'].includes(a.k))) return this.throwType('not a function')
      this.unsupported(`call of unknown value ${T.show(f)}`)
    }
    return this.applySpec(ty, [this.V(f), ...args.map(a => this.freeze(a))])
  }
  /** external function by its contract: arbitrary result and (if allowed) arbitrary failure, as functions of the arguments */
  applySpec(ty, targs) {
    const nm = ty.name
    targs = targs.map(t => this.stripClone(t)) // a function of the value of its arguments, not of their identity
    const go = () => {
      if (ty.throws && this.ctx.branch(T.app(`${nm}:throws`, targs, 'B'))) {
        this.ctx.funTypes.set(`${nm}:error`, ty.error ?? { k: 'any' })
        throw new Throw(this.norm(T.app(`${nm}:error`, targs, 'V')))
      }
      if (!ty.returns || ty.returns.k === 'undef') return UNDEF
      this.ctx.funTypes.set(nm, ty.returns)
      return this.norm(T.app(nm, targs, 'V'))
    }
    if (!ty.async) return go()
    try { return this.resolvedWith(go()) }
    catch (e) { if (e instanceof Throw) return this.rejected(e.value); throw e }
  }
  makeError(cls, msg) { return this.construct(this.readCell(this.globalEnv.find(cls), cls), [str(msg)]) }
  throwType(msg) { throw new Throw(this.makeError('TypeError', msg)) }
  requireObjectCoercible(v) {
    if (isObj(v)) return
    const t = this.V(v)
    if (this.ctx.branch(T.or(T.is('undef', t), T.is('nul', t)))) this.throwType(`Cannot read properties of ${T.show(t)}`)
  }

  // ---------- promises (every continuation runs at once)
  newPromise() { const p = new HObj('promise'); p.state = 'pending'; p.value = UNDEF; p.reactions = []; return p }
  settle(p, state, value) {
    if (p.state !== 'pending') return
    this.noteWrite(p, 'state')
    this.ctx.write(p, 'state', state); this.ctx.write(p, 'value', value)
    const rs = p.reactions
    this.ctx.write(p, 'reactions', [])
    for (const r of rs) r()
  }
  rejected(v) { const p = this.newPromise(); p.state = 'rejected'; p.value = v; return p }
  resolvedWith(v) {
    v = this.val(v)
    if (isObj(v) && v.kind === 'promise') return v
    const p = this.newPromise()
    this.resolveInto(p, v)
    return p
  }
  resolveInto(p, v) {
    v = this.val(v)
    if (isObj(v) && v.kind === 'promise') { this.subscribe(v, () => this.settle(p, v.state, v.value)); return }
    if (isObj(v) && v.kind === 'obj' && v.cls === undefined && v.layers.some(l => l.t === 'set' && l.k.data === 'then' && isObj(l.v) && l.v.kind === 'func')) this.unsupported('thenable')
    this.settle(p, 'fulfilled', v)
  }
  subscribe(p, f) { if (p.state === 'pending') this.ctx.write(p, 'reactions', [...p.reactions, f]); else f() }
  awaitVal(v) {
    v = this.val(v)
    if (!isObj(v) || v.kind !== 'promise') return v
    if (v.state === 'fulfilled') return this.val(v.value)
    if (v.state === 'rejected') throw new Throw(this.val(v.value))
    this.unsupported('await of a promise that is still pending')
  }
  then(p, onF, onR) {
    const q = this.newPromise()
    const callable = f => f && ((isObj(f) && f.kind === 'func') || (isT(f) && unwrap(this.typeOf(f))?.k === 'fn'))
    this.subscribe(p, () => {
      const h = p.state === 'fulfilled' ? onF : onR
      if (!callable(h)) { this.settle(q, p.state, p.value); return }
      try { this.resolveInto(q, this.callFn(h, UNDEF, [this.val(p.value)])) }
      catch (e) { if (e instanceof Throw) this.settle(q, 'rejected', e.value); else throw e }
    })
    return q
  }

  // ---------- objects
  newObj(owner) { const o = new HObj('obj'); o.owner = owner ?? (this.node ? this.originOfNode(this.node) : 'prelude'); return o }
  newArr(segs = []) { const o = new HObj('arr'); o.owner = this.node ? this.originOfNode(this.node) : 'prelude'; o.segs = segs; return o }
  objOf(map) { const o = this.newObj(); o.layers = Object.entries(map).map(([k, v]) => ({ t: 'set', k: str(k), v })); return o }
  toKey(v) {
    v = isT(v) ? this.norm(v) : v
    if (isT(v)) {
      if (v.sort === 'S') return v
      if (v.op === 'int') return str(String(v.data))
      if (v.sort === 'V' && this.ctx.entails(T.is('vstr', v))) return T.sel('vstr', v)
    }
    else if (v.kind === 'symbol') return str('@@' + v.fname)
    this.unsupported('property key')
  }
  isArrTerm(t) { return T.and(T.is('vobj', t), T.eq(T.kindOf(T.sel('vobj', t)), T.int(1))) }
  isFnTerm(t) { return T.and(T.is('vobj', t), T.eq(T.kindOf(T.sel('vobj', t)), T.int(2))) }

  readOpaque(x, key) {
    const o = T.sel('vobj', x)
    const t = T.get(o, key)
    let ty = this.typeOf(t)
    if (ty?.k === 'absent') { this.assertType(t, ty); return UNDEF }
    if (ty) return this.norm(t)
    if (!this.ctx.asserted.has(t.id)) { this.ctx.asserted.add(t.id); this.ctx.fact(T.or(T.has(o, key), T.is('undef', t))) }
    return t
  }
  cloneOf(v) {
    if (isObj(v)) return v
    if (v.sort !== 'V' || T.isConst(v)) return v
    if (v.op === 'app' && v.data === 'clone') return v
    return this.norm(T.app('clone', [v], 'V'))
  }
  srcHas(src, key) {
    if (src.p === 'opaque') {
      const t = T.get(src.o, key)
      if (src.o.op === 'oval') {
        const ty = this.typeOf(t); if (ty) this.assertType(t, ty)
        if (unwrap(this.typeOf(src.o.args[0]))?.k === 'arr') return T.FALSE
      }
      this.noteIndex({ base: { b: 'keys', src: { p: 'opaque', o: src.o } } }, [key])
      if (src.o.op === 'oval' && key.op === 'str' && unwrap(this.typeOf(src.o.args[0]))?.not?.includes(key.data)) return T.FALSE
      return T.has(src.o, key)
    }
    if (src.p === 'layers') return this.lookupProp(src.layers, key).has
    const { comp } = src
    if (this.isRenamed(comp)) {
      const one = this.renamedAt(comp, key)
      if (one !== undefined) return one ? T.and(this.srcHas(comp.base.src, one.key), one.cond) : T.FALSE
      return T.app('hasren', [frz({ kind: 'arr', segs: [{ q: comp }] }), T.toV(key)], 'B')
    }
    const conds = []
    for (const c of comp.cases) {
      if (!c.out.length) continue
      const inst = this.keyCase(comp, c, key)
      conds.push(inst.cond)
    }
    return T.and(this.srcHas(comp.base.src, key), T.or(conds))
  }
  isRenamed(comp) {
    if (comp.base.b !== 'keys') return true
    return comp.cases.some((c) => {
      if (!c.out.length) return false
      const e = c.out[0].u
      return !(c.out.length === 1 && e && e.op === 'frz' && e.data.kind === 'arr' && e.data.segs.length === 2 && e.data.segs[0].u && this.norm(e.data.segs[0].u) === comp.bind[0])
    })
  }
  /** keys renamed by s.replace(/[A-Z]/g, c => '_' + c.toLowerCase()): the one entry that may have become the constant key
      (false: none, undefined: not known) */
  renamedAt(comp, key) {
    if (key.op !== 'str' || comp.base.b !== 'keys') return undefined
    const live = comp.cases.filter(c => c.out.length)
    if (live.length !== 1 || live[0].out.length !== 1) return undefined
    const e = live[0].out[0].u
    if (e?.op !== 'frz' || e.data.kind !== 'arr' || e.data.segs.length !== 2) return undefined
    const r = this.norm(e.data.segs[0].u)
    if (r.op !== 'frz' || r.data.kind !== 'replace' || r.data.tag !== 'true:"[A-Z]"/"g"' || r.data.comp?.cases.length !== 1) return undefined
    const m = r.data.comp.bind[0], to = this.norm(r.data.comp.cases[0].out[0].u)
    if (this.norm(r.data.args[0]) !== comp.bind[0] || to !== T.concat([str('_'), T.app('lower', [m], 'S')])) return undefined
    let alive = ['']
    for (let i = 0; i < key.data.length; i++) {
      const ch = key.data[i]
      if (/[A-Z]/.test(ch)) return false
      const nx = key.data[i + 1]
      alive = alive.map(a => a + ch).concat(ch === '_' && nx !== undefined && /[a-z]/.test(nx) ? alive.map(a => a + '\0' + nx.toUpperCase()) : [])
      if (alive.length > 64) return undefined
    }
    // \0X marks a capital that stands for the two characters _x
    const names = []
    for (const a of new Set(alive)) { const n = a.replace(/\0([A-Z])./g, '$1'); if (!n.includes('\0') && n.replace(/[A-Z]/g, c => '_' + c.toLowerCase()) === key.data) names.push(n) }
    const poss = names.filter(n => this.srcHas(comp.base.src, str(n)) !== T.FALSE)
    if (!poss.length) return false
    if (poss.length > 1) return undefined
    const map = new Map([[comp.bind[0], str(poss[0])]])
    return { key: str(poss[0]), cond: T.subst(live[0].cond, map, substFrz), v: T.subst(e.data.segs[1].u, map, substFrz) }
  }
  keyCase(comp, c, key) {
    const [kv] = c.out.map(x => x.u)
    const m = new Map([[comp.bind[0], key]])
    const entry = kv && T.subst(kv, m, substFrz)
    if (c.out.length !== 1 || !entry || entry.op !== 'frz' || entry.data.kind !== 'arr') this.unsupported('keyed comprehension')
    const [k, v] = entry.data.segs.map(s => s.u)
    if (this.norm(k) !== key) this.unsupported('reading a renamed object')
    return { cond: T.subst(c.cond, m, substFrz), v }
  }
  srcGet(src, key) {
    if (src.p === 'opaque') {
      const x = src.o.op === 'oval' ? src.o.args[0] : T.toV(src.o)
      const v = this.readOpaque(x, key)
      return src.clone ? this.cloneOf(v) : v
    }
    if (src.p === 'layers') return this.lookupProp(src.layers, key).v
    const { comp } = src
    if (this.isRenamed(comp)) {
      const one = this.renamedAt(comp, key)
      if (one !== undefined) return one && this.ctx.branch(T.and(this.srcHas(comp.base.src, one.key), one.cond)) ? this.val(one.v) : UNDEF
      return T.app('getren', [frz({ kind: 'arr', segs: [{ q: comp }] }), T.toV(key)], 'V')
    }
    for (const c of comp.cases) {
      if (!c.out.length) continue
      const inst = this.keyCase(comp, c, key)
      if (this.ctx.branch(inst.cond)) return this.val(inst.v)
    }
    return UNDEF
  }
  /** {has, v} of a key in a list of layers (later layers win) */
  lookupProp(layers, key) {
    for (let i = layers.length - 1; i >= 0; i--) {
      const l = layers[i]
      if (l.t === 'set' || l.t === 'del') {
        const c = T.eq(l.k, key)
        if (c === T.FALSE) continue
        if (c === T.TRUE || this.ctx.branch(c)) return l.t === 'set' ? { has: T.TRUE, v: this.val(l.v) } : { has: T.FALSE, v: UNDEF }
        continue
      }
      const h = this.srcHas(l.src, key)
      if (h === T.FALSE) continue
      if (h === T.TRUE) return { has: h, v: this.srcGet(l.src, key) }
      if (i === 0) {
        if (l.src.p === 'opaque') return { has: h, v: this.srcGet(l.src, key) } // absent reads as undefined
        return this.ctx.branch(h) ? { has: T.TRUE, v: this.srcGet(l.src, key) } : { has: T.FALSE, v: UNDEF }
      }
      if (this.ctx.branch(h)) return { has: T.TRUE, v: this.srcGet(l.src, key) }
    }
    return { has: T.FALSE, v: UNDEF }
  }
  spreadLayers(v) {
    v = this.val(v)
    if (isObj(v)) {
      if (v.kind === 'obj') return v.layers
      if (v.kind === 'arr') this.unsupported('object spread of an array')
      if (v.kind === 'func') return v.layers
      return []
    }
    if (v.sort !== 'V') return []
    if (T.isConst(v)) return []
    const t = v
    if (this.ctx.branch(T.is('vobj', t))) return [{ t: 'spread', src: { p: 'opaque', o: T.sel('vobj', t) } }]
    if (this.ctx.branch(T.is('vstr', t))) this.unsupported('spread of a string')
    return []
  }
  compactLayers(ls) {
    const out = []
    const seen = new Set()
    for (let i = ls.length - 1; i >= 0; i--) {
      const l = ls[i]
      if (l.t !== 'spread' && l.k.op === 'str') {
        if (seen.has(l.k.data)) continue
        seen.add(l.k.data)
        if (l.t === 'del' && !ls.slice(0, i).some(x => x.t === 'spread' || x.k.op !== 'str')) continue
      }
      out.push(l)
    }
    return out.reverse()
  }
  setLayers(o, ls) { this.noteWrite(o, 'layers'); this.ctx.write(o, 'layers', this.compactLayers(ls)) }
  defineProp(o, key, v) { this.setLayers(o, [...rawField(o, 'layers'), { t: 'set', k: key, v }]) }
  writer() {
    let by = this.node ? this.originOfNode(this.node) : 'prelude'
    for (let i = this.fnStack.length - 1; by === 'prelude' && i >= 0; i--) by = this.originOfNode(this.fnStack[i])
    return by
  }
  checkWritable(o) {
    const by = this.writer()
    if (o.owner === 'frozen') {
      if (o.viewOf && this.isClone(o.viewOf)) return
      this.unsupported('write to an element of a summarised collection')
    }
    if (by === 'repo' && o.owner === 'harness' && !o.shared) this.frameViolation('an object owned by the caller is modified')
    if (o.owner === 'opaque' && o.viewOf && this.isInternal(o.viewOf)) this.unsupported('write to a part of loop-carried state')
    if (o.owner === 'opaque') this.frameViolation('an object owned by the caller is modified')
  }
  isInternal(t) { while (t.op === 'app' && (t.data === 'get' || t.data === 'at') && t.args[0].op === 'oval') t = t.args[0].args[0]; return (t.op === 'var' || t.op === 'app') && typeof t.data === 'string' && t.data.startsWith('inv!') }
  isClone(t) { return t.op === 'app' && t.data === 'clone' || (t.op === 'app' && (t.data === 'get' || t.data === 'at') && t.args[0].op === 'oval' && this.isClone(t.args[0].args[0])) }
  setProp(base, key, v) {
    base = this.val(base)
    if (isT(base)) {
      if (base.sort === 'V' && this.isClone(base)) return
      if (base.sort === 'V' && this.isInternal(base)) this.unsupported('write to a part of loop-carried state')
      this.requireObjectCoercible(base)
      this.frameViolation(`an opaque input object is modified (${T.show(key)})`)
    }
    if (base.kind === 'obj' || base.kind === 'func') {
      if (base.cls && key.op === 'str') { const s = this.findMethod(base.cls, `set ${key.data}`); if (s) { this.callFn(s, base, [v]); return } }
      // internal slots of platform objects
      if (!(key.op === 'str' && key.data[0] === '_' && base.cls && this.node && this.originOfNode(this.node) === 'prelude')) this.checkWritable(base)
      this.defineProp(base, key, v)
      return
    }
    if (base.kind === 'arr') {
      this.checkWritable(base)
      if (key.op === 'str' && key.data === 'length') { if (v.op === 'int' && v.data === 0) { this.setSegs(base, []); return } this.unsupported('array length write') }
      const i = key.op === 'str' && /^\d+$/.test(key.data) ? Number(key.data) : -1
      if (i >= 0) {
        const segs = base.segs
        if (segs.slice(0, i + 1).every(s => s.u) && i < segs.length) { this.setSegs(base, segs.map((s, j) => j === i ? { u: v } : s)); return }
        if (segs.every(s => s.u)) {
          const pad = Array.from({ length: i - segs.length }, () => ({ u: UNDEF }))
          this.setSegs(base, [...segs, ...pad, { u: v }]); return
        }
      }
      this.unsupported('array element write')
    }
    if (base.kind === 'regex' && key.op === 'str' && key.data === 'lastIndex') { this.checkWritable(base); this.defineProp(base, key, v); return }
    this.unsupported('property write on ' + base.kind)
  }
  setSegs(o, segs) { this.noteWrite(o, 'segs'); this.ctx.write(o, 'segs', segs) }
  findMethod(cls, name) { for (let c = cls; c; c = c.superCls) { const m = c.methods?.get(name); if (m) return m } }
  isInstance(v, cls) {
    v = this.val(v)
    if (cls.nativeIs) { const r = cls.nativeIs(v); if (r !== undefined) return r }
    if (isObj(v)) { for (let c = v.cls; c; c = c.superCls) if (c === cls) return T.TRUE; return T.FALSE }
    if (v.sort !== 'V' || T.isConst(v)) return T.FALSE
    const as = alts(this.typeOf(v))
    if (as.length && as.every(t => t.k !== 'any' && t.k !== 'opaque')) {
      if (!as.some(t => t.k === 'error') || (cls.owner !== 'repo' && cls.fname !== 'Error')) return T.FALSE
      if (cls.fname === 'Error') return T.and(T.is('vobj', v), T.eq(T.kindOf(T.sel('vobj', v)), T.int(4)))
      return T.FALSE // T.error stands for errors of other classes than the library's own
    }
    const t = T.app(`instanceof:${cls.fname}`, [v], 'B')
    this.ctx.fact(T.implies(t, T.and(T.is('vobj', v), T.not(T.eq(T.kindOf(T.sel('vobj', v)), T.int(1))))))
    for (let c = cls.superCls; c; c = c.superCls) this.ctx.fact(T.implies(t, T.app(`instanceof:${c.fname}`, [v], 'B')))
    return t
  }

  getProp(base, key) {
    base = this.val(base)
    if (isT(base)) return this.getPropTerm(base, key)
    const k = key.op === 'str' ? key.data : undefined
    switch (base.kind) {
      case 'obj': {
        if (base.cls && k !== undefined && !base.layers.some(l => l.t === 'set' && l.k.data === k)) {
          const g = this.findMethod(base.cls, `get ${k}`)
          if (g) return this.callFn(g, base, [])
          const m = this.findMethod(base.cls, k)
          if (m) return this.boundLookup(m)
          if (k === 'constructor') return base.cls
        }
        if (!base.layers.length && !base.cls && k !== undefined && this.protoMethod('obj', k)) return this.protoMethod('obj', k)
        const r = this.lookupProp(base.layers, key)
        if (r.has === T.FALSE && k !== undefined) { const pm = this.protoMethod('obj', k); if (pm) return pm }
        return r.v
      }
      case 'arr': {
        if (k === 'length') return this.arrLen(base)
        if (base.extra && k !== undefined && Object.hasOwn(base.extra, k)) return base.extra[k]
        if (k !== undefined && /^\d+$/.test(k)) return this.arrGet(base, T.int(Number(k)))
        if (k !== undefined) return this.protoMethod('arr', k) ?? UNDEF
        this.unsupported('computed array key')
      }
      case 'func': {
        const own = k !== undefined && base.layers.find(l => l.k.data === k)
        if (own) return this.val(own.v)
        if (base.isClass || base.superCls) { for (let c = base.superCls; c; c = c.superCls) { const s = c.layers.find(l => l.k.data === k); if (s) return this.val(s.v) } }
        if (k === 'name') return str(base.fname)
        if (k === 'length') return T.int(base.node?.parameters?.length ?? 0)
        return this.protoMethod('func', k) ?? UNDEF
      }
      case 'promise': return this.protoMethod('promise', k) ?? UNDEF
      case 'regex': {
        if (k === 'source' || k === 'flags') return base[k]
        if (k === 'lastIndex') return this.lastIndexOf_(base)
        if (k === 'global' || k === 'sticky' || k === 'unicode' || k === 'ignoreCase' || k === 'multiline' || k === 'dotAll') return T.contains(base.flags, str({ global: 'g', sticky: 'y', unicode: 'u', ignoreCase: 'i', multiline: 'm', dotAll: 's' }[k]))
        return this.protoMethod('regex', k) ?? UNDEF
      }
      default: return this.protoMethod(base.kind, k) ?? UNDEF
    }
  }
  boundLookup(m) { return m }
  getPropTerm(base, key) {
    base = this.norm(base)
    const k = key.op === 'str' ? key.data : undefined
    if (base.sort === 'S') {
      if (k === 'length') return T.strlen(base)
      return this.protoMethod('str', k) ?? UNDEF
    }
    if (base.sort === 'I') return this.protoMethod('num', k) ?? UNDEF
    if (base.sort === 'B') return UNDEF
    if (base.op === 'undef' || base.op === 'nul') this.throwType(`Cannot read properties of ${base.op === 'nul' ? 'null' : 'undefined'} (reading '${k}')`)
    if (base.op === 'ite') return this.getProp(this.ctx.branch(base.args[0]) ? base.args[1] : base.args[2], key)
    this.requireObjectCoercible(base)
    let ty = unwrap(this.typeOf(base))
    const isObjT = this.ctx.branch(T.is('vobj', base))
    if (!isObjT) {
      if (this.ctx.branch(T.is('vstr', base))) return this.getPropTerm(T.sel('vstr', base), key)
      return UNDEF
    }
    if (ty?.k === 'fn') { return this.protoMethod('func', k) ?? UNDEF }
    const o = T.sel('vobj', base)
    if (ty?.k === 'arr' || (!NOT_ARRAY.includes(ty?.k) && this.ctx.entails(T.eq(T.kindOf(o), T.int(1))))) return this.getProp(this.viewArr(base), key)
    if (k !== undefined && !(ty && ty.k === 'obj' && k in ty.fields)) {
      const am = this.protoMethod('arr', k) || k === 'length'
      if (am && (!ty || ty.k === 'any' || ty.k === 'json' || ty.k === 'or') && this.ctx.branch(T.eq(T.kindOf(o), T.int(1)))) return this.getProp(this.viewArr(base), key)
      const pm = this.protoMethod('obj', k)
      if (pm) return pm
    }
    return this.readOpaque(base, key)
  }
  viewArr(t) {
    const o = T.sel('vobj', t)
    const v = new HObj('arr'); v.owner = this.isClone(t) ? 'repo' : 'opaque'; v.viewOf = t
    if (!this.ctx.asserted.has('len' + o.id)) { this.ctx.asserted.add('len' + o.id); this.ctx.fact(T.le(T.int(0), T.lenOf(o))) }
    v.segs = [{ q: this.identComp(o) }]
    return v
  }

  // ---------- conversions
  truthy(v) {
    if (isObj(v)) return T.TRUE
    v = this.norm(v)
    switch (v.sort) {
      case 'B': return v
      case 'S': return T.not(T.eq(v, str('')))
      case 'I': return T.not(T.eq(v, T.int(0)))
    }
    if (isObj(v)) return T.TRUE
    if (v.op === 'undef' || v.op === 'nul') return T.FALSE
    if (v.op === 'frz') return T.TRUE
    const ty = this.typeOf(v)
    const alts = []
    const can = c => T.is(c, v) !== T.FALSE
    const u = unwrap(ty)
    const objOnly = u && ['obj', 'rec', 'arr', 'fn', 'opaque'].includes(u.k)
    if (objOnly) return T.is('vobj', v)
    if (u && isExactly(u, 'str')) return T.and(T.is('vstr', v), T.not(T.eq(T.sel('vstr', v), str(''))))
    if (u && isExactly(u, 'bool')) return T.and(T.is('vbool', v), T.sel('vbool', v))
    if (u && isExactly(u, 'int')) return T.and(T.is('vnum', v), T.not(T.eq(T.sel('vnum', v), T.int(0))))
    if (can('vobj')) alts.push(T.is('vobj', v))
    if (can('vbool')) alts.push(T.and(T.is('vbool', v), T.sel('vbool', v)))
    if (can('vstr')) alts.push(T.and(T.is('vstr', v), T.not(T.eq(T.sel('vstr', v), str('')))))
    if (can('vnum')) alts.push(T.and(T.is('vnum', v), T.not(T.eq(T.sel('vnum', v), T.int(0)))))
    return T.or(alts)
  }
  test(v) { return this.ctx.branch(this.truthy(v)) }
  nullish(v) {
    if (isObj(v)) return T.FALSE
    v = this.norm(v)
    if (isObj(v)) return T.FALSE
    return v.sort === 'V' ? T.or(T.is('undef', v), T.is('nul', v)) : T.FALSE
  }
  toStr(v) {
    v = this.val(v)
    if (isObj(v)) {
      if (v.kind === 'obj' && v.cls) { const m = this.findMethod(v.cls, 'toString'); if (m) return this.toStr(this.callFn(m, v, [])) }
      if (v.kind === 'obj' && !v.cls) { const m = v.layers.find(l => l.t === 'set' && l.k.data === 'toString'); if (m) return this.toStr(this.callFn(m.v, v, [])) ; return str('[object Object]') }
      if (v.kind === 'arr') return this.arrJoin(v, str(','))
      this.unsupported('string of ' + v.kind)
    }
    switch (v.sort) {
      case 'S': return v
      case 'B': return T.ite(v, str('true'), str('false'))
      case 'I': return v.op === 'int' ? str(String(v.data)) : T.app('int2str', [v], 'S')
    }
    if (v.op === 'undef') return str('undefined')
    if (v.op === 'nul') return str('null')
    if (this.ctx.branch(T.is('vstr', v))) return T.sel('vstr', v)
    if (this.ctx.branch(T.is('undef', v))) return str('undefined')
    if (this.ctx.branch(T.is('nul', v))) return str('null')
    return T.app('tostr', [v], 'S')
  }
  typeofT(v) {
    v = this.val(v)
    if (isObj(v)) return str(v.kind === 'func' ? 'function' : v.kind === 'symbol' ? 'symbol' : 'object')
    switch (v.sort) { case 'S': return str('string'); case 'B': return str('boolean'); case 'I': return str('number') }
    if (v.op === 'undef') return str('undefined')
    if (v.op === 'nul') return str('object')
    return T.ite(T.is('vstr', v), str('string'), T.ite(T.is('undef', v), str('undefined'), T.ite(T.is('vbool', v), str('boolean'), T.ite(T.is('vnum', v), str('number'), T.ite(this.isFnTerm(v), str('function'), str('object'))))))
  }
  strictEq(a, b) {
    a = this.val(a); b = this.val(b)
    if (isObj(a) && isObj(b)) {
      if (a === b) return T.TRUE
      if (a.viewOf && b.viewOf) { if (a.viewOf === b.viewOf) return T.TRUE; this.unsupported('identity of summarised objects') }
      return T.FALSE
    }
    if (isObj(a)) [a, b] = [b, a]
    if (isObj(b)) {
      if (a.op === 'ite') return T.ite(a.args[0], this.strictEq(a.args[1], b), this.strictEq(a.args[2], b))
      if (b.viewOf) return T.eq(a, b.viewOf)
      return T.FALSE // a fresh object is different from every input value
    }
    return T.eq(a, b)
  }

  // ---------- expressions
  eval(n, env, nameHint) {
    this.node = n
    switch (n.kind) {
      case K.ParenthesizedExpression: return this.eval(n.expression, env, nameHint)
      case K.AsExpression: case K.NonNullExpression: case K.SatisfiesExpression: case K.TypeAssertionExpression: case K.ExpressionWithTypeArguments: return this.eval(n.expression, env, nameHint)
      case K.Identifier: return this.lookupEnv(env, n.text)
      case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return str(n.text)
      case K.NumericLiteral: { const x = Number(n.text); if (!Number.isInteger(x)) this.unsupported('non-integer literal'); return T.int(x) }
      case K.BigIntLiteral: this.unsupported('bigint')
      case K.TrueKeyword: return T.TRUE
      case K.FalseKeyword: return T.FALSE
      case K.NullKeyword: return NUL
      case K.ThisKeyword: { const c = env.find('this'); return c ? c.v : UNDEF }
      case K.ArrowFunction: case K.FunctionExpression: {
        const f = this.makeFunc(n, env, nameHint)
        if (n.kind === K.FunctionExpression && n.name) { const e = new Env(env); e.vars.set(n.name.text, new Cell(f, true)); f.env = e }
        return f
      }
      case K.ClassExpression: return this.makeClass(n, env)
      case K.TemplateExpression: {
        const parts = [str(n.head.text)]
        for (const s of n.templateSpans) { parts.push(this.toStr(this.eval(s.expression, env))); parts.push(str(s.literal.text)) }
        return T.concat(parts)
      }
      case K.RegularExpressionLiteral: { const i = n.text.lastIndexOf('/'); return this.newRegex(str(n.text.slice(1, i)), str(n.text.slice(i + 1))) }
      case K.ObjectLiteralExpression: return this.evalObject(n, env)
      case K.ArrayLiteralExpression: {
        const segs = []
        for (const e of n.elements) {
          if (ts.isSpreadElement(e)) segs.push(...this.iterSegs(this.eval(e.expression, env)))
          else if (ts.isOmittedExpression(e)) segs.push({ u: UNDEF })
          else segs.push({ u: this.eval(e, env) })
        }
        this.node = n
        return this.newArr(segs)
      }
      case K.PropertyAccessExpression: case K.ElementAccessExpression: case K.CallExpression: return this.evalChain(n, env).v
      case K.NewExpression: {
        const c = this.eval(n.expression, env)
        const args = this.evalArgs(n.arguments ?? [], env)
        this.node = n
        return this.construct(this.val(c), args)
      }
      case K.ConditionalExpression: return this.evalCond(n.condition, env) ? this.eval(n.whenTrue, env, nameHint) : this.eval(n.whenFalse, env, nameHint)
      case K.BinaryExpression: return this.evalBinary(n, env, nameHint)
      case K.PrefixUnaryExpression: {
        if (n.operator === K.ExclamationToken) { const v = this.eval(n.operand, env); return T.not(this.truthy(v)) }
        if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) return this.update(n.operand, env, n.operator === K.PlusPlusToken ? 1 : -1).now
        const v = this.norm(this.eval(n.operand, env))
        if (n.operator === K.MinusToken) return T.sub(T.int(0), this.toInt(v))
        if (n.operator === K.PlusToken) return this.toInt(v)
        this.unsupported('unary operator')
      }
      case K.PostfixUnaryExpression: return this.update(n.operand, env, n.operator === K.PlusPlusToken ? 1 : -1).old
      case K.TypeOfExpression: return this.typeofT(ts.isIdentifier(n.expression) && !this.isBound(env, n.expression.text) ? UNDEF : this.eval(n.expression, env))
      case K.VoidExpression: this.eval(n.expression, env); return UNDEF
      case K.AwaitExpression: { const v = this.eval(n.expression, env); this.node = n; return this.awaitVal(v) }
      case K.DeleteExpression: {
        const e = n.expression
        const base = this.val(this.eval(e.expression, env))
        const key = ts.isPropertyAccessExpression(e) ? str(e.name.text) : this.toKey(this.eval(e.argumentExpression, env))
        if (isT(base)) { if (!this.isClone(base)) this.frameViolation('an opaque input object is modified'); return T.TRUE }
        this.checkWritable(base)
        this.setLayers(base, [...base.layers, { t: 'del', k: key }])
        return T.TRUE
      }
      case K.SpreadElement: this.unsupported('spread')
      case K.MetaProperty: { const c = env.find('this'); if (n.keywordToken === K.NewKeyword && isObj(c?.v) && c.v.cls) return c.v.cls; return this.unsupported('meta property') }
      default: this.unsupported('expression ' + K[n.kind])
    }
  }
  isBound(env, name) { return !!env.find(name) || name === 'undefined' || this.globalObj.layers.some(l => l.k.data === name) }
  evalCond(n, env) {
    while (ts.isParenthesizedExpression(n)) n = n.expression
    if (ts.isBinaryExpression(n)) {
      if (n.operatorToken.kind === K.AmpersandAmpersandToken) return this.evalCond(n.left, env) && this.evalCond(n.right, env)
      if (n.operatorToken.kind === K.BarBarToken) return this.evalCond(n.left, env) || this.evalCond(n.right, env)
    }
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) return !this.evalCond(n.operand, env)
    return this.test(this.eval(n, env))
  }
  evalObject(n, env) {
    const o = this.newObj()
    let layers = []
    const accessors = []
    for (const p of n.properties) {
      if (ts.isSpreadAssignment(p)) layers.push(...this.spreadLayers(this.eval(p.expression, env)))
      else if (ts.isShorthandPropertyAssignment(p)) layers.push({ t: 'set', k: str(p.name.text), v: this.lookupEnv(env, p.name.text) })
      else if (ts.isPropertyAssignment(p)) {
        const key = ts.isComputedPropertyName(p.name) ? this.toKey(this.eval(p.name.expression, env)) : str(p.name.text)
        layers.push({ t: 'set', k: key, v: this.eval(p.initializer, env, key.data) })
      }
      else if (ts.isMethodDeclaration(p)) { const key = ts.isComputedPropertyName(p.name) ? this.toKey(this.eval(p.name.expression, env)) : str(p.name.text); layers.push({ t: 'set', k: key, v: this.makeFunc(p, env, key.data) }) }
      else if (ts.isGetAccessor(p) || ts.isSetAccessor(p)) accessors.push(p)
      else this.unsupported('object member')
    }
    if (accessors.length) {
      const cls = new HObj('func'); cls.isClass = true; cls.fname = ''; cls.methods = new Map(); cls.fields = []
      for (const a of accessors) cls.methods.set(`${ts.isGetAccessor(a) ? 'get' : 'set'} ${a.name.text}`, this.makeFunc(a, env))
      o.cls = cls
    }
    this.node = n
    o.layers = this.compactLayers(layers)
    return o
  }
  evalArgs(args, env) {
    const out = []
    for (const a of args) {
      if (ts.isSpreadElement(a)) {
        const segs = this.iterSegs(this.eval(a.expression, env))
        for (const s of segs) out.push(s.u ? this.val(s.u) : { spread: [s] })
      }
      else out.push(this.eval(a, env))
    }
    return out
  }
  /** member/call chains with optional chaining; returns {v, base, stop} */
  evalChain(n, env) {
    while (n.kind === K.NonNullExpression || n.kind === K.ParenthesizedExpression || n.kind === K.AsExpression) {
      if (n.kind !== K.NonNullExpression) return { v: this.eval(n, env) }
      n = n.expression
    }
    if (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) {
      if (n.expression.kind === K.SuperKeyword) {
        let h; for (let e = env; e; e = e.parent) if (e.home) { h = e.home; break }
        const m = this.findMethod(h.superCls, n.name.text)
        return { v: m ?? UNDEF, base: env.find('this').v }
      }
      const b = this.evalChain(n.expression, env)
      if (b.stop) return { v: UNDEF, stop: true }
      if (n.questionDotToken && this.ctx.branch(this.nullish(b.v))) return { v: UNDEF, stop: true }
      const key = ts.isPropertyAccessExpression(n) ? str(n.name.text) : undefined
      if (key) { this.node = n; return { v: this.getProp(b.v, key), base: b.v } }
      const kv = this.norm(this.eval(n.argumentExpression, env))
      this.node = n
      const bv = this.val(b.v)
      if (isT(kv) && kv.sort === 'I') {
        const a = this.tryArr(bv)
        if (a) return { v: this.arrGet(a, kv), base: bv }
        if (isT(bv) && this.norm(bv).sort === 'S') return { v: this.strAt(this.norm(bv), kv), base: bv }
      }
      return { v: this.getProp(bv, this.toKey(kv)), base: bv }
    }
    if (ts.isCallExpression(n)) {
      if (n.expression.kind === K.SuperKeyword) { const s = env.find('super()'); return { v: this.callFn(s.v, UNDEF, this.evalArgs(n.arguments, env)) } }
      if (n.expression.kind === K.ImportKeyword) return { v: this.dynamicImport(n, env) }
      const f = this.evalChain(n.expression, env)
      if (f.stop) return { v: UNDEF, stop: true }
      if (n.questionDotToken && this.ctx.branch(this.nullish(f.v))) return { v: UNDEF, stop: true }
      const args = this.evalArgs(n.arguments, env)
      this.node = n
      const save = this.callNode; this.callNode = n
      const v = this.callFn(f.v, f.base ?? UNDEF, args)
      this.callNode = save
      this.node = n
      return { v }
    }
    return { v: this.eval(n, env) }
  }
  dynamicImport(n, env) {
    const a = n.arguments[0]
    if (!ts.isStringLiteral(a)) this.unsupported('dynamic import')
    return this.resolvedWith(this.importName(a.text, '*', n.getSourceFile().fileName))
  }
  toInt(v) {
    v = isT(v) ? this.norm(v) : v
    if (isT(v)) {
      if (v.sort === 'I') return v
      if (v.sort === 'B') return T.ite(v, T.int(1), T.int(0))
      if (v.sort === 'V' && v.op !== 'undef') { if (this.ctx.entails(T.is('vnum', v))) return T.sel('vnum', v); if (this.ctx.entails(T.is('nul', v))) return T.int(0) ; if (this.ctx.branch(T.is('vnum', v))) return T.sel('vnum', v) }
    }
    this.unsupported('number conversion')
  }
  isStr(v) { v = isT(v) ? this.norm(v) : v; return isT(v) && v.sort === 'S' }
  plus(a, b) {
    a = this.val(a); b = this.val(b)
    if (isObj(a) || isObj(b) || this.isStr(a) || this.isStr(b)) return T.concat(this.toStr(a), this.toStr(b))
    const num = v => v.sort === 'I' || v.sort === 'B'
    if (num(a) && num(b)) return T.add(this.toInt(a), this.toInt(b))
    for (const v of [a, b]) if (v.sort === 'V' && v.op !== 'undef' && v.op !== 'nul' && this.ctx.branch(T.is('vstr', v))) return T.concat(this.toStr(a), this.toStr(b))
    for (const v of [a, b]) if (v.sort === 'V' && this.ctx.branch(T.is('undef', v))) return T.app('NaN', [], 'I')
    return T.add(this.toInt(a), this.toInt(b))
  }
  update(target, env, d) {
    const old = this.toInt(this.eval(target, env))
    const now = T.add(old, T.int(d))
    this.assignTo(target, env, now)
    return { old, now }
  }
  assignTo(target, env, v) {
    while (ts.isParenthesizedExpression(target) || ts.isNonNullExpression(target) || ts.isAsExpression(target)) target = target.expression
    if (ts.isIdentifier(target)) return this.assign(env, target.text, v)
    if (ts.isPropertyAccessExpression(target)) { const b = this.eval(target.expression, env); this.node = target; return this.setProp(b, str(target.name.text), v) }
    if (ts.isElementAccessExpression(target)) { const b = this.eval(target.expression, env); const k = this.norm(this.eval(target.argumentExpression, env)); this.node = target; return this.setElem(b, k, v) }
    if (ts.isArrayLiteralExpression(target) || ts.isObjectLiteralExpression(target)) return this.destructAssign(target, env, v)
    this.unsupported('assignment target')
  }
  destructAssign(target, env, v) {
    if (ts.isArrayLiteralExpression(target)) {
      const arr = this.newArr(this.iterSegs(v))
      target.elements.forEach((e, i) => { if (!ts.isOmittedExpression(e)) this.assignTo(e, env, this.arrGet(arr, T.int(i))) })
      return
    }
    for (const p of target.properties) {
      if (ts.isShorthandPropertyAssignment(p)) this.assignTo(p.name, env, this.getProp(v, str(p.name.text)))
      else if (ts.isPropertyAssignment(p)) this.assignTo(p.initializer, env, this.getProp(v, str(p.name.text)))
      else this.unsupported('destructuring assignment')
    }
  }
  setElem(b, k, v) {
    b = this.val(b)
    if (isObj(b) && b.kind === 'arr' && isT(k) && k.sort === 'I' && k.op !== 'int') return this.arrSetSym(b, k, v)
    return this.setProp(b, this.toKey(k), v)
  }
  /** c ? right : a as one value, when both are primitive and right has no effect */
  mergePrim(c, a, right, env) {
    const { ctx } = this
    if (ctx.quickly(c) !== undefined || !this.isPrim(a)) return
    const simple = (n) => { while (ts.isPropertyAccessExpression(n) || ts.isParenthesizedExpression(n) || ts.isNonNullExpression(n)) n = n.expression; return ts.isIdentifier(n) || ts.isLiteralExpression(n) || [K.NullKeyword, K.TrueKeyword, K.FalseKeyword].includes(n.kind) }
    if (!simple(right)) return
    const mark = ctx.journal.length
    let outs
    try { outs = ctx.explore(() => { ctx.assume(c); const v = this.val(this.eval(right, env)); if (ctx.journal.length !== mark || ctx.dec.trail.some(e => !e.forced) || !this.isPrim(v)) throw new Unsupported('merge'); return v }) }
    catch (e) { if (e instanceof Unsupported && e.message === 'merge') return; throw e }
    if (outs.length !== 1 || outs[0].error) return
    const b = outs[0].value
    this.typeAxioms(T.toV(b))
    return a.sort === b.sort ? T.ite(c, b, a) : T.ite(c, T.toV(b), T.toV(a))
  }
  isPrim(v) {
    if (isObj(v)) return false
    if (v.sort !== 'V' || T.isConst(v)) return true
    return !this.ctx.kindsOf(v).includes('vobj')
  }
  evalBinary(n, env, nameHint) {
    const op = n.operatorToken.kind
    switch (op) {
      case K.AmpersandAmpersandToken: { const a = this.eval(n.left, env); return this.test(a) ? this.eval(n.right, env) : a }
      case K.BarBarToken: { const a = this.eval(n.left, env); return this.test(a) ? a : this.eval(n.right, env) }
      case K.QuestionQuestionToken: {
        const a = this.eval(n.left, env)
        const c = this.nullish(a)
        const m = this.mergePrim(c, a, n.right, env)
        if (m) return m
        return this.ctx.branch(c) ? this.eval(n.right, env, nameHint) : a
      }
      case K.CommaToken: this.eval(n.left, env); return this.eval(n.right, env)
      case K.EqualsToken: {
        const v = this.evalAssignRhs(n, env)
        this.assignTo(n.left, env, v)
        return v
      }
      case K.PlusEqualsToken: { const v = this.plus(this.eval(n.left, env), this.eval(n.right, env)); this.node = n; this.assignTo(n.left, env, v); return v }
      case K.MinusEqualsToken: { const v = T.sub(this.toInt(this.eval(n.left, env)), this.toInt(this.eval(n.right, env))); this.assignTo(n.left, env, v); return v }
      case K.QuestionQuestionEqualsToken: { const a = this.eval(n.left, env); if (!this.ctx.branch(this.nullish(a))) return a; const v = this.eval(n.right, env); this.assignTo(n.left, env, v); return v }
      case K.BarBarEqualsToken: { const a = this.eval(n.left, env); if (this.test(a)) return a; const v = this.eval(n.right, env); this.assignTo(n.left, env, v); return v }
      case K.AmpersandAmpersandEqualsToken: { const a = this.eval(n.left, env); if (!this.test(a)) return a; const v = this.eval(n.right, env); this.assignTo(n.left, env, v); return v }
    }
    const a = this.eval(n.left, env)
    const b = this.eval(n.right, env)
    this.node = n
    switch (op) {
      case K.EqualsEqualsEqualsToken: return this.strictEq(a, b)
      case K.ExclamationEqualsEqualsToken: return T.not(this.strictEq(a, b))
      case K.EqualsEqualsToken: case K.ExclamationEqualsToken: {
        const isN = v => isT(v) && (v.op === 'undef' || v.op === 'nul')
        const r = isN(b) ? this.nullish(a) : isN(a) ? this.nullish(b) : this.strictEq(a, b)
        return op === K.EqualsEqualsToken ? r : T.not(r)
      }
      case K.PlusToken: return this.plus(a, b)
      case K.MinusToken: return T.sub(this.toInt(a), this.toInt(b))
      case K.AsteriskToken: return T.mul(this.toInt(a), this.toInt(b))
      case K.LessThanToken: return this.compare(a, b, false)
      case K.GreaterThanToken: return this.compare(b, a, false)
      case K.LessThanEqualsToken: return this.compare(a, b, true)
      case K.GreaterThanEqualsToken: return this.compare(b, a, true)
      case K.InKeyword: return this.hasProp(b, this.toKey(a))
      case K.InstanceOfKeyword: return this.isInstance(a, this.val(b))
      case K.SlashToken: case K.PercentToken: {
        const x = this.toInt(a), y = this.toInt(b)
        if (x.op === 'int' && y.op === 'int' && y.data !== 0) { const r = op === K.SlashToken ? x.data / y.data : x.data % y.data; if (Number.isInteger(r)) return T.int(r) }
        return T.app(op === K.SlashToken ? 'div' : 'mod', [x, y], 'I')
      }
      default: this.unsupported('operator ' + K[op])
    }
  }
  evalAssignRhs(n, env) { return this.eval(n.right, env, ts.isIdentifier(n.left) ? n.left.text : undefined) }
  compare(a, b, orEq) {
    a = isT(a) ? this.norm(a) : a; b = isT(b) ? this.norm(b) : b
    if (isT(a) && isT(b) && (a.sort === 'S' && b.sort === 'S')) this.unsupported('string order')
    for (const v of [a, b]) if (isT(v) && v.sort === 'V' && this.ctx.branch(T.is('undef', v))) return T.FALSE // NaN
    const x = this.toInt(a), y = this.toInt(b)
    return orEq ? T.le(x, y) : T.lt(x, y)
  }
  hasProp(v, key) {
    v = this.val(v)
    if (isObj(v)) {
      if (v.kind === 'obj') {
        if (v.cls && key.op === 'str' && (this.findMethod(v.cls, key.data) || this.findMethod(v.cls, `get ${key.data}`))) return T.TRUE
        return this.lookupProp(v.layers, key).has
      }
      if (v.kind === 'func') return T.bool(v.layers.some(l => l.k === key))
      return T.FALSE
    }
    if (v.sort !== 'V') this.throwType(`Cannot use 'in' operator`)
    if (!this.ctx.branch(T.is('vobj', v))) this.throwType(`Cannot use 'in' operator`)
    if (this.ctx.entails(this.isArrTerm(v))) return key.op === 'str' && key.data === 'length' ? T.TRUE : T.FALSE
    return this.srcHas({ p: 'opaque', o: T.sel('vobj', v) }, key)
  }

  // ---------- statements (completion records)
  execBlock(sts, env) {
    // hoist functions
    for (const st of sts) if (ts.isFunctionDeclaration(st) && st.body) env.vars.set(st.name.text, new Cell(this.makeFunc(st, env), false))
    for (const st of sts) {
      if (ts.isVariableStatement(st) && !(st.declarationList.flags & ts.NodeFlags.BlockScoped)) this.hoistVar(st, env)
      else if (ts.isVariableStatement(st)) this.hoistLet(st, env)
      else if (ts.isClassDeclaration(st)) env.vars.set(st.name.text, new Cell(undefined, true))
    }
    for (const st of sts) {
      const c = this.exec(st, env)
      if (c) return c
    }
  }
  hoistLet(st, env) { for (const d of st.declarationList.declarations) if (ts.isIdentifier(d.name)) env.vars.set(d.name.text, new Cell(undefined, false)) }
  hoistVar(st, env) { for (const d of st.declarationList.declarations) if (ts.isIdentifier(d.name)) env.vars.set(d.name.text, new Cell(UNDEF, false)) }
  execVarList(list, env) {
    const konst = !!(list.flags & ts.NodeFlags.Const)
    for (const d of list.declarations) {
      const v = d.initializer ? this.eval(d.initializer, env, ts.isIdentifier(d.name) ? d.name.text : undefined) : UNDEF
      this.node = d
      if (ts.isIdentifier(d.name)) {
        const c = env.vars.get(d.name.text)
        if (c && c.v === undefined && !c.lazy) { c.v = v; c.konst = konst }
        else { const nc = new Cell(v, konst); env.vars.set(d.name.text, nc) }
      }
      else this.bindPattern(d.name, v, env, konst)
    }
  }
  exec(st, env) {
    this.node = st
    switch (st.kind) {
      case K.ExpressionStatement: this.eval(st.expression, env); return
      case K.VariableStatement: this.execVarList(st.declarationList, env); return
      case K.ReturnStatement: return RET(st.expression ? this.eval(st.expression, env) : UNDEF)
      case K.IfStatement:
        if (this.evalCond(st.expression, env)) return this.exec(st.thenStatement, env)
        return st.elseStatement ? this.exec(st.elseStatement, env) : undefined
      case K.Block: return this.execBlock(st.statements, new Env(env))
      case K.ThrowStatement: throw new Throw(this.eval(st.expression, env))
      case K.TryStatement: return this.execTry(st, env)
      case K.SwitchStatement: return this.execSwitch(st, env)
      case K.ForOfStatement: return this.execForOf(st, env)
      case K.ForInStatement: return this.execForIn(st, env)
      case K.ForStatement: return this.execFor(st, env)
      case K.WhileStatement: return this.execWhile(st, env, true)
      case K.DoStatement: return this.execWhile(st, env, false)
      case K.BreakStatement: return { t: 'brk', label: st.label?.text }
      case K.ContinueStatement: return { t: 'cont', label: st.label?.text }
      case K.LabeledStatement: {
        const c = this.execLabeled(st, env)
        return c?.t === 'brk' && c.label === st.label.text ? undefined : c
      }
      case K.FunctionDeclaration: return
      case K.ClassDeclaration: { const c = env.vars.get(st.name.text); c.v = this.makeClass(st, env); return }
      case K.EmptyStatement: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: return
      default: this.unsupported('statement ' + K[st.kind])
    }
  }
  execLabeled(st, env) { const s = st.statement; s.vlabel = st.label.text; return this.exec(s, env) }
  execTry(st, env) {
    let c, err
    const depth = this.depth
    try { c = this.execBlock(st.tryBlock.statements, new Env(env)) }
    catch (e) {
      if (!(e instanceof Throw)) throw e
      this.depth = depth
      err = e
    }
    if (err && st.catchClause) {
      const e2 = new Env(env)
      if (st.catchClause.variableDeclaration) this.bindPattern(st.catchClause.variableDeclaration.name, this.val(err.value), e2, false)
      err = undefined
      try { c = this.execBlock(st.catchClause.block.statements, new Env(e2)) }
      catch (e) { if (!(e instanceof Throw)) throw e; this.depth = depth; err = e }
    }
    if (st.finallyBlock) {
      const f = this.execBlock(st.finallyBlock.statements, new Env(env))
      if (f) return f
    }
    if (err) throw err
    return c
  }
  execSwitch(st, env) {
    const v = this.eval(st.expression, env)
    const e = new Env(env)
    const clauses = st.caseBlock.clauses
    let start = -1
    for (let i = 0; i < clauses.length; i++) {
      if (ts.isDefaultClause(clauses[i])) continue
      if (this.ctx.branch(this.strictEq(v, this.eval(clauses[i].expression, e)))) { start = i; break }
    }
    if (start < 0) start = clauses.findIndex(c => ts.isDefaultClause(c))
    if (start < 0) return
    for (let i = start; i < clauses.length; i++) {
      const c = this.execBlock(clauses[i].statements, e)
      if (c) return c.t === 'brk' && !c.label ? undefined : c
    }
  }
  loopDone(c, st) {
    if (!c) return { go: true }
    const mine = !c.label || c.label === st.vlabel
    if (c.t === 'cont' && mine) return { go: true }
    if (c.t === 'brk' && mine) return { go: false }
    return { go: false, c }
  }
  execFor(st, env) {
    const e = new Env(env)
    if (st.initializer) { if (ts.isVariableDeclarationList(st.initializer)) this.execVarList(st.initializer, e); else this.eval(st.initializer, e) }
    const r = this.indexLoop?.(st, e)
    if (r) return r.c
    const body = () => {
      const it = new Env(e)
      for (const [k, c] of e.vars) it.vars.set(k, c)
      return this.loopDone(this.exec(st.statement, it), st)
    }
    const once = () => {
      if (st.condition && !this.evalCond(st.condition, e)) return { go: false }
      const d = body()
      if (d.go && st.incrementor) this.eval(st.incrementor, e)
      return d
    }
    if (this.originOfNode(st) === 'repo' && this.mustCut(st, once)) {
      // rotated: the condition holds at the loop head
      if (st.condition && !this.evalCond(st.condition, e)) return
      const plain = st.condition && this.pureCond(st.condition)
      return this.cutLoop({ name: `for ${this.whereOf(st)}`, step: () => {
        if (plain && !this.evalCond(st.condition, e)) throw new PathEnd('loop head')
        const d = body()
        if (!d.go) return d
        if (st.incrementor) this.eval(st.incrementor, e)
        return st.condition && !this.evalCond(st.condition, e) ? { go: false } : { go: true }
      } }).c
    }
    for (let i = 0; ; i++) {
      if (i > 64) this.unsupported('loop without a bound')
      const d = once()
      if (!d.go) return d.c
    }
  }
  execWhile(st, env, pre) {
    const once = (i) => {
      if ((pre || i > 0) && !this.evalCond(st.expression, env)) return { go: false }
      return this.loopDone(this.exec(st.statement, new Env(env)), st)
    }
    if (this.mustCut(st, once)) {
      // rotated: the condition holds at the loop head
      if (pre && !this.evalCond(st.expression, env)) return
      const plain = this.pureCond(st.expression)
      return this.cutLoop({ name: `while ${this.whereOf(st)}`, step: (_, first) => {
        if (plain && pre && !this.evalCond(st.expression, env)) throw new PathEnd('loop head')
        const d = this.loopDone(this.exec(st.statement, new Env(env)), st)
        if (!d.go) return d
        return this.evalCond(st.expression, env) ? { go: true } : { go: false }
      } }).c
    }
    for (let i = 0; ; i++) {
      if ((pre || i > 0) && !this.evalCond(st.expression, env)) return
      if (i > (this.opts.unroll ?? 64)) this.unsupported('loop without a bound')
      const d = this.loopDone(this.exec(st.statement, new Env(env)), st)
      if (!d.go) return d.c
    }
  }
  /** does the loop go round more than a few times on some path? */
  mustCut(st, once) {
    const { ctx } = this
    if (st.getSourceFile().fileName === PRELUDE) return true
    const key = `${this.whereOf(st)}?${ctx.pathId()}`
    ctx.cuts ??= new Map()
    let m = ctx.cuts.get(key)
    if (m === undefined) {
      const quiet = ctx.quiet
      ctx.quiet = true
      m = { cut: false }
      class Long extends Error {}
      const most = st.getSourceFile().fileName.includes('/node_modules/') ? 4 : this.unrollRounds ?? 4
      try { ctx.explore(() => { for (let i = 0; ; i++) { if (i > most) throw new Long(); if (!once(i).go) throw new PathEnd('exit') } }) }
      catch (e) { if (e instanceof Long || e instanceof Unsupported) m.cut = true; else throw e }
      finally { ctx.quiet = quiet }
      m.ids = currentObjId(); m.fresh = ctx.freshN; m.binders = ctx.binderN; m.sub = ctx.dec.sub
      ctx.cuts.set(key, m)
    }
    setObjId(Math.max(m.ids, currentObjId())); ctx.freshN = Math.max(m.fresh, ctx.freshN); ctx.binderN = Math.max(m.binders, ctx.binderN); ctx.dec.sub = Math.max(m.sub, ctx.dec.sub)
    return m.cut
  }
  pureCond(n) { let pure = true; const go = (x) => { if (ts.isCallExpression(x) || ts.isAwaitExpression(x) || ts.isPostfixUnaryExpression(x) || (ts.isPrefixUnaryExpression(x) && x.operator !== K.ExclamationToken) || (ts.isBinaryExpression(x) && ts.isAssignmentOperator?.(x.operatorToken.kind))) pure = false; ts.forEachChild(x, go) }; go(n); return pure }
  whereOf(n) { const s = this.node; this.node = n; const w = this.where(); this.node = s; return w }
  execForOf(st, env) {
    const it = this.eval(st.expression, env)
    this.node = st
    const segs = this.iterSegs(it, !!st.awaitModifier)
    const body = (v) => {
      const e = new Env(env)
      if (st.awaitModifier) v = this.awaitVal(v)
      if (ts.isVariableDeclarationList(st.initializer)) this.bindPattern(st.initializer.declarations[0].name, this.val(v), e, false)
      else this.assignTo(st.initializer, e, this.val(v))
      const d = this.loopDone(this.exec(st.statement, e), st)
      return d
    }
    return this.forSegs(segs, body)
  }
  execForIn(st, env) {
    const v = this.eval(st.expression, env)
    this.node = st
    if (!isObj(v) && this.ctx.branch(this.nullish(v))) return
    const segs = this.objectKeys(v)
    return this.forSegs(segs, (k) => {
      const e = new Env(env)
      this.bindPattern(st.initializer.declarations[0].name, this.val(k), e, false)
      return this.loopDone(this.exec(st.statement, e), st)
    })
  }
}
installSeq(Interp)
installEqual(Interp)
installVerif(Interp)
installCut(Interp)
