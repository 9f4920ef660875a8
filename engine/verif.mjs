// The 'verif' module seen by contract files, symbolic side.
import * as T from './term.mjs'
import { HObj, PathEnd, Throw, Unsupported, frz, isObj } from './heap.mjs'
import { typeFact, unwrap } from './types.mjs'

const { UNDEF, str } = T
const mkType = (desc) => { const o = new HObj('type'); o.desc = desc; return o }
const js = (ip, v) => { // constant value -> JS
  v = ip.val(v)
  if (isObj(v)) { if (v.kind === 'type') return v.desc; if (v.kind === 'arr') return v.segs.map(s => js(ip, s.u)); if (v.kind === 'obj') return Object.fromEntries(v.layers.map(l => [l.k.data, js(ip, l.v)])); ip.unsupported('constant expected') }
  if (v.op === 'undef') return undefined
  if (v.op === 'nul') return null
  if (T.isConst(v)) return v.data
  ip.unsupported('constant expected')
}
// function symbols the engine gives a meaning of its own
const RESERVED = new Set(['get', 'has', 'kind', 'len', 'at', 'slice', 'clone', 'lower', 'upper', 'trim', 'elem', 'lastelem', 'json', 'jsonok', 'jsonparse', 'inre', 'exists', 'join', 'NaN', 'atob', 'btoa', 'blobtext', 'buffer', 'charCodeAt', 'codePointAt', 'encodeURIComponent', 'fromCharCode', 'getren', 'hasren', 'jsonerror', 'lastIndexOf', 'parseInt', 'split', 'tonumber', 'tostr', 'urljoin', 'url:hostname', 'url:port', 'url:protocol'])
export const installVerif = (Interp) => {
  Object.assign(Interp.prototype, {
    verifModule(name) {
      const ip = this
      const nat = (n, f) => { const o = new HObj('func'); o.native = (_, a) => f(...a); o.fname = n; return o }
      if (name === 'T') {
        if (this._T) return this._T
        const o = this.newObj('prelude')
        const def = (k, v) => { o.layers = [...o.layers, { t: 'set', k: str(k), v }] }
        for (const k of ['any', 'json', 'str', 'bool', 'int', 'undef', 'null', 'opaque', 'absent', 'error']) def(k, mkType({ k }))
        def('text', mkType({ k: 'str', nonempty: true }))
        def('sse', mkType({ k: 'str' }))
        def('token', mkType({ k: 'str', nonempty: true }))
        def('url', mkType({ k: 'str', nonempty: true }))
        def('nat', mkType({ k: 'int', min: 0 }))
        def('lit', nat('lit', v => mkType({ k: 'lit', v: js(ip, v) })))
        def('obj', nat('obj', v => mkType({ k: 'obj', fields: js(ip, v) })))
        def('open', nat('open', (v, r) => mkType({ k: 'obj', fields: js(ip, v), open: r ? r.desc : true })))
        def('rec', nat('rec', (v, not) => mkType({ k: 'rec', t: v.desc, not: not ? js(ip, not) : undefined })))
        def('arr', nat('arr', (v, m) => mkType({ k: 'arr', t: v.desc, min: m?.data, max: undefined })))
        def('opt', nat('opt', v => mkType({ k: 'opt', t: v.desc })))
        def('nullable', nat('nullable', v => mkType({ k: 'nullable', t: v.desc })))
        def('or', nat('or', (...vs) => mkType({ k: 'or', ts: vs.map(v => v.desc) })))
        def('oneOf', nat('oneOf', (...vs) => mkType({ k: 'or', ts: vs.map(v => ({ k: 'lit', v: js(ip, v) })) })))
        def('fn', nat('fn', (n, o2) => { const x = o2 ? js(ip, o2) : {}; return mkType({ k: 'fn', name: n.data, ...x }) }))
        return this._T = o
      }
      this.unsupported('verif.' + name)
    },
    harnessApi() {
      const ip = this, { ctx } = this
      const o = this.newObj('prelude')
      const def = (n, f) => { const h = new HObj('func'); h.native = (_, a) => f(...a); h.fname = n; o.layers = [...o.layers, { t: 'set', k: str(n), v: h }] }
      def('any', (n, ty) => {
        const name = `${n.data}`
        if (ctx.binders.length) ip.unsupported('v.any inside a summarised body')
        ctx.varTypes.set(name, ty.desc)
        const t = T.variable(name, 'V')
        const r = ip.norm(t)
        ip.inputs?.add(name)
        return r
      })
      def('fn', (n, spec) => {
        const desc = { k: 'fn', name: `${n.data}${RESERVED.has(n.data) ? ' (given)' : ''}`, ...js(ip, spec ?? ip.newObj()) }
        const h = new HObj('func'); h.fname = n.data
        h.native = (_, args) => ip.applySpec(desc, args.map(a => ip.freeze(a)))
        return h
      })
      def('assume', (c) => { ctx.assume(ip.truthy(c)); return UNDEF })
      def('ensure', (l, c) => { ip.reached.add(l.data); ctx.ensure(l.data, ip.truthy(c)); return UNDEF })
      def('eq', (l, a, b, m) => {
        ip.reached.add(l.data)
        if (ctx.quiet) return UNDEF
        const t0 = performance.now()
        const q0 = ctx.solver.nq ?? 0
        const why = ip.proveEq(a, b, m ? m.data : 'loose')
        ctx.obligations.push({ label: l.data, status: why ? 'failed' : 'proved', ms: performance.now() - t0, backend: 'structural equality + z3', info: why, path: why ? ctx.facts.filter((_, i) => ctx.kinds[i] === 'decision').map(f => T.show(f)) : undefined })
        return UNDEF
      })
      def('fail', (l) => { ip.reached.add(l.data); ctx.ensure(l.data, T.FALSE); return UNDEF })
      def('cover', (l) => { ip.covered.add(l.data); return UNDEF })
      def('contract', (f, spec) => { f = ip.val(f); if (!f.node) ip.unsupported('contract on a native'); ip.contracts.set(f.node, spec); return UNDEF })
      def('hurry', (ms) => { ctx.solver.limit = ms.data; return UNDEF }) // what a query that only decides whether a path is possible may take
      def('unroll', (n) => { ip.unrollRounds = n.data; return UNDEF }) // loops of the code that end within n rounds on every path are not cut
      def('prefix', (a) => { const t = this.V(ip.val(a).viewOf ?? a); if (!ctx.prefixes?.includes(t)) ctx.prefixes = [...ctx.prefixes ?? [], t]; return UNDEF }) // arrays that grow in loops may be prefixes of this one
      def('regex', (n) => { // any regular expression
        const h = new HObj('regex'); h.owner = 'harness'
        for (const k of ['source', 'flags']) { const name = `${n.data} ${k}`; ctx.varTypes.set(name, { k: 'str' }); h[k] = ip.norm(T.variable(name, 'V')) }
        h.layers = [{ t: 'set', k: str('lastIndex'), v: T.int(0) }]
        return h
      })
      def('recursive', (f, spec) => { f = ip.val(f); if (!f.node) ip.unsupported('contract on a native'); ip.recursive.set(f.node, spec); return UNDEF })
      def('inlineSpec', (f) => ip.callFn(f, UNDEF, []))
      def('rename', (f) => f)
      def('isSymbolic', () => T.TRUE)
      def('settled', (p) => { p = ip.val(p); if (!isObj(p) || p.kind !== 'promise') return ip.objOf({ state: str('fulfilled'), value: p }); return ip.objOf({ state: str(p.state), value: p.value }) })
      def('collect', (st) => {
        st = ip.val(st)
        const g = k => ip.getProp(st, str(k))
        ip.callFn(g('_demand'), st, [])
        return ip.objOf({ chunks: ip.newArr([...ip.val(g('_log')).segs]), state: g('_state'), error: g('_error') })
      })
      def('source', (items, end) => ip.callFn(ip.readCell(ip.globalEnv.find('__sourceOf'), '__sourceOf'), UNDEF, [items, end ?? UNDEF]))
      def('stop', () => { throw new PathEnd('stop') })
      return o
    },
  })
}
