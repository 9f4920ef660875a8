// Verifies one contract (an exported function of a contract file): generates and discharges its obligations.
import { Solver, stats } from './smt.mjs'
import { Ctx } from './ctx.mjs'
import { Interp } from './interp.mjs'
import { PathEnd, Throw, Unsupported } from './heap.mjs'
import * as T from './term.mjs'

export const verifyContract = (file, name, { solver, budgetMs = 120000, debug = false } = {}) => {
  const own = !solver
  solver ??= new Solver()
  const t0 = performance.now()
  const q0 = { ...stats }
  const ctx = new Ctx(solver, { deadline: Date.now() + budgetMs })
  const calls = new Map(), reached = new Set(), covered = new Set(), externals = new Set(), usedContracts = new Set(), inputs = new Set()
  let unsupported, paths = 0, threw = []
  try {
    const outs = ctx.explore(() => {
      ctx.freshN = 0; ctx.binderN = 0; ctx.varTypes = new Map(); ctx.funTypes = new Map()
      paths++
      const ip = new Interp(ctx, { calls })
      Object.assign(ip, { reached, covered, externals, usedContracts, inputs })
      ctx.where = () => ip.where()
      ctx.typeOf = t => ip.typeOf(t)
      const m = ip.module(file)
      const f = ip.findExport(m, name, new Set())
      if (!f) throw new Error(`no contract ${name} in ${file}`)
      try {
        const r = ip.callFn(f(), T.UNDEF, [ip.harnessApi()])
        if (r?.kind === 'promise') {
          if (r.state === 'rejected') throw new Throw(r.value)
          if (r.state === 'pending') ip.unsupported('contract did not finish: a promise stays pending')
        }
        return r
      }
      catch (e) {
        if (e instanceof Throw) { threw.push(describe(ip, e.value)); ctx.ensure('no unexpected exception', T.FALSE, describe(ip, e.value)); return T.UNDEF }
        throw e
      }
    })
    if (debug) console.error(name, 'paths', outs.length)
  }
  catch (e) {
    if (e instanceof Unsupported) unsupported = e.message
    else if (e instanceof RangeError) unsupported = 'recursion too deep: ' + e.message
    else { if (own) solver.close(); throw e }
  }
  if (own) solver.close()
  return { name, file, obligations: ctx.obligations, unsupported, paths, calls: [...calls.keys()], reached: [...reached], covered: [...covered], externals: [...externals], usedContracts: [...usedContracts], inputs: [...inputs], ms: performance.now() - t0, solver: { queries: stats.queries - q0.queries, ms: stats.ms - q0.ms, cvc5: stats.cvc5 - q0.cvc5 } }
}
const describe = (ip, v) => {
  try {
    if (T.isTerm(v)) return T.show(v)
    const m = v.layers?.find(l => l.k?.data === 'message')
    return `${v.cls?.fname ?? v.kind}: ${m ? T.show(ip.V(m.v)) : ''}`
  }
  catch { return String(v) }
}
