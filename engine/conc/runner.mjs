// Runs the cases of one module (oracle cases, or contracts executed on the real code) over seeded inputs.
import { openSync, writeSync } from 'node:fs'
import { Gen, hash } from './gen.mjs'

export class Violation extends Error { constructor(m, detail) { super(m); this.name = 'Violation'; this.detail = detail } }
export class Discard extends Error {}

const seen = new WeakSet()
export const printable = (v, d = 0) => {
  if (v === undefined) return '<undefined>'
  if (typeof v === 'function') return `<function ${v.name}>`
  if (typeof v === 'bigint' || typeof v === 'symbol') return String(v)
  if (v === null || typeof v !== 'object') return v
  if (d > 8) return '<deep>'
  if (v instanceof Error) return { $error: v.name, message: v.message, ...Object.fromEntries(Object.entries(v).filter(([k]) => k !== 'response' && k !== 'stack').map(([k, x]) => [k, printable(x, d + 1)])) }
  if (v instanceof Headers) return { $headers: [...v.entries()] }
  if (v instanceof URL) return { $url: v.href }
  if (v instanceof Uint8Array) return { $bytes: [...v.slice(0, 64)] }
  if (Array.isArray(v)) return v.length > 60 ? [...v.slice(0, 60).map(x => printable(x, d + 1)), `<${v.length} items>`] : v.map(x => printable(x, d + 1))
  if (seen.has(v)) return '<cyclic>'
  seen.add(v)
  const r = Object.fromEntries(Object.entries(v).map(([k, x]) => [k, printable(x, d + 1)]))
  seen.delete(v)
  return r
}
const cut = (s, n) => s.length > n ? s.slice(0, n) + '…' : s

export const run = async (cases) => {
  const [, , argJson] = process.argv
  const { property, seed, budgetMs, minRuns = 5, maxRuns = 400, only, index, caseTimeoutMs = 15000, skip = [] } = JSON.parse(argJson)
  const names = Object.keys(cases).filter(n => !only || only === n)
  const out = { property, cases: {}, failures: [], samples: [] }
  const unhandled = []
  const prog = openSync('progress', 'w')
  process.on('unhandledRejection', (e) => { unhandled.push(e) })
  process.on('uncaughtException', (e) => { unhandled.push(e) })
  const start = Date.now()
  for (const [ci, name] of names.entries()) {
    const fn = cases[name]
    let runs = 0, discards = 0
    const distinct = new Set()
    const until = start + budgetMs * (ci + 1) / names.length
    for (let i = index ?? 0; i < (index === undefined ? (fn.once ? 1 : fn.max ?? maxRuns) : index + 1); i++) {
      if (index === undefined && runs + discards >= minRuns && Date.now() > until) break
      const g = new Gen(hash(seed, property, name, i), fn.once ? 8 : 2 + Math.min(8, i >> 3))
      writeSync(prog, `${name} ${i}`.padEnd(200), 0)
      unhandled.length = 0
      let err, timer
      try {
        const late = new Promise((_, rej) => { timer = setTimeout(() => rej(new Violation(`the case did not finish within ${caseTimeoutMs} ms`)), caseTimeoutMs) })
        await Promise.race([(async () => fn(g))(), late])
        runs++
      }
      catch (e) { if (e instanceof Discard) discards++; else err = e }
      clearTimeout(timer)
      const log = JSON.stringify(g.log.map(([l, v]) => [l, printable(v)]))
      distinct.add(hash(log) + ':' + g.s)
      if (out.samples.length < 3 && !err && i >= 3) out.samples.push({ case: name, index: i, inputs: cut(log, 1500) })
      if (err) {
        const f = { case: name, index: i, seed, message: cut(String(err.message ?? err), 2000), isViolation: err instanceof Violation || err?.name === 'AssertionError', stack: cut(String(err.stack ?? ''), 1500), detail: err.detail === undefined ? undefined : cut(JSON.stringify(printable(err.detail)) ?? '', 4000), inputs: cut(log, 6000) }
        if (skip.includes(`${name}: ${f.message}`)) { runs++; out.known = [...(out.known ?? []), f]; continue }
        out.failures.push(f)
        break
      }
    }
    out.cases[name] = { runs, discards, distinct: distinct.size }
    if (out.failures.length) break
  }
  out.ms = Date.now() - start
  process.stdout.write('\n@@RESULT ' + JSON.stringify(out) + '\n', () => process.exit(0))
}
