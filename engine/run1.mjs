// debugging: node run1.mjs file [name]
import { resolve } from 'node:path'
import { parse, ts } from './program.mjs'
import { verifyContract } from './verify.mjs'
import { Solver } from './smt.mjs'
const file = resolve(process.argv[2])
const names = []
parse(file).statements.forEach((s) => { if (ts.isVariableStatement(s) && s.modifiers?.some(m => m.kind === ts.SyntaxKind.ExportKeyword)) for (const d of s.declarationList.declarations) names.push(d.name.text) })
const solver = new Solver()
for (const n of names.filter(n => /^C\d\d_/.test(n) && (!process.argv[3] || (process.argv[3].endsWith('$') ? n + '$' === process.argv[3] : n.includes(process.argv[3]))))) {
  let r
  try { r = verifyContract(file, n, { solver, budgetMs: Number(process.env.BUDGET ?? 60000) }) } catch (e) { console.log(n, 'CRASH', e.stack.split('\n').slice(0, 12).join('\n')); continue }
  const bad = r.obligations.filter(o => o.status !== 'proved')
  console.log(`${bad.length || r.unsupported || !r.obligations.length ? 'FAIL' : 'ok  '} ${n}: ${r.obligations.length} obligations, ${r.paths} paths, ${Math.round(r.ms)} ms, ${r.solver.queries} queries`)
  if (r.unsupported) console.log('   unsupported:', r.unsupported)
  const seen = new Set()
  for (const b of bad) { if (seen.has(b.label)) continue; seen.add(b.label); console.log('   ', b.label, b.status, b.info, '\n        path:', (b.path ?? []).slice(-12).join('\n              ')) }
}
solver.close()

if (process.env.SPLITS) { const { splits } = await import('./ctx.mjs'); for (const [k, n] of [...splits].sort((a, b) => b[1] - a[1]).slice(0, 40)) console.log(n, k) }

if (process.env.QSTAT) { const { stats } = await import('./smt.mjs'); for (const [k, [n, ms]] of [...stats.q].sort((a, b) => b[1][1] - a[1][1]).slice(0, 30)) console.log(n, Math.round(ms), k) }

if (process.env.QSTAT === '2') { const { stats } = await import('./smt.mjs'); for (const [k, n] of [...stats.st].sort((a, b) => b[1] - a[1]).slice(0, 25)) console.log(n, k) }
