// Decides one property on the current tree of /repo: node bin/check.mjs <id>
// 1. every contract of the property is verified against the real sources (obligations discharged by z3/cvc5)
// 2. the property's oracle and the same contracts are run on the real code (cross-check of the generator, source of replays)
import { spawn } from 'node:child_process'
import { existsSync, mkdirSync, readFileSync, writeFileSync } from 'node:fs'
import { dirname, join, resolve } from 'node:path'
import { fileURLToPath } from 'node:url'
import { contractsOf } from '../engine/contracts.mjs'
import { runConcrete } from '../engine/conc/main.mjs'
import { PROPS } from '../props.config.mjs'

const VERIF = resolve(dirname(fileURLToPath(import.meta.url)), '..')
const id = process.argv[2]
const conf = PROPS[id]
if (!conf) { console.error(`unknown property ${id}`); process.exit(2) }
const tier = process.env.VERIF_TIER === 'thorough' || process.argv[3] === 'thorough' ? 'thorough' : 'quick'
const seed = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 1
const thorough = tier === 'thorough'
const t0 = performance.now()
const oracle = join(VERIF, 'concrete', `${id}.ts`)
const cfile = join(VERIF, 'contracts', `${id}.ts`)
const contracts = contractsOf(cfile)
const budget = (thorough ? 1500 : conf.budgetS ?? 330) * 1000
const left = () => (thorough ? 5400 : 800) * 1000 - (performance.now() - t0)

// once the code is known to fail, the remaining proofs decide nothing more
const running = new Set()
let stopping = false
const stopProofs = (ms) => setTimeout(() => { stopping = true; for (const p of running) p.kill('SIGKILL') }, ms).unref()
const prove = (names, ms, env = {}) => stopping ? Promise.resolve(names.map(stopped)) : new Promise((res) => {
  const p = spawn(process.execPath, ['--no-warnings', '--stack-size=16000', join(VERIF, 'engine/prove.mjs'), cfile, String(ms), ...names], { stdio: ['ignore', 'pipe', 'pipe'], env: { ...process.env, ...env } })
  running.add(p)
  let so = '', se = ''
  p.stdout.on('data', (d) => { so += d })
  p.stderr.on('data', (d) => { se += d; if (se.length > 1e5) se = se.slice(-5e4) })
  const t = setTimeout(() => p.kill('SIGKILL'), ms * 1.3 + 30000)
  p.on('close', (code) => {
    clearTimeout(t)
    running.delete(p)
    if (stopping) return res(names.map(stopped))
    const rs = so.split('\n').filter(l => l.startsWith('@@CONTRACT ')).map(l => JSON.parse(l.slice(11)))
    for (const n of names) if (!rs.some(r => r.name === n)) rs.push({ name: n, crash: `verifier ended with ${code}: ${se.slice(-2000)}`, obligations: [], calls: [], reached: [], externals: [], usedContracts: [], solver: { queries: 0, ms: 0, cvc5: 0 } })
    res(rs)
  })
})
const stopped = name => ({ name, stopped: true, obligations: [], calls: [], reached: [], externals: [], usedContracts: [], solver: { queries: 0, ms: 0, cvc5: 0 } })
const pool = async (jobs, n) => { const out = []; let i = 0; await Promise.all(Array.from({ length: n }, async () => { while (i < jobs.length) { const k = i++; out[k] = await jobs[k]() } })); return out }
const bad = r => !r.stopped && (r.crash || r.unsupported || !r.obligations.length || r.obligations.some(o => o.status !== 'proved') || contracts.find(c => c.name === r.name).labels.some(l => !r.reached.includes(l)))
const reasons = (r) => {
  const out = []
  if (r.crash) out.push(`${r.name}: verifier error: ${r.crash.split('\n')[0]}`)
  if (r.unsupported) out.push(`${r.name}: not generated: ${r.unsupported}`)
  if (!r.crash && !r.unsupported && !r.obligations.length) out.push(`${r.name}: no obligation was generated`)
  for (const o of r.obligations) if (o.status !== 'proved') out.push(`${r.name}: ${o.label}: ${o.status}${o.info ? `: ${o.info}` : ''}`)
  if (!r.crash && !r.unsupported) for (const l of contracts.find(c => c.name === r.name).labels) if (!r.reached.includes(l)) out.push(`${r.name}: ${l}: never reached`)
  return [...new Set(out)]
}
const concrete = (file, kind, ms, s, extra = {}) => existsSync(file) && (kind === 'oracle' || contracts.length) ? runConcrete(file, kind, { property: id, seed: s, budgetMs: ms, minRuns: 5, maxRuns: thorough ? 50000 : 5000, ...extra }, { killMs: ms + 90000 }) : Promise.resolve(undefined)

const known = existsSync(join(VERIF, 'known-findings.json')) ? JSON.parse(readFileSync(join(VERIF, 'known-findings.json'), 'utf8')).findings.filter(k => k.property === id) : []
const skip = known.map(k => k.match)
const oracleMs = (thorough ? 90000 : conf.oracleMs ?? 10000)
const publicContract = name => conf.internal && !conf.internal.test(name)
const failureOf = (x, kind) => !x ? undefined : x.buildError ? { kind, case: '(bundle)', message: x.buildError } : x.crash ? { kind, case: x.at, message: x.killed ? 'the code under test does not terminate' : `the process running the code died (${x.code})`, stack: x.stderr, at: x.at } : x.failures?.[0] && { kind, ...x.failures[0] }
const concreteFailure = f => f && (f.kind === 'oracle' || publicContract(f.case))
const noting = kind => (x) => { if (concreteFailure(failureOf(x, kind))) stopProofs(20000); return x }
const outOfTime = r => /time budget/.test(r.unsupported ?? '') && !r.crash && r.obligations.every(o => o.status === 'proved')
const notingProof = (rs) => { if (rs.some(r => bad(r) && !outOfTime(r))) stopProofs(120000); return rs }
const [proofs, o1, c1] = await Promise.all([
  pool(contracts.map(c => () => prove([c.name], budget).then(notingProof)), 6).then(x => x.flat()),
  concrete(oracle, 'oracle', oracleMs, seed, { skip }).then(noting('oracle')),
  concrete(cfile, 'contract', thorough ? 30000 : 4000, seed).then(noting('contract')),
])
// a proof that ran out of time decides nothing: it is tried again alone, and if it still does not end it is no alarm (see 'undecided' in the evidence)
for (const [i, r] of proofs.entries()) {
  if (!bad(r) || r.obligations.some(o => o.status === 'failed') || (r.unsupported && !outOfTime(r))) continue
  const ms = Math.min(budget, left() - 90000)
  if (ms > 30000) proofs[i] = (await prove([r.name], ms, { VERIF_SMT_MS: '15000' }))[0]
}

if (o1?.buildError) { console.error(`check error: the sources do not bundle: ${o1.buildError}`); process.exit(2) }
// a contract that names an internal function which is gone cannot be decided: reported like an undischarged obligation
const undecided = proofs.filter(outOfTime)
const failedProofs = proofs.filter(r => bad(r) && !outOfTime(r))
let violation = [failureOf(o1, 'oracle'), failureOf(c1, 'contract')].find(concreteFailure)
const functionLevel = failureOf(c1, 'contract')
const searches = []
if (!violation && (failedProofs.length || functionLevel || undecided.length)) {
  // no failing input yet: search deeper before reporting without one
  const ms = thorough ? 120000 : 45000
  const rs = await Promise.all([1, 2, 3, 4].map(k => concrete(oracle, 'oracle', ms, seed + 1000 * k, { skip, maxRuns: 100000 })))
  searches.push(...rs)
  violation = rs.map(x => failureOf(x, 'oracle')).find(Boolean)
}

const dir = join(VERIF, 'evidence')
mkdirSync(dir, { recursive: true })
for (const k of known) console.log(`KNOWN-FINDING: property=${id} ${k.what}`)
let exit = 0
if (violation || failedProofs.length || functionLevel) {
  exit = 1
  const path = join(dir, `replay-${id}.json`)
  writeFileSync(path, JSON.stringify({
    property: id, seed, violation, functionLevel,
    failed_obligations: failedProofs.flatMap(reasons),
    verifier_output: failedProofs.map(r => ({ ...r, obligations: r.obligations.filter(o => o.status !== 'proved').slice(0, 20) })),
    replay: violation ? `cd /verif && VERIF_SEED=${violation.seed ?? seed} node engine/conc/main.mjs ${violation.kind === 'oracle' ? oracle : cfile} ${violation.kind} 60000 ${violation.case} ${violation.index ?? ''}` : `cd /verif/engine && node run1.mjs ${cfile} ${failedProofs[0]?.name ?? functionLevel?.case ?? ''}`,
  }, null, 1))
  if (violation) console.log(`failing input (${violation.kind} ${violation.case}#${violation.index}): ${violation.message}`)
  for (const r of failedProofs) for (const l of reasons(r).slice(0, 5)) console.log(`obligation not discharged: ${l.slice(0, 600)}`)
  if (!violation && functionLevel) console.log(`contract fails on the real code (${functionLevel.case}): ${functionLevel.message}`)
  console.log(`VIOLATION property=${id} replay=${path}${violation ? '' : ' no-failing-input-found'}`)
}

for (const r of undecided) console.log(`UNDECIDED: ${r.name}: the proof did not end within its time budget; decided by the bounded runs only`)
// evidence
const obls = proofs.flatMap(r => r.obligations)
const conc = [o1, c1, ...searches].filter(x => x?.cases)
const sum = f => conc.reduce((a, x) => a + Object.values(x.cases).reduce((b, c) => b + f(c), 0), 0)
const byBackend = {}
for (const o of obls) if (o.status === 'proved') byBackend[o.backend] = (byBackend[o.backend] ?? 0) + 1
const functions = [...new Set(proofs.flatMap(r => r.calls))].sort()
const coverage = {
  obligations: obls.length,
  discharged: obls.filter(o => o.status === 'proved').length,
  checker_cmd: `node bin/check.mjs ${id}`,
  trusted_base: [...(conf.trusted ?? []), 'engine/ (verification-condition generator: TypeScript semantics, prelude.ts platform models)', 'z3-new, cvc5, TypeScript parser'],
  contracts: proofs.map(r => ({ name: r.name, obligations: r.obligations.length, paths: r.paths, labels: r.reached, ms: Math.round(r.ms ?? 0), solver_queries: r.solver.queries, solver_ms: Math.round(r.solver.ms) })),
  discharged_by: byBackend,
  undecided_within_time: undecided.map(r => r.name),
  not_tried: proofs.filter(r => r.stopped).map(r => r.name),
  functions_under_contract: functions,
  callee_contracts_used: [...new Set(proofs.flatMap(r => r.usedContracts))],
  external_functions_assumed: [...new Set(proofs.flatMap(r => r.externals))],
  solver_ms: Math.round(proofs.reduce((a, r) => a + r.solver.ms, 0)),
  evaluations: sum(c => c.runs),
  distinct_nontrivial: sum(c => c.distinct),
  rule: 'each case draws a complete scenario (options, server behaviour, callbacks, chunking) from the seed; distinct = different drawn inputs; discarded draws are not counted',
  samples: conc.flatMap(x => x.samples).slice(0, 3),
  concrete_cases: conc.map(x => x.cases),
  bounded_parts: conf.bounded ?? [],
}
if (!contracts.length) for (const k of ['obligations', 'discharged', 'checker_cmd', 'trusted_base', 'contracts', 'discharged_by', 'callee_contracts_used', 'external_functions_assumed', 'functions_under_contract', 'solver_ms']) delete coverage[k]
writeFileSync(join(dir, `${id}.json`), JSON.stringify({ property: id, tier, seed, level: conf.level, coverage, assumptions: conf.assumptions ?? [], wall_s: Math.round(performance.now() - t0) / 1000, violations: exit }, null, 1))
console.log(`${id} ${exit ? 'VIOLATED' : 'ok'} (${tier}): ${obls.length} obligations, ${coverage.discharged ?? 0} discharged, ${coverage.evaluations} concrete runs, ${((performance.now() - t0) / 1000).toFixed(1)} s`)
process.exit(exit)
