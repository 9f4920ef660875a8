// Worker: verifies the contracts named on the command line and prints one JSON line per contract.
import { verifyContract } from './verify.mjs'
import { Solver } from './smt.mjs'
const [, , file, budget, ...names] = process.argv
const out = (x) => process.stdout.write('@@CONTRACT ' + JSON.stringify(x) + '\n')
for (const name of names) {
  const solver = new Solver()
  let r
  try { r = verifyContract(file, name, { solver, budgetMs: Number(budget) }) }
  catch (e) { r = { name, file, crash: String(e.stack ?? e).slice(0, 3000), obligations: [], calls: [], reached: [], externals: [], usedContracts: [], solver: { queries: 0, ms: 0, cvc5: 0 } } }
  solver.close()
  for (const o of r.obligations) { if (o.model) o.model = o.model.slice(0, 8000); if (o.info) o.info = String(o.info).slice(0, 4000) }
  out(r)
}
