// development helper: node tools/prove-all.mjs C07 C08 … proves every contract of the given files in parallel
import { execFile } from 'node:child_process'
import { contractsOf } from '../engine/contracts.mjs'
const ids = process.argv.slice(2)
const jobs = ids.flatMap(id => { const [f, n] = id.split(':'); return contractsOf(new URL(`../contracts/${f}.ts`, import.meta.url).pathname).filter(c => !n || c.name.includes(n)).map(c => [f, c.name]) })
let i = 0
const B = process.env.BUDGET ?? '200000'
await Promise.all(Array.from({ length: Number(process.env.J ?? 7) }, async () => {
  while (i < jobs.length) {
    const [f, n] = jobs[i++]
    await new Promise(r => execFile(process.execPath, ['--no-warnings', '--stack-size=16000', 'run1.mjs', `../contracts/${f}.ts`, n + '$'], { cwd: new URL('../engine', import.meta.url).pathname, env: { ...process.env, BUDGET: B }, maxBuffer: 1e8 }, (e, so, se) => { console.log(so.trim().slice(0, 3000), e ? se.slice(-1500) : ''); r() }))
  }
}))
