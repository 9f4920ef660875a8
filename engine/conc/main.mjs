// Builds the bundle of a module and runs it in a child process; returns the parsed result.
import { spawn } from 'node:child_process'
import { mkdtempSync, readFileSync, rmSync, writeFileSync } from 'node:fs'
import { tmpdir } from 'node:os'
import { join } from 'node:path'
import { fileURLToPath } from 'node:url'
import { bundle } from '../bundle.mjs'

const HERE = fileURLToPath(new URL('.', import.meta.url))
/** kind 'oracle': the module exports `cases`; kind 'contract': its exports Cxx_* are run on the real code */
export const runConcrete = async (file, kind, arg, { killMs = 600000 } = {}) => {
  const dir = mkdtempSync(join(tmpdir(), 'verif-'))
  try {
    const entry = join(dir, 'entry.ts'), out = join(dir, 'bundle.mjs')
    writeFileSync(entry, kind === 'oracle'
      ? `import { cases } from ${JSON.stringify(file)}\nimport { run } from ${JSON.stringify(join(HERE, 'runner.mjs'))}\nawait run(cases)\n`
      : `import * as m from ${JSON.stringify(file)}\nimport { run } from ${JSON.stringify(join(HERE, 'runner.mjs'))}\nimport { makeV } from ${JSON.stringify(join(HERE, 'verif.mjs'))}\nconst cases = {}\nfor (const [n, f] of Object.entries(m)) if (/^C\\d\\d_/.test(n) && typeof f === 'function') cases[n] = g => f(makeV(g))\nawait run(cases)\n`)
    try { await bundle(entry, out) }
    catch (e) { return { buildError: String(e.message ?? e) } }
    return await new Promise((res) => {
      const p = spawn(process.execPath, ['--no-warnings', out, JSON.stringify(arg)], { stdio: ['ignore', 'pipe', 'pipe'], cwd: dir })
      let so = '', se = '', killed = false
      p.stdout.on('data', (d) => { so += d; if (so.length > 4e6) so = so.slice(-3e6) })
      p.stderr.on('data', (d) => { se += d; if (se.length > 1e5) se = se.slice(-5e4) })
      const t = setTimeout(() => { killed = true; p.kill('SIGKILL') }, killMs)
      p.on('close', (code) => {
        clearTimeout(t)
        const i = so.lastIndexOf('@@RESULT ')
        if (i >= 0) return res(JSON.parse(so.slice(i + 9)))
        let at
        try { at = readFileSync(join(dir, 'progress'), 'utf8').trim() } catch {}
        res({ crash: true, at, killed, code, stderr: se.slice(-4000), stdout: so.slice(-2000) })
      })
    })
  }
  finally { rmSync(dir, { recursive: true, force: true }) }
}
if (process.argv[1] === fileURLToPath(import.meta.url)) {
  // debugging: node main.mjs file kind [budgetMs] [only] [index]
  const [, , file, kind, budget, only, index] = process.argv
  const { resolve, basename } = await import('node:path')
  const r = await runConcrete(resolve(file), kind, { property: basename(file, '.ts').slice(0, 3), seed: Number(process.env.VERIF_SEED ?? 1), budgetMs: Number(budget ?? 5000), maxRuns: 5000, only: only || undefined, index: index === undefined ? undefined : Number(index) })
  if (r.failures) { console.log(JSON.stringify(r.cases), r.ms + ' ms'); for (const f of r.failures) console.log(`FAIL ${f.case}#${f.index}: ${f.message}\n${f.stack}\n${f.inputs}\n${f.detail ?? ''}`) }
  else console.log(r)
}
