// Builds and verifies planted bugs: node tools/mkseed.mjs [id...]
import { execFileSync, spawnSync } from 'node:child_process'
import fs from 'node:fs'
import path from 'node:path'
import { SEEDS } from './seeds.mjs'

const here = import.meta.dirname
const only = process.argv.slice(2)
const scratch = '/tmp/seed-scratch'
const base = '/opt/vp/BASELINE.json'
const sh = (cmd, cwd) => spawnSync('bash', ['-c', cmd], { cwd, encoding: 'utf8', timeout: 300_000 })
fs.rmSync(scratch, { recursive: true, force: true })
sh(`cp -a /repo ${scratch}`, '/tmp')
const baseline = JSON.parse(fs.readFileSync(base, 'utf8'))
const stable = baseline.stable
let bad = 0
for (const seed of SEEDS) {
  if (only.length && !only.includes(seed.id)) continue
  const fail = (m) => { console.log(`${seed.id}: ${m}`); bad++ }
  const dir = path.join(here, '../seeded', seed.id)
  if (only.length === 0 && fs.existsSync(path.join(dir, 'patch.diff')) && !process.env.FORCE) continue
  execFileSync('git', ['-C', scratch, 'checkout', '-q', '--', '.'])
  const stage = `/tmp/seed-stage/${seed.id}`
  fs.rmSync(stage, { recursive: true, force: true })
  fs.mkdirSync(stage, { recursive: true })
  fs.copyFileSync(path.join(here, 'demo-lib.mjs'), path.join(stage, 'demo-lib.mjs'))
  fs.writeFileSync(path.join(stage, 'demo.mjs'), `import { assert, collect, completion, demo, from, json, limit, load, sse } from './demo-lib.mjs'\n\ndemo(async () => {${seed.demo.replace(/\n/g, '\n  ').replace(/\n\s+$/, '')}\n})\n`)
  fs.writeFileSync(path.join(stage, 'demo.sh'), '#!/usr/bin/env bash\n# run in the repository root: exit 0 if the property holds in this case\nexec tsx "$(dirname "$0")/demo.mjs"\n', { mode: 0o755 })
  fs.writeFileSync(path.join(stage, 'meta.json'), `${JSON.stringify({ property: seed.property, needs: seed.needs, what_it_breaks: seed.breaks }, null, 2)}\n`)
  const clean = sh(`bash ${stage}/demo.sh`, scratch)
  if (clean.status !== 0) { fail(`demo fails on the unchanged tree: ${clean.stderr.slice(0, 600)}`); continue }
  let ok = true
  for (const [file, find, replace] of seed.edits) {
    const f = path.join(scratch, file)
    const text = fs.readFileSync(f, 'utf8')
    if (text.split(find).length !== 2) { fail(`edit does not match exactly once in ${file}`); ok = false; break }
    fs.writeFileSync(f, text.replace(find, () => replace))
  }
  if (!ok) continue
  const diff = execFileSync('git', ['-C', scratch, 'diff'], { encoding: 'utf8' })
  fs.writeFileSync(path.join(stage, 'patch.diff'), diff)
  const demo = sh(`bash ${stage}/demo.sh`, scratch)
  if (demo.status === 0) { fail('demo passes with the patch'); continue }
  if (!/AssertionError|still pending|Missing expected/.test(demo.stderr)) console.log(`${seed.id}: note: demo fails with ${demo.stderr.slice(0, 300)}`)
  // the build and test scripts work on /repo: apply there for a moment
  execFileSync('git', ['-C', '/repo', 'apply', path.join(stage, 'patch.diff')])
  let b, t
  try {
    b = sh('bash /opt/vp/build.sh', '/repo')
    t = sh('bash /opt/vp/test.sh /tmp/seed-tests.json', '/repo')
  }
  finally { execFileSync('git', ['-C', '/repo', 'checkout', '--', '.']) }
  if (b.status !== 0) { fail(`does not build: ${b.stderr.slice(-400)}`); continue }
  const passed = new Set(JSON.parse(fs.readFileSync('/tmp/seed-tests.json', 'utf8')).passed)
  const broken = stable.filter(x => !passed.has(x))
  if (broken.length) { fail(`breaks tests: ${broken.join('; ').slice(0, 300)}`); continue }
  fs.rmSync(dir, { recursive: true, force: true })
  fs.cpSync(stage, dir, { recursive: true })
  console.log(`${seed.id}: ok`)
}
fs.rmSync(scratch, { recursive: true, force: true })
fs.rmSync('/tmp/seed-stage', { recursive: true, force: true })
sh('bash /opt/vp/build.sh', '/repo')
process.exit(bad ? 1 : 0)
