// Runs the checks against the planted bugs: node tools/runseeds.mjs [id...]; ALSO=C01,C02 runs more checks on each
import { execFileSync, spawnSync } from 'node:child_process'
import fs from 'node:fs'
import path from 'node:path'

const here = import.meta.dirname
const only = process.argv.slice(2)
const dir = path.join(here, '../seeded')
const out = []
for (const id of fs.readdirSync(dir).sort()) {
  if (only.length && !only.some(o => id.startsWith(o))) continue
  const meta = JSON.parse(fs.readFileSync(path.join(dir, id, 'meta.json'), 'utf8'))
  execFileSync('git', ['-C', '/repo', 'apply', path.join(dir, id, 'patch.diff')])
  try {
    for (const p of [meta.property, ...(process.env.ALSO ?? '').split(',').filter(x => x && x !== meta.property)]) {
      const t = Date.now()
      const r = spawnSync('node', [path.join(here, '../bin/check.mjs'), p], { encoding: 'utf8', timeout: 900_000 })
      const line = (r.stdout.match(/VIOLATION.*/) ?? [''])[0]
      console.log(`${id} ${p}: exit ${r.status} ${((Date.now() - t) / 1000).toFixed(0)} s ${line}`)
      out.push([id, p, r.status])
    }
  }
  finally { execFileSync('git', ['-C', '/repo', 'checkout', '--', '.']) }
}
console.log(`caught ${out.filter(o => o[2] === 1).length} of ${out.length}`)
