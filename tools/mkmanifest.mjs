import { writeFileSync } from 'node:fs'
import { PROPS } from '../props.config.mjs'
const checks = Object.keys(PROPS).sort().map(id => ({ property: id, quick_cmd: `node bin/check.mjs ${id}`, thorough_cmd: `node bin/check.mjs ${id} thorough`, evidence_file: `evidence/${id}.json`, technique: PROPS[id].technique, level: PROPS[id].level, level_note: PROPS[id].note }))
writeFileSync(new URL('../MANIFEST.json', import.meta.url), JSON.stringify({ version: 1, setup_cmd: 'node bin/setup.mjs', checks, not_applicable: [], notes: 'No hooks in /repo. See DESIGN.md.' }, null, 1) + '\n')
