// Nothing to build: the framework is plain Node. Checks that the tools it uses are there.
import { execFileSync } from 'node:child_process'
import { mkdirSync } from 'node:fs'
for (const [c, a] of [['z3-new', '--version'], ['cvc5', '--version']]) execFileSync(c, [a], { stdio: 'ignore' })
mkdirSync(new URL('../evidence', import.meta.url), { recursive: true })
console.log('ready')
