// Loads the real TypeScript sources of /repo (and the contract files) through the TypeScript compiler API.
import { createRequire } from 'node:module'
import * as fs from 'node:fs'
import { dirname, resolve } from 'node:path'

const require = createRequire('/opt/veriftools/node/node_modules/')
export const ts = require('typescript')
export const REPO = process.env.VERIF_REPO ?? '/repo'

const options = {
  target: ts.ScriptTarget.ESNext,
  module: ts.ModuleKind.ESNext,
  moduleResolution: ts.ModuleResolutionKind.Bundler,
  resolveJsonModule: true,
}
const host = ts.createCompilerHost(options)
const resCache = ts.createModuleResolutionCache(REPO, x => x, options)

// In contract files, bare specifiers are resolved as if from /repo/packages-top/xsai (which depends on everything)
const BASES = ['packages-top/xsai/src/index.ts', 'packages-ext/telemetry/src/index.ts', 'packages-ext/responses/src/index.ts', 'packages-ext/providers/src/index.ts', 'packages-top/xsfetch/src/index.ts', 'packages/tool/src/index.ts', 'packages/stream-object/src/index.ts', 'packages/generate-object/src/index.ts']

const files = new Map()
export const parse = (file) => {
  let f = files.get(file)
  if (!f) {
    const text = (file.endsWith('.json') ? 'export default ' : '') + fs.readFileSync(file, 'utf8')
    f = ts.createSourceFile(file, text, ts.ScriptTarget.ESNext, true, file.endsWith('x') ? ts.ScriptKind.TSX : ts.ScriptKind.TS)
    if (f.parseDiagnostics?.length) throw new Error(`${file}: syntax error: ${ts.flattenDiagnosticMessageText(f.parseDiagnostics[0].messageText, ' ')}`)
    files.set(file, f)
  }
  return f
}
export const loadedFiles = () => [...files.keys()]

const PKGDIRS = ['packages', 'packages-top', 'packages-ext']
const packages = new Map()
for (const d of PKGDIRS) {
  const dir = resolve(REPO, d)
  if (!fs.existsSync(dir)) continue
  for (const p of fs.readdirSync(dir)) {
    const pj = resolve(dir, p, 'package.json')
    if (fs.existsSync(pj)) packages.set(JSON.parse(fs.readFileSync(pj, 'utf8')).name, resolve(dir, p))
  }
}

const exists = f => fs.existsSync(f) && fs.statSync(f).isFile()
const tryFile = (p) => {
  for (const c of [p, `${p}.ts`, `${p}.tsx`, `${p}/index.ts`, p.replace(/\.js$/, '.ts')]) if (exists(c)) return c
}

/** absolute file of a module of the repository, or undefined for an external module */
export const resolveModule = (spec, from) => {
  if (spec.startsWith('.')) return tryFile(resolve(dirname(from), spec))
  if (spec.startsWith('/')) return tryFile(spec.startsWith('/repo/') ? REPO + spec.slice(5) : spec)
  for (const [name, dir] of packages) {
    if (spec === name || spec.startsWith(name + '/')) {
      const pj = JSON.parse(fs.readFileSync(resolve(dir, 'package.json'), 'utf8'))
      const sub = '.' + spec.slice(name.length)
      let e = typeof pj.exports === 'string' ? (sub === '.' ? pj.exports : undefined) : pj.exports?.[sub] ?? (sub === '.' ? './src/index.ts' : undefined)
      if (e && typeof e === 'object') e = e.default ?? e.import ?? e.types
      if (typeof e === 'string') {
        const f = tryFile(resolve(dir, e.replace(/^\.\/dist\/(.*)\.js$/, './src/$1.ts')))
        if (f) return f
      }
      return tryFile(resolve(dir, 'src', sub)) ?? tryFile(resolve(dir, 'src/index.ts'))
    }
  }
  if (spec.startsWith('@moeru/std')) { // small helpers of the same authors: their real code is interpreted too
    try { return createRequire(from).resolve(spec) }
    catch {
      for (const b of BASES) { try { return createRequire(resolve(REPO, b)).resolve(spec) } catch {} }
    }
  }
  return undefined
}
export const repoPackages = packages
