// Bundles a contract or oracle file together with the real sources of /repo (esbuild only strips the types).
import { createRequire } from 'node:module'
import { existsSync } from 'node:fs'
import { dirname, join, resolve } from 'node:path'
import { fileURLToPath } from 'node:url'
import { REPO, resolveModule } from './program.mjs'

const require = createRequire('/opt/veriftools/node/node_modules/')
const esbuild = require('esbuild')
const HERE = dirname(fileURLToPath(import.meta.url))
// packages whose node_modules may hold an external dependency of the code or of an oracle
const FROM = ['packages/shared-stream', 'packages/shared', 'packages/stream-object', 'packages-ext/telemetry', 'packages-ext/responses', 'packages-top/xsschema', 'packages/tool', 'packages/generate-object', '']

export const bundle = async (entry, outfile) => {
  await esbuild.build({
    entryPoints: [entry], outfile, bundle: true, platform: 'node', format: 'esm', target: 'es2022', logLevel: 'error', write: true, sourcemap: false, treeShaking: true,
    banner: { js: 'import { createRequire as __cr } from "node:module"; const require = __cr("/opt/veriftools/node/node_modules/");' },
    plugins: [{
      name: 'verif',
      setup(b) {
        b.onResolve({ filter: /.*/ }, async (a) => {
          if (a.kind === 'entry-point' || a.path.startsWith('node:')) return undefined
          if (a.path === 'verif') return { path: join(HERE, 'conc/verif.mjs') }
          if (a.pluginData?.ext) return undefined
          if (a.path.startsWith('.')) {
            if (a.importer.includes('/node_modules/')) return undefined
            const f = resolveModule(a.path, a.importer)
            return f ? { path: f } : undefined
          }
          const f = resolveModule(a.path, a.importer)
          if (f) return { path: f }
          if (a.importer.includes('/node_modules/')) return undefined
          const dirs = a.importer.startsWith(REPO) ? [dirname(a.importer), ...FROM.map(d => resolve(REPO, d))] : FROM.map(d => resolve(REPO, d))
          for (const d of dirs) {
            if (!existsSync(d)) continue
            const r = await b.resolve(a.path, { resolveDir: d, kind: a.kind, pluginData: { ext: true } })
            if (!r.errors.length) return r
          }
          if (a.path.startsWith('/')) return { path: a.path }
          return { path: a.path, external: true }
        })
      },
    }],
  })
}
