import { dirname, resolve } from 'node:path'
import { fileURLToPath } from 'node:url'
export const ENGINE = dirname(fileURLToPath(import.meta.url))
export const PRELUDE = resolve(ENGINE, 'prelude.ts')
export const REPO_ROOT = process.env.VERIF_REPO ?? '/repo'
export const VERIF = resolve(ENGINE, '..')
