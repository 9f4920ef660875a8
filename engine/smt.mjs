// Blocking conversation with a persistent Z3 process (over FIFOs), cvc5 as second opinion.
import { execFileSync, spawn, spawnSync } from 'node:child_process'
import * as fs from 'node:fs'
import { join } from 'node:path'
import { tmpdir } from 'node:os'
import { and, smt, smtQuote, smtSort } from './term.mjs'

const PRELUDE = `(set-option :print-success false)
(declare-sort O 0)
(declare-datatypes ((V 0)) (((undef) (nul) (vbool (bval Bool)) (vnum (nval Int)) (vstr (sval String)) (vobj (oval O)))))
(declare-fun get (O String) V)
(declare-fun has (O String) Bool)
(declare-fun kind (O) Int)
(declare-fun len (O) Int)
(declare-fun at (O Int) V)
`
export const stats = { queries: 0, ms: 0, cvc5: 0, unknown: 0, byBackend: {} }
const TIMEOUT = Number(process.env.VERIF_SMT_MS ?? 4000)
const STRONG = TIMEOUT * 5

export class Solver {
  constructor() {
    this.dir = fs.mkdtempSync(join(tmpdir(), 'verif-smt-'))
    const fin = join(this.dir, 'in'), fout = join(this.dir, 'out')
    execFileSync('mkfifo', [fin, fout])
    this.proc = spawn('sh', ['-c', `exec z3-new -in -smt2 <"${fin}" >"${fout}" 2>&1`], { stdio: 'ignore' })
    this.proc.unref()
    this.w = fs.openSync(fin, 'w')
    this.r = fs.openSync(fout, 'r')
    this.buf = ''
    this.frames = [{ defs: new Set(), decls: new Set(), term: null }]
    this.all = { defs: new Set(), decls: new Set() }
    this.cache = new Map()
    this.send(PRELUDE + `(set-option :timeout ${TIMEOUT})\n`)
  }

  close() {
    try { fs.writeSync(this.w, '(exit)\n') } catch {}
    try { fs.closeSync(this.w); fs.closeSync(this.r) } catch {}
    try { this.proc.kill() } catch {}
    fs.rmSync(this.dir, { force: true, recursive: true })
  }

  send(s) { let b = Buffer.from(s); let o = 0; while (o < b.length) o += fs.writeSync(this.w, b, o) }
  readLine() {
    while (true) {
      const i = this.buf.indexOf('\n')
      if (i >= 0) { const l = this.buf.slice(0, i); this.buf = this.buf.slice(i + 1); return l }
      const b = Buffer.alloc(65536)
      const n = fs.readSync(this.r, b, 0, b.length, null)
      if (n === 0) throw new Error('solver died: ' + this.buf)
      this.buf += b.subarray(0, n).toString()
    }
  }

  known(kind, x) { return this.all[kind].has(x) }
  mark(kind, x) { this.all[kind].add(x); this.frames[this.frames.length - 1][kind].add(x) }
  drop(f) { for (const x of f.defs) this.all.defs.delete(x); for (const x of f.decls) this.all.decls.delete(x) }
  decl(name, args, sort, out) {
    if (this.known('decls', name)) return
    this.mark('decls', name)
    out.push(`(declare-fun ${smtQuote(name)} (${args.map(smtSort).join(' ')}) ${smtSort(sort)})`)
  }

  // define every compound subterm once per frame
  define(t, out) {
    const go = (u) => {
      const leaf = u.args.length === 0
      if (leaf) return smt(u, go, (n, a, s) => this.decl(n, a, s, out))
      if (!this.known('defs', u.id)) {
        const body = smt(u, go, (n, a, s) => this.decl(n, a, s, out))
        this.mark('defs', u.id)
        out.push(`(define-fun t${u.id} () ${smtSort(u.sort)} ${body})`)
      }
      return `t${u.id}`
    }
    return go(t)
  }

  // make the assertion stack equal to the list of facts
  sync(facts) {
    let i = 0
    while (i + 1 < this.frames.length && i < facts.length && this.frames[i + 1].term === facts[i]) i++
    const pops = this.frames.length - 1 - i
    if (pops > 0) { this.send(`(pop ${pops})\n`); for (const f of this.frames.slice(i + 1)) this.drop(f); this.frames.length = i + 1 }
    for (; i < facts.length; i++) this.push(facts[i])
  }
  push(t) {
    const out = ['(push 1)']
    this.frames.push({ defs: new Set(), decls: new Set(), term: t })
    const n = this.define(t, out)
    out.push(`(assert ${n})`)
    this.send(out.join('\n') + '\n')
  }
  pop() { this.drop(this.frames.pop()); this.send('(pop 1)\n') }

  /** 'sat' | 'unsat' | 'unknown' for facts ∧ extra */
  check(facts, extra, { strong = false } = {}) {
    const key = facts.map(f => f.id).join(',') + '|' + extra.id + (strong ? 's' : '')
    const c = this.cache.get(key)
    if (c) return c
    this.sync(facts)
    const t0 = performance.now()
    this.push(extra)
    const ask = (ms) => {
      this.send(ms ? `(set-option :timeout ${ms})\n(check-sat)\n(set-option :timeout ${TIMEOUT})\n` : '(check-sat)\n')
      let r = this.readLine()
      while (r !== 'sat' && r !== 'unsat' && r !== 'unknown' && r !== 'timeout') {
        if (r.startsWith('(error')) throw new Error(`z3: ${r}\n${this.script(facts, extra)}`)
        r = this.readLine()
      }
      return r
    }
    let r = ask(strong ? undefined : this.limit)
    let model
    let backend = 'z3'
    if ((r === 'unknown' || r === 'timeout') && strong) {
      r = this.cvc5(facts, extra); backend = 'cvc5'
      if (r === 'unknown') { r = ask(STRONG); backend = 'z3' }
    }
    if (r === 'sat' && strong && backend === 'z3') model = this.model()
    this.pop()
    if (process.env.QSTAT === '2' && r === 'sat') { const k = new Error().stack.split('\n').slice(2, 7).map(l => l.replace(/.*at (.*) \(.*\/(.*)\)/, '$1 $2')).join(' < '); (stats.st ??= new Map()).set(k, (stats.st.get(k) ?? 0) + 1) }
    if (process.env.QSTAT) { const dt = performance.now() - t0; const k = `${r} ${extra.op === 'not' ? '¬' + extra.args[0].op : extra.op} ${strong ? 'strong' : ''}`; (stats.q ??= new Map()); const e = stats.q.get(k) ?? [0, 0]; stats.q.set(k, [e[0] + 1, e[1] + dt]) }
    stats.queries++
    stats.ms += performance.now() - t0
    if (r === 'unknown' || r === 'timeout') { r = 'unknown'; stats.unknown++ }
    const res = { r, model, backend }
    this.cache.set(key, res)
    return res
  }

  model() {
    this.send('(get-model)\n(echo "END-MODEL")\n')
    const lines = []
    for (;;) { const l = this.readLine(); if (l === 'END-MODEL' || l === '"END-MODEL"') break; lines.push(l); if (lines.length > 4000) { continue } }
    return lines.join('\n')
  }

  script(facts, extra) {
    const save = this.frames, all = this.all
    this.frames = [{ defs: new Set(), decls: new Set(), term: null }]; this.all = { defs: new Set(), decls: new Set() }
    const out = [PRELUDE.replace('(set-option :print-success false)\n', '(set-logic ALL)\n')]
    for (const f of [...facts, extra]) { const n = this.define(f, out); out.push(`(assert ${n})`) }
    out.push('(check-sat)')
    this.frames = save; this.all = all
    return out.join('\n')
  }

  cvc5(facts, extra) {
    stats.cvc5++
    const r = spawnSync('cvc5', ['--lang=smt2', `--tlimit=${STRONG}`, '--strings-exp', '-q', '-'], { input: this.script(facts, extra), encoding: 'utf8', timeout: STRONG * 2 })
    const o = (r.stdout ?? '').trim().split('\n')[0]
    return o === 'sat' || o === 'unsat' ? o : 'unknown'
  }
}
