// Seeded generator used by the concrete oracles and by contracts executed on the real code.
const mix = (h, x) => { h = Math.imul(h ^ x, 0x9E3779B1); return (h ^ (h >>> 15)) >>> 0 }
export const hash = (...xs) => { let h = 0x811C9DC5; for (const x of xs) for (const c of String(x)) h = mix(h, c.charCodeAt(0) + 1); return h >>> 0 }

const WORDS = ['', 'a', 'b', 'foo', 'bar', 'hello world', ' ', '\n', 'line\nbreak', 'tab\t', '"quoted"', 'back\\slash', '{', '}', '[]', '{}', 'null', 'undefined', '0', 'é', '日本語', '😀', '𝕏y', '\u2028', 'a'.repeat(40), '<think>', '$&', 'data: x', 'Weather', 'true', 'x,y', '%20', 'ÀÈ', '\\u0041']
const KEYS = ['a', 'b', 'temperature', 'maxTokens', 'topP', 'user', 'logitBias', 'x', 'fooBarBaz', 'reasoningEffort', 'seed', 'n', 'aB', 'metaData2', 'X', 'ID', 'someURLHere', 'snake_case', 'with-dash', 'stream', 'k1', 'k2', 'serviceTier', '0']

export class Gen {
  constructor(seed, size = 8) { this.s = seed >>> 0; this.size = size; this.log = [] }
  next() { // splitmix32
    this.s = (this.s + 0x9E3779B9) >>> 0
    let t = this.s ^ (this.s >>> 16); t = Math.imul(t, 0x21F0AAAD); t ^= t >>> 15; t = Math.imul(t, 0x735A2D97)
    return ((t ^ (t >>> 15)) >>> 0) / 4294967296
  }
  int(a, b) { return a + Math.floor(this.next() * (b - a + 1)) }
  bool(p = 0.5) { return this.next() < p }
  pick(xs) { return xs[this.int(0, xs.length - 1)] }
  weighted(pairs) { let t = 0; for (const [w] of pairs) t += w; let r = this.next() * t; for (const [w, v] of pairs) { r -= w; if (r < 0) return typeof v === 'function' ? v() : v } return undefined }
  opt(f, p = 0.5) { return this.bool(p) ? f() : undefined }
  list(f, a = 0, b = Math.max(a, this.size)) { const n = this.int(a, Math.min(b, Math.max(a, this.size))); return Array.from({ length: n }, (_, i) => f(i)) }
  str(max) { if (max !== undefined) { let s = ''; const n = this.int(0, max); for (let i = 0; i < n; i++) s += this.pick(['a', 'b', 'c', ' ', '1', '"', '\n', 'é', '😀', '<', '>', '/', '{', '}']); return s } return this.weighted([[4, () => this.pick(WORDS)], [2, () => this.pick(WORDS) + this.pick(WORDS)], [1, () => this.str(12)]]) }
  text() { return this.str() || 'x' }
  word() { let s = ''; const n = this.int(1, 6); for (let i = 0; i < n; i++) s += this.pick([...'abcdefghijklmnopqrstuvwxyz']); return s }
  key() { return this.bool(0.8) ? this.pick(KEYS) : this.word() }
  num() { return this.weighted([[3, () => this.int(0, 5)], [2, () => this.int(-10, 1000)], [1, () => this.pick([0.5, -1.25, 1e6, 0.1])]]) }
  prim() { return this.weighted([[4, () => this.str()], [2, () => this.num()], [1, true], [1, false], [1, null]]) }
  json(d = 3) { return this.weighted([[5, () => this.prim()], [d > 0 ? 2 : 0, () => this.list(() => this.json(d - 1), 0, 3)], [d > 0 ? 3 : 0, () => this.obj(d - 1)]]) }
  obj(d = 2, n = 4) { const o = {}; for (let i = this.int(0, n); i > 0; i--) o[this.key()] = this.json(d); return o }
  shuffle(xs) { xs = [...xs]; for (let i = xs.length - 1; i > 0; i--) { const j = this.int(0, i); [xs[i], xs[j]] = [xs[j], xs[i]] } return xs }
  /** random split into pieces (strings or Uint8Array), none of them empty unless `empties` */
  split(x, { empties = false } = {}) {
    if (!x.length) return empties && this.bool() ? [x] : []
    const mode = this.int(0, 4)
    if (mode === 0) return [x]
    const out = []
    let i = 0
    while (i < x.length) {
      const n = mode === 1 ? 1 : mode === 2 ? this.int(1, 3) : mode === 3 ? this.int(1, 12) : this.int(1, Math.max(1, x.length))
      out.push(x.slice(i, i + n)); i += n
      if (empties && this.bool(0.1)) out.push(x.slice(0, 0))
    }
    return out
  }
  note(label, value) { this.log.push([label, value]); return value }
}
