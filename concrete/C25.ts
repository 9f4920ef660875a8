import { simulateReadableStream, smoothStream } from '@xsai/utils-stream'
import { check, collect, same, tick } from './lib'

const PATTERNS: any[] = [undefined, 'word', 'line', 'word', 'line', /\S+\s+/, /[,.;]/, /a|bb/, /x*/, /(?:)/, /[\s\S]/, /./g, /\w+\s/g, /\s*\S+\s+/y, /[^\n]*\n/gy, /日|é/u, /b+/i, /[aeiou]{2}/, /never/]
export const cases: any = {
  smooth: async (g: any) => {
    const chunking = g.pick(PATTERNS)
    const text = g.list(() => g.weighted([[3, () => g.word() + ' '], [2, () => g.str()], [1, '\n'], [1, '  '], [1, () => g.str(10)]]), 0, 10).join('')
    const pieces = g.split(text, { empties: true }), opts: any = { delay: 0, ...(chunking === undefined ? {} : { chunking }) }
    g.note('pieces', pieces); g.note('chunking', String(chunking))
    const last = chunking instanceof RegExp ? chunking.lastIndex : 0
    let i = 0
    const pause = g.bool(0.2)
    const src = new ReadableStream<string>({ async pull(c) { if (pause) await tick(); if (i < pieces.length) c.enqueue(pieces[i++]); else c.close() } })
    const r = await collect<string>(src.pipeThrough(smoothStream(opts)), 'smoothed stream')
    same('end', r.end, 'closed'); same('text', r.items.join(''), text)
    check(r.items.every(x => typeof x === 'string' && x !== ''), 'an empty piece', r.items)
    if (chunking instanceof RegExp) same('the caller\'s pattern', chunking.lastIndex, last)
    const base = chunking === undefined || chunking === 'word' ? /\s*\S+\s+/ : chunking === 'line' ? /[^\n]*\n/ : chunking
    const unit = (s: string) => { const m = new RegExp(base.source, base.flags).exec(s); return m === null ? 0 : m.index + m[0].length }
    r.items.forEach((p, k) => {
      const n = unit(p)
      if (k < r.items.length - 1) same(`unit length of piece ${k} ${JSON.stringify(p)}`, n, p.length)
      else check(n === 0 || n === p.length, `the last piece ${JSON.stringify(p)} still holds a unit`)
    })
  },
  simulate: async (g: any) => {
    const chunks = g.list(() => g.weighted([[3, () => g.str()], [1, () => g.json(1)], [1, undefined], [1, null], [1, 0]]), 0, 8)
    const initialDelay = g.bool(0.3) ? 0 : g.int(0, 3) * 10 + 1, chunkDelay = g.bool(0.2) ? 0 : g.int(0, 3) * 10 + 2
    g.note('chunks', chunks); g.note('delays', [initialDelay, chunkDelay])
    const real = globalThis.setTimeout
    const waits: number[] = [], at: number[] = []
    ;(globalThis as any).setTimeout = (f: any, ms: any, ...a: any[]) => { waits.push(ms); return real(f, 0, ...a) }
    const items: any[] = []
    let closed = false
    try {
      const rd = (simulateReadableStream({ chunkDelay, chunks, initialDelay }) as ReadableStream).getReader()
      for (;;) { const x = await rd.read(); if (x.done) { closed = true; break } items.push(x.value); at.push(waits.length) }
    }
    finally { globalThis.setTimeout = real }
    check(closed, 'not closed'); check(items.length === chunks.length && items.every((x, i) => Object.is(x, chunks[i])), 'chunks differ', items)
    const total = (n: number) => waits.slice(0, n).reduce((a, b) => a + b, 0)
    same('total wait', total(waits.length), chunks.length ? initialDelay + chunkDelay * (chunks.length - 1) : 0)
    if (chunks.length) { same('first wait', waits[0], initialDelay); at.forEach((n, i) => check(total(n) >= initialDelay + chunkDelay * i, `chunk ${i} came too early`)) }
  },
}
