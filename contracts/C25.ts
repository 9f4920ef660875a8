import { sleep } from '@moeru/std/sleep'
import { T } from 'verif'
import { simulateReadableStream, smoothStream } from '@xsai/utils-stream'

const WORD = /\s*\S+\s+/, LINE = /[^\n]*\n/
/** any text in any chunks; each piece that comes out is taken off what has come in so far */
const smooth = async (v, chunking, pattern) => {
  if (!v.isSymbolic()) v.stop()
  const chunks = v.any('chunks', T.arr(T.str))
  // what has come in and not gone out, and how much of it the next unit takes: nothing if there is none yet
  const unitOf = (text) => { const m = new RegExp(pattern).exec(text); return m === null ? 0 : m.index + m[0].length }
  const g = { rest: '', unit: 0, ended: false }
  const input = v.source(chunks).pipeThrough(new TransformStream({ transform: (c, k) => { g.rest += c; g.unit = unitOf(g.rest); k.enqueue(c) }, flush: () => { g.ended = true } }))
  const output = input.pipeThrough(smoothStream({ chunking, delay: 0 })).pipeThrough(new TransformStream({
    transform: (piece, k) => {
      if (g.ended) {
        v.ensure('what is left at the end holds no complete unit', g.unit === 0)
        v.ensure('what is left comes out at the end', piece === g.rest && piece !== '')
        g.rest = ''
      }
      else {
        v.ensure('a piece comes out once it is complete', g.unit > 0)
        v.ensure('a piece is the next unit', piece === g.rest.slice(0, g.unit))
        g.rest = g.rest.slice(g.unit)
        g.unit = unitOf(g.rest)
      }
      k.enqueue(piece)
    },
  }))
  const r = await v.collect(output)
  v.ensure('nothing is left', g.rest === '')
  v.ensure('it ends', r.state === 'closed')
}
export const C25_word = v => smooth(v, 'word', WORD)
export const C25_default = v => smooth(v, undefined, WORD)
export const C25_line = v => smooth(v, 'line', LINE)
export const C25_pattern = async (v) => {
  const pattern = v.regex('pattern')
  await smooth(v, pattern, pattern)
  v.ensure('the given pattern is not touched', pattern.lastIndex === 0)
}
/** the chunks and the waits before them, in the order they happen */
export const C25_simulate = async (v) => {
  const chunks = v.any('chunks', T.arr(T.any)), initialDelay = v.isSymbolic() ? v.any('initialDelay', T.nat) : 3, chunkDelay = v.isSymbolic() ? v.any('chunkDelay', T.nat) : 1
  const seen = [], waits = v.isSymbolic()
  v.contract(sleep, async (ms) => { seen.push({ wait: ms }) })
  const output = simulateReadableStream({ chunkDelay, chunks, initialDelay }).pipeThrough(new TransformStream({ transform: (chunk, k) => { seen.push({ chunk }); k.enqueue(chunk) } }))
  const r = await v.collect(output)
  v.eq('the chunks and waits', seen, chunks.flatMap((chunk, i) => [...waits ? [{ wait: i === 0 ? initialDelay : chunkDelay }] : [], { chunk }]))
  v.eq('the chunks', r.chunks, chunks)
  v.ensure('and then the end', r.state === 'closed')
}
