import { extractReasoning, extractReasoningStream } from '@xsai/utils-reasoning'
import { check, collect, same, tick } from './lib'

const esc = (s: string) => s
/** sections of a text: [isReasoning, content] in order; an unfinished section is reported apart */
const sections = (text: string, tag: string, start: boolean) => {
  const S = `<${tag}>`, E = `</${tag}>`
  const out: [boolean, string][] = []
  let r = start, rest = text
  for (;;) {
    const t = r ? E : S, i = rest.indexOf(t)
    if (i < 0) { out.push([r, rest]); return out }
    out.push([r, rest.slice(0, i)]); rest = rest.slice(i + t.length); r = !r
  }
}
const TAGS = ['think', 'think', 'reasoning', 'a', 'a.b', 'x*', '(q', '[c]', 'a|b', '$', '^', '\\d', 'thinkthink', '日', 't+', '{2}', '?', '<', '>', '/', 'a>b', '']
const make = (g: any) => {
  const tag = g.pick(TAGS), S = `<${tag}>`, E = `</${tag}>`
  const parts = g.list(() => g.weighted([[4, () => g.str()], [3, () => S], [3, () => E], [1, () => S.slice(0, g.int(1, S.length))], [1, () => E.slice(0, g.int(1, E.length))], [1, () => S + g.str() + E], [1, '<'], [0.5, '</'], [0.5, () => S.slice(1)]]), 0, 10)
  const start = g.weighted([[3, undefined], [1, false], [2, true]]) as boolean | undefined
  const sep = g.pick([undefined, undefined, '\n\n', '', '--', '$&'])
  const dflt = tag === 'think' && start === undefined && sep === undefined && g.bool()
  const opts: any = dflt ? undefined : { tagName: tag, ...(start === undefined ? {} : { startWithReasoning: start }), ...(sep === undefined ? {} : { separator: sep }) }
  return { tag, S, E, text: parts.join(''), start: start ?? false, sep: sep ?? '\n', opts }
}
export const cases: any = {
  whole: (g: any) => {
    const { tag, S, E, text, start, sep, opts } = make(g)
    g.note('text', text); g.note('options', opts)
    const full = start ? S + text : text
    const reason: string[] = [], texts: string[] = []
    let at = 0
    for (;;) {
      const i = full.indexOf(S, at), j = i < 0 ? -1 : full.indexOf(E, i + S.length)
      if (j < 0) break
      if (i > at) texts.push(full.slice(at, i))
      reason.push(full.slice(i + S.length, j)); at = j + E.length
    }
    const r = opts ? extractReasoning(text, opts) : extractReasoning(text)
    if (!reason.length) { same('reasoning', r.reasoning, undefined); same('text', r.text, text); return }
    texts.push(full.slice(at))
    same('reasoning', r.reasoning, reason.join(sep)); same('text', r.text, texts.join(sep))
    void tag; void esc
  },
  stream: async (g: any) => {
    const { text, tag, start, sep, opts } = make(g)
    const pieces = g.split(text, { empties: true }), failing = g.bool(0.15), reason = g.pick([new Error('up'), null, 'x'])
    g.note('pieces', pieces); g.note('options', opts); g.note('fails', failing ? [reason] : undefined)
    let i = 0
    const pause = g.bool(0.3)
    const src = new ReadableStream<string>({ async pull(c) { if (pause) await tick(); if (i < pieces.length) c.enqueue(pieces[i++]); else if (failing) c.error(reason); else c.close() } })
    const r = opts ? extractReasoningStream(src, opts) : extractReasoningStream(src)
    // the reader of one of the streams may leave after a few pieces: the other goes on
    const left = g.weighted([[4, 'none'], [1, 'reasoning'], [1, 'text']]), after = g.int(0, 2)
    g.note('cancelled', [left, after])
    const part = async (s: ReadableStream<string>) => { const rd = s.getReader(); for (let k = 0; k < after; k++) { try { if ((await rd.read()).done) break } catch { break } } await rd.cancel('left').catch(() => {}); return undefined as any }
    const read = (s: ReadableStream<string>, n: string) => n === left ? part(s) : collect<string>(s, `${n} stream`)
    const [a, b] = await Promise.all([read(r.reasoningStream, 'reasoning'), read(r.textStream, 'text')])
    if (failing) {
      for (const [n, x] of [['reasoning stream', a], ['text stream', b]] as any) if (x) { same(`${n} end`, x.end, 'errored'); check(Object.is(x.error, reason), `${n} fails with another reason`, x.error) }
      return
    }
    const s = sections(text, tag, start)
    const join = (r: boolean) => s.filter(x => x[0] === r && x[1] !== '').map(x => x[1]).join(sep)
    if (a) { same('reasoning', a.items.join(''), join(true)); same('reasoning end', a.end, 'closed') }
    if (b) { same('text', b.items.join(''), join(false)); same('text end', b.end, 'closed') }
    check([...a?.items ?? [], ...b?.items ?? []].every(x => x !== ''), 'an empty piece was delivered')
  },
}
