import { T } from 'verif'
import { extractReasoningStream } from '@xsai/utils-reasoning'
import { getPartialMatchIndex } from '/repo/packages/utils-reasoning/src/_get-partial-match-index'

/**
 * The streaming form: where the next tag is, or may come to be, in the text that has come in and not gone out, is found by
 * getPartialMatchIndex (C24_match). Up to there the text goes to the stream of the mode; a tag is dropped and changes the mode.
 */
const stream = async (v, startWithReasoning, fails, left) => {
  const chunks = v.any('chunks', T.arr(T.str)), tagName = v.any('tagName', T.str), separator = v.any('separator', T.opt(T.str))
  const open = `<${tagName}>`, close = `</${tagName}>`
  const g = { rest: '', reasoning: startWithReasoning, last: false }
  const want = { reasoning: '', text: '', noReasoning: true, noText: true }
  // contents that are not empty, joined by the separator wherever a tag lies between them
  const put = (x) => {
    if (x === '') return
    const between = g.last && !(g.reasoning ? want.noReasoning : want.noText) ? separator ?? '\n' : ''
    g.last = false
    if (g.reasoning) { want.reasoning += between + x; want.noReasoning = false }
    else { want.text += between + x; want.noText = false }
  }
  const find = v.fn('find', { returns: T.int })
  if (v.isSymbolic()) {
    v.contract(getPartialMatchIndex, (text, tag) => {
      v.ensure('all that has come in and not gone out is looked at', text === g.rest)
      v.ensure('for the tag that ends the mode', tag === (g.reasoning ? close : open))
      const i = find(text, tag)
      v.assume(i >= -1 && i < text.length) // C24_match
      if (i === -1) { put(g.rest); g.rest = '' }
      else {
        put(g.rest.slice(0, i))
        if (i + tag.length <= text.length) { g.reasoning = !g.reasoning; g.last = true; g.rest = g.rest.slice(i + tag.length) }
        else g.rest = g.rest.slice(i)
      }
      return i
    })
  }
  const got = { reasoning: { text: '', end: undefined }, text: { text: '', end: undefined } }
  const into = (stream, o) => stream.pipeTo(new WritableStream({ write: (x) => { v.ensure('no empty piece', x !== ''); o.text += x }, close: () => { o.end = 'closed' }, abort: (e) => { o.end = { failed: e } } }))
  let input
  const s = extractReasoningStream(new ReadableStream({ start: (c) => { input = c } }), startWithReasoning === undefined ? { tagName, separator } : { tagName, separator, startWithReasoning })
  if (left) await s[left].cancel()
  const one = left === 'reasoningStream' ? undefined : into(s.reasoningStream, got.reasoning).catch(() => {}), two = left === 'textStream' ? undefined : into(s.textStream, got.text).catch(() => {})
  for (const c of chunks) { g.rest += c; input.enqueue(c) }
  if (fails) {
    const reason = v.any('reason', T.any)
    input.error(reason)
    await one
    await two
    if (one) v.eq('the reasoning stream fails with the input', got.reasoning.end, { failed: reason })
    if (two) v.eq('the text stream fails with the input', got.text.end, { failed: reason })
    return
  }
  input.close()
  await one
  await two
  if (one) v.ensure('the reasoning ends', got.reasoning.end === 'closed')
  if (two) v.ensure('the text ends', got.text.end === 'closed')
  if (!v.isSymbolic()) return // the oracle compares the texts
  put(g.rest) // what may still have become a tag belongs to the mode
  if (one) v.eq('the reasoning', got.reasoning.text, want.reasoning)
  if (two) v.eq('the text', got.text.text, want.text)
}
export const C24_stream = v => stream(v, undefined, false)
export const C24_streamStart = v => stream(v, v.any('start', T.bool), false)
export const C24_streamFails = v => stream(v, undefined, true)
/** a reader that leaves one stream does not disturb the other */
export const C24_leftReasoning = v => stream(v, undefined, v.any('fails', T.bool), 'reasoningStream')
export const C24_leftText = v => stream(v, undefined, v.any('fails', T.bool), 'textStream')

/** proved for every text by C24_lemma */
const atTheEnd = (before, rest, tag) => rest !== tag || (before + rest).indexOf(tag) !== -1
export const C24_lemma = (v) => {
  const before = v.any('before', T.str), rest = v.any('rest', T.str), tag = v.any('tag', T.str)
  v.ensure('a tag at the end of a text is found', atTheEnd(before, rest, tag))
}
/** the first tag; else the longest end of the text that may become one: nothing before it may, whatever comes */
export const C24_match = (v) => {
  v.hurry(300)
  const before = v.any('before', T.str), rest = v.any('rest', T.str), tag = v.any('tag', T.text), j = v.any('j', T.nat), n = v.any('n', T.nat)
  const text = before + rest
  v.assume(rest !== '')
  if (v.isSymbolic()) v.assume(j === before.length && n === rest.length) // where a search from the front or from the back comes by
  const i = getPartialMatchIndex(text, tag)
  const first = text.indexOf(tag)
  if (first !== -1) { v.ensure('the first tag', i === first); return }
  v.ensure('in the text', i >= -1 && i < text.length)
  if (i !== -1) v.ensure('the rest may become a tag', tag.startsWith(text.slice(i)))
  if ((i === -1 || before.length < i) && tag.startsWith(rest)) {
    if (rest.length < tag.length) v.fail('nothing before may become a tag')
    else {
      v.ensure('what is as long as a tag is the tag', rest === tag)
      v.assume(atTheEnd(before, rest, tag)) // C24_lemma
      v.fail('nothing before may become a tag, as it is one')
    }
  }
}
export const C24_matchNothing = (v) => {
  const text = v.any('text', T.str), tag = v.any('tag', T.str)
  v.assume(text === '' || tag === '')
  v.ensure('nothing to find', getPartialMatchIndex(text, tag) === -1)
}
/** what is decided stays so whatever comes: where no tag begins and none could (C24_match), none will; so the splitting does not matter */
export const C24_more = (v) => {
  v.hurry(300)
  const rest = v.any('rest', T.str), more = v.any('more', T.str), tag = v.any('tag', T.text)
  if (!(rest + more).startsWith(tag)) return
  if (tag.length <= rest.length) v.ensure('the tag was there', rest.startsWith(tag))
  else v.ensure('it could become one', tag.startsWith(rest))
}
/** and the first tag stays the first: one before it would lie in what was there */
export const C24_first = (v) => {
  const before = v.any('before', T.str), after = v.any('after', T.str), tag = v.any('tag', T.str)
  const i = (before + tag + after).indexOf(tag)
  v.ensure('a tag in a text is found there or before', i >= 0 && i <= before.length)
}
