import { T } from 'verif'
import { InvalidResponseError } from '@xsai/shared'
import { generateObject } from '@xsai/generate-object'
import { generateText } from '@xsai/generate-text'
import { streamObject } from '@xsai/stream-object'
import { strictJsonSchema, validate } from 'xsschema'
import { run } from './lib'

const part = T.or(T.bool, T.null, T.open({ type: T.opt(T.json) }))
const schemaType = T.open({ properties: T.opt(T.nullable(T.rec(part))), type: T.opt(T.json), additionalProperties: T.opt(T.json) })
const verdict = T.or(T.obj({ value: T.any, issues: T.opt(T.lit(0)) }), T.obj({ issues: T.arr(T.obj({ message: T.str })) }))
const closable = p => p !== null && typeof p === 'object' && p.type === 'object'
const strictly = s => ({
  ...s, additionalProperties: false,
  properties: s.properties == null ? s.properties : Object.fromEntries(Object.entries(s.properties).map(([k, p]) => [k, closable(p) ? strictly(p) : p])),
})
/** the strict form of a schema is C26_strict */
const strictOf = (v) => {
  if (!v.isSymbolic()) return strictly
  const f = v.fn('closed', { returns: T.json })
  v.contract(strictJsonSchema, f)
  return f
}
/** a schema of the standard-schema kind with any JSON schema and any validator, which may answer later or throw */
const standard = (v) => {
  const json = v.any('schema', schemaType), seen = [], targets = []
  const judge = v.fn('judge', { returns: verdict, throws: true })
  const later = v.any('later', T.bool)
  const answer = x => later ? (async () => judge(x))() : judge(x)
  const schema = { '~standard': { version: 1, vendor: 'arktype', validate: (x) => { seen.push(x); return answer(x) }, jsonSchema: { input: (o) => { targets.push(o.target); return json }, output: () => ({ wrong: true }) } } }
  return { json, schema, judge: answer, seen, targets }
}
const naming = v => ({ schemaName: v.any('name', T.opt(T.str)), schemaDescription: v.any('description', T.opt(T.str)), strict: v.any('strict', T.opt(T.bool)) })
const format = (o, json, output, strict) => {
  const s = o.strict === false ? json : strict(json)
  return {
    json_schema: {
      description: o.schemaDescription, name: o.schemaName ?? 'json_schema', strict: o.strict ?? true,
      schema: output === 'array' ? { properties: { elements: { items: s, type: 'array' } }, required: ['elements'], type: 'object' } : s,
    },
    type: 'json_schema',
  }
}
const OWN = ['output', 'schema', 'schemaName', 'schemaDescription', 'strict']

export const C22_validate = async (v) => {
  const s = standard(v), x = v.any('input', T.any)
  const got = await run(v, () => validate(s.schema, x)), want = await run(v, () => s.judge(x))
  v.ensure('it is given the input once', s.seen.length === 1 && s.seen[0] === x)
  if (want.state === 'rejected') { v.ensure('a failing validator fails the call', got.state === 'rejected' && got.value === want.value); return }
  if (want.value.issues) { v.ensure('issues fail the call', got.state === 'rejected' && got.value instanceof Error); return }
  v.ensure('a valid input is accepted', got.state === 'fulfilled')
  v.eq('as the validator made it', got.value, want.value.value)
}

const resultType = T.obj({ finishReason: T.str, messages: T.arr(T.obj({ role: T.str, content: T.json })), reasoningText: T.opt(T.str), steps: T.arr(T.obj({ text: T.opt(T.str) })), text: T.opt(T.nullable(T.str)), toolCalls: T.arr(T.obj({ toolName: T.str })), toolResults: T.arr(T.obj({ toolName: T.str })), totalUsage: T.opt(T.obj({ inputTokens: T.nat })), usage: T.opt(T.obj({ inputTokens: T.nat })) })
/** generateText gives any result or fails in any way (its own behaviour is C10..C20) */
const generate = async (v, output) => {
  if (!v.isSymbolic()) v.stop()
  const strict = strictOf(v), s = standard(v), o = naming(v)
  const told = []
  const outcome = { ok: v.any('ok', T.bool), result: v.any('result', resultType), error: v.any('error', T.error) }
  v.contract(generateText, async (x) => { told.push(x); if (outcome.ok) return { ...outcome.result }; throw outcome.error })
  const mine = v.any('mine', T.obj({ model: T.str, temperature: T.opt(T.int), messages: T.arr(T.obj({ role: T.str, content: T.json })), tools: T.opt(T.opaque), baseURL: T.str }))
  const given = { ...mine, ...o, output, schema: s.schema }
  const r = await run(v, () => generateObject(given))
  return { strict, s, o, told, outcome, mine, r }
}
const passes = (v, x, output) => {
  v.eq('one generation', x.told.length, 1)
  v.eq('the conversion asks for this dialect', x.s.targets, ['draft-07'])
  const sent = { ...x.told[0] }
  v.ensure('nothing of its own', OWN.every(k => sent[k] === undefined))
  for (const k of OWN) delete sent[k]
  v.eq('the options and the response format', sent, { ...x.mine, response_format: format(x.o, x.s.json, output, x.strict) })
}
/** the cases every output has in common; the parsed JSON when there is one */
const outcome = (v, { r, outcome }) => {
  if (!outcome.ok) { v.ensure('a failed generation fails the call', r.state === 'rejected' && r.value === outcome.error); return }
  const text = outcome.result.text
  if (text == null || text === '') {
    v.ensure('an empty answer fails the call', r.state === 'rejected' && r.value instanceof InvalidResponseError && r.value.reason === 'empty_body')
    return
  }
  try { return { json: JSON.parse(text) } }
  catch { v.ensure('malformed JSON fails the call', r.state === 'rejected' && r.value instanceof SyntaxError) }
}
const completeResult = (v, x) => {
  const { object, ...rest } = x.r.value
  v.eq('the complete result', rest, x.outcome.result)
  return object
}
const single = async (v, output) => {
  const x = await generate(v, output)
  passes(v, x, output)
  const p = outcome(v, x)
  if (p === undefined) { v.eq('nothing to validate', x.s.seen, []); return }
  v.eq('what the validator sees', x.s.seen, [p.json])
  const want = await run(v, () => x.s.judge(p.json))
  if (want.state === 'rejected') { v.ensure('a failing validator fails the call', x.r.state === 'rejected' && x.r.value === want.value); return }
  if (want.value.issues) { v.ensure('an invalid answer fails the call', x.r.state === 'rejected'); return }
  v.ensure('the call succeeds', x.r.state === 'fulfilled')
  v.eq('the object', completeResult(v, x), want.value.value)
}
export const C22_object = v => single(v, 'object')
export const C22_default = v => single(v, undefined)
export const C22_array = async (v) => {
  const x = await generate(v, 'array')
  passes(v, x, 'array')
  const p = outcome(v, x)
  if (p === undefined) { v.eq('nothing to validate', x.s.seen, []); return }
  v.assume(p.json !== null && typeof p.json === 'object' && Array.isArray(p.json.elements))
  v.eq('what the validator sees', x.s.seen, p.json.elements)
  const wants = await run(v, () => Promise.all(p.json.elements.map(async (e) => { const r = await x.s.judge(e); if (r.issues) throw new Error(JSON.stringify(r.issues, null, 2)); return r.value })))
  v.ensure('it succeeds when every element is valid', x.r.state === wants.state)
  if (wants.state === 'fulfilled') v.eq('the objects', completeResult(v, x), wants.value)
}
/** a text without an elements array is no array answer */
export const C22_notAnArray = async (v) => {
  const x = await generate(v, 'array')
  const p = outcome(v, x)
  if (p === undefined) return
  const j = p.json
  v.assume(j === null || typeof j !== 'object' || !Array.isArray(j.elements))
  v.ensure('it fails', x.r.state === 'rejected')
}

/** the request itself, through the real generateText and streamText */
const request = async (v, f, output) => {
  const strict = strictOf(v), s = standard(v), o = naming(v)
  const bodies = []
  const fetch = async (url, init) => { bodies.push(JSON.parse(init.body)); throw new Error('offline') }
  const model = v.any('model', T.str), messages = v.any('messages', T.arr(T.obj({ role: T.oneOf('system', 'user'), content: T.json })))
  const r = await run(v, () => f({ ...o, output, schema: s.schema, baseURL: 'http://host.test/', fetch, messages, model, temperature: 1 }))
  v.eq('one request', bodies.length, 1)
  const { response_format, messages: m, model: n, temperature, ...rest } = bodies[0]
  v.eq('the response format', response_format, JSON.parse(JSON.stringify(format(o, s.json, output, strict))))
  v.eq('the messages', m, messages)
  v.ensure('the model and the options', n === model && temperature === 1)
  v.ensure('none of its own options', OWN.every(k => !(k in rest)))
  return r
}
const fails = async (v, output) => {
  const r = await request(v, generateObject, output)
  v.ensure('a failed request fails the call', r.state === 'rejected' && r.value.message === 'offline')
}
export const C22_request = v => fails(v, undefined)
export const C22_requestArray = v => fails(v, 'array')
const streams = async (v, output) => {
  const r = await request(v, streamObject, output)
  v.ensure('the streams are there', r.state === 'fulfilled' && (output === 'array') === (r.value.elementStream !== undefined) && (output !== 'array') === (r.value.partialObjectStream !== undefined) && r.value.textStream !== undefined)
}
export const C22_streamRequest = v => streams(v, undefined)
export const C22_streamRequestArray = v => streams(v, 'array')
