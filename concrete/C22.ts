import { generateObject } from '@xsai/generate-object'
import { generateText } from '@xsai/generate-text'
import { completion, stdSchema } from './endpoints'
import { check, clone, diff, fail, jsonRes, recorder, same, settle } from './lib'

/** JSON schemas with nested object-typed properties */
export const schemaJson = (g: any, d = 3, obj = true): any => {
  if (!obj) return g.weighted([[3, () => ({ type: 'string' })], [1, () => ({ type: 'number', minimum: 1 })], [1, () => ({ type: 'array', items: schemaJson(g, d - 1, d > 0) })], [1, () => ({ anyOf: [{ type: 'object', properties: { z: {} } }, { type: 'null' }] })], [1, true], [1, () => ({ enum: ['a', 'b'] })], [1, () => ({})], [d > 0 ? 3 : 0, () => schemaJson(g, d - 1)], [1, () => ({ type: ['object', 'null'], properties: { q: { type: 'object' } } })]])
  const s: any = { type: 'object' }
  if (g.bool(0.85)) { s.properties = {}; for (let i = g.int(0, 4); i > 0; i--) s.properties[g.key()] = schemaJson(g, d - 1, d > 0 && g.bool()) }
  if (g.bool(0.4)) s.required = Object.keys(s.properties ?? {})
  if (g.bool(0.3)) s.additionalProperties = g.pick([true, false, { type: 'string' }])
  if (g.bool(0.3)) s.description = g.str()
  if (g.bool(0.2)) s.$defs = { D: { type: 'object', properties: { a: { type: 'object' } } } }
  return s
}
/** what "strict" means: every object schema reachable through object-typed properties is closed, nothing else changes */
export const strictly = (s: any): any => {
  const r = { ...s, additionalProperties: false }
  if (s.properties != null) { r.properties = {}; for (const k of Object.keys(s.properties)) { const v = s.properties[k]; r.properties[k] = v !== null && typeof v === 'object' && v.type === 'object' ? strictly(v) : v } }
  return r
}
/** a validator whose behaviour is known */
export const validator = (g: any) => {
  const kind = g.pick(['same', 'transform', 'issues', 'throws', 'async', 'maybe', 'empty-issues'])
  const err = new Error('V-' + g.word())
  const fn = (value: any): any => {
    switch (kind) {
      case 'same': return { value }
      case 'transform': return { value: { wrapped: value } }
      case 'issues': return { issues: [{ message: 'bad' }] }
      case 'empty-issues': return { issues: [] }
      case 'throws': throw err
      case 'async': return Promise.resolve({ value: [value] })
      default: return value !== null && typeof value === 'object' && 'a' in value ? { value } : { issues: [{ message: 'no a', path: ['a'] }] }
    }
  }
  const want = (value: any): any => {
    switch (kind) {
      case 'same': return { value }
      case 'transform': return { value: { wrapped: value } }
      case 'async': return { value: [value] }
      case 'maybe': return value !== null && typeof value === 'object' && 'a' in value ? { value } : { fails: true }
      default: return { fails: true }
    }
  }
  return { kind, fn, want }
}
const jsonText = (g: any, x: any) => g.pick([() => JSON.stringify(x), () => JSON.stringify(x, null, 2), () => ` ${JSON.stringify(x)}\n`])()

export const cases: any = {
  generate: async (g: any) => {
    const json = schemaJson(g), v = validator(g), array = g.bool(), output = array ? 'array' : g.pick([undefined, 'object'])
    const strict = g.pick([undefined, undefined, true, false])
    const inputs: any[] = []
    const schema = stdSchema(json, (x) => { inputs.push(clone(x)); return v.fn(x) })
    const object = array ? g.list(() => g.bool() ? { a: g.json(1) } : g.json(2), 0, 4) : g.bool() ? { a: g.json(2) } : g.json(2)
    const bad = g.weighted([[8, 'no'], [1, 'empty'], [1, 'null'], [1, 'malformed'], [1, 'absent']])
    const good = jsonText(g, array ? { elements: object } : object)
    const content = bad === 'empty' ? '' : bad === 'null' ? null : bad === 'malformed' ? g.pick(['{', 'oops', good + '}', good.trimEnd().slice(0, -1) + (good.trimEnd().length > 1 && !/^\d/.test(good.trim()) ? '' : 'x')]) : good
    if (bad === 'malformed') { try { JSON.parse(content as string); return } catch {} }
    const message: any = { role: 'assistant', ...(bad === 'absent' ? {} : { content }) }
    if (g.bool(0.3)) message[g.pick(['reasoning', 'reasoning_content'])] = g.str()
    const body = completion(message, { usage: { prompt_tokens: g.int(0, 9), completion_tokens: g.int(0, 9), total_tokens: g.int(0, 18) } })
    const extra: any = {}
    if (g.bool(0.5)) extra.schemaName = g.text()
    if (g.bool(0.5)) extra.schemaDescription = g.str()
    if (strict !== undefined) extra.strict = strict
    if (output !== undefined) extra.output = output
    const rest: any = { baseURL: 'http://x/v1/', model: 'm', messages: [{ role: 'user', content: g.str() }], ...(g.bool() ? { temperature: 0.5 } : {}), ...(g.bool(0.3) ? { user: g.str() } : {}) }
    g.note('schema', json); g.note('options', { ...extra, ...rest }); g.note('validator', v.kind); g.note('message', message)
    const rec = recorder(() => jsonRes(body))
    const given = clone(json)
    const out = await settle(() => generateObject({ ...rest, ...extra, schema, fetch: rec.fetch } as any), 'generateObject')
    // the request
    same('requests', rec.calls.length, 1)
    let want: any = strict === false ? given : strictly(given)
    const b = rec.calls[0].body, rf = b.response_format
    if (array) {
      const w = rf?.json_schema?.schema
      same('array wrapper type', [w?.type, Object.keys(w?.properties ?? {}), w?.required, w?.properties?.elements?.type], ['object', ['elements'], ['elements'], 'array'])
      same('element schema', w.properties.elements.items, JSON.parse(JSON.stringify(want)))
    }
    else same('schema sent', rf?.json_schema?.schema, JSON.parse(JSON.stringify(want)))
    same('response format type', rf.type, 'json_schema'); same('schema name', rf.json_schema.name, extra.schemaName ?? 'json_schema')
    same('schema description', rf.json_schema.description, extra.schemaDescription); same('strict sent', rf.json_schema.strict, strict ?? true)
    const allowed = ['model', 'messages', 'stream', 'response_format', 'temperature', 'user']
    same('other fields of the request', Object.keys(b).filter(k => !allowed.includes(k)), [])
    same('schema object changed', json, given, 'strict')
    // the outcome
    const wants = bad !== 'no' ? [] : array ? object.map((x: any) => v.want(x)) : [v.want(object)]
    if (bad !== 'no') { check(!out.ok, `a ${bad} text became an object`, (out as any).value); if (bad !== 'malformed') same('error code', (out as any).error?.code, 'invalid_response'); same('validated', inputs, []); return }
    if (wants.some((w: any) => w.fails)) { check(!out.ok, 'an object that fails validation was returned', (out as any).value); return }
    check(out.ok, 'the call failed', (out as any).error)
    same('object', (out as any).value.object, array ? wants.map((w: any) => w.value) : wants[0].value, 'strict')
    same('validated values', inputs, array ? object : [object])
    const plain = await generateText({ ...rest, fetch: recorder(() => jsonRes(body)).fetch } as any)
    for (const k of Object.keys(plain)) { const d = diff((out as any).value[k], (plain as any)[k]); if (d) fail(`${k}: ${d}`) }
  },
  // a text that is an object without elements cannot be an array answer
  notAnArray: async (g: any) => {
    const x = g.pick([{}, { elements: null }, { elements: 'abc' }, { elements: {} }, null, 3, 'elements', [1], { element: [1] }])
    g.note('answer', x)
    const out = await settle(() => generateObject({ baseURL: 'http://x/', model: 'm', messages: [], output: 'array', schema: stdSchema({ type: 'object' }), fetch: recorder(() => jsonRes(completion({ role: 'assistant', content: JSON.stringify(x) }))).fetch } as any))
    check(!out.ok, 'an answer without an elements array was returned as an array', (out as any).value)
  },
}
