import { T } from 'verif'
import { defineTool, rawTool, tool } from '@xsai/tool'
import { jsonSchema, strictJsonSchema, toJsonSchema } from 'xsschema'
import { run } from './lib'

const part = T.or(T.bool, T.null, T.open({ type: T.opt(T.json) }))
export const schemaType = T.open({ properties: T.opt(T.nullable(T.rec(part))), type: T.opt(T.json), additionalProperties: T.opt(T.json) })
const closable = p => p !== null && typeof p === 'object' && p.type === 'object'
/** one level of the documentation: this object is closed, object-typed properties are, nothing else changes */
const level = (s, below) => ({
  ...s, additionalProperties: false,
  properties: s.properties == null ? s.properties : Object.fromEntries(Object.entries(s.properties).map(([k, p]) => [k, closable(p) ? below(p) : p])),
})
const strictly = s => level(s, strictly)
/** by induction on the depth of the schema: the calls strictJsonSchema makes to itself are what the documentation says */
export const induct = (v) => {
  if (!v.isSymbolic()) return strictly
  const deeper = v.fn('closedBelow', { returns: T.json })
  v.recursive(strictJsonSchema, deeper)
  return s => level(s, deeper)
}
export const C26_strict = async (v) => {
  const strict = induct(v)
  const given = v.any('schema', schemaType)
  v.eq('the strict schema', strictJsonSchema(given), strict(given))
  v.ensure('the identity builder', jsonSchema(given) === given)
}
export const whole = (v) => {
  const strict = v.isSymbolic() ? v.fn('strict', { returns: T.json }) : strictly
  if (v.isSymbolic()) v.contract(strictJsonSchema, strict) // C26_strict
  return strict
}
const common = (v, t, o, json, strict) => {
  v.eq('type', t.type, 'function')
  v.eq('name', t.function.name, o.name)
  v.eq('description', t.function.description, o.description)
  v.eq('strict flag', t.function.strict, o.strict === undefined || o.strict === null ? true : o.strict)
  v.eq('parameters', t.function.parameters, o.strict === false ? json : strict(json))
  v.ensure('execute', t.execute === o.execute)
}
export const options = v => ({ name: v.any('name', T.str), description: v.any('description', T.opt(T.str)), strict: v.any('strict', T.opt(T.bool)), execute: () => 'x' })
export const standard = (v, json) => {
  const targets = [], seen = []
  const validate = v.fn('validate', { returns: T.or(T.obj({ value: T.any }), T.obj({ issues: T.arr(T.obj({ message: T.str })) })), throws: true })
  const async_ = v.any('async', T.bool), answer = x => async_ ? (async () => validate(x))() : validate(x)
  const schema = { '~standard': {
    version: 1, vendor: 'arktype',
    validate: (x) => { seen.push(x); return answer(x) },
    jsonSchema: { input: (o) => { targets.push(o.target); return json }, output: () => ({ wrong: true }) },
  } }
  return { schema, targets, seen, validate: answer }
}
const validates = async (v, t, s) => {
  const x = v.any('input', T.json)
  const got = await run(v, () => t.validate(x)), want = await run(v, () => s.validate(x))
  v.ensure('the validator decides', got.state === want.state)
  v.eq('its answer', got.value, want.value)
  v.ensure('it sees the input', s.seen.length === 1 && s.seen[0] === x)
}
export const C26_defineTool = async (v) => {
  const strict = whole(v)
  const json = v.any('schema', schemaType), o = options(v), s = standard(v, json)
  const t = defineTool({ ...o, parameters: s.schema })
  common(v, t, o, json, strict)
  v.eq('conversions', s.targets, ['draft-07'])
  await validates(v, t, s)
}
export const C26_tool = async (v) => {
  const strict = whole(v)
  const json = v.any('schema', schemaType), o = options(v), s = standard(v, json)
  const t = await tool({ ...o, parameters: s.schema })
  common(v, t, o, json, strict)
  v.eq('conversions', s.targets, ['draft-07'])
  await validates(v, t, s)
}
export const C26_rawTool = async (v) => {
  const strict = whole(v)
  const json = v.any('schema', schemaType), o = options(v)
  const t = rawTool({ ...o, parameters: json })
  common(v, t, o, json, strict)
  v.ensure('no validator', t.validate === undefined)
}
export const C26_toJsonSchema = async (v) => {
  const json = v.any('schema', schemaType), s = standard(v, json)
  v.ensure('its own support is used', await toJsonSchema(s.schema) === json)
}
export const C26_vendor = async (v) => {
  const json = v.any('schema', schemaType)
  const schema = { '~standard': { version: 1, vendor: 'arktype', validate: () => ({ value: 1 }) }, toJsonSchema: () => json }
  v.ensure('the vendor converts', await toJsonSchema(schema) === json)
  const vendor = v.any('vendor', T.str)
  v.assume(!['arktype', 'effect', 'sury', 'valibot', 'zod'].includes(vendor))
  const r = await run(v, () => toJsonSchema({ '~standard': { version: 1, vendor, validate: () => ({ value: 1 }) } }))
  v.ensure('an unknown vendor is an error', r.state === 'rejected' && r.value instanceof Error && r.value.message.includes(vendor))
}
