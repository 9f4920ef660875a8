import { defineTool, rawTool, tool } from '@xsai/tool'
import { jsonSchema, strictJsonSchema, toJsonSchema } from 'xsschema'
import { schemaJson, strictly, validator } from './C22'
import { check, clone, same, settle } from './lib'

const mk = (g: any, own: boolean) => {
  const json = g.bool(0.9) ? schemaJson(g) : g.pick([{ type: 'string' }, {}, { anyOf: [] }]), v = validator(g), seen: any[] = [], targets: any[] = []
  const results: any[] = []
  const std: any = { vendor: own ? g.pick(['test', 'zod', 'arktype']) : 'arktype', version: 1, validate: (x: any) => { seen.push(x); const r = v.fn(x); results.push(r); return r } }
  const schema: any = { '~standard': std }
  if (own) std.jsonSchema = { input: (o: any) => { targets.push(['input', o?.target]); return json }, output: (o: any) => { targets.push(['output', o?.target]); return { type: 'object', properties: { WRONG: {} } } } }
  schema.toJsonSchema = () => own ? { WRONG: 1 } : json
  return { json, v, seen, targets, results, schema }
}
const J = (x: any) => JSON.parse(JSON.stringify(x))
const options = (g: any) => ({ name: g.text(), ...(g.bool(0.7) ? { description: g.str() } : {}), ...(g.bool(0.6) ? { strict: g.bool() } : {}), execute: () => 'x' }) as any
const common = (t: any, o: any, json: any, given: any) => {
  same('type', t.type, 'function'); same('name', t.function.name, o.name); same('description', t.function.description, o.description)
  check(t.execute === o.execute, 'another execute function'); same('strict flag', t.function.strict, o.strict ?? true)
  same('parameters', J(t.function.parameters), J(o.strict === false ? given : strictly(given))); same('the caller\'s schema', json, given, 'strict')
}
const validates = async (g: any, t: any, m: any) => {
  check(typeof t.validate === 'function', 'no validator')
  for (let i = 0; i < 2; i++) {
    const x = g.bool() ? { a: g.json(1) } : g.json(2)
    const out: any = await settle(() => t.validate(x))
    check(m.seen.length === i + 1 && m.seen[i] === x, 'the validator is not given the input', m.seen)
    if (m.v.kind === 'throws') check(!out.ok, 'a throwing validator is hidden', out)
    else { check(out.ok, 'the validator failed', out.error); same('validation result', out.value, await m.results[i], 'strict') }
  }
}
export const cases: any = {
  defineTool: async (g: any) => {
    const m = mk(g, true), o = options(g), given = clone(m.json)
    g.note('schema', m.json); g.note('options', o); g.note('validator', m.v.kind)
    const t: any = defineTool({ ...o, parameters: m.schema })
    common(t, o, m.json, given); same('schema conversions', m.targets, [['input', 'draft-07']]); await validates(g, t, m)
  },
  tool: async (g: any) => {
    const own = g.bool(), m = mk(g, own), o = options(g), given = clone(m.json)
    g.note('schema', m.json); g.note('options', o); g.note('validator', m.v.kind); g.note('own', own)
    const t: any = await tool({ ...o, parameters: m.schema })
    common(t, o, m.json, given); if (own) same('schema conversions', m.targets, [['input', 'draft-07']]); await validates(g, t, m)
  },
  rawTool: (g: any) => {
    const json = schemaJson(g), o = options(g), given = clone(json)
    g.note('schema', json); g.note('options', o)
    const t: any = rawTool({ ...o, parameters: json })
    common(t, o, json, given); check(t.validate === undefined, 'a raw tool has a validator')
  },
  schemas: async (g: any) => {
    const own = g.bool(), m = mk(g, own), given = clone(m.json)
    g.note('schema', m.json); g.note('own', own)
    same('converted schema', await toJsonSchema(m.schema), given)
    same('strict schema', J(strictJsonSchema(m.json)), J(strictly(given))); same('the schema', m.json, given, 'strict'); check(jsonSchema(m.json) === m.json, 'jsonSchema changed the schema')
    const bad = await settle(() => toJsonSchema({ '~standard': { vendor: 'nobody', version: 1, validate: () => ({ value: 1 }) } } as any))
    check(!bad.ok && String((bad as any).error?.message).includes('nobody'), 'an unsupported vendor is not reported', bad)
  },
}
