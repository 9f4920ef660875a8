import { requestHeaders } from '@xsai/shared'
import { endpoints, looping, stepped } from './endpoints'
import { check, recorder, same, settle } from './lib'

const casing = (g: any, s: string) => g.pick([s, s.toLowerCase(), s.toUpperCase(), [...s].map(c => g.bool() ? c.toUpperCase() : c.toLowerCase()).join('')])
const headers = (g: any) => {
  const h: Record<string, string | undefined> = {}
  const used = new Set<string>()
  for (let i = g.int(0, 4); i > 0; i--) {
    const n = g.pick(['X-Test', 'x-custom', 'Authorization', 'content-type', 'HTTP-Referer', 'X-Title', 'Accept', 'api-key', 'User-Agent', 'X-A_b', 'constructor'])
    if (used.has(n.toLowerCase())) continue
    used.add(n.toLowerCase())
    const lname = n.toLowerCase()
    h[casing(g, n)] = (lname !== 'authorization' && lname !== 'content-type' && g.bool(0.2)) ? undefined : g.pick(['v', 'a b', 'Bearer other', 'x,y', 'application/xml', '"q"', '', '0', 'text/plain; charset=utf-8'])
  }
  return h
}
const lower = (h: any) => Object.fromEntries(Object.entries(h).filter(e => e[1] !== undefined).map(([k, v]) => [k.toLowerCase(), v as string]))
const norm = (init: any) => { const o: any = {}; new Headers(init).forEach((v, k) => { o[k] = v }); return o }

export const cases: any = {}
for (const e of endpoints) {
  cases[e.name] = async (g: any) => {
    const h = g.bool(0.2) ? undefined : headers(g)
    const inst = h !== undefined && g.bool(0.35)
    const apiKey = g.opt(() => g.pick(['sk-1', '', 'key with space', 'abc']))
    const given = inst ? new Headers(lower(h)) : h
    g.note('endpoint', e.name); g.note('headers', h); g.note('instance', inst); g.note('apiKey', apiKey)
    const rec = recorder(() => e.ok(g))
    const before = JSON.stringify(h)
    const r = await settle(() => e.run({ ...e.base(g), model: 'm', baseURL: 'http://x/v1/', headers: given, apiKey, fetch: rec.fetch }))
    check(r.ok, `${e.name} failed`, (r as any).error)
    const sent = norm(rec.calls[0].init?.headers)
    const want: any = {}
    if (e.kind === 'json') want['content-type'] = 'application/json'
    if (apiKey !== undefined) want.authorization = `Bearer ${apiKey}`
    Object.assign(want, lower(h ?? {}))
    same('headers sent', sent, norm(want), 'strict')
    same('caller headers', JSON.stringify(h), before)
    // the raw object must not hold two spellings of one header
    const raw = rec.calls[0].init?.headers
    if (raw && !(raw instanceof Headers) && !Array.isArray(raw)) {
      const names = Object.keys(raw).map(n => n.toLowerCase())
      check(new Set(names).size === names.length, 'one header is sent under two spellings', raw)
      check(Object.values(raw).every(v => v !== undefined), 'a header with an undefined value is sent', raw)
    }
  }
}
cases.requestHeaders = (g: any) => {
  const h = g.opt(() => headers(g)), apiKey = g.opt(() => g.str().replace(/[^ -~]/g, ''))
  g.note('headers', h); g.note('apiKey', apiKey)
  const r: any = requestHeaders(h as any, apiKey)
  const want: any = {}
  if (apiKey !== undefined && !Object.keys(h ?? {}).some(k => k.toLowerCase() === 'authorization')) want.Authorization = `Bearer ${apiKey}`
  for (const [k, v] of Object.entries(h ?? {})) if (v !== undefined) want[k] = v
  same('requestHeaders', lower(r instanceof Headers ? Object.fromEntries(r.entries()) : r), lower(want), 'strict')
}
// every request of a run of several steps
for (const e of looping) {
  cases[`steps.${e.name}`] = async (g: any) => {
    const h = g.bool(0.2) ? undefined : headers(g), apiKey = g.opt(() => g.pick(['sk-1', '', 'abc'])), x = stepped(g, e)
    const given = h !== undefined && g.bool(0.35) ? new Headers(lower(h)) : h
    g.note('endpoint', e.name); g.note('headers', h); g.note('apiKey', apiKey); g.note('steps', x.n)
    const rec = recorder(x.respond)
    const r = await settle(() => e.run({ ...e.base(g), ...x.options, model: 'm', baseURL: 'http://x/v1/', headers: given, apiKey, fetch: rec.fetch }))
    check(r.ok, `${e.name} failed`, (r as any).error)
    same('requests', rec.calls.length, x.n + 1)
    const want: any = { 'content-type': 'application/json', ...(apiKey === undefined ? {} : { authorization: `Bearer ${apiKey}` }), ...lower(h ?? {}) }
    for (const c of rec.calls) same('headers sent', norm(c.init?.headers), norm(want), 'strict')
  }
}
