import { requestURL } from '@xsai/shared'
import { endpoints, looping, stepped } from './endpoints'
import { check, recorder, same, settle, urlOf } from './lib'

const baseURL = (g: any) => {
  const host = g.pick(['http://localhost', 'https://api.openai.com', 'http://127.0.0.1:8080', 'https://x.y.z', 'http://[::1]:3000', 'https://user:pw@h'])
  const segs = g.list(() => g.pick(['v1', 'api', 'a.b', 'openai', 'v1beta', 'x-y_z', 'chat', '~', 'v1%20x', 'é']), 0, 3)
  return host + (segs.length ? '/' + segs.join('/') : '')
}
const join = (base: string, path: string) => new URL(base.replace(/\/$/, '') + '/' + path).href

export const cases: any = {}
for (const e of endpoints) {
  cases[e.name] = async (g: any) => {
    const base = baseURL(g), slash = g.bool()
    const asURL = g.bool(0.3)
    const given = asURL ? new URL(base + (slash ? '/' : '')) : base + (slash ? '/' : '')
    const ac = g.opt(() => new AbortController())
    const opts: any = { ...e.base(g), model: g.pick(['gpt-4o', 'openai/gpt-4o', 'a:b', 'm 1', '@cf/x', 'é']), baseURL: given, abortSignal: ac?.signal, apiKey: g.opt(() => 'k') }
    g.note('endpoint', e.name); g.note('baseURL', String(given)); g.note('model', opts.model)
    const useGlobal = g.bool(0.3)
    const rec = recorder(() => e.ok(g)), other = recorder(() => e.ok(g))
    const saved = globalThis.fetch
    globalThis.fetch = useGlobal ? rec.fetch : other.fetch
    let r
    try { r = await settle(() => e.run(useGlobal ? opts : { ...opts, fetch: rec.fetch })) }
    finally { globalThis.fetch = saved }
    check(r.ok, `${e.name} failed on a good answer`, (r as any).error)
    same('requests sent by the chosen fetch', rec.calls.length, 1)
    same('requests sent by the other fetch', other.calls.length, 0)
    const [c] = rec.calls
    same('URL', urlOf(c), join(base, e.path(opts)))
    same('method', c.init?.method ?? 'GET', e.method)
    check(c.init?.signal === ac?.signal || (ac === undefined && c.init?.signal == null), 'the abort signal of the caller is not attached')
    if (e.kind === 'none') check(c.init?.body == null, 'a GET request carries a body')
    check(typeof globalThis.fetch === 'function', 'global fetch was replaced')
  }
}
cases.requestURL = (g: any) => {
  const base = baseURL(g), path = g.pick(['models', 'chat/completions', 'models/a/b', 'responses', 'v1/x'])
  g.note('base', base); g.note('path', path)
  const want = join(base, path)
  for (const b of [base, base + '/', new URL(base + '/'), new URL(base)]) same(`requestURL of ${String(b)}`, requestURL(path, b as any).href, want)
}
// every request of a run of several steps
for (const e of looping) {
  cases[`steps.${e.name}`] = async (g: any) => {
    const base = baseURL(g), given = g.pick([base, base + '/', new URL(base + '/')]), ac = g.opt(() => new AbortController()), x = stepped(g, e), useGlobal = g.bool(0.3)
    const opts: any = { ...e.base(g), ...x.options, model: 'm', baseURL: given, abortSignal: ac?.signal }
    g.note('endpoint', e.name); g.note('baseURL', String(given)); g.note('steps', x.n)
    const rec = recorder(x.respond), other = recorder(x.respond), saved = globalThis.fetch
    globalThis.fetch = useGlobal ? rec.fetch : other.fetch
    let r
    try { r = await settle(() => e.run(useGlobal ? opts : { ...opts, fetch: rec.fetch })) }
    finally { globalThis.fetch = saved }
    check(r.ok, `${e.name} failed on good answers`, (r as any).error)
    same('requests sent by the chosen fetch', rec.calls.length, x.n + 1)
    same('requests sent by the other fetch', other.calls.length, 0)
    for (const c of rec.calls) {
      same('URL', urlOf(c), join(base, e.path(opts)))
      same('method', c.init?.method ?? 'GET', e.method)
      check(c.init?.signal === ac?.signal || (ac === undefined && c.init?.signal == null), 'the abort signal of the caller is not attached')
    }
  }
}
