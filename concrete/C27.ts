import * as plain from '@xsai-ext/providers/create'
import * as special from '@xsai-ext/providers/special/create'
import * as utils from '@xsai-ext/providers/utils'
import { embed } from '@xsai/embed'
import { generateSpeech } from '@xsai/generate-speech'
import { generateText } from '@xsai/generate-text'
import { listModels } from '@xsai/model'
import './endpoints'
import { completion } from './endpoints'
import { check, clone, fail, jsonRes, recorder, same, settle, urlOf } from './lib'

const METHODS = ['chat', 'embed', 'image', 'model', 'speech', 'transcription']
const own = (o: any) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined))
/** the handle returned by a method must carry exactly `want` */
const exact = (what: string, got: any, want: any) => {
  const g: any = own(got), { fetch: gf, ...gr } = g, { fetch: wf, ...wr } = want
  same(what, gr, wr)
  if (wf === 'any') check(gf === undefined || typeof gf === 'function', `${what}: fetch is not a function`)
  else check(gf === wf, `${what}: another fetch`)
}
/** every method of a provider: right fields, and independent of every other handle */
const probe = (g: any, name: string, p: any, want: any, extraOf: (m: string) => any = () => undefined) => {
  const methods = METHODS.filter(m => typeof p[m] === 'function')
  check(methods.length > 0, `${name} has no method`)
  const handles: any[] = []
  const one = (m: string, i: number) => {
    const model = g.pick(['m1', 'vendor/m-2', '', 'x y'])
    const extra = extraOf(m)
    const h = m === 'model' ? p[m](extra) : p[m](model, extra)
    const w = { ...want, ...(m === 'model' ? {} : { model }), ...(extra ?? {}) }
    exact(`${name}.${m} (call ${i})`, h, w)
    handles.push([`${name}.${m} (call ${i})`, h, w])
  }
  const order = g.shuffle([...methods, ...methods])
  order.forEach((m: string, i: number) => {
    one(m, i)
    if (g.bool(0.4)) { const h = handles.pop()![1]; for (const k of ['model', 'apiKey', 'baseURL', 'headers', 'fetch', 'extra']) h[k] = 'CHANGED' }
  })
  for (const [w, h, e] of handles) exact(`${w}, later`, h, e)
  check(new Set(handles.map(h => h[1])).size === handles.length, `${name}: two calls return one object`)
  for (const [, h] of handles) check(!METHODS.some(m => typeof h[m] === 'function'), `${name}: the handle carries provider methods`)
}
const withGlobal = async <X>(fetch: any, f: () => Promise<X>) => { const old = globalThis.fetch; globalThis.fetch = fetch; try { return await f() } finally { globalThis.fetch = old } }
const url = (g: any) => g.pick(['http://h/v1/', 'http://h:8080/api/v1', 'https://x.example/'])
const rawMethods: any = { chat: ['createChatProvider', 'createChatProviderWithExtraOptions'], embed: ['createEmbedProvider', 'createEmbedProviderWithExtraOptions'], image: ['createImageProvider'], model: ['createModelProvider', 'createModelProviderWithExtraOptions'], speech: ['createSpeechProvider', 'createSpeechProviderWithExtraOptions'], transcription: ['createTranscriptionProvider', 'createTranscriptionProviderWithExtraOptions'] }
export const cases: any = {
  factories: (g: any) => {
    const names = Object.keys(plain).filter(n => /^create[A-Z]/.test(n) && n !== 'createOpenRouter')
    check(names.length > 40, 'provider factories are missing')
    const from = g.int(0, names.length - 1)
    for (const n of [...Array.from({ length: 12 }, (_, i) => names[(from + i) % names.length]), 'createAnthropic', 'createFeatherless', 'createTogetherAI']) {
      const key = g.text(), baseURL = url(g)
      g.note(n, [key, baseURL])
      const p = (plain as any)[n](key, baseURL), q = (plain as any)[n]('other-key', 'http://other/')
      probe(g, n, p, { apiKey: key, baseURL, fetch: 'any' }, m => n === 'createAnthropic' && m === 'chat' && g.bool() ? { thinking: { type: 'enabled', budget_tokens: g.int(1, 9) } } : undefined)
      probe(g, n, q, { apiKey: 'other-key', baseURL: 'http://other/', fetch: 'any' })
      // only the reshaped lists come with a fetch of their own
      if (!['createFeatherless', 'createTogetherAI'].includes(n)) for (const m of METHODS) if (p[m]) check(own(p[m]('z')).fetch === undefined, `${n}.${m} has a fetch`)
      // the default endpoint
      const d = (plain as any)[n](key)
      const urls = new Set(METHODS.filter(m => d[m]).map(m => String(d[m]('z').baseURL)))
      check(urls.size === 1 && URL.canParse([...urls][0]), `${n}: its methods point to ${[...urls].join(' and ')}`)
      for (const m of METHODS) if (d[m]) same(`${n}.${m} key`, d[m]('z').apiKey, key)
    }
  },
  builders: (g: any) => {
    const parts: any[] = [], want: any = {}
    const methods = g.shuffle(METHODS).slice(0, g.int(1, 6))
    const opts = (i: number): any => ({ baseURL: url(g), ...(g.bool(0.7) ? { apiKey: `k${i}` } : {}), ...(g.bool(0.3) ? { headers: { a: `h${i}` } } : {}), ...(g.bool(0.3) ? { fetch: (() => {}) as any } : {}), ...(g.bool(0.2) ? { other: g.json(1) } : {}) })
    const made = methods.map((m: string, i: number) => { const o = opts(i), b = g.pick(rawMethods[m]); return { m, o, b, before: { ...o }, p: (utils as any)[b](o) } })
    g.note('builders', made.map((x: any) => [x.b, x.o]))
    const p = (utils as any).merge(...made.map((x: any) => x.p))
    for (const x of made) check(typeof p[x.m] === 'function', `${x.m} lost in merge`)
    for (const x of g.shuffle(made)) for (let i = 0; i < 2; i++) {
      const extra = x.b.endsWith('ExtraOptions') && g.bool() ? g.pick([{ thinking: 1 }, { headers: { z: '1' } }, { apiKey: 'over' }, {}]) : undefined
      const e0 = extra && clone(extra)
      const h = x.m === 'model' ? p.model(extra) : p[x.m](`mod${i}`, extra)
      const { fetch, ...rest } = own(h) as any, { fetch: wf, ...w } = { ...x.before, ...(x.m === 'model' ? {} : { model: `mod${i}` }), ...extra } as any
      same(`${x.b} call ${i}`, rest, w); check(fetch === wf, `${x.b}: another fetch`)
      for (const k of ['model', 'apiKey', 'thinking', 'baseURL']) h[k] = 'CHANGED'
      same(`options given to ${x.b}`, x.o, x.before); if (extra) same('extra options', extra, e0)
    }
    void parts; void want
  },
  openRouter: async (g: any) => {
    const key = g.word(), baseURL = url(g), p: any = (plain as any).createOpenRouter(key, baseURL)
    const camel: any = { allowFallbacks: 'allow_fallbacks', dataCollection: 'data_collection', ignore: 'ignore', order: 'order', quantizations: 'quantizations', requireParameters: 'require_parameters', sort: 'sort' }
    const hdr: any = g.pick([undefined, undefined, { 'HTTP-Referer': g.word(), 'X-Title': g.word() }, new Headers({ 'X-Title': 'T', 'x-a': 'b' }), {}])
    const o: any = { ...(hdr ? { extraHeaders: hdr } : {}), ...(g.bool() ? { models: g.list(() => g.word(), 0, 3) } : {}), ...(g.bool() ? { transforms: g.list(() => g.word(), 0, 2) } : {}), ...(g.bool() ? { provider: Object.fromEntries(Object.keys(camel).filter(() => g.bool()).map(k => [k, g.json(1)])) } : {}) }
    const given = { ...o, ...(o.provider ? { provider: clone(o.provider) } : {}), ...(o.models ? { models: [...o.models] } : {}) }
    g.note('options', o)
    const rec = recorder(() => jsonRes(completion()))
    const msgs = [{ role: 'user', content: g.str() }]
    for (const use of g.shuffle([true, false, true])) {
      const h = use ? p.chat('a/b', o) : p.chat('a/b')
      rec.calls.length = 0
      await generateText({ ...h, messages: msgs, temperature: 1, fetch: rec.fetch } as any)
      const c = rec.calls[0]
      const w: any = { model: 'a/b', messages: msgs, temperature: 1, stream: false }
      if (use) { if (given.models) w.models = given.models; if (given.transforms) w.transforms = given.transforms; if (given.provider) w.provider = Object.fromEntries(Object.entries(given.provider).map(([k, v]) => [camel[k], v])) }
      same('request body', c.body, w)
      same('authorization', c.headers.authorization, `Bearer ${key}`)
      const wh: any = { authorization: `Bearer ${key}`, 'content-type': 'application/json' }
      if (use && hdr) new Headers(hdr).forEach((v, k) => { wh[k] = v })
      same('headers', c.headers, wh)
      check(urlOf(c).startsWith(baseURL), 'another endpoint')
    }
    exact('openRouter.model', p.model(), { apiKey: key, baseURL })
    same('options', { ...o, extraHeaders: undefined }, { ...given, extraHeaders: undefined })
  },
  azure: async (g: any) => {
    const fn = g.bool(), version = g.pick([undefined, '2024-05-01', 'v 1']), resourceName = g.word()
    let n = 0
    const apiKey: any = fn ? g.pick([() => `tok${n++}`, async () => `tok${n++}`]) : g.word()
    const o: any = { apiKey, resourceName, ...(version === undefined ? {} : { apiVersion: version }) }
    const p: any = await special.createAzure(o)
    const baseURL = `https://${resourceName}.services.ai.azure.com/models/`
    for (const m of ['chat', 'embed', 'speech', 'transcription', 'model']) { const h: any = p[m]('dep'); check(typeof h.fetch === 'function', `${m}: no fetch`); same(`${m}`, { ...h, fetch: undefined }, { baseURL, ...(fn ? {} : { headers: { 'api-key': apiKey } }), ...(m === 'model' ? {} : { model: 'dep' }) }); h.model = 'CHANGED'; h.baseURL = 'CHANGED' }
    const rec = recorder(() => jsonRes({ data: [{ embedding: [1] }], usage: {} }))
    const form = g.pick(['none', 'object', 'headers'])
    g.note('options', o); g.note('headers', form)
    await withGlobal(rec.fetch, async () => {
      for (let i = 0; i < 2; i++) {
        const h = p.embed('dep')
        const headers = form === 'none' ? h.headers : form === 'object' ? { ...h.headers, 'x-mine': '1' } : new Headers({ ...h.headers, 'x-mine': '1' })
        const r = await settle(() => embed({ ...h, headers, input: `i${i}` } as any))
        check(r.ok, 'the call failed', r)
        const c = rec.calls[i]
        const u = new URL(urlOf(c))
        same('address', u.origin + u.pathname, `${baseURL}embeddings`)
        same('query', [...u.searchParams], version === undefined ? [] : [['api-version', version]])
        same('body', c.body, { input: `i${i}`, model: 'dep' })
        same('headers', c.headers, { 'content-type': 'application/json', authorization: `Bearer ${fn ? `tok${i}` : apiKey.trim()}`.trim(), ...(fn ? {} : { 'api-key': apiKey.trim() }), ...(form === 'none' ? {} : { 'x-mine': '1' }) })
        same('method', c.init.method, 'POST')
      }
    })
    if (fn) same('token requests', n, 2)
  },
  player2: async (g: any) => {
    const baseURL = g.pick(['http://localhost:4315/v1/', 'http://h/v1', 'http://h/']), key = g.word(), p: any = special.createPlayer2(baseURL, key)
    const withKey = { baseURL, headers: { 'player2-game-key': key } }
    probe(g, 'player2', { chat: p.chat }, withKey)
    const bytes = Array.from({ length: g.int(0, 12) }, () => g.int(0, 255)), bad = g.weighted([[5, 0], [1, 1], [1, 2]])
    const answer = { data: Buffer.from(bytes).toString('base64') }
    const rec = recorder(() => bad === 1 ? new Response('nope', { status: g.pick([400, 429, 500]) }) : bad === 2 ? (() => { throw new TypeError('net') })() : jsonRes(answer))
    const o: any = { input: g.str(), voice: g.pick([g.word(), undefined]), ...(g.bool() ? { speed: g.num() } : {}), ...(g.bool() ? { responseFormat: 'mp3' } : {}), ...(g.bool() ? { instructions: g.str() } : {}), ...(g.bool(0.3) ? { someExtra: g.json(1) } : {}) }
    g.note('options', o); g.note('bad', bad)
    const h = p.speech('m')
    exact('speech handle', { ...h, fetch: undefined }, { ...withKey, model: 'm' })
    const r: any = await withGlobal(rec.fetch, () => settle(() => generateSpeech({ ...h, ...o })))
    same('requests', rec.calls.length, 1)
    const c = rec.calls[0]
    same('address', urlOf(c), (baseURL.endsWith('/') ? baseURL : baseURL + '/') + 'tts/speak')
    same('method', c.init.method, 'POST'); same('game key', c.headers['player2-game-key'], key)
    same('body', c.body, { audio_format: o.responseFormat, play_in_app: false, speed: o.speed ?? 1, text: o.input, voice_ids: o.voice == null ? [] : [o.voice], model: 'm', ...(o.instructions === undefined ? {} : { instructions: o.instructions }), ...(o.someExtra === undefined ? {} : { some_extra: o.someExtra }) })
    if (bad === 1) { same('error', r.error?.code, 'api_call_error'); same('status', r.error.statusCode >= 400, true); return }
    if (bad === 2) { check(!r.ok && r.error instanceof TypeError, 'the network failure is hidden', r); return }
    check(r.ok, 'the call failed', r.error); same('audio', [...new Uint8Array(r.value)], bytes)
  },
  lists: async (g: any) => {
    const p: any = g.pick([() => (plain as any).createFeatherless('k', 'http://h/v1/'), () => (plain as any).createTogetherAI('k', 'http://h/v1/')])()
    const list = g.list(() => ({ id: g.word(), ...g.obj(1) }), 0, 4), bad = g.bool(0.3), status = g.pick([400, 401, 404, 429, 500, 503]), text = g.str()
    g.note('list', list)
    const rec = recorder(() => bad ? new Response(text, { status }) : jsonRes(list))
    const ac = new AbortController()
    const r: any = await withGlobal(rec.fetch, () => settle(() => listModels({ ...p.model(), headers: { 'x-a': '1' }, abortSignal: ac.signal })))
    same('requests', rec.calls.length, 1)
    same('request', [urlOf(rec.calls[0]), rec.calls[0].headers], ['http://h/v1/models', { authorization: 'Bearer k', 'x-a': '1' }])
    check(rec.calls[0].init.signal === ac.signal, 'the abort signal is lost')
    if (bad) { same('error', [r.error?.code, r.error?.statusCode, r.error?.responseBody], ['api_call_error', status, text]); return }
    check(r.ok, 'the call failed', r.error); same('models', r.value, list)
  },
  workersAI: (g: any) => {
    const k = g.text(), a = g.word(), p = special.createWorkersAI(k, a)
    g.note('account', [k, a])
    probe(g, 'workersAI', p, { apiKey: k, baseURL: `https://api.cloudflare.com/client/v4/accounts/${a}/ai/v1/` })
  },
}
void fail
