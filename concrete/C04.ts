import { responseCatch, responseJSON } from '@xsai/shared'
import { completion, endpoints } from './endpoints'
import { bytes, byteStream, check, jsonRes, recorder, same, setUrl, settle } from './lib'

const opts = (g: any, e: any) => ({ ...e.base(g), model: 'm', baseURL: 'http://x/v1/' })
const badStatus = (g: any) => g.pick([300, 302, 304, 400, 401, 403, 404, 409, 422, 429, 500, 502, 503, 504, 599])
const hdrs = (g: any) => { const h: Record<string, string> = {}; for (let i = g.int(0, 3); i > 0; i--) h[g.pick(['x-request-id', 'retry-after', 'content-type', 'x-a', 'server'])] = g.pick(['1', 'abc', 'text/html', 'a, b', 'application/json']); return h }
const badText = (g: any) => g.pick(['', '{"error":{"message":"no"}}', '<html>x</html>', 'plain', '{"data":[]}', '{"choices":[]}', g.str(), 'x'.repeat(5000)])
const apiError = (err: any, e: { status: number, statusText: string, url: string, headers: any, body: string }, response: Response) => {
  check(err instanceof Error, 'the failure is not an error', err)
  same('error code', err.code, 'api_call_error')
  same('statusCode', err.statusCode, e.status)
  same('statusText', err.statusText, e.statusText)
  same('url', err.url, e.url)
  same('responseHeaders', Object.fromEntries(new Headers(err.responseHeaders).entries()), Object.fromEntries(response.headers.entries()), 'strict')
  for (const [k, v] of Object.entries(e.headers)) check(new Headers(err.responseHeaders).get(k)?.includes(v as string), `response header ${k} lost`)
  same('responseBody', err.responseBody, e.body)
}
const mkBad = (g: any) => {
  const status = badStatus(g), headers = hdrs(g), statusText = g.pick(['', 'Bad', 'Too Many Requests']), url = g.pick(['', 'http://final/url?x=1'])
  const body = status === 304 ? '' : badText(g)
  const res = setUrl(new Response(status === 304 ? null : g.bool() ? body : byteStream(g.split(bytes(body))), { status, statusText, headers }), url)
  return { res, e: { status, statusText, url, headers, body } }
}
const reason = (g: any) => g.pick([new Error('boom'), new TypeError('fetch failed'), 'string reason', { a: 1 }, new DOMException('stop', 'AbortError'), 0])

export const cases: any = {}
for (const e of endpoints) {
  cases[`${e.name}: bad status`] = async (g: any) => {
    const { res, e: x } = mkBad(g)
    g.note('endpoint', e.name); g.note('answer', x)
    const rec = recorder(() => res)
    const r: any = await settle(() => e.run({ ...opts(g, e), fetch: rec.fetch }), e.name)
    check(!r.ok, `${e.name} succeeded on status ${x.status}`, r.value)
    apiError(r.error, x, res)
    same('requests', rec.calls.length, 1)
  }
  cases[`${e.name}: no or odd body`] = async (g: any) => {
    const kind = g.pick(['null', '204', 'string', 'object', 'buffer', 'number'])
    const odd: any = { string: 'text', object: { a: 1 }, buffer: new Uint8Array([1]), number: 7 }
    const res: any = kind === 'null' ? new Response(null) : kind === '204' ? new Response(null, { status: 204 })
      : { ok: true, status: 200, statusText: 'OK', url: 'u', headers: new Headers({ 'content-type': 'text/x' }), body: odd[kind], text: async () => '{}', json: async () => ({}), arrayBuffer: async () => new ArrayBuffer(1) }
    g.note('endpoint', e.name); g.note('body', kind)
    const r: any = await settle(() => e.run({ ...opts(g, e), fetch: async () => res }), e.name)
    check(!r.ok, `${e.name} succeeded without a usable body (${kind})`, r.value)
    same('code', r.error?.code, 'invalid_response')
    same('reason', r.error.reason, kind === 'null' || kind === '204' ? 'empty_body' : 'invalid_body')
  }
  cases[`${e.name}: fetch rejects`] = async (g: any) => {
    const x = reason(g)
    g.note('endpoint', e.name); g.note('reason', x)
    const r: any = await settle(() => e.run({ ...opts(g, e), fetch: g.bool() ? async () => { throw x } : () => { throw x } }), e.name)
    check(!r.ok, `${e.name} succeeded although fetch failed`, r.value)
    check(Object.is(r.error, x), 'the failure of fetch was changed', r.error)
  }
  if (e.answer === 'json') cases[`${e.name}: not JSON`] = async (g: any) => {
    const text = g.pick(['', 'oops', '{', '[1,', '{"a":}', 'undefined', '<html>', "{'a':1}", '{"a":1} x', 'NaN'])
    g.note('endpoint', e.name); g.note('text', text)
    const r: any = await settle(() => e.run({ ...opts(g, e), fetch: async () => new Response(byteStream(g.split(bytes(text)))) }), e.name)
    check(!r.ok, `${e.name} succeeded on a body that is not JSON`, r.value)
    same('code', r.error?.code, 'json_parse_error')
    same('text', r.error.text, text)
  }
}
cases['generateText: no choices'] = async (g: any) => {
  const c: any = completion(); const k = g.pick(['empty', 'absent', 'null'])
  if (k === 'empty') c.choices = []; else if (k === 'absent') delete c.choices; else c.choices = null
  if (g.bool()) delete c.usage
  g.note('answer', c)
  for (const n of ['generateText', 'generateObject']) {
    const e = endpoints.find(x => x.name === n)!
    const r: any = await settle(() => e.run({ ...opts(g, e), fetch: async () => jsonRes(c) }))
    check(!r.ok, 'an answer without choices became a result', r.value)
    same('code', r.error?.code, 'invalid_response'); same('reason', r.error.reason, 'no_choices')
  }
}
cases['generateImage: bad image download'] = async (g: any) => {
  const { res, e: x } = mkBad(g)
  g.note('answer', x)
  const e = endpoints.find(x => x.name === 'generateImage')!
  let n = 0
  const r: any = await settle(() => e.run({ ...opts(g, e), fetch: async () => n++ === 0 ? jsonRes({ data: [{ url: 'http://img/1' }] }) : res }))
  check(!r.ok, 'a failed image download became an image', r.value)
  apiError(r.error, x, res)
}
cases.responseJSON = async (g: any) => {
  const v = g.json(4)
  g.note('value', v)
  const r = await responseJSON(jsonRes(JSON.stringify(v, null, g.pick([0, 2]))))
  same('value returned', r, v, 'strict')
}
cases.responseCatch = async (g: any) => {
  const status = g.pick([200, 201, 202, 206, 226, 299]), text = g.str()
  g.note('status', status)
  const res = new Response(text, { status })
  const out = await responseCatch(res)
  check(out === res, 'a good response was replaced')
  same('body', await out.text(), text)
}
cases['exact values'] = async (g: any) => {
  const model = g.obj(3)
  const e = endpoints.find(x => x.name === 'retrieveModel')!
  same('retrieveModel', await e.run({ ...opts(g, e), fetch: async () => jsonRes(model) }), model, 'strict')
  const l = endpoints.find(x => x.name === 'listModels')!
  const data = g.list(() => g.obj(2), 0, 4)
  same('listModels', await l.run({ ...opts(g, l), fetch: async () => jsonRes({ object: 'list', data }) }), data, 'strict')
  const t = endpoints.find(x => x.name === 'generateTranscription')!
  const tr = { text: g.str(), ...g.obj(2) }
  same('generateTranscription', await t.run({ ...opts(g, t), fetch: async () => jsonRes(tr) }), tr, 'strict')
}
