import { embed, embedMany } from '@xsai/embed'
import { generateImage } from '@xsai/generate-image'
import { generateSpeech } from '@xsai/generate-speech'
import { generateTranscription } from '@xsai/generate-transcription'
import { listModels, retrieveModel } from '@xsai/model'
import { streamSpeech } from '@xsai/stream-speech'
import { streamTranscription } from '@xsai/stream-transcription'
import './endpoints'
import { byteStream, bytes, check, collect, jsonRes, recorder, same, settle, sse, tick, urlOf } from './lib'

const base = { baseURL: 'http://h/v1/', model: 'm' }
const b64 = (xs: number[]) => Buffer.from(xs).toString('base64')
const raw = (g: any, n = 20) => Array.from({ length: g.int(0, n) }, () => g.int(0, 255))
const SIG: [number[], RegExp][] = [
  [[0xFF, 0xD8, 0xFF], /^image\/jpe?g$/], [[0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A], /^image\/png$/], [[0x47, 0x49, 0x46, 0x38], /^image\/gif$/],
  [[0x52, 0x49, 0x46, 0x46], /^image\/webp$/], [[0, 0, 0, 0x20, 0x66, 0x74, 0x79, 0x70, 0x61, 0x76, 0x69, 0x66], /^image\/avif$/],
]
const need = async (f: () => any) => { const r: any = await settle(f); check(r.ok, 'the call failed', r.error); return r.value }
export const cases: any = {
  embeddings: async (g: any) => {
    const many = g.bool(), data = g.list(() => ({ embedding: g.list(() => g.num(), 0, 4), index: g.int(0, 9), object: 'embedding' }), 1, 5), usage = { prompt_tokens: g.int(0, 99), total_tokens: g.int(0, 99) }
    const input: any = many ? g.list(() => g.str(), 0, 4) : g.str()
    g.note('data', data); g.note('input', input)
    const rec = recorder(() => jsonRes({ object: 'list', model: 'other', data, usage }))
    const r = await need(() => ((many ? embedMany : embed) as any)({ ...base, input, fetch: rec.fetch }))
    same('result', r, many ? { embeddings: data.map((d: any) => d.embedding), input, usage } : { embedding: data[0].embedding, input, usage })
    same('input sent', rec.calls[0].body.input, input)
  },
  images: async (g: any) => {
    const items = g.list(() => g.weighted([
      [5, () => { const [sig, type] = g.pick(SIG); const d = sig[0] === 0x52 ? [...sig, ...raw(g, 4), 0x57, 0x45, 0x42, 0x50] : [...sig, ...(sig[0] === 0x47 ? [g.pick([0x37, 0x39]), 0x61] : []), ...raw(g)]; return { entry: { b64_json: b64(d), ...(g.bool(0.3) ? { revised_prompt: 'x' } : {}) }, data: d, type } }],
      [3, () => { const d = raw(g, 40), type = g.pick(['image/png', 'image/x-thing', 'image/jpeg']), n = g.int(0, 1e6); return { entry: { url: `http://img/${n}` }, data: d, type: new RegExp(`^${type.replace('/', '\\/')}$`), served: type } }],
    ]), 0, 4) as any[]
    const badAt = g.bool(0.15) && items.length ? g.int(0, items.length - 1) : -1, badImage = g.bool(0.1) ? items.findIndex(i => i.served) : -1
    const entries = items.map((x, i) => i === badAt ? g.pick([{}, { b64_json: null }, { revised_prompt: 'x' }, { url: 3 }]) : x.entry)
    g.note('entries', entries); g.note('bad image', badImage)
    const ac = new AbortController()
    const rec = recorder(async (c) => {
      const u = urlOf(c)
      if (!u.startsWith('http://img/')) return jsonRes({ created: 1, data: entries })
      for (let i = g.int(0, 3); i > 0; i--) await tick()
      const k = entries.findIndex((e: any) => e.url === u)
      return k === badImage ? new Response('gone', { status: 404 }) : new Response(new Uint8Array(items[k].data), { headers: { 'content-type': items[k].served } })
    })
    const o = { ...base, prompt: g.str(), abortSignal: ac.signal, fetch: rec.fetch }
    const r: any = await settle(() => generateImage(o as any))
    if (badAt >= 0) { check(!r.ok, 'an unrecognisable entry became an image', r.value); return }
    if (badImage >= 0 && entries[badImage].url) { same('error', r.error?.code, 'api_call_error'); return }
    check(r.ok, 'the call failed', r.error)
    same('images', r.value.images.length, items.length)
    r.value.images.forEach((im: any, i: number) => {
      check(items[i].type.test(im.mimeType), `image ${i} is labelled ${im.mimeType}, expected ${items[i].type}`)
      same(`image ${i}`, im.base64, `data:${im.mimeType};base64,${b64(items[i].data)}`)
    })
    check(r.value.image === r.value.images[0] || JSON.stringify(r.value.image) === JSON.stringify(r.value.images[0]), 'the first image differs')
    check(rec.calls.every(c => c.init.signal === ac.signal), 'a request without the abort signal')
    same('requests', rec.calls.length, 1 + entries.filter((e: any) => e.url).length)
  },
  speech: async (g: any) => {
    const d = raw(g, 60)
    const rec = recorder(() => new Response(byteStream(g.split(new Uint8Array(d)))))
    const r = await need(() => generateSpeech({ ...base, input: 'x', voice: 'v', fetch: rec.fetch } as any))
    check(r instanceof ArrayBuffer, 'not an ArrayBuffer'); same('audio', [...new Uint8Array(r)], d)
  },
  streamedSpeech: async (g: any) => {
    const ds = g.list(() => raw(g, 12), 0, 6), u = g.bool(0.6) ? { input_tokens: g.int(0, 9), output_tokens: g.int(0, 9), total_tokens: g.int(0, 18) } : undefined
    const msgs: any[] = ds.map((d: number[]) => ({ type: 'speech.audio.delta', audio: b64(d) }))
    if (g.bool(0.8) || u) msgs.push({ type: 'speech.audio.done', ...(u ? { usage: u } : {}) })
    if (g.bool(0.2)) msgs.splice(g.int(0, msgs.length), 0, { type: 'other' })
    g.note('messages', msgs)
    const rec = recorder(() => new Response(byteStream(g.split(bytes(sse(g, msgs))), g.bool(0.3) ? { pause: tick } : {})))
    const o: any = { ...base, input: g.str(), voice: 'v', fetch: rec.fetch }
    const r = await need(() => streamSpeech(o))
    const [c, us]: any = await Promise.all([collect(r.fullStream, 'audio stream'), settle(r.usage, 'usage')])
    same('end', c.end, 'closed'); same('audio', c.items.map((x: any) => [...x]), ds)
    check(us.ok, 'the usage promise failed', us); same('usage', us.value, u && { inputTokens: u.input_tokens, outputTokens: u.output_tokens, totalTokens: u.total_tokens })
  },
  transcription: async (g: any) => {
    const stream = g.bool(), data = g.str(), name = g.pick([undefined, 'a.mp3', 'x y.wav']), own = g.pick([undefined, 'own.wav'])
    const opts: any = { file: own ? new File([data], own, { type: 'audio/mpeg' }) : new Blob([data], { type: 'audio/mpeg' }), ...(name ? { fileName: name } : {}) }
    const fields: [string, string][] = [['model', 'm']]
    for (const [k, f] of [['language', 'language'], ['prompt', 'prompt'], ['temperature', 'temperature']]) if (g.bool()) { opts[k] = k === 'temperature' ? g.pick(['0', '0.5', '']) : g.pick(['en', '', g.word()]); fields.push([f, opts[k]]) }
    if (stream) fields.push(['stream', 'true'])
    else {
      const rf = g.pick([undefined, 'json', 'verbose_json']), tg = g.pick([undefined, 'word', 'segment'])
      if (rf) opts.responseFormat = rf
      if (tg) opts.timestampGranularities = tg
      fields.push(['response_format', rf ?? 'json'])
      if (rf === 'verbose_json') fields.push(['timestamp_granularities[]', tg ?? 'segment'])
    }
    g.note('options', { ...opts, file: data })
    const deltas = g.list(() => g.str(), 0, 6), answer = { text: g.str(), words: g.json(1), extra: 1 }
    const msgs = [...deltas.map((delta: string) => ({ type: 'transcript.text.delta', delta })), ...(g.bool(0.8) ? [{ type: 'transcript.text.done', text: 'ignored' }] : [])]
    const rec = recorder(() => stream ? new Response(byteStream(g.split(bytes(sse(g, msgs))), g.bool(0.3) ? { pause: tick } : {})) : jsonRes(answer))
    if (stream) {
      const r = streamTranscription({ ...base, ...opts, fetch: rec.fetch } as any)
      const [a, b, t]: any = await Promise.all([collect(r.textStream, 'text stream'), collect(r.fullStream, 'full stream'), settle(r.text, 'text')])
      same('ends', [a.end, b.end], ['closed', 'closed']); same('text deltas', a.items, deltas); same('events', b.items, msgs.slice(0, deltas.length)); check(t.ok, 'the text promise failed', t); same('text', t.value, deltas.join(''))
    }
    else same('result', await need(() => generateTranscription({ ...base, ...opts, fetch: rec.fetch } as any)), answer)
    same('requests', rec.calls.length, 1)
    const body = rec.calls[0].init.body
    check(body instanceof FormData, 'not a form')
    const got: any[] = [], files: any[] = []
    for (const [k, v] of body.entries()) if (typeof v === 'string') got.push([k, v]); else files.push([k, v.name, await v.text(), v.type])
    const sort = (xs: any[]) => xs.map(x => JSON.stringify(x)).sort()
    same('form fields', sort(got), sort(fields)); same('file', files, [['file', name ?? own ?? 'blob', data, 'audio/mpeg']])
    same('method', rec.calls[0].init.method, 'POST')
  },
  models: async (g: any) => {
    const one = g.bool(), list = g.list(() => ({ id: g.word(), object: 'model', created: 1, owned_by: g.str(), ...g.obj(1) }), 0, 5)
    g.note('models', list)
    const rec = recorder(() => jsonRes(one ? list[0] ?? { id: 'z' } : { object: 'list', data: list }))
    const r = await need(() => one ? retrieveModel({ ...base, fetch: rec.fetch } as any) : listModels({ ...base, fetch: rec.fetch } as any))
    same('result', r, one ? list[0] ?? { id: 'z' } : list)
  },
}
