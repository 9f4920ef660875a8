// Models of the platform and of external packages, interpreted by the engine (trusted; listed as assumptions).
// @ts-nocheck
class Error {
  constructor(message, options) {
    this.message = message === undefined ? '' : String(message)
    this.name = 'Error'
    if (options !== undefined && options !== null && 'cause' in options) this.cause = options.cause
  }
  toString() { return `${this.name}: ${this.message}` }
  static captureStackTrace() {}
}
class TypeError extends Error { constructor(m, o) { super(m, o); this.name = 'TypeError' } }
class SyntaxError extends Error { constructor(m, o) { super(m, o); this.name = 'SyntaxError' } }
class RangeError extends Error { constructor(m, o) { super(m, o); this.name = 'RangeError' } }
class DOMException extends Error { constructor(m, n) { super(m); this.name = n ?? 'Error' } }

class URLSearchParams {
  constructor() { this.list = [] }
  get(k) { const e = this.list.find(x => x[0] === k); return e === undefined ? null : e[1] }
  has(k) { return this.list.some(x => x[0] === k) }
  delete(k) { this.list = this.list.filter(x => x[0] !== k) }
  set(k, v) { this.list = [...this.list.filter(x => x[0] !== k), [k, String(v)]] }
  append(k, v) { this.list = [...this.list, [k, String(v)]] }
  entries() { return this.list }
}
class URL {
  constructor(path, base) {
    this._base = base === undefined ? String(path) : __native('urljoin', String(path), String(base))
    this.searchParams = new URLSearchParams()
  }
  get hostname() { return __native('urlpart', 'hostname', this._base) }
  get port() { return __native('urlpart', 'port', this._base) }
  get protocol() { return __native('urlpart', 'protocol', this._base) }
  get href() {
    const l = this.searchParams.list
    return l.length === 0 ? this._base : this._base + '?' + l.map(([k, v]) => encodeURIComponent(k) + '=' + encodeURIComponent(v)).join('&')
  }
  toString() { return this.href }
  toJSON() { return this.href }
}
class Headers {
  constructor(init) {
    this.list = init === undefined || init === null ? [] : init instanceof Headers ? [...init.list] : Array.isArray(init) ? init.map(([k, v]) => [k.toLowerCase(), String(v)]) : Object.entries(init).map(([k, v]) => [k.toLowerCase(), String(v)])
  }
  entries() { return this.list }
  get(k) { const n = k.toLowerCase(); const e = this.list.find(x => x[0] === n); return e === undefined ? null : e[1] }
  has(k) { const n = k.toLowerCase(); return this.list.some(x => x[0] === n) }
  set(k, v) { const n = k.toLowerCase(); this.list = [...this.list.filter(x => x[0] !== n), [n, String(v)]] }
  append(k, v) { this.list = [...this.list, [k.toLowerCase(), String(v)]] }
  delete(k) { const n = k.toLowerCase(); this.list = this.list.filter(x => x[0] !== n) }
  forEach(f) { for (const [k, v] of this.list) f(v, k) }
  keys() { return this.list.map(x => x[0]) }
  values() { return this.list.map(x => x[1]) }
}
class Response {
  constructor(body, init) {
    this._body = body
    this.status = init?.status ?? 200
    this.statusText = init?.statusText ?? ''
    this.headers = init?.headers instanceof Headers ? init.headers : new Headers(init?.headers)
    this.url = init?.url ?? ''
  }
  get ok() { return this.status >= 200 && this.status <= 299 }
  get body() {
    if (this._body === undefined || this._body === null) return null
    if (this._body instanceof ReadableStream) return this._body
    if (this._stream === undefined) { this._stream = new ReadableStream({ start: (c) => { c.enqueue(this._body); c.close() } }) }
    return this._stream
  }
  async text() {
    if (this._body === null || this._body === undefined) return ''
    if (this._body instanceof Blob) return __native('blobtext', this._body)
    return this._body
  }
  async json() { return JSON.parse(await this.text()) }
  async blob() { return this._body instanceof Blob ? this._body : new Blob([this._body], { type: this.headers.get('content-type') ?? '' }) }
  async arrayBuffer() { return this._body instanceof Blob ? this._body.buffer : __native('buffer', this._body) }
  static json(data, init) { return new Response(JSON.stringify(data), init) }
}
class FormData {
  constructor() { this.list = [] }
  append(k, v, f) { this.list.push(f === undefined ? [k, v] : [k, v, f]) }
  set(k, v) { this.list = [...this.list.filter(x => x[0] !== k), [k, v]] }
  entries() { return this.list }
}
class Blob {
  constructor(parts, options) { this.parts = parts; this.type = options?.type ?? '' }
  get buffer() { return this.parts }
  async arrayBuffer() { return this.buffer }
  async text() { return __native('blobtext', this) }
}
class ReadableStreamDefaultController {
  constructor(s) { this._s = s }
  enqueue(c) {
    const s = this._s
    if (s._state !== 'open') throw new TypeError('Invalid state: Controller is already closed')
    if (s._sink !== undefined) s._sink.write(c)
    else s._log.push(c)
  }
  close() {
    const s = this._s
    if (s._state !== 'open') throw new TypeError('Invalid state: Controller is already closed')
    s._state = 'closed'
    if (s._sink !== undefined) s._sink.close()
  }
  error(e) {
    const s = this._s
    if (s._state !== 'open') return
    s._state = 'errored'
    s._error = e
    if (s._sink !== undefined) s._sink.abort(e)
  }
  get desiredSize() { return this._s._state === 'errored' ? null : this._s._state === 'closed' ? 0 : 1 }
}
// A source hands its chunks over when its end consumer asks for them: all at once (a consumer that keeps up: pipeTo, collect)
// or one by one (a reader). _log holds the chunks delivered so far; _up is the stream that feeds this one.
class ReadableStream {
  constructor(source) {
    this._log = []
    this._state = 'open'
    this._error = undefined
    this._sink = undefined
    this._cancelled = false
    this._source = source
    this._up = undefined
    this._items = undefined
    this._running = false
    const c = new ReadableStreamDefaultController(this)
    this._c = c
    if (source !== undefined && source !== null && source.start !== undefined) source.start(c)
  }
  get locked() { return this._sink !== undefined }
  async cancel(reason) {
    if (this._state === 'closed') return
    if (this._state === 'errored') throw this._error
    this._state = 'closed'
    this._cancelled = true
    if (this._source?.cancel !== undefined) await this._source.cancel(reason)
  }
  /** everything up to the end */
  _demand() {
    if (this._running) return
    this._running = true
    if (this._up !== undefined) { this._up._demand(); return }
    if (this._items !== undefined) {
      if (this._state !== 'open') return
      for (const m of this._items) {
        this._c.enqueue(m)
        if (this._state !== 'open') break
      }
      this._finish()
      return
    }
    if (this._source?.pull !== undefined) {
      try { while (this._state === 'open') __await(this._source.pull(this._c)) }
      catch (e) { this._c.error(e) }
    }
  }
  _finish() {
    if (this._state !== 'open') return
    if (this._end !== undefined) this._c.error(this._end.error); else this._c.close()
  }
  /** one more chunk of the source */
  _pull() {
    if (this._up !== undefined) { this._up._pull(); return }
    if (this._items !== undefined) {
      const pos = this._pos
      __native('atMost', pos, this._items.length) // it starts at 0 and moves on only below the length
      if (pos < this._items.length) { this._pos = pos + 1; this._c.enqueue(this._items[pos]) }
      else if (this._state === 'open') { __native('lastRounds'); this._finish() }
      return
    }
    if (this._source?.pull !== undefined) { try { __await(this._source.pull(this._c)) } catch (e) { this._c.error(e) } }
    else throw new Error('prelude: a reader would wait for ever')
  }
  pipeThrough(t) { this._pipe(t.writable, undefined); t.readable._up = this; return t.readable }
  pipeTo(w) { const d = Promise.withResolvers(); this._pipe(w, d); this._demand(); return d.promise }
  getReader() { return new ReadableStreamDefaultReader(this) }
  tee() {
    const one = new ReadableStream(), two = new ReadableStream()
    one._up = this
    two._up = this
    this._connect({
      write(c) { if (one._state === 'open') one._c.enqueue(c); if (two._state === 'open') two._c.enqueue(c) },
      close() { if (one._state === 'open') one._c.close(); if (two._state === 'open') two._c.close() },
      abort(e) { one._c.error(e); two._c.error(e) },
    })
    return [one, two]
  }
  _connect(sink) {
    this._sink = sink
    for (const c of this._log) sink.write(c)
    if (this._state === 'closed') sink.close()
    else if (this._state === 'errored') sink.abort(this._error)
  }
  _pipe(w, d) {
    const self = this
    this._sink = {
      write(c) { if (w._state === 'open') { w._write(c); if (w._state === 'errored') { if (self._state === 'open') { self._state = 'closed'; self._cancelled = true; self._source?.cancel?.(w._error) } d?.reject(w._error) } } },
      close() { if (w._state === 'open') { w._close(); if (w._state === 'errored') d?.reject(w._error); else d?.resolve(undefined) } },
      abort(e) { if (w._state === 'open') w._abort(e); d?.reject(e) },
    }
    const sink = this._sink
    for (const c of this._log) { sink.write(c); if (w._state !== 'open') break }
    if (w._state === 'open') {
      if (this._state === 'closed') this._sink.close()
      else if (this._state === 'errored') this._sink.abort(this._error)
    }
  }
}
class ReadableStreamDefaultReader {
  constructor(s) {
    this._s = s
    this._queue = []
    const self = this
    s._connect({ write(c) { self._queue = [...self._queue, c] }, close() {}, abort() {} })
  }
  async read() {
    if (this._queue.length > 0) { const value = this._queue[0]; this._queue = this._queue.slice(1); return { done: false, value } }
    if (this._s._state === 'errored') throw this._s._error
    if (this._s._state === 'closed') return { done: true, value: undefined }
    this._s._pull()
    return this.read()
  }
  releaseLock() { this._s._sink = undefined }
  async cancel(reason) { return this._s.cancel(reason) }
}
const __sourceOf = (items, end) => { const s = new ReadableStream(); s._items = items; s._pos = 0; s._end = end; return s }
class WritableStream {
  constructor(sink) { this._sink = sink ?? {}; this._state = 'open'; this._error = undefined; if (this._sink.start !== undefined) this._sink.start({}) }
  _fail(e) { if (this._state === 'open') { this._state = 'errored'; this._error = e } }
  _write(c) { try { __await(this._sink.write?.(c)) } catch (e) { this._fail(e) } }
  _close() { try { __await(this._sink.close?.()); this._state = 'closed' } catch (e) { this._fail(e) } }
  _abort(e) { this._state = 'errored'; this._error = e; __await(this._sink.abort?.(e)) }
}
class TransformStream {
  constructor(transformer) {
    const t = transformer ?? {}
    let ctrl
    this.readable = new ReadableStream({ start(c) { ctrl = c }, cancel(r) { w._fail(r) } })
    const tc = {
      enqueue: (c) => { ctrl.enqueue(c) },
      error: (e) => { ctrl.error(e); w._fail(e) },
      terminate: () => { ctrl.close(); w._fail(new TypeError('Invalid state: TransformStream has been terminated')) },
    }
    const guard = (f) => { try { __await(f()) } catch (e) { ctrl.error(e); w._fail(e) } }
    const w = new WritableStream({
      write: (c) => { guard(() => { if (t.transform === undefined) tc.enqueue(c); else return t.transform(c, tc) }) },
      close: () => { guard(() => t.flush?.(tc)); if (w._state === 'open') { if (this.readable._state === 'open') ctrl.close() } },
      abort: (e) => { ctrl.error(e) },
    })
    this.writable = w
    if (t.start !== undefined) guard(() => t.start(tc))
  }
}
// Byte decoding and event-stream framing are trusted: a body is given as the sequence of its messages.
class TextDecoderStream extends TransformStream {}
class EventSourceParserStream extends TransformStream {}
class AbortSignal {
  constructor() { this.aborted = false; this.reason = undefined; this.listeners = [] }
  addEventListener(t, f) { this.listeners = [...this.listeners, f] }
  removeEventListener(t, f) { this.listeners = this.listeners.filter(x => x !== f) }
  throwIfAborted() { if (this.aborted) throw this.reason }
}
class AbortController {
  constructor() { this.signal = new AbortSignal() }
  abort(reason) { const s = this.signal; if (s.aborted) return; s.aborted = true; s.reason = reason === undefined ? new DOMException('This operation was aborted', 'AbortError') : reason; for (const f of s.listeners) f({ type: 'abort' }) }
}
class Map {
  constructor(init) { this.list = []; if (init !== undefined && init !== null) for (const [k, v] of init) this.set(k, v) }
  get(k) { return this.list.find(e => e[0] === k)?.[1] }
  has(k) { return this.list.some(e => e[0] === k) }
  set(k, v) { this.list = this.list.some(e => e[0] === k) ? this.list.map(e => e[0] === k ? [k, v] : e) : [...this.list, [k, v]]; return this }
  delete(k) { const h = this.has(k); this.list = this.list.filter(e => e[0] !== k); return h }
  entries() { return this.list }
  keys() { return this.list.map(e => e[0]) }
  values() { return this.list.map(e => e[1]) }
  forEach(f) { for (const [k, v] of this.list) f(v, k) }
  get size() { return this.list.length }
}
class Set {
  constructor(init) { this.list = init === undefined || init === null ? [] : [...init] }
  has(k) { return this.list.includes(k) }
  add(k) { if (!this.list.includes(k)) this.list = [...this.list, k]; return this }
  delete(k) { const h = this.has(k); this.list = this.list.filter(e => e !== k); return h }
  entries() { return this.list }
  values() { return this.list }
  get size() { return this.list.length }
}

// External packages that a contract stands in for (v.contract); concretely the real ones run.
function parse(text) { throw new Error('prelude: no contract for parse of best-effort-json-parser') }

// ---------- @opentelemetry/api
const SpanStatusCode = { UNSET: 0, OK: 1, ERROR: 2 }
const trace = {
  _provider: undefined,
  disable() { this._provider = undefined },
  setGlobalTracerProvider(p) { this._provider = p; return true },
  getTracer(name, version) { return this._provider.getTracer(name, version) },
}
