// A tracer that checks every span as it goes: nothing after its end, one end each.
import { trace } from '@opentelemetry/api'

/** on.start and on.end see the record of a span; g counts */
export const tracing = (v, on = {}) => {
  const g = { opened: 0, ended: 0 }
  const make = (name, o) => {
    const rec = { name, attributes: { ...o?.attributes }, ended: 0, status: undefined, exceptions: [] }
    g.opened++
    if (on.start) on.start(rec)
    const alive = () => v.ensure('a span is not used after its end', rec.ended === 0)
    const span = {
      setAttribute: (k, x) => { alive(); rec.attributes = { ...rec.attributes, [k]: x }; return span },
      setAttributes: (more) => { alive(); rec.attributes = { ...rec.attributes, ...more }; return span },
      setStatus: (s) => { alive(); rec.status = s; return span },
      recordException: (e) => { alive(); rec.exceptions.push(e) },
      end: () => { v.ensure('a span is ended once', rec.ended === 0); rec.ended = 1; g.ended++; if (on.end) on.end(rec) },
    }
    return span
  }
  const tracer = { startSpan: make, startActiveSpan: (name, ...rest) => rest[rest.length - 1](make(name, rest.length > 1 ? rest[0] : undefined)) }
  trace.disable()
  trace.setGlobalTracerProvider({ getTracer: () => tracer })
  return g
}
export const restore = () => trace.disable()
/** what a failed operation leaves on its span */
export const failedWith = (v, rec, e) => {
  v.eq('the status of the failed span', rec.status.code, 2)
  if (!(e instanceof Error)) return
  v.eq('the message on the span', rec.attributes['error.message'], e.message)
  v.eq('the name of the error on the span', rec.attributes['error.type'], e.name)
  v.eq('the message of the status', rec.status.message, e.message)
  v.ensure('the exception on the span', rec.exceptions.length === 1 && rec.exceptions[0].name === e.name && rec.exceptions[0].message === e.message)
}
export const fine = (v, rec) => v.ensure('a span of a successful operation is not marked as failed', rec.status === undefined && rec.exceptions.length === 0)
