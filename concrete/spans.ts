// A tracer that records every span.
import { context, trace } from '@opentelemetry/api'

export interface Rec { name: string, attributes: any, ended: number, status?: any, exceptions: any[], late: string[], parent?: Rec, order: number }
const wrapFn = (spans: Rec[]) => {
  const mk = (name: string, o: any): any => {
    const rec: Rec = { name, attributes: { ...o?.attributes }, ended: 0, exceptions: [], late: [], order: spans.length }
    spans.push(rec)
    const late = (w: string) => { if (rec.ended) rec.late.push(w) }
    const span: any = {
      rec,
      spanContext: () => ({ traceId: '0'.repeat(31) + '1', spanId: '0'.repeat(15) + '1', traceFlags: 1 }),
      setAttribute: (k: string, v: any) => { late(`attribute ${k}`); rec.attributes[k] = v; return span },
      setAttributes: (a: any) => { late('attributes'); Object.assign(rec.attributes, a); return span },
      addEvent: () => span, addLink: () => span, addLinks: () => span,
      setStatus: (s: any) => { late('status'); rec.status = s; return span },
      updateName: (n: string) => { rec.name = n; return span },
      end: () => { rec.ended++ },
      isRecording: () => rec.ended === 0,
      recordException: (e: any) => { late('exception'); rec.exceptions.push(e) },
    }
    return span
  }
  return {
    startSpan: (name: string, o: any) => mk(name, o),
    startActiveSpan: (name: string, ...rest: any[]) => { const fn = rest.at(-1), o = rest.length > 1 ? rest[0] : undefined; return fn(mk(name, o)) },
  }
}
/** installs the recording tracer; call restore afterwards */
export const tracing = () => {
  const spans: Rec[] = []
  trace.disable()
  trace.setGlobalTracerProvider({ getTracer: () => wrapFn(spans) } as any)
  void context
  return { spans, restore: () => { trace.disable() } }
}
