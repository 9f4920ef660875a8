import { createFetch } from 'xsfetch'
import { check, same } from './lib'

const DEFAULT = [408, 409, 425, 429, 500, 502, 503, 504]
/** runs f with the global fetch and the timers replaced; returns what was waited before each request */
const world = async (respond: (n: number, input: any, init: any) => any, f: (calls: any[]) => Promise<any>) => {
  const of = globalThis.fetch, ot = globalThis.setTimeout, ow = console.warn
  const calls: any[] = []
  let waited = 0
  globalThis.fetch = ((...a: any[]) => { calls.push({ input: a[0], init: a[1], n: a.length, waited }); waited = 0; return respond(calls.length - 1, a[0], a[1]) }) as any
  ;(globalThis as any).setTimeout = (g: any, ms: any, ...a: any[]) => { waited += ms; return ot(g, 0, ...a) }
  console.warn = () => {}
  try { return { calls, out: await f(calls), rest: waited } } finally { globalThis.fetch = of; globalThis.setTimeout = ot; console.warn = ow }
}
const statusOf = (g: any) => g.weighted([[2, 200], [1, 204], [1, 302], [1, 400], [1, 404], [1, 401], [5, () => g.pick(DEFAULT)], [1, 418], [1, 501], [1, 599]])
const conf = (g: any) => {
  const o: any = {}
  if (g.bool(0.6)) o.retry = g.int(0, 6)
  if (g.bool(0.6)) o.retryDelay = g.int(0, 90)
  if (g.bool(0.3)) o.retryStatusCodes = g.list(() => statusOf(g), 0, 4)
  if (g.bool(0.2)) o.debug = g.bool()
  return o
}
export const cases: any = {
  retries: async (g: any) => {
    const confs = [conf(g), g.bool(0.2) ? undefined : conf(g)], given = structuredClone(confs)
    g.note('settings', confs)
    const fetches = confs.map(c => c === undefined ? createFetch() : createFetch(c))
    for (const k of g.shuffle([0, 1, 0])) {
      const c: any = given[k] ?? {}, retry = c.retry ?? 3, delay = c.retryDelay ?? 500, codes = c.retryStatusCodes ?? DEFAULT
      const plan = Array.from({ length: retry + 3 }, () => g.bool(0.08) ? { reject: g.pick([new Error('net'), null, 'x']) } : { status: statusOf(g) }) as any[]
      const responses = plan.map((p: any) => p.status === undefined ? undefined : new Response(null, { status: p.status }))
      const input = g.pick(['http://x/', new URL('http://x/a')]), init = g.pick([undefined, { method: 'POST', body: 'b' }])
      g.note('plan', plan)
      let want = 0
      while (want < retry && plan[want].status !== undefined && !(plan[want].status >= 200 && plan[want].status < 300) && codes.includes(plan[want].status)) want++
      const w = await world((n) => { const p = plan[n]; if (p === undefined) throw new Error('too many requests'); return p.status === undefined ? Promise.reject(p.reject) : Promise.resolve(responses[n]) }, async () => {
        try { return { value: await fetches[k](input as any, init) } } catch (e) { return { error: e } }
      })
      same('requests', w.calls.length, want + 1)
      w.calls.forEach((x: any, i: number) => { check(x.input === input && x.init === init, `request ${i} has another input or init`); same(`wait before request ${i}`, x.waited, i ? delay : 0) })
      same('wait after the last', w.rest, 0)
      if (plan[want].status === undefined) check('error' in w.out && Object.is(w.out.error, plan[want].reject), 'a rejected request does not reject the call', w.out)
      else check(w.out.value === responses[want], 'another response is returned', w.out)
    }
  },
  overlapping: async (g: any) => {
    const f = createFetch({ retry: 2, retryDelay: 1 }), n = g.int(2, 4)
    const fails = Array.from({ length: n }, () => g.int(0, 4)), counts: any = {}
    g.note('failures before success', fails)
    const w = await world((_, input) => { const k = Number(input); counts[k] = (counts[k] ?? 0) + 1; return Promise.resolve(new Response(null, { status: counts[k] > fails[k] ? 200 : 503 })) }, async () => Promise.all(fails.map((_, k) => f(String(k)))))
    w.out.forEach((r: any, k: number) => { same(`requests of call ${k}`, counts[k], Math.min(3, fails[k] + 1)); same(`status of call ${k}`, r.status, fails[k] <= 2 ? 200 : 503) })
  },
}
