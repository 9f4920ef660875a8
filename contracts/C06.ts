import { T } from 'verif'
import { closeControllers, createControlledStream, errorControllers } from '@xsai/shared-stream'
import { pick } from './lib'

/** a member of a group with some history; log: every end its stream saw */
const member = (v, name, earlier) => {
  const [stream, ctrl] = createControlledStream()
  ctrl.current.enqueue(name)
  const state = pick(v, name + 'State', 'open', 'cancelled', 'closed', 'failed')
  return { stream, ctrl, state, chunks: [name], earlier }
}
const prepare = async (v, m) => {
  if (m.state === 'cancelled') await m.stream.cancel('bye')
  if (m.state === 'closed') closeControllers(m.ctrl)
  if (m.state === 'failed') errorControllers(m.earlier, m.ctrl)
}
const outcome = async (v, m) => v.collect(m.stream)
const check = async (v, act, want) => {
  const count = pick(v, 'count', 1, 2, 3, 4)
  const earlier = new Error('earlier')
  const all = ['a', 'b', 'c', 'd'].slice(0, count).map(n => member(v, n, earlier))
  for (const m of all) await prepare(v, m)
  let threw = false
  try { act(all.map(m => m.ctrl)) }
  catch { threw = true }
  v.ensure('never throws', !threw)
  for (const m of all) {
    const got = await outcome(v, m)
    if (m.state === 'open') want(m, got)
    if (m.state === 'cancelled' || m.state === 'closed') v.eq('an ended member stays ended', got.state, 'closed')
    if (m.state === 'failed') v.ensure('a failed member keeps its failure', got.state === 'errored' && got.error === earlier)
  }
}
export const C06_close = v => check(v, cs => closeControllers(...cs), (m, got) => {
  v.eq('an open member is closed', got.state, 'closed')
  v.eq('with its chunks', got.chunks, m.chunks)
})
export const C06_error = (v) => {
  const reason = v.any('reason', T.any)
  return check(v, cs => errorControllers(reason, ...cs), (m, got) => {
    v.eq('an open member fails', got.state, 'errored')
    v.ensure('with the reason', got.error === reason)
  })
}
export const C06_twice = async (v) => {
  // a second end, in either form, changes nothing
  const [stream, ctrl] = createControlledStream()
  const first = v.any('first', T.bool), second = v.any('second', T.bool)
  const a = v.any('a', T.str), b = v.any('b', T.str)
  const end = (close, reason) => close ? closeControllers(ctrl) : errorControllers(reason, ctrl)
  end(first, a)
  let threw = false
  try { end(second, b) }
  catch { threw = true }
  v.ensure('the second end does not throw', !threw)
  const got = await v.collect(stream)
  v.eq('the first end counts', got.state, first ? 'closed' : 'errored')
  if (!first) v.eq('with the first reason', got.error, a)
}
export const C06_cancelDetaches = async (v) => {
  // the run that feeds a stream notices the cancellation and nothing else happens to it
  const [s1, c1] = createControlledStream()
  const [s2, c2] = createControlledStream()
  await s1.cancel('bye')
  let threw = false
  try { c1.current?.enqueue('x'); c2.current?.enqueue('y'); closeControllers(c1, c2) }
  catch { threw = true }
  v.ensure('feeding a cancelled stream does not throw', !threw)
  const got = await v.collect(s2)
  v.eq('the other stream is complete', got.chunks, ['y'])
}
