import { T } from 'verif'

export const simple = T.obj({ choices: T.arr(T.obj({ delta: T.obj({ content: T.opt(T.str) }) })) })
/** everything streamText (or responses) hands out reports the outcome; expected(e) decides whether the failure is the real one */
export const ends = async (v, r, ended, expected) => {
  const [events, full, text, thought] = await Promise.all([v.collect(r.eventStream), v.collect(r.fullStream), v.collect(r.textStream), v.collect(r.reasoningTextStream)])
  const [steps, history, usage, total] = await Promise.all([v.settled(r.steps), v.settled(r.messages ?? r.input), v.settled(r.usage), v.settled(r.totalUsage)])
  for (const s of [events, full, text, thought]) {
    if (expected === undefined) v.ensure('the stream closes', s.state === 'closed')
    else v.ensure('the stream fails with the failure', s.state === 'errored' && expected(s.error))
  }
  for (const p of [steps, history, usage, total]) {
    if (expected === undefined) v.ensure('the promise resolves', p.state === 'fulfilled')
    else v.ensure('the promise rejects with the failure', p.state === 'rejected' && expected(p.value))
  }
  v.ensure('the finish callback runs once', ended() === 1)
}
