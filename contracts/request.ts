// What every request of a run of several steps must be (C01, C02, C03).
import { T } from 'verif'

export const snake = (s) => s.replace(/[A-Z]/g, c => '_' + c.toLowerCase())
/** the names that mean something to the library, and are no caller option of unknown meaning */
export const reserved = ['model', 'messages', 'input', 'prompt', 'voice', 'stream', 'tools', 'apiKey', 'baseURL', 'headers', 'fetch', 'abortSignal', 'streamOptions', 'streamFormat', 'toolChoice', 'steps', 'totalUsage', 'usage', 'telemetry', 'onEvent', 'onFinish', 'onStepFinish', 'postToolCall', 'preToolCall', 'prepareStep', 'stopWhen', 'maxSteps']

/** o: body (C01: the whole body but the conversation), url (C02), headers (C03); own: the members of the body besides the conversation and the caller's options */
export const request = (v, o, { path, conversation, own }) => {
  const extra = o.body ? v.any('extra', T.rec(T.any, [...reserved, ...reserved.map(snake)])) : {}
  const signal = o.url ? v.any('signal', T.opt(T.obj({ aborted: T.lit(false) }))) : undefined
  const key = o.headers ? v.any('key', T.opt(T.token)) : 'key'
  const auth = o.headers ? v.any('auth', T.opt(T.token)) : undefined, custom = o.headers ? v.any('custom', T.token) : 'c'
  const headers = { 'x-custom': custom, ...auth === undefined ? {} : { authorization: auth } }
  return {
    options: { ...extra, apiKey: key, baseURL: 'http://host.test/v1', headers: o.headers ? headers : undefined },
    signal,
    check: (url, init, body) => {
      if (o.body) v.eq('the body of the request', body, { ...Object.fromEntries(Object.entries(extra).filter(x => x[1] !== undefined).map(x => [snake(x[0]), x[1]])), ...own, [conversation]: body[conversation] })
      if (o.url) {
        v.eq('the URL of the request', String(url), 'http://host.test/v1/' + path)
        v.eq('its method', init.method, 'POST')
        v.ensure('its signal', init.signal === signal)
      }
      if (o.headers) v.eq('its headers', init.headers, { 'Content-Type': 'application/json', ...key === undefined || auth !== undefined ? {} : { Authorization: 'Bearer ' + key }, ...headers })
    },
  }
}
