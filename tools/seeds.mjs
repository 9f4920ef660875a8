// Planted bugs: property, edits (find/replace in one source file each), and a
// demonstration (body of an async function; helpers from demo-lib.mjs in scope).
// `node tools/mkseed.mjs [id...]` builds, verifies and writes seeded/<id>/.
const P = 'packages/'
export const SEEDS = [
  {
    id: 'C01-digits', property: 'C01',
    needs: 'an option name with a capital that does not follow a lower-case letter (digit or capital before it)',
    breaks: 'such an option is sent under its camelCase name instead of snake_case',
    edits: [[`${P}shared/src/utils/case.ts`, 'str.replace(/[A-Z]/g, s => `_${s.toLowerCase()}`)', 'str.replace(/([a-z])([A-Z])/g, (_, before: string, after: string) => `${before}_${after.toLowerCase()}`)']],
    demo: `
const { embed } = await load('packages/embed/src/index.ts')
let body
await embed({ baseURL: 'http://x/v1/', model: 'm', input: 'i', top4Extra: 1, isAQuery: 2,
  fetch: async (_u, init) => { body = JSON.parse(init.body); return json({ data: [{ embedding: [1] }], usage: {} }) } })
assert.deepEqual(body, { model: 'm', input: 'i', top4_extra: 1, is_a_query: 2 })`,
  },
  {
    id: 'C02-url-object', property: 'C02',
    needs: 'a URL object (not a string) as base URL, whose path does not end in a slash',
    breaks: 'the last segment of the base URL path is dropped',
    edits: [[`${P}shared/src/utils/request-url.ts`, "  return new URL(path, base.endsWith('/') ? base : `${base}/`)", "  return new URL(path, typeof baseURL !== 'string' || base.endsWith('/') ? base : `${base}/`)"]],
    demo: `
const { listModels } = await load('packages/model/src/index.ts')
const urls = []
const fetch = async (u) => { urls.push(String(u)); return json({ data: [] }) }
await listModels({ baseURL: new URL('http://x/api/v1'), fetch })
await listModels({ baseURL: 'http://x/api/v1', fetch })
assert.deepEqual(urls, ['http://x/api/v1/models', 'http://x/api/v1/models'])`,
  },
  {
    id: 'C02-captured-fetch', property: 'C02',
    needs: 'replacing globalThis.fetch after the library was loaded, and calling without a fetch option',
    breaks: 'the request goes through the fetch that was global at load time',
    edits: [[`${P}shared/src/utils/post-json.ts`, '  (options.fetch ?? globalThis.fetch)(requestURL', '  (options.fetch ?? defaultFetch)(requestURL'],
      [`${P}shared/src/utils/post-json.ts`, 'export const postJSON =', 'const defaultFetch = globalThis.fetch\n\nexport const postJSON =']],
    demo: `
globalThis.fetch = async () => { throw new Error('old') }
const { embed } = await load('packages/embed/src/index.ts')
globalThis.fetch = async () => json({ data: [{ embedding: [1] }], usage: {} })
const r = await embed({ baseURL: 'http://x/v1/', model: 'm', input: 'i' })
assert.deepEqual(r.embedding, [1])`,
  },
  {
    id: 'C03-headers-instance', property: 'C03',
    needs: 'a Headers instance as headers option of streamTranscription',
    breaks: 'the caller\'s headers are silently not sent',
    edits: [[`${P}stream-transcription/src/index.ts`, 'headers: requestHeaders(options.headers, options.apiKey)', 'headers: requestHeaders({ ...options.headers }, options.apiKey)']],
    demo: `
const { streamTranscription } = await load('packages/stream-transcription/src/index.ts')
let headers
const r = streamTranscription({ baseURL: 'http://x/v1/', model: 'm', file: new Blob(['a']), headers: new Headers({ 'x-org': 'o' }),
  fetch: async (_u, init) => { headers = new Headers(init.headers); return sse([{ type: 'transcript.text.delta', delta: 'a' }]) } })
await r.text
assert.equal(headers.get('x-org'), 'o')`,
  },
  {
    id: 'C04-status', property: 'C04',
    needs: 'a non-2xx status below 400 (a redirect that is not followed)',
    breaks: 'the redirect answer is parsed as a result instead of failing with an API-call error',
    edits: [[`${P}shared/src/utils/response-catch.ts`, 'if (!res.ok) {', 'if (res.status >= 400) {']],
    demo: `
const { embed } = await load('packages/embed/src/index.ts')
await assert.rejects(embed({ baseURL: 'http://x/v1/', model: 'm', input: 'i',
  fetch: async () => json({ data: [{ embedding: [1] }], usage: {} }, { status: 302, headers: { location: 'http://y/' } }) }),
  e => e.code === 'api_call_error' && e.statusCode === 302)`,
  },
  {
    id: 'C04-empty-json', property: 'C04',
    needs: 'a 200 answer whose body is an empty text',
    breaks: 'the JSON parse error is replaced by a TypeError of the caller\'s own processing',
    edits: [[`${P}shared/src/utils/response-json.ts`, 'return JSON.parse(text) as T', "return JSON.parse(text || '{}') as T"]],
    demo: `
const { retrieveModel } = await load('packages/model/src/index.ts')
await assert.rejects(retrieveModel({ baseURL: 'http://x/v1/', model: 'm', fetch: async () => new Response(new ReadableStream({ start: c => c.close() })) }),
  e => e.code === 'json_parse_error' && e.text === '')`,
  },
  {
    id: 'C05-falsy', property: 'C05',
    needs: 'a data message whose JSON value is 0, false or an empty string',
    breaks: 'the value is dropped from the stream',
    edits: [[`${P}shared-stream/src/json.ts`, '          if (data != null)', '          if (data)']],
    demo: `
const { JsonMessageTransformStream } = await load('packages/shared-stream/src/index.ts')
const out = await collect(from(['1', '0', 'false', '""', '2'].map(data => ({ data }))).pipeThrough(new JsonMessageTransformStream()))
assert.deepEqual(out, [1, 0, false, '', 2])`,
  },
  {
    id: 'C05-error-null', property: 'C05',
    needs: 'an error payload whose error field is falsy, e.g. {"error":""}',
    breaks: 'the payload is delivered as data instead of ending the stream with a remote-API error',
    edits: [[`${P}shared-stream/src/json.ts`, "  && 'error' in parsed", "  && 'error' in parsed\n  && Boolean(parsed.error)"]],
    demo: `
const { JsonMessageTransformStream } = await load('packages/shared-stream/src/index.ts')
await assert.rejects(collect(from([{ data: '{"a":1}' }, { data: '{"error":""}' }, { data: '{"b":1}' }]).pipeThrough(new JsonMessageTransformStream())),
  e => e.code === 'remote_api_error')`,
  },
  {
    id: 'C06-first-cancelled', property: 'C06',
    needs: 'cancelling a result stream that is not the last of its group before the run ends',
    breaks: 'the streams after the cancelled one are never closed',
    edits: [[`${P}shared-stream/src/controller.ts`, `    const current = controller.current
    controller.current = undefined
    current?.close()`, `    const current = controller.current
    if (current == null)
      break
    controller.current = undefined
    current.close()`]],
    demo: `
const { createControlledStream, closeControllers } = await load('packages/shared-stream/src/index.ts')
const [a, ca] = createControlledStream()
const [b, cb] = createControlledStream()
await a.cancel()
cb.current.enqueue('x')
closeControllers(ca, cb)
assert.deepEqual(await limit(collect(b)), ['x'])`,
  },
  {
    id: 'C07-validated-undefined', property: 'C07',
    needs: 'a validator whose validated value is null or undefined',
    breaks: 'execute gets the raw input instead of the validated value',
    edits: [[`${P}shared-chat/src/utils/execute-tool.ts`, 'result = validated.value', 'result = validated.value ?? result']],
    demo: `
const { executeTool } = await load('packages/shared-chat/src/index.ts')
const seen = []
await executeTool({ messages: [], toolCall: { id: '1', type: 'function', function: { name: 't', arguments: '{"a":1}' } },
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, validate: async () => ({ value: null }), execute: (i) => { seen.push(i); return 'r' } }] })
assert.deepEqual(seen, [null])`,
  },
  {
    id: 'C07-abort-during-validation', property: 'C07',
    needs: 'an abort that happens while an asynchronous validator runs',
    breaks: 'the tool is executed although the request is already aborted',
    edits: [[`${P}shared-chat/src/utils/execute-tool.ts`, `    parsedArgs = await parseToolInput(tool, completionToolCall.args)

    if (abortSignal?.aborted === true)`, `    const aborted = abortSignal?.aborted === true
    parsedArgs = await parseToolInput(tool, completionToolCall.args)

    if (aborted)`],
    [`${P}shared-chat/src/utils/execute-tool.ts`, 'createErrorToolResult(completionToolCall, parsedArgs, abortSignal.reason, abortSignal)', 'createErrorToolResult(completionToolCall, parsedArgs, abortSignal?.reason, abortSignal)']],
    demo: `
const { executeTool } = await load('packages/shared-chat/src/index.ts')
const ac = new AbortController()
let ran = 0
const r = await executeTool({ abortSignal: ac.signal, messages: [], toolCall: { id: '1', type: 'function', function: { name: 't', arguments: '{}' } },
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, validate: async (value) => { ac.abort(); return { value } }, execute: () => { ran++; return 'r' } }] })
assert.equal(ran, 0)
assert.equal(r.completionToolResult.isError, true)`,
  },
  {
    id: 'C08-non-error', property: 'C08',
    needs: 'a tool that throws a value that is not an Error (a string)',
    breaks: 'the error result\'s message no longer contains the thrown message',
    edits: [[`${P}shared-chat/src/utils/execute-tool.ts`, 'cause instanceof Error ? cause.message : String(cause)}', "cause instanceof Error ? cause.message : 'unknown error'}"]],
    demo: `
const { executeTool } = await load('packages/shared-chat/src/index.ts')
const r = await executeTool({ messages: [], toolCall: { id: '1', type: 'function', function: { name: 't', arguments: '{}' } },
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => { throw 'quota exceeded' } }] })
assert.equal(r.completionToolResult.isError, true)
assert.match(String(r.result), /quota exceeded/)`,
  },
  {
    id: 'C08-pre-hook-result', property: 'C08',
    needs: 'a pre-call hook that answers with a result, and an aborted signal or a post-call hook',
    breaks: 'the post-call hook runs although the tool was never executed',
    edits: [[`${P}shared-chat/src/utils/execute-tool.ts`, "    if ('result' in preToolCallResult) // CompletionToolResult\n      completionToolResult = preToolCallResult", "    if ('result' in preToolCallResult) { // CompletionToolResult\n      completionToolResult = preToolCallResult\n      parsedArgs = completionToolResult.args\n      shouldPostToolCall = completionToolResult.isError !== true\n    }"]],
    demo: `
const { executeTool } = await load('packages/shared-chat/src/index.ts')
let posts = 0
await executeTool({ messages: [], preToolCall: call => ({ args: call.args, result: 'cached', toolCallId: call.toolCallId, toolName: call.toolName }), postToolCall: () => { posts++ },
  toolCall: { id: '1', type: 'function', function: { name: 't', arguments: '{}' } },
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'r' }] })
assert.equal(posts, 0)`,
  },
  {
    id: 'C09-some-parts', property: 'C09',
    needs: 'a Responses tool result that is an array mixing recognised parts with other values',
    breaks: 'the mixed array is passed through as parts instead of being sent as JSON text',
    edits: [['packages-ext/responses/src/utils/normalize-tool.ts', 'if (Array.isArray(result) && result.every(', 'if (Array.isArray(result) && result.length > 0 && result.slice(0, 1).every('],
    ],
    demo: `
const { responses, stepCountAtLeast } = await load('packages-ext/responses/src/index.ts')
const bodies = []
const mixed = [{ type: 'input_text', text: 'a' }, { row: 1 }]
const call = { type: 'function_call', id: 'f', call_id: 'c', name: 't', arguments: '{}', status: 'completed' }
const r = responses({ baseURL: 'http://x/v1/', model: 'm', input: 'i', stopWhen: stepCountAtLeast(2),
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => mixed }],
  fetch: async (_u, init) => { bodies.push(JSON.parse(init.body)); return sse(bodies.length === 1
    ? [{ type: 'response.output_item.done', item: call }, { type: 'response.completed', response: { output: [call] } }]
    : [{ type: 'response.completed', response: { output: [] } }]) } })
await r.steps
assert.equal(bodies[1].input.at(-1).output, JSON.stringify(mixed))`,
  },
  {
    id: 'C10-completion-order', property: 'C10',
    needs: 'two tool calls in one message where the second finishes first',
    breaks: 'tool messages are put into the history in completion order, not call order',
    edits: [[`${P}generate-text/src/index.ts`, `        const results = await Promise.all(
          msgToolCalls.map(async toolCall => executeTool({`, `        const results: Awaited<ReturnType<typeof executeTool>>[] = []
        await Promise.all(
          msgToolCalls.map(async toolCall => results.push(await executeTool({`],
    [`${P}generate-text/src/index.ts`, `            toolCall,
            tools: options.tools,
          })),
        )`, `            toolCall,
            tools: options.tools,
          }))),
        )`]],
    demo: `
const { generateText } = await load('packages/generate-text/src/index.ts')
let n = 0
const call = (id) => ({ id, type: 'function', function: { name: 't', arguments: JSON.stringify({ id }) } })
const r = await generateText({ baseURL: 'http://x/v1/', model: 'm', messages: [{ role: 'user', content: 'q' }], stopWhen: ({ steps }) => steps.length >= 2,
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: ({ id }) => new Promise(r => setTimeout(() => r('r' + id), id === 'a' ? 30 : 1)) }],
  fetch: async () => json(n++ === 0 ? completion({ role: 'assistant', content: null, tool_calls: [call('a'), call('b')] }) : completion({ role: 'assistant', content: 'done' })) })
assert.deepEqual(r.messages.filter(m => m.role === 'tool').map(m => [m.tool_call_id, m.content]), [['a', 'ra'], ['b', 'rb']])`,
  },
  {
    id: 'C11-length', property: 'C11',
    needs: 'a message with tool calls whose finish reason is not tool_calls',
    breaks: 'the tool calls are not executed although the stop condition is not met',
    edits: [[`${P}generate-text/src/index.ts`, 'if (!stop && msgToolCalls.length > 0) {', "if (!stop && msgToolCalls.length > 0 && finishReason !== 'length') {"]],
    demo: `
const { generateText } = await load('packages/generate-text/src/index.ts')
let n = 0, ran = 0
const call = (id) => ({ id, type: 'function', function: { name: 't', arguments: '{}' } })
await generateText({ baseURL: 'http://x/v1/', model: 'm', messages: [{ role: 'user', content: 'q' }], stopWhen: ({ steps }) => steps.length >= 2,
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => { ran++; return 'r' } }],
  fetch: async () => json(n++ === 0 ? completion({ role: 'assistant', content: null, tool_calls: [call('a')] }, 'length') : completion({ role: 'assistant', content: 'done' })) })
assert.equal(ran, 1)
assert.equal(n, 2)`,
  },
  {
    id: 'C12-total', property: 'C12',
    needs: 'two steps and a server whose total_tokens is not prompt plus completion tokens',
    breaks: 'the total is no longer the sum of the per-step totals',
    edits: [[`${P}shared-chat/src/utils/usage.ts`, 'totalTokens: totalUsage.totalTokens + usage.totalTokens', 'totalTokens: totalUsage.totalTokens + usage.inputTokens + usage.outputTokens']],
    demo: `
const { generateText } = await load('packages/generate-text/src/index.ts')
let n = 0
const call = (id) => ({ id, type: 'function', function: { name: 't', arguments: '{}' } })
const r = await generateText({ baseURL: 'http://x/v1/', model: 'm', messages: [{ role: 'user', content: 'q' }], stopWhen: ({ steps }) => steps.length >= 2,
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'r' }],
  fetch: async () => json({ ...completion(n++ === 0 ? { role: 'assistant', content: null, tool_calls: [call('a')] } : { role: 'assistant', content: 'done' }), usage: { prompt_tokens: 1, completion_tokens: 2, total_tokens: 10 } }) })
assert.deepEqual(r.totalUsage, { inputTokens: 2, outputTokens: 4, totalTokens: 20 })`,
  },
  {
    id: 'C12-await-callback', property: 'C12',
    needs: 'an asynchronous step callback and a second step',
    breaks: 'the next step starts before the step callback has finished',
    edits: [[`${P}generate-text/src/index.ts`, `      if (options.onStepFinish)
        await options.onStepFinish(step)`, `      if (options.onStepFinish)
        void options.onStepFinish(step)`]],
    demo: `
const { generateText } = await load('packages/generate-text/src/index.ts')
let n = 0
const log = []
const call = (id) => ({ id, type: 'function', function: { name: 't', arguments: '{}' } })
await generateText({ baseURL: 'http://x/v1/', model: 'm', messages: [{ role: 'user', content: 'q' }], stopWhen: ({ steps }) => steps.length >= 2,
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'r' }],
  onStepFinish: async () => { await new Promise(r => setTimeout(r, 20)); log.push('step') },
  fetch: async () => { log.push('fetch'); return json(completion(n++ === 0 ? { role: 'assistant', content: null, tool_calls: [call('a')] } : { role: 'assistant', content: 'done' })) } })
assert.deepEqual(log, ['fetch', 'step', 'fetch', 'step'])`,
  },
  {
    id: 'C13-byte-split', property: 'C13',
    needs: 'a multi-byte character split across two network chunks',
    breaks: 'the character is decoded as two replacement characters',
    edits: [[`${P}stream-text/src/index.ts`, '      .pipeThrough(new TextDecoderStream())', "      .pipeThrough(new TransformStream<Uint8Array, string>({ transform: (bytes, controller) => controller.enqueue(new TextDecoder().decode(bytes)) }))"]],
    demo: `
const { streamText } = await load('packages/stream-text/src/index.ts')
const bytes = new TextEncoder().encode('data: ' + JSON.stringify({ choices: [{ delta: { content: 'é€' } }] }) + '\\n\\n')
const r = streamText({ baseURL: 'http://x/v1/', model: 'm', messages: [],
  fetch: async () => new Response(from([...bytes].map(b => new Uint8Array([b])))) })
assert.equal((await collect(r.textStream)).join(''), 'é€')`,
  },
  {
    id: 'C14-name-repeat', property: 'C14',
    needs: 'a server that repeats the tool name in later fragments of a call',
    breaks: 'the assembled tool name is the name twice',
    edits: [[`${P}stream-text/src/index.ts`, `                if (toolCall.function.arguments != null && toolCall.function.arguments.length > 0)
                  pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
              }
              else {
`, `                if (toolCall.function.arguments != null && toolCall.function.arguments.length > 0)
                  pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
              }
              else {
                tool_calls[index].function.name = (tool_calls[index].function.name ?? '') + (toolCall.function.name ?? '')
`]],
    demo: `
const { streamText } = await load('packages/stream-text/src/index.ts')
const frag = (fn, id) => ({ choices: [{ delta: { tool_calls: [{ index: 0, id, type: 'function', function: fn }] } }] })
const r = streamText({ baseURL: 'http://x/v1/', model: 'm', messages: [],
  fetch: async () => sse([frag({ name: 't', arguments: '{' }, 'a'), frag({ name: 't', arguments: '}' }, 'a')]) })
const steps = await r.steps
assert.deepEqual(steps[0].toolCalls.map(c => [c.toolName, c.args]), [['t', '{}']])`,
  },
  {
    id: 'C15-cancelled-events', property: 'C15',
    needs: 'cancelling the event stream during the run, with an event callback',
    breaks: 'the event callback receives nothing after the event stream was cancelled',
    edits: [[`${P}stream-text/src/index.ts`, `    eventCtrl.current?.enqueue(event)

    void options.onEvent?.(event)`, `    if (eventCtrl.current == null)
      return

    eventCtrl.current.enqueue(event)

    void options.onEvent?.(event)`]],
    demo: `
const { streamText } = await load('packages/stream-text/src/index.ts')
const types = []
const r = streamText({ baseURL: 'http://x/v1/', model: 'm', messages: [], onEvent: e => types.push(e.type),
  fetch: async () => sse([{ choices: [{ delta: { content: 'a' } }] }]) })
await r.eventStream.cancel()
await r.steps
assert.deepEqual(types, ['step.start', 'text.start', 'text.delta', 'text.done', 'step.done'])`,
  },
  {
    id: 'C15-reasoning-once', property: 'C15',
    needs: 'reasoning deltas before and after a text delta of one step',
    breaks: 'a second reasoning section is started in the same step',
    edits: [[`${P}stream-text/src/index.ts`, `              if (!textStarted) {
                textStarted = true
                pushEvent({ type: 'text.start' })
              }
              pushEvent({ delta: choice.delta.content, type: 'text.delta' })`, `              if (!textStarted) {
                textStarted = true
                pushEvent({ type: 'text.start' })
                if (reasoningStarted && reasoningText === '')
                  reasoningStarted = false
              }
              pushEvent({ delta: choice.delta.content, type: 'text.delta' })`]],
    demo: `
const { streamText } = await load('packages/stream-text/src/index.ts')
const types = []
const d = delta => ({ choices: [{ delta }] })
const r = streamText({ baseURL: 'http://x/v1/', model: 'm', messages: [], onEvent: e => types.push(e.type),
  fetch: async () => sse([d({ reasoning: '' }), d({ content: 'a' }), d({ reasoning: 'b' })]) })
await r.steps
assert.equal(types.filter(t => t === 'reasoning.start').length, 1)`,
  },
  {
    id: 'C16-finish-reason', property: 'C16',
    needs: 'a server that reports finish reason stop for a step with tool calls',
    breaks: 'the tools run but no further request is sent',
    edits: [[`${P}stream-text/src/index.ts`, 'const willContinue = validToolCalls.length > 0 && !stop &&', "const willContinue = validToolCalls.length > 0 && finishReason !== 'stop' && !stop &&"]],
    demo: `
const { streamText } = await load('packages/stream-text/src/index.ts')
let n = 0
const r = streamText({ baseURL: 'http://x/v1/', model: 'm', messages: [], stopWhen: ({ steps }) => steps.length >= 3,
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'r' }],
  fetch: async () => sse(n++ === 0
    ? [{ choices: [{ delta: { tool_calls: [{ index: 0, id: 'a', type: 'function', function: { name: 't', arguments: '{}' } }] }, finish_reason: 'stop' }] }]
    : [{ choices: [{ delta: { content: 'ok' }, finish_reason: 'stop' }] }]) })
assert.equal((await r.steps).length, 2)
assert.equal(n, 2)`,
  },
  {
    id: 'C17-text-promise', property: 'C17',
    needs: 'a transcription stream that breaks after its first event',
    breaks: 'the text promise resolves with the partial text instead of rejecting',
    edits: [[`${P}stream-transcription/src/index.ts`, `      errorControllers(err, fullStreamCtrl, textStreamCtrl)
      fullText.reject(err)`, `      errorControllers(err, fullStreamCtrl, textStreamCtrl)
      if (text.length > 0)
        fullText.resolve(text)
      else
        fullText.reject(err)`]],
    demo: `
const { streamTranscription } = await load('packages/stream-transcription/src/index.ts')
const r = streamTranscription({ baseURL: 'http://x/v1/', model: 'm', file: new Blob(['a']),
  fetch: async () => new Response(from([new TextEncoder().encode('data: {"type":"transcript.text.delta","delta":"par"}\\n\\n'), new Error('broken')])) })
r.fullStream.cancel(); r.textStream.cancel()
await assert.rejects(limit(r.text), /broken/)`,
  },
  {
    id: 'C18-shallow-steps', property: 'C18',
    needs: 'a prepare hook that modifies nested data of the previous steps it is given',
    breaks: 'the modification shows up in the reported steps',
    edits: [[`${P}shared-chat/src/utils/prepare-step.ts`, 'steps: structuredClone(steps)', 'steps: steps.map(step => ({ ...step }))']],
    demo: `
const { generateText } = await load('packages/generate-text/src/index.ts')
let n = 0
const call = (id) => ({ id, type: 'function', function: { name: 't', arguments: '{}' } })
const r = await generateText({ baseURL: 'http://x/v1/', model: 'm', messages: [{ role: 'user', content: 'q' }], stopWhen: ({ steps }) => steps.length >= 2,
  prepareStep: ({ steps }) => { for (const s of steps) s.toolResults.length = 0; return {} },
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'r' }],
  fetch: async () => json(completion(n++ === 0 ? { role: 'assistant', content: null, tool_calls: [call('a')] } : { role: 'assistant', content: 'done' })) })
assert.equal(r.steps[0].toolResults.length, 1)`,
  },
  {
    id: 'C19-empty-and', property: 'C19',
    needs: 'an empty conjunction of stop conditions',
    breaks: 'it is false instead of true',
    edits: [[`${P}shared-chat/src/utils/stop-when.ts`, 'context => conditions.every(condition => condition(context))', 'context => conditions.length > 0 && conditions.every(condition => condition(context))']],
    demo: `
const { and, not } = await load('packages/shared-chat/src/index.ts')
assert.equal(and()({ steps: [], step: { toolCalls: [] }, input: [] }), true)
assert.equal(not(and())({ steps: [], step: { toolCalls: [] }, input: [] }), false)`,
  },
  {
    id: 'C20-incomplete-item', property: 'C20',
    needs: 'a completed output item whose status field says incomplete',
    breaks: 'the item is missing from the history',
    edits: [['packages-ext/responses/src/utils/responses.ts', '    if (event.item == null)\n      return', "    if (event.item == null || ('status' in event.item && event.item.status === 'incomplete'))\n      return"]],
    demo: `
const { responses } = await load('packages-ext/responses/src/index.ts')
const item = { type: 'message', id: 'm1', role: 'assistant', status: 'incomplete', content: [{ type: 'output_text', text: 'a' }] }
const r = responses({ baseURL: 'http://x/v1/', model: 'm', input: 'i',
  fetch: async () => sse([{ type: 'response.output_item.done', item }, { type: 'response.incomplete', response: { output: [item] } }]) })
assert.deepEqual(await r.input, [{ type: 'message', role: 'user', content: 'i' }, item])`,
  },
  {
    id: 'C21-join', property: 'C21',
    needs: 'a response whose output text consists of more than one part',
    breaks: 'the step text has a line break that the server did not send',
    edits: [['packages-ext/responses/src/utils/responses.ts', "      .map(part => part.text)\n      .join('')", "      .map(part => part.text)\n      .join('\\n')"]],
    demo: `
const { responses } = await load('packages-ext/responses/src/index.ts')
const item = { type: 'message', id: 'm1', role: 'assistant', status: 'completed', content: [{ type: 'output_text', text: 'a' }, { type: 'output_text', text: 'b' }] }
const r = responses({ baseURL: 'http://x/v1/', model: 'm', input: 'i',
  fetch: async () => sse([{ type: 'response.completed', response: { output: [item] } }]) })
assert.equal((await r.steps)[0].text, 'ab')`,
  },
  {
    id: 'C22-falsy-elements', property: 'C22',
    needs: 'array output whose elements contain 0, false, null or an empty string',
    breaks: 'those elements are dropped from the returned object',
    edits: [[`${P}generate-object/src/index.ts`, "          .elements\n          .map(async", "          .elements\n          .filter(Boolean)\n          .map(async"]],
    demo: `
const { generateObject } = await load('packages/generate-object/src/index.ts')
const schema = { '~standard': { version: 1, vendor: 'v', validate: value => ({ value }), jsonSchema: { input: () => ({ type: 'number' }), output: () => ({ type: 'number' }) } } }
const r = await generateObject({ baseURL: 'http://x/v1/', model: 'm', messages: [], output: 'array', schema,
  fetch: async () => json(completion({ role: 'assistant', content: '{"elements":[1,0,2]}' })) })
assert.deepEqual(r.object, [1, 0, 2])`,
  },
  {
    id: 'C23-trim', property: 'C23',
    needs: 'a chunk boundary right after white space inside a string',
    breaks: 'the white space is missing from the snapshots and the complete object',
    edits: [[`${P}stream-object/src/utils/to-partial-object-stream.ts`, 'partialObjectData += chunk', 'partialObjectData += chunk.trimEnd()']],
    demo: `
const { streamObject } = await load('packages/stream-object/src/index.ts')
const schema = { '~standard': { version: 1, vendor: 'v', validate: value => ({ value }), jsonSchema: { input: () => ({ type: 'object' }), output: () => ({ type: 'object' }) } } }
const r = await streamObject({ baseURL: 'http://x/v1/', model: 'm', messages: [], schema,
  fetch: async () => sse(['{"a":"x ', 'y"}'].map(content => ({ choices: [{ delta: { content } }] }))) })
r.textStream.cancel()
assert.deepEqual((await collect(r.partialObjectStream)).at(-1), { a: 'x y' })`,
  },
  {
    id: 'C24-adjacent', property: 'C24',
    needs: 'text of a single character between two reasoning sections',
    breaks: 'the text between the sections is dropped',
    edits: [[`${P}utils-reasoning/src/extract-reasoning.ts`, 'if (startIndex < match.index) {', 'if (match.index - startIndex > 1) {']],
    demo: `
const { extractReasoning } = await load('packages/utils-reasoning/src/index.ts')
assert.deepEqual(extractReasoning('<think>a</think>,<think>b</think>c', { tagName: 'think', separator: '|' }), { reasoning: 'a|b', text: ',|c' })`,
  },
  {
    id: 'C24-stream-error', property: 'C24',
    needs: 'an input stream that fails inside a reasoning section',
    breaks: 'the text stream ends as if complete instead of failing',
    edits: [[`${P}utils-reasoning/src/extract-reasoning-stream.ts`, "    textStreamController?.error(error)", "    if (isReasoning)\n      textStreamController?.close()\n    else\n      textStreamController?.error(error)"]],
    demo: `
const { extractReasoningStream } = await load('packages/utils-reasoning/src/index.ts')
const r = extractReasoningStream(from(['x<think>y', new Error('broken')]))
r.reasoningStream.cancel().catch(() => {})
await assert.rejects(limit(collect(r.textStream)), /broken/)`,
  },
  {
    id: 'C25-initial-delay', property: 'C25',
    needs: 'an initial delay of 0 with a positive chunk delay',
    breaks: 'the first chunk is delayed by the chunk delay',
    edits: [[`${P}utils-stream/src/simulate-readable-stream.ts`, 'await sleep(index === 0 ? initialDelay : chunkDelay)', 'await sleep(index === 0 ? initialDelay || chunkDelay : chunkDelay)']],
    demo: `
const { simulateReadableStream } = await load('packages/utils-stream/src/index.ts')
const t = Date.now()
const reader = simulateReadableStream({ chunks: ['a', 'b'], initialDelay: 0, chunkDelay: 400 }).getReader()
await reader.read()
assert.ok(Date.now() - t < 300)`,
  },
  {
    id: 'C26-untyped-object', property: 'C26',
    needs: 'a nested object schema without properties',
    breaks: 'the nested object schema is not closed',
    edits: [['packages-top/xsschema/src/json-schema.ts', "'type' in v && v.type === 'object'", "'type' in v && v.type === 'object' && v.properties != null"]],
    demo: `
const { strictJsonSchema } = await load('packages-top/xsschema/src/index.ts')
assert.equal(strictJsonSchema({ type: 'object', properties: { a: { type: 'object' } } }).properties.a.additionalProperties, false)`,
  },
  {
    id: 'C27-azure-token', property: 'C27',
    needs: 'two requests of one Azure provider with a token fetcher whose token changes',
    breaks: 'the second request is sent with the first token',
    edits: [['packages-ext/providers/src/special/providers/azure.ts', "    const token = `Bearer ${typeof options.apiKey === 'function' ? await options.apiKey() : options.apiKey}`", "    const token = cachedToken ??= `Bearer ${typeof options.apiKey === 'function' ? await options.apiKey() : options.apiKey}`"],
      ['packages-ext/providers/src/special/providers/azure.ts', '  const fetch: Fetch = async (input, init) => {', '  let cachedToken: string | undefined\n  const fetch: Fetch = async (input, init) => {']],
    demo: `
const { createAzure } = await load('packages-ext/providers/src/special/create.ts')
const { listModels } = await load('packages/model/src/index.ts')
let n = 0
const seen = []
globalThis.fetch = async (_u, init) => { seen.push(new Headers(init.headers).get('authorization')); return json({ data: [] }) }
const azure = await createAzure({ apiKey: () => 't' + n++, resourceName: 'r' })
await listModels(azure.model())
await listModels(azure.model())
assert.deepEqual(seen, ['Bearer t0', 'Bearer t1'])`,
  },
  {
    id: 'C28-reasoning-content', property: 'C28',
    needs: 'a server that reports reasoning under reasoning_content, with telemetry',
    breaks: 'the telemetry version reports no reasoning text',
    edits: [['packages-ext/telemetry/src/wrapped/generate-text.ts', 'reasoningText: message.reasoning ?? message.reasoning_content', 'reasoningText: message.reasoning']],
    demo: `
const { generateText } = await load('packages-ext/telemetry/src/index.ts')
const r = await generateText({ baseURL: 'http://x/v1/', model: 'm', messages: [],
  fetch: async () => json(completion({ role: 'assistant', content: 'a', reasoning_content: 'r' })) })
assert.equal(r.reasoningText, 'r')`,
  },
  {
    id: 'C29-nullish-failure', property: 'C29',
    needs: 'an operation that fails with undefined or null',
    breaks: 'the span of the failed operation has no error status',
    edits: [['packages-ext/telemetry/src/utils/record-span.ts', `  else {
    span.setStatus({ code: SpanStatusCode.ERROR })`, `  else if (error != null) {
    span.setStatus({ code: SpanStatusCode.ERROR })`]],
    demo: `
const { recordSpan } = await load('packages-ext/telemetry/src/utils/record-span.ts')
const log = []
const span = { end: () => log.push('end'), setStatus: s => log.push(s.code), setAttributes() {}, recordException() {} }
await recordSpan({ attributes: {}, name: 'n', tracer: { startActiveSpan: (_n, _o, f) => f(span) } }, async () => { throw undefined }).catch(() => {})
assert.deepEqual(log, [2, 'end'])`,
  },
  {
    id: 'C30-shared-settings', property: 'C30',
    needs: 'two fetch instances with different settings',
    breaks: 'the second instance inherits the settings of the first',
    edits: [['packages-top/xsfetch/src/index.ts', 'Object.assign({}, defaults, userOptions)', 'Object.assign(defaults, userOptions)']],
    demo: `
const { createFetch } = await load('packages-top/xsfetch/src/index.ts')
let n = 0
globalThis.fetch = async () => { n++; return new Response('', { status: 418 }) }
createFetch({ retryStatusCodes: [418], retryDelay: 1 })
const f = createFetch({ retry: 1, retryDelay: 1 })
await f('http://x/')
assert.equal(n, 1)`,
  },
  {
    id: 'C31-sorted', property: 'C31',
    needs: 'a server that sends its embeddings in an order other than by index',
    breaks: 'the embeddings are no longer in the order the server sent',
    edits: [[`${P}embed/src/utils/embed-many.ts`, 'data.map(data => data.embedding)', '[...data].sort((a, b) => a.index - b.index).map(data => data.embedding)']],
    demo: `
const { embedMany } = await load('packages/embed/src/index.ts')
const r = await embedMany({ baseURL: 'http://x/v1/', model: 'm', input: ['a', 'b'],
  fetch: async () => json({ data: [{ index: 1, embedding: [1] }, { index: 0, embedding: [0] }], usage: {} }) })
assert.deepEqual(r.embeddings, [[1], [0]])`,
  },
  {
    id: 'C31-temperature-zero', property: 'C31',
    needs: 'a transcription whose prompt is an empty string',
    breaks: 'the given option is not sent as a form field',
    edits: [[`${P}generate-transcription/src/index.ts`, '  if (options.prompt != null)', '  if (options.prompt)']],
    demo: `
const { generateTranscription } = await load('packages/generate-transcription/src/index.ts')
let form
await generateTranscription({ baseURL: 'http://x/v1/', model: 'm', file: new Blob(['a']), prompt: '',
  fetch: async (_u, init) => { form = init.body; return json({ text: 'a' }) } })
assert.equal(form.get('prompt'), '')`,
  },
  {
    id: 'C32-messages', property: 'C32',
    needs: 'a run with a prepare hook (the copy of the messages is then skipped)',
    breaks: 'the caller\'s messages array gets the answers appended',
    edits: [[`${P}generate-text/src/index.ts`, `  const messages: Message[] = options.steps == null
    ? structuredClone(options.messages)`, `  const messages: Message[] = options.steps == null && options.prepareStep == null
    ? structuredClone(options.messages)`]],
    demo: `
const { generateText } = await load('packages/generate-text/src/index.ts')
const messages = [{ role: 'user', content: 'q' }]
await generateText({ baseURL: 'http://x/v1/', model: 'm', messages, prepareStep: () => ({}), fetch: async () => json(completion({ role: 'assistant', content: 'a' })) })
assert.equal(messages.length, 1)`,
  },
  {
    id: 'C33-mixed-content', property: 'C33',
    needs: 'assistant content that is an array mixing a tool call with text parts',
    breaks: 'the content is sent as tool calls',
    edits: [[`${P}utils-chat/src/message.ts`, 'content.every(part => isElementToolCallLike(part))', 'content.some(part => isElementToolCallLike(part))']],
    demo: `
const { assistant } = await load('packages/utils-chat/src/message.ts')
const mixed = [{ type: 'text', text: 'a' }, { type: 'function', id: '1', function: { name: 't', arguments: '' } }]
assert.deepEqual(assistant(mixed), { role: 'assistant', content: mixed })`,
  },
  {
    id: 'C01-second-body', property: 'C01',
    needs: 'a run of two or more requests',
    breaks: 'the second request carries the total usage so far in its body',
    edits: [[`${P}generate-text/src/index.ts`, `    steps: undefined,
    stream: false,
    toolChoice: stepOptions.toolChoice,
    totalUsage: undefined,`, `    steps: undefined,
    stream: false,
    toolChoice: stepOptions.toolChoice,`]],
    demo: `
const { generateText } = await load('packages/generate-text/src/index.ts')
const bodies = []
const call = { role: 'assistant', tool_calls: [{ id: '1', type: 'function', function: { name: 't', arguments: '{}' } }] }
await generateText({ baseURL: 'http://x/v1/', model: 'm', messages: [], stopWhen: c => c.steps.length >= 2,
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'r' }],
  fetch: async (_u, init) => { bodies.push(JSON.parse(init.body)); return json(completion(call)) } })
assert.equal(bodies.length, 2)
assert.deepEqual(Object.keys(bodies[1]), Object.keys(bodies[0]))`,
  },
  {
    id: 'C07-empty-issues', property: 'C07',
    needs: 'a validator that fails with an empty list of issues',
    breaks: 'the tool runs although its validator rejected the input',
    edits: [[`${P}shared-chat/src/utils/execute-tool.ts`, '    if (validated.issues) {', '    if (validated.issues?.length) {']],
    demo: `
const { executeTool } = await load('packages/shared-chat/src/utils/execute-tool.ts')
let ran = false
await executeTool({ messages: [], toolCall: { id: '1', type: 'function', function: { name: 't', arguments: '{}' } },
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, validate: async () => ({ issues: [] }), execute: () => { ran = true; return 'r' } }] })
assert.equal(ran, false)`,
  },
  {
    id: 'C14-later-index-first', property: 'C14',
    needs: 'a server whose first fragment belongs to the second call',
    breaks: 'the first call is never assembled and the run fails',
    edits: [[`${P}stream-text/src/index.ts`, 'if (!tool_calls.at(index)) {', 'if (index >= tool_calls.length) {']],
    demo: `
const { streamText } = await load('packages/stream-text/src/index.ts')
const part = (index, id, args) => ({ choices: [{ index: 0, finish_reason: null, delta: { role: 'assistant', tool_calls: [{ index, id, type: 'function', function: { name: 't', arguments: args } }] } }] })
const r = streamText({ baseURL: 'http://x/v1/', model: 'm', messages: [], fetch: async () => sse([part(1, 'b', '{}'), part(0, 'a', '{}')]) })
for (const p of [r.messages, r.usage, r.totalUsage]) p.catch(() => {})
const steps = await limit(r.steps)
assert.deepEqual(steps[0].toolCalls.map(c => c.toolCallId), ['a', 'b'])`,
  },
  {
    id: 'C20-abort-after-tools', property: 'C20',
    needs: 'an abort while the tools of a step run',
    breaks: 'a further request is sent after the abort',
    edits: [['packages-ext/responses/src/utils/responses.ts', 'shouldContinue = functionCalls.length > 0 && !stop && !options.abortSignal?.aborted', 'shouldContinue = functionCalls.length > 0 && !stop']],
    demo: `
const { responses } = await load('packages-ext/responses/src/index.ts')
const ac = new AbortController()
let requests = 0
const item = { type: 'function_call', id: 'f', call_id: 'c', name: 't', arguments: '{}', status: 'completed' }
const r = responses({ baseURL: 'http://x/v1/', model: 'm', input: 'q', abortSignal: ac.signal, stopWhen: c => c.steps.length >= 3,
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => { ac.abort(); return 'r' } }],
  fetch: async () => { requests++; return sse([{ type: 'response.output_item.done', output_index: 0, item }, { type: 'response.completed', response: { output: [item], usage: null } }]) } })
for (const p of [r.input, r.usage, r.totalUsage]) p.catch(() => {})
await limit(r.steps.catch(() => {}))
assert.equal(requests, 1)`,
  },
  {
    id: 'C21-refusal', property: 'C21',
    needs: 'a model that refuses',
    breaks: 'the text stream does not carry the refusal',
    edits: [['packages-ext/responses/src/utils/responses.ts', `      case 'response.output_text.delta':
      case 'response.refusal.delta':
        textCtrl`, `      case 'response.output_text.delta':
        textCtrl`]],
    demo: `
const { responses } = await load('packages-ext/responses/src/index.ts')
const r = responses({ baseURL: 'http://x/v1/', model: 'm', input: 'q',
  fetch: async () => sse([{ type: 'response.refusal.delta', delta: 'no' }, { type: 'response.completed', response: { output: [], usage: null } }]) })
assert.deepEqual(await limit(collect(r.textStream)), ['no'])`,
  },
  {
    id: 'C24-left-reader', property: 'C24',
    needs: 'an input that fails after the reader of the reasoning left',
    breaks: 'the text stream never ends',
    edits: [[`${P}utils-reasoning/src/extract-reasoning-stream.ts`, '    textStreamController?.error(error)', `    if (reasoningStreamController)
      textStreamController?.error(error)`]],
    demo: `
const { extractReasoningStream } = await load('packages/utils-reasoning/src/index.ts')
const r = extractReasoningStream(from(['a', new Error('down')]), { tagName: 'think' })
await r.reasoningStream.cancel()
await assert.rejects(limit(collect(r.textStream)), /down/)`,
  },
  {
    id: 'C28-tool-choice', property: 'C28',
    needs: 'a prepare hook that overrides the tool choice, with the streaming telemetry version',
    breaks: 'the request is sent with the tool choice of the call',
    edits: [['packages-ext/telemetry/src/wrapped/stream-text.ts', `        telemetry: undefined,
        toolChoice: stepOptions.toolChoice,
        tools,`, `        telemetry: undefined,
        tools,`]],
    demo: `
const { streamText } = await load('packages-ext/telemetry/src/index.ts')
const bodies = []
const r = streamText({ baseURL: 'http://x/v1/', model: 'm', messages: [], toolChoice: 'auto', prepareStep: () => ({ toolChoice: 'none' }),
  tools: [{ type: 'function', function: { name: 't', parameters: {} }, execute: () => 'r' }],
  fetch: async (_u, init) => { bodies.push(JSON.parse(init.body)); return sse([{ choices: [{ index: 0, finish_reason: 'stop', delta: { content: 'a' } }] }]) } })
await limit(r.steps)
assert.equal(bodies[0].tool_choice, 'none')`,
  },
  {
    id: 'C29-base-model', property: 'C29',
    needs: 'a prepare hook that overrides the model of a step',
    breaks: 'the span is named after a model the request was not sent to',
    edits: [['packages-ext/telemetry/src/wrapped/generate-text.ts', `      messages: stepOptions.input,
      model: stepOptions.model,
      toolChoice: stepOptions.toolChoice,
    }, tracer)`, `      messages: stepOptions.input,
      toolChoice: stepOptions.toolChoice,
    }, tracer)`]],
    demo: `
const { trace } = await import(process.cwd() + '/packages-ext/telemetry/node_modules/@opentelemetry/api/build/src/index.js')
const { generateText } = await load('packages-ext/telemetry/src/index.ts')
const names = []
const span = { setAttribute: () => span, setAttributes: () => span, end: () => {}, setStatus: () => span, recordException: () => {} }
trace.setGlobalTracerProvider({ getTracer: () => ({ startActiveSpan: (name, _o, f) => { names.push(name); return f(span) } }) })
await generateText({ baseURL: 'http://x/v1/', model: 'base', messages: [], prepareStep: () => ({ model: 'other' }), fetch: async () => json(completion({ role: 'assistant', content: 'a' })) })
assert.deepEqual(names, ['chat other'])`,
  },
  {
    id: 'C30-shared-retries', property: 'C30',
    needs: 'more failures over several calls of one fetch than one call may retry',
    breaks: 'the retries of earlier calls are taken from later ones',
    edits: [['packages-top/xsfetch/src/index.ts', `  const xsfetch = async (retriesLeft: number,`, `  let budget = options.retry
  const xsfetch = async (retriesLeft: number,`], ['packages-top/xsfetch/src/index.ts', 'retriesLeft === 0 ||', 'retriesLeft === 0 || budget-- <= 0 ||']],
    demo: `
const { createFetch } = await load('packages-top/xsfetch/src/index.ts')
let n = 0
globalThis.fetch = async () => { n++; return new Response('', { status: 500 }) }
const f = createFetch({ retry: 1, retryDelay: 1 })
await f('http://x/')
await f('http://x/')
assert.equal(n, 4)`,
  },
  {
    id: 'C32-strict-schema', property: 'C32',
    needs: 'strict output with a nested object schema',
    breaks: 'the caller\'s schema is closed in place',
    edits: [['packages-top/xsschema/src/json-schema.ts', `({
  ...schema,
  additionalProperties: false,`, `Object.assign(schema, {
  additionalProperties: false as const,`]],
    demo: `
const { strictJsonSchema } = await load('packages-top/xsschema/src/index.ts')
const schema = { type: 'object', properties: { a: { type: 'object', properties: {} } } }
const before = structuredClone(schema)
strictJsonSchema(schema)
assert.deepEqual(schema, before)`,
  },
]
