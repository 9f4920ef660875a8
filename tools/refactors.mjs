// Edits that keep the behaviour: the checks must stay quiet on them. node tools/refactors.mjs [id…] (env P=C01,… restricts properties, J=parallel)
// Each runs in a copy of /repo under /tmp, with VERIF_REPO pointing there.
import { execFileSync, spawn } from 'node:child_process'
import { cpSync, existsSync, mkdirSync, readFileSync, rmSync, writeFileSync } from 'node:fs'
const R = []
const r = (id, props, ...edits) => R.push({ id, props: props.split(' '), edits })
const ST = 'packages/stream-text/src/index.ts', GT = 'packages/generate-text/src/index.ts', RS = 'packages-ext/responses/src/utils/responses.ts'
const ET = 'packages/shared-chat/src/utils/execute-tool.ts'

r('st-helpers', 'C13 C15 C16 C17 C28',
  [ST, `    const tool_calls: ToolCall[] = []
    let finishReason`, `    const pushTextDelta = (delta: string) => {
      if (!textStarted) {
        textStarted = true
        pushEvent({ type: 'text.start' })
      }
      pushEvent({ delta, type: 'text.delta' })
      pushText(delta)
    }

    const tool_calls: ToolCall[] = []
    let finishReason`],
  [ST, `              if (!textStarted) {
                textStarted = true
                pushEvent({ type: 'text.start' })
              }
              pushEvent({ delta: choice.delta.content, type: 'text.delta' })
              pushText(choice.delta.content)`, `              pushTextDelta(choice.delta.content)`],
  [ST, `              if (!textStarted) {
                textStarted = true
                pushEvent({ type: 'text.start' })
              }
              pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
              pushText(choice.delta.refusal)`, `              pushTextDelta(choice.delta.refusal)`])
r('st-foreach', 'C16 C15 C17',
  [ST, `      for (const { completionToolCall, completionToolResult, result } of results) {`, `      results.forEach(({ completionToolCall, completionToolResult, result }) => {`],
  [ST, `        pushEvent({ ...completionToolResult, type: 'tool-result.done' })
      }`, `        pushEvent({ ...completionToolResult, type: 'tool-result.done' })
      })`])
r('st-message', 'C13 C16 C10',
  [ST, `    messages.push({
      ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
      content: text,
      role: 'assistant',
      tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
    })`, `    const assistantMessage: Message = {
      content: text,
      role: 'assistant',
      tool_calls: validToolCalls.length === 0 ? undefined : validToolCalls,
    }
    if (reasoningField != null)
      assistantMessage[reasoningField] = reasoningText
    messages.push(assistantMessage)`])
r('st-finish', 'C17 C16 C13 C06',
  [ST, `    if (failure != null) {
      errorControllers(failure.reason, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)

      resultSteps.reject(failure.reason)
      resultMessages.reject(failure.reason)
      resultUsage.reject(failure.reason)
      resultTotalUsage.reject(failure.reason)
      return
    }`, `    const outputs = [textCtrl, reasoningTextCtrl, fullCtrl, eventCtrl] as const
    if (failure != null) {
      const { reason } = failure
      for (const result of [resultSteps, resultMessages, resultUsage, resultTotalUsage])
        result.reject(reason)
      errorControllers(reason, ...outputs)
      return
    }`],
  [ST, `    closeControllers(eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
`, `    closeControllers(...outputs)
`])
r('st-early-return', 'C13 C15 C16 C17',
  [ST, `          if (chunk.choices == null || chunk.choices.length === 0)
            return

          const choice = chunk.choices[0]`, `          const choice = chunk.choices?.[0]
          if (choice == null)
            return`],
  [ST, `    const pushUsage = (u: StreamTextChunkResult['usage']) => {
      if (u == null)
        return

      usage = normalizeChatCompletionUsage(u)
    }`, `    const pushUsage = (u: StreamTextChunkResult['usage']) => {
      if (u != null)
        usage = normalizeChatCompletionUsage(u)
    }`])
r('et-inline-catch', 'C07 C08 C09 C10',
  [ET, `const findTool = (tools: Tool[] | undefined, toolName: string, toolCall: CompletionToolCall) => {
  const tool = tools?.find(tool => tool.function.name === toolName)

  if (!tool) {`, `const findTool = (tools: Tool[] | undefined, toolName: string, toolCall: CompletionToolCall) => {
  const tool = (tools ?? []).find(({ function: fn }) => fn.name === toolName)

  if (tool === undefined) {`],
  [ET, `  if (tool.validate) {
    const validated = await tool.validate(result)

    if (validated.issues) {
      throw new InvalidToolInputError(\`Tool input validation failed for "\${tool.function.name}".\`, {
        cause: validated.issues,
        toolInput: result,
        toolName: tool.function.name,
      })
    }

    result = validated.value
  }

  return result`, `  if (!tool.validate)
    return result

  const { issues, ...rest } = await tool.validate(result)
  if (issues) {
    throw new InvalidToolInputError(\`Tool input validation failed for "\${tool.function.name}".\`, {
      cause: issues,
      toolInput: result,
      toolName: tool.function.name,
    })
  }

  return (rest as { value: unknown }).value`])
r('et-content-loop', 'C09 C10',
  ['packages/shared-chat/src/utils/internal/to-tool-message-content.ts', `    if (result.every(item => item !== null && typeof item === 'object' && 'type' in item && ['file', 'image_url', 'input_audio', 'text'].includes((item as { type: string }).type))) {
      return result as CommonContentPart[]
    }`, `    const partTypes = ['text', 'image_url', 'input_audio', 'file']
    let onlyParts = true
    for (const item of result) {
      if (item === null || typeof item !== 'object' || !('type' in item) || !partTypes.includes((item as { type: string }).type)) {
        onlyParts = false
        break
      }
    }
    if (onlyParts)
      return result as CommonContentPart[]`])
r('gt-await', 'C10 C11 C12 C18 C28',
  [GT, `  return chat({`, `  const response = await chat({`],
  [GT, `    .then(responseJSON<GenerateTextResponse>)
    .then(async (res) => {`, `
  const res = await responseJSON<GenerateTextResponse>(response)
  return (async () => {`],
  [GT, `          totalUsage,
        })
      }
    })
}`, `          totalUsage,
        })
      }
    })()
}`])
r('gt-extract', 'C10 C11 C12',
  [GT, `/** @internal */
const rawGenerateText`, `const textOf = (message: GenerateTextResponse['choices'][number]['message']) => {
  const { content } = message
  if (!Array.isArray(content))
    return content
  return content.flatMap(part => part.type === 'text' ? [part.text] : []).join('\\n')
}

/** @internal */
const rawGenerateText`],
  [GT, `        text: Array.isArray(message.content)
          ? message.content.filter(m => m.type === 'text').map(m => m.text).join('\\n')
          : message.content,`, `        text: textOf(message),`],
  [GT, `      const willContinue = toolCalls.length > 0 && !stop && !options.abortSignal?.aborted

      steps.push(step)`, `      steps.push(step)
      const aborted = options.abortSignal?.aborted === true
      const willContinue = !(stop || aborted || toolCalls.length === 0)`])
r('body-reduce', 'C01 C02 C27',
  ['packages/shared/src/utils/request-body.ts', `export const requestBody = (body: Record<string, unknown>) => JSON.stringify(objCamelToSnake(clean({
  ...body,
  abortSignal: undefined,
  apiKey: undefined,
  baseURL: undefined,
  fetch: undefined,
  headers: undefined,
})))`, `export const requestBody = (body: Record<string, unknown>) => {
  const { abortSignal: _signal, apiKey: _key, baseURL: _url, fetch: _fetch, headers: _headers, ...rest } = body
  return JSON.stringify(objCamelToSnake(clean(rest)))
}`],
  ['packages/shared/src/utils/case.ts', `  Object.fromEntries(Object.entries(obj).map(([k, v]) => [strCamelToSnake(k), v]))`, `  Object.fromEntries(Object.keys(obj).map(key => [strCamelToSnake(key), obj[key]]))`])
r('clean-loop', 'C01 C03 C27',
  ['packages/shared/src/utils/clean.ts', `export const clean = <T extends Record<string, undefined | unknown>>(obj: T) =>
  Object.fromEntries(
    Object.entries(obj).filter(([, v]) => v !== undefined),
  ) as Record<keyof T, Exclude<T[keyof T], unknown>>`, `export const clean = <T extends Record<string, undefined | unknown>>(obj: T) => {
  const result: Record<string, unknown> = {}
  for (const [key, value] of Object.entries(obj)) {
    if (value !== undefined)
      result[key] = value
  }
  return result as Record<keyof T, Exclude<T[keyof T], unknown>>
}`])
r('case-split', 'C01',
  ['packages/shared/src/utils/case.ts', 'str.replace(/[A-Z]/g, s => `_${s.toLowerCase()}`)', `str.replaceAll(/([A-Z])/g, (_, letter: string) => '_' + letter.toLowerCase())`])
r('url-regex', 'C02',
  ['packages/shared/src/utils/request-url.ts', "return new URL(path, base.endsWith('/') ? base : `${base}/`)", "return new URL(`${base.endsWith('/') ? base : base + '/'}${path}`)"])
r('url-slice', 'C02',
  ['packages/shared/src/utils/request-url.ts', `  const base = baseURL.toString()

  return new URL(path, base.endsWith('/') ? base : \`\${base}/\`)`, `  let base = String(baseURL)
  if (base.at(-1) !== '/')
    base += '/'

  return new URL(path, base)`])
r('headers-rewrite', 'C03',
  ['packages/shared/src/utils/request-headers.ts', `  const names = Object.keys(custom).map(name => name.toLowerCase())

  return {
    ...Object.fromEntries(Object.entries(defaults).filter(([name]) => !names.includes(name.toLowerCase()))),
    ...custom,
  }`, `  const isCustom = (name: string) => Object.keys(custom).some(other => other.toLowerCase() === name.toLowerCase())
  const added = Object.entries(defaults).filter(([name]) => !isCustom(name))

  return Object.assign(Object.fromEntries(added), custom)`])
r('catch-async', 'C04 C02 C17',
  ['packages/shared/src/utils/post-json.ts', `export const postJSON = async (path: string, options: WithUnknown<CommonRequestOptions>) =>
  (options.fetch ?? globalThis.fetch)(requestURL(path, options.baseURL), {`, `export const postJSON = async (path: string, options: WithUnknown<CommonRequestOptions>) => {
  const send = options.fetch ?? globalThis.fetch
  const response = await send(requestURL(path, options.baseURL), {`],
  ['packages/shared/src/utils/post-json.ts', `  }).then(responseCatch)`, `  })

  return responseCatch(response)
}`])
r('catch-branches', 'C04',
  ['packages/shared/src/utils/response-catch.ts', `  if (!(res.body instanceof ReadableStream)) {
    const`, `  if (res.body instanceof ReadableStream)
    return res
  {
    const`],
  ['packages/shared/src/utils/response-catch.ts', `    })
  }

  return res
}`, `    })
  }
}`])
r('json-restructure', 'C05 C13 C17',
  ['packages/shared-stream/src/json.ts', `  if (!data)
    return

  if (data === (options.doneMarker ?? '[DONE]'))
    return
`, `  const marker = options.doneMarker ?? '[DONE]'
  if (data === '' || data == null || data === marker)
    return undefined
`],
  ['packages/shared-stream/src/json.ts', `        try {
          const data = parseJsonSSEMessage(chunk, options)

          if (data != null)
            controller.enqueue(data)
        }
        catch (error) {
          controller.error(error)
        }`, `        let data: T | undefined
        try {
          data = parseJsonSSEMessage(chunk, options)
        }
        catch (error) {
          controller.error(error)
          return
        }
        if (data == null)
          return
        controller.enqueue(data)`])
r('ctrl-foreach', 'C06 C17',
  ['packages/shared-stream/src/controller.ts', `  for (const controller of controllers) {
    const current = controller.current
    controller.current = undefined
    current?.close()
  }`, `  controllers.forEach((controller) => {
    if (controller.current == null)
      return
    const { current } = controller
    controller.current = undefined
    current.close()
  })`])
r('stop-loops', 'C19 C11',
  ['packages/shared-chat/src/utils/stop-when.ts', `context => conditions.every(condition => condition(context))`, `context => !conditions.some(condition => !condition(context))`],
  ['packages/shared-chat/src/utils/stop-when.ts', `  context => conditions.some(condition => condition(context))

export const not`, `  (context) => {
    for (const condition of conditions) {
      if (condition(context))
        return true
    }
    return false
  }

export const not`],
  ['packages/shared-chat/src/utils/stop-when.ts', `step.toolCalls.some(toolCall => name == null || toolCall.toolName === name)`, `name == null ? step.toolCalls.length > 0 : step.toolCalls.some(toolCall => toolCall.toolName === name)`])
r('usage-helper', 'C12 C16 C21',
  ['packages/shared-chat/src/utils/usage.ts', `export const computeTotalUsage = (totalUsage: undefined | Usage, usage: Usage): Usage =>
  totalUsage == null
    ? usage
    : {
        inputTokens: totalUsage.inputTokens + usage.inputTokens,
        outputTokens: totalUsage.outputTokens + usage.outputTokens,
        totalTokens: totalUsage.totalTokens + usage.totalTokens,
      }`, `const zero: Usage = { inputTokens: 0, outputTokens: 0, totalTokens: 0 }

export const computeTotalUsage = (totalUsage: undefined | Usage, usage: Usage): Usage => {
  const sum = totalUsage ?? zero
  return {
    inputTokens: usage.inputTokens + sum.inputTokens,
    outputTokens: usage.outputTokens + sum.outputTokens,
    totalTokens: usage.totalTokens + sum.totalTokens,
  }
}`])
r('prepare-if', 'C18 C10 C20',
  ['packages/shared-chat/src/utils/prepare-step.ts', `  const prepared = prepareStep == null
    ? undefined
    : await prepareStep({
        input: structuredClone(input),
        model,
        stepNumber,
        steps: structuredClone(steps),
      })

  return {
    input: prepared?.input != null ? structuredClone(prepared.input) : input,
    model: prepared?.model ?? model,
    toolChoice: prepared?.toolChoice ?? toolChoice,
  }`, `  if (prepareStep == null)
    return { input, model, toolChoice }

  const context = { input: structuredClone(input), model, stepNumber, steps: structuredClone(steps) }
  const prepared = await prepareStep(context)
  const override = prepared?.input

  return {
    input: override == null ? input : structuredClone(override),
    model: prepared?.model ?? model,
    toolChoice: prepared?.toolChoice ?? toolChoice,
  }`])
r('rs-if', 'C20 C21 C17',
  [RS, `    // eslint-disable-next-line ts/switch-exhaustiveness-check
    switch (event.type) {
      case 'response.output_text.delta':
      case 'response.refusal.delta':
        textCtrl.current?.enqueue(event.delta)
        break
      case 'response.reasoning.delta':
      case 'response.reasoning_summary_text.delta':
        reasoningTextCtrl.current?.enqueue(event.delta)
        break
      default:
        break
    }`, `    if (event.type === 'response.output_text.delta' || event.type === 'response.refusal.delta')
      textCtrl.current?.enqueue(event.delta)
    else if (event.type === 'response.reasoning.delta' || event.type === 'response.reasoning_summary_text.delta')
      reasoningTextCtrl.current?.enqueue(event.delta)`],
  [RS, `    for (const event of events) {
      pushEvent(event)
    }`, `    events.forEach(event => pushEvent(event))`],
  [RS, `    const text = response.output
      .filter(item => item.type === 'message')
      .flatMap(item => item.content)
      .filter(part => part.type === 'output_text' || part.type === 'text')
      .map(part => part.text)
      .join('')

    return text.length > 0 ? text : undefined`, `    let text = ''
    for (const item of response.output) {
      if (item.type !== 'message')
        continue
      for (const part of item.content) {
        if (part.type === 'output_text' || part.type === 'text')
          text += part.text
      }
    }

    return text === '' ? undefined : text`])
r('rs-complete', 'C20 C21 C17',
  [RS, `          if (!stop && functionCalls.length > 0) {
            const stepDoneEvent = events.pop()
            const results = await Promise.all(functionCalls.map(executeFunctionCall))
`, `          if (functionCalls.length > 0 && !stop) {
            const stepDoneEvent = events.pop()
            const results = await Promise.all(functionCalls.map(async call => executeFunctionCall(call)))
`],
  [RS, `        case 'response.failed':
          pushResponseStep(event.response, {
            finishReason: 'error',
            toolCalls,
            toolResults,
          })
          break
        case 'response.incomplete':
          pushResponseStep(event.response, {
            finishReason: 'length',
            toolCalls,
            toolResults,
          })
          break`, `        case 'response.failed':
        case 'response.incomplete': {
          const finishReason: FinishReason = event.type === 'response.failed' ? 'error' : 'length'
          pushResponseStep(event.response, { finishReason, toolCalls, toolResults })
          break
        }`])
r('smooth-loop', 'C25',
  ['packages/utils-stream/src/smooth-stream.ts', `      let length = nextUnitLength()
      while (length > 0) {
        controller.enqueue(buffer.slice(0, length))
        buffer = buffer.slice(length)

        length = nextUnitLength()

        await sleep(delay)
      }`, `      for (let length = nextUnitLength(); length > 0; length = nextUnitLength()) {
        const unit = buffer.slice(0, length)
        buffer = buffer.slice(length)
        controller.enqueue(unit)
        await sleep(delay)
      }`])
r('simulate-first', 'C25',
  ['packages/utils-stream/src/simulate-readable-stream.ts', `    for (const [index, chunk] of chunks.entries()) {
      await sleep(index === 0 ? initialDelay : chunkDelay)
      controller.enqueue(chunk)
    }`, `    let delay = initialDelay
    for (const chunk of chunks) {
      await sleep(delay)
      controller.enqueue(chunk)
      delay = chunkDelay
    }`])
r('fetch-loop', 'C30',
  ['packages-top/xsfetch/src/index.ts', `  return async (input: Request | string | URL, init?: RequestInit) =>
    trampoline<Response>(async () => xsfetch(options.retry, input, init))`, `  return async (input: Request | string | URL, init?: RequestInit) => {
    for (let retriesLeft = options.retry; ; retriesLeft--) {
      const res = await xsfetch(retriesLeft, input, init)
      if (res !== undefined)
        return res
    }
  }`],
  ['packages-top/xsfetch/src/index.ts', `    return async () => xsfetch(retriesLeft - 1, input, init)`, `    return undefined`],
  ['packages-top/xsfetch/src/index.ts', `import { trampoline } from '@moeru/std/trampoline'
`, ``])
r('image-table', 'C31',
  ['packages/generate-image/src/index.ts', `  const key = Object.keys(mimeTypes).find(prefix => b64_json.startsWith(prefix)) as keyof typeof mimeTypes | undefined
  const mimeType = mimeTypes[key ?? 'iVBORw0KGgo']`, `  const entry = Object.entries(mimeTypes).find(([prefix]) => b64_json.startsWith(prefix))
  const mimeType = entry === undefined ? 'image/png' : entry[1]`],
  ['packages/generate-image/src/index.ts', `                const sepIndex = dataURL.indexOf(';')
                const mimeType = dataURL.substring(5, sepIndex) // `, `                const mimeType = dataURL.slice(5, dataURL.indexOf(';')) // `])
r('message-rewrite', 'C33',
  ['packages/utils-chat/src/message.ts', `    return Array.isArray(content)
      ? { role: 'assistant', tool_calls: content }
      : { role: 'assistant', tool_calls: [content] }
  }`, `    const calls = Array.isArray(content) ? content : [content]
    return { role: 'assistant', tool_calls: calls }
  }`])
r('span-finally', 'C28 C29',
  ['packages-ext/telemetry/src/utils/record-span.ts', `    try {
      const result = await fn(span)

      if (endWhenDone)
        span.end()

      return result
    }
    catch (error) {
      try {
        recordErrorOnSpan(span, error)
      }
      finally {
        // always stop the span when there is an error:
        span.end()
      }

      throw error
    }`, `    let result: T
    try {
      result = await fn(span)
    }
    catch (error) {
      try {
        recordErrorOnSpan(span, error)
      }
      finally {
        span.end()
      }
      throw error
    }
    if (endWhenDone)
      span.end()
    return result`])
r('wraptool', 'C28 C29 C32',
  ['packages-ext/telemetry/src/utils/wrap-tool.ts', `export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
  execute: async`, `export const wrapTool = ({ execute, function: fn, type, validate }: Tool, tracer: Tracer): Tool => ({
  execute: async`],
  ['packages-ext/telemetry/src/utils/wrap-tool.ts', `tool.function.description`, `fn.description`],
  ['packages-ext/telemetry/src/utils/wrap-tool.ts', `'gen_ai.tool.call.name': tool.function.name`, `'gen_ai.tool.call.name': fn.name`],
  ['packages-ext/telemetry/src/utils/wrap-tool.ts', "`execute_tool ${tool.function.name}`", "`execute_tool ${fn.name}`"],
  ['packages-ext/telemetry/src/utils/wrap-tool.ts', `await tool.execute(input, options)`, `await execute(input, options)`],
  ['packages-ext/telemetry/src/utils/wrap-tool.ts', `  function: tool.function,
  type: tool.type,
  validate: tool.validate,`, `  function: fn,
  type,
  validate,`])
r('provider-spread', 'C27',
  ['packages-ext/providers/src/utils/create.ts', `  chat: model => Object.assign({}, options, { model }),`, `  chat: model => ({ ...options, model }),`],
  ['packages-ext/providers/src/utils/create.ts', `  embed: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),`, `  embed: (model, extraOptions) => ({ ...options, model, ...extraOptions }),`],
  ['packages-ext/providers/src/utils/merge.ts', `  Object.assign(arr[0], ...arr.slice(1)) as UnionToIntersection<T[number]>`, `  arr.slice(1).reduce((acc, obj) => Object.assign(acc, obj), arr[0]) as UnionToIntersection<T[number]>`])
r('strict-loop', 'C26 C22',
  ['packages-top/xsschema/src/json-schema.ts', `export const strictJsonSchema = (schema: JsonSchema): JsonSchema => ({
  ...schema,
  additionalProperties: false,
  properties: schema.properties != null
    ? Object.fromEntries(
        Object.entries(schema.properties)
          .map(([k, v]) => [
            k,
            v != null && typeof v === 'object' && 'type' in v && v.type === 'object'
              ? strictJsonSchema(v)
              : v,
          ]),
      )
    : schema.properties,
})`, `const isObjectSchema = (value: unknown): value is JsonSchema =>
  typeof value === 'object' && value !== null && 'type' in value && value.type === 'object'

export const strictJsonSchema = (schema: JsonSchema): JsonSchema => {
  const { properties } = schema
  const strictProperties = properties == null
    ? properties
    : Object.fromEntries(Object.entries(properties).map(([name, property]) => [name, isObjectSchema(property) ? strictJsonSchema(property) : property]))

  return { ...schema, additionalProperties: false, properties: strictProperties }
}`])
r('object-shared', 'C22',
  ['packages/generate-object/src/index.ts', `  }).then(async ({ finishReason, messages, reasoningText, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
    if`, `  }).then(async (result) => {
    const { finishReason, messages, reasoningText, steps, text, toolCalls, toolResults, totalUsage, usage } = result
    if`],
  ['packages/generate-object/src/index.ts', `    else {
      return {
        finishReason,
        messages,
        object: await validate(options.schema, json as Schema.InferInput<T>),
        reasoningText,
        steps,
        text,
        toolCalls,
        toolResults,
        totalUsage,
        usage,
      }
    }`, `    const object = await validate(options.schema, json as Schema.InferInput<T>)
    return { ...result, object }`])
r('tool-shared', 'C26',
  ['packages/tool/src/utils/define-tool.ts', `      parameters: (strict !== false
        ? strictJsonSchema(schema)
        : schema) as Record<string, unknown>,
      strict: strict ?? true,`, `      parameters: (strict === false ? schema : strictJsonSchema(schema)) as Record<string, unknown>,
      strict: strict !== undefined && strict !== null ? strict : true,`])
r('reasoning-loop', 'C24',
  ['packages/utils-reasoning/src/extract-reasoning.ts', `  const reasoning = reasonMatches.map(match => match[1]).join(separator)
`, `  const sections: string[] = []
  for (const match of reasonMatches)
    sections.push(match[1])
  const reasoning = sections.join(separator)
`])
export { R }

if (process.argv[1].endsWith('refactors.mjs')) {
  const only = process.argv.slice(2), props = process.env.P?.split(',')
  const jobs = R.filter(x => !only.length || only.some(o => x.id.startsWith(o)))
  const base = '/tmp/refactors'
  mkdirSync(base, { recursive: true })
  for (const x of jobs) {
    const repo = `${base}/${x.id}`
    if (existsSync(repo)) rmSync(repo, { recursive: true })
    execFileSync('cp', ['-a', '/repo', repo])
    for (const [f, from, to] of x.edits) {
      const s = readFileSync(`${repo}/${f}`, 'utf8')
      if (s.split(from).length !== 2) { console.log(`${x.id}: ${f}: ${s.split(from).length - 1} matches of ${JSON.stringify(from.slice(0, 60))}`); process.exitCode = 1; continue }
      writeFileSync(`${repo}/${f}`, s.replace(from, () => to))
    }
    const vf = `${base}/verif-${x.id}`
    if (existsSync(vf)) rmSync(vf, { recursive: true })
    mkdirSync(vf)
    for (const d of ['bin', 'engine', 'contracts', 'concrete', 'props.config.mjs', 'known-findings.json']) cpSync(`/verif/${d}`, `${vf}/${d}`, { recursive: true })
    if (process.env.DRY) continue
    for (const p of x.props) {
      if (props && !props.includes(p)) continue
      const t = Date.now()
      const out = await new Promise((res) => {
        const c = spawn(process.execPath, ['--no-warnings', `${vf}/bin/check.mjs`, p], { env: { ...process.env, VERIF_REPO: repo, VERIF_SEED: '1' } })
        let o = ''
        c.stdout.on('data', d => { o += d }); c.stderr.on('data', d => { o += d })
        c.on('close', code => res({ code, o }))
      })
      console.log(`${x.id} ${p}: ${out.code === 0 ? (/UNDECIDED/.test(out.o) ? 'quiet (undecided)' : 'quiet') : `ALARM ${out.code}`} ${Math.round((Date.now() - t) / 1000)} s`)
      if (out.code !== 0 || /UNDECIDED/.test(out.o)) console.log(out.o.split('\n').filter(l => /failing input|not discharged|contract fails|VIOLATION|UNDECIDED|rror/.test(l)).map(l => '    ' + l.slice(0, 260)).slice(0, 6).join('\n'))
    }
    rmSync(repo, { recursive: true }); rmSync(vf, { recursive: true })
  }
}
