From 0c1d950400e8b8bf92038f446ea438d5d9774301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 01/23] fix: send Headers instances and let custom headers win
 whatever their case

---
 packages/shared/src/utils/post-json.ts       |  7 ++-----
 packages/shared/src/utils/request-headers.ts | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/packages/shared/src/utils/post-json.ts b/packages/shared/src/utils/post-json.ts
index a841b9b..25b7b26 100644
--- a/packages/shared/src/utils/post-json.ts
+++ b/packages/shared/src/utils/post-json.ts
@@ -1,17 +1,14 @@
 import type { CommonRequestOptions, WithUnknown } from '../types'
 
 import { requestBody } from './request-body'
-import { requestHeaders } from './request-headers'
+import { mergeHeaders, requestHeaders } from './request-headers'
 import { requestURL } from './request-url'
 import { responseCatch } from './response-catch'
 
 export const postJSON = async (path: string, options: WithUnknown<CommonRequestOptions>) =>
   (options.fetch ?? globalThis.fetch)(requestURL(path, options.baseURL), {
     body: requestBody(options),
-    headers: requestHeaders({
-      'Content-Type': 'application/json',
-      ...options.headers,
-    }, options.apiKey),
+    headers: requestHeaders(mergeHeaders({ 'Content-Type': 'application/json' }, options.headers) as Record<string, string>, options.apiKey),
     method: 'POST',
     signal: options.abortSignal,
   }).then(responseCatch)
diff --git a/packages/shared/src/utils/request-headers.ts b/packages/shared/src/utils/request-headers.ts
index b9a8c9a..d835be8 100644
--- a/packages/shared/src/utils/request-headers.ts
+++ b/packages/shared/src/utils/request-headers.ts
@@ -2,7 +2,19 @@ import type { CommonRequestOptions } from '../types'
 
 import { clean } from './clean'
 
-export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey']) => clean({
+/** Adds default headers to custom ones; a custom header wins whatever its letter case. */
+export const mergeHeaders = (defaults: Record<string, string | undefined>, headers?: CommonRequestOptions['headers']): Record<string, string | undefined> => {
+  const custom: Record<string, string | undefined> = headers instanceof Headers
+    ? Object.fromEntries(headers.entries())
+    : { ...headers }
+  const names = Object.keys(custom).map(name => name.toLowerCase())
+
+  return {
+    ...Object.fromEntries(Object.entries(defaults).filter(([name]) => !names.includes(name.toLowerCase()))),
+    ...custom,
+  }
+}
+
+export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey']) => clean(mergeHeaders({
   Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
-  ...headers,
-})
+}, headers))
-- 
2.43.0


From 070d62483b51db62dbc0cfcee40bdcc3a33aebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 02/23] fix: give each provider call its own request options
 object

---
 packages-ext/providers/src/utils/create.ts | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/packages-ext/providers/src/utils/create.ts b/packages-ext/providers/src/utils/create.ts
index fd068b1..409c1ab 100644
--- a/packages-ext/providers/src/utils/create.ts
+++ b/packages-ext/providers/src/utils/create.ts
@@ -1,45 +1,45 @@
 import type { ChatProvider, ChatProviderWithExtraOptions, CreateProviderOptions, EmbedProvider, EmbedProviderWithExtraOptions, ImageProvider, ModelProvider, ModelProviderWithExtraOptions, SpeechProvider, SpeechProviderWithExtraOptions, TranscriptionProvider, TranscriptionProviderWithExtraOptions } from './types'
 
 export const createChatProvider = <T extends string = string>(options: CreateProviderOptions): ChatProvider<T> => ({
-  chat: model => Object.assign(options, { model }),
+  chat: model => Object.assign({}, options, { model }),
 })
 
 export const createChatProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): ChatProviderWithExtraOptions<T, T2> => ({
-  chat: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  chat: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createEmbedProvider = <T extends string = string>(options: CreateProviderOptions): EmbedProvider<T> => ({
-  embed: model => Object.assign(options, { model }),
+  embed: model => Object.assign({}, options, { model }),
 })
 
 export const createEmbedProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): EmbedProviderWithExtraOptions<T, T2> => ({
-  embed: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  embed: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createImageProvider = <T extends string = string>(options: CreateProviderOptions): ImageProvider<T> => ({
-  image: model => Object.assign(options, { model }),
+  image: model => Object.assign({}, options, { model }),
 })
 
 export const createModelProvider = (options: CreateProviderOptions): ModelProvider => ({
-  model: () => options,
+  model: () => Object.assign({}, options),
 })
 
 export const createModelProviderWithExtraOptions = <T = undefined>(options: Omit<CreateProviderOptions, 'model'>): ModelProviderWithExtraOptions<T> => ({
-  model: extraOptions => Object.assign(options, extraOptions),
+  model: extraOptions => Object.assign({}, options, extraOptions),
 })
 
 export const createSpeechProvider = <T extends string = string>(options: CreateProviderOptions): SpeechProvider<T> => ({
-  speech: model => Object.assign(options, { model }),
+  speech: model => Object.assign({}, options, { model }),
 })
 
 export const createSpeechProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): SpeechProviderWithExtraOptions<T, T2> => ({
-  speech: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  speech: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createTranscriptionProvider = <T extends string = string>(options: CreateProviderOptions): TranscriptionProvider<T> => ({
-  transcription: model => Object.assign(options, { model }),
+  transcription: model => Object.assign({}, options, { model }),
 })
 
 export const createTranscriptionProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): TranscriptionProviderWithExtraOptions<T, T2> => ({
-  transcription: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  transcription: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
-- 
2.43.0


From d5fb03a98418db3ac0632c17d1068feaf4fcbde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 03/23] fix: smoothStream keeps the tail and any text before a
 match

---
 packages/utils-stream/src/smooth-stream.ts | 25 +++++++++++++++-------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/packages/utils-stream/src/smooth-stream.ts b/packages/utils-stream/src/smooth-stream.ts
index 17bc5e1..9a2f8d4 100644
--- a/packages/utils-stream/src/smooth-stream.ts
+++ b/packages/utils-stream/src/smooth-stream.ts
@@ -23,22 +23,31 @@ const CHUNKING_REGEXPS = {
  * Smooths text streaming output.
  */
 export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOptions = {}): TransformStream<string, string> => {
-  const chunkingRegexp
-    = typeof chunking === 'string' ? CHUNKING_REGEXPS[chunking] : chunking
+  const chunkingRegexp = new RegExp(typeof chunking === 'string' ? CHUNKING_REGEXPS[chunking] : chunking)
 
   let buffer = ''
 
+  // length of the next unit, including any text before it; 0 if there is none yet
+  const nextUnitLength = () => {
+    chunkingRegexp.lastIndex = 0
+    const match = chunkingRegexp.exec(buffer)
+    return match !== null ? match.index + match[0].length : 0
+  }
+
   return new TransformStream<string, string>({
+    flush: (controller) => {
+      if (buffer.length > 0)
+        controller.enqueue(buffer)
+    },
     transform: async (chunk, controller) => {
       buffer += chunk
 
-      let match = chunkingRegexp.exec(buffer)
-      while (match !== null) {
-        const result = match[0]
-        controller.enqueue(result)
-        buffer = buffer.slice(result.length)
+      let length = nextUnitLength()
+      while (length > 0) {
+        controller.enqueue(buffer.slice(0, length))
+        buffer = buffer.slice(length)
 
-        match = chunkingRegexp.exec(buffer)
+        length = nextUnitLength()
 
         await sleep(delay)
       }
-- 
2.43.0


From 769ca5c597d49c87dc171dba1489e752db4f392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 04/23] fix: element stream emits every element exactly once

---
 packages/stream-object/src/utils/to-element-stream.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index b5bed5b..b5cb390 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -9,17 +9,16 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
   return stream.pipeThrough(new TransformStream<string, T>({
     flush: (controller) => {
       const data = parse(partialObjectData) as PartialDeep<T>
-      controller.enqueue((data as { elements: T[] }).elements.at(-1))
+      for (const element of (data as { elements: T[] }).elements.slice(index))
+        controller.enqueue(element)
     },
     transform: (chunk, controller) => {
       partialObjectData += chunk
       try {
         const data = parse(partialObjectData) as PartialDeep<T>
-        if (
-          Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)
-          && (data as { elements: T[] }).elements.length > index + 1
-        ) {
-          controller.enqueue((data as { elements: T[] }).elements[index++])
+        if (Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)) {
+          while ((data as { elements: T[] }).elements.length > index + 1)
+            controller.enqueue((data as { elements: T[] }).elements[index++])
         }
       }
       catch {}
-- 
2.43.0


From feacbd478130056a87d8fdd869cc4a1c63da0579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 05/23] fix: telemetry keeps tool validators and tool-call
 hooks

---
 packages-ext/telemetry/src/utils/wrap-tool.ts       | 1 +
 packages-ext/telemetry/src/wrapped/generate-text.ts | 2 ++
 packages-ext/telemetry/src/wrapped/stream-text.ts   | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 37d2c4d..9a86cf9 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -22,4 +22,5 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
     }),
   function: tool.function,
   type: tool.type,
+  validate: tool.validate,
 })
diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 5777e0a..a5ebd57 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -94,6 +94,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
               msgToolCalls.map(async toolCall => executeTool({
                 abortSignal: options.abortSignal,
                 messages,
+                postToolCall: options.postToolCall,
+                preToolCall: options.preToolCall,
                 toolCall,
                 tools: options.tools,
               })),
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index e644ca8..74e229c 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -247,6 +247,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           validToolCalls.map(async toolCall => executeTool({
             abortSignal: options.abortSignal,
             messages,
+            postToolCall: options.postToolCall,
+            preToolCall: options.preToolCall,
             toolCall,
             tools,
           })),
-- 
2.43.0


From 997054e2f84b2e856b417311bca371dc1e490d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 06/23] fix: telemetry streamText sends an empty tool list like
 streamText does

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 74e229c..52b84dc 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -50,9 +50,7 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
     void options.onStepFinish?.(step)
   }
 
-  const tools = options.tools != null && options.tools.length > 0
-    ? options.tools.map(tool => wrapTool(tool, tracer))
-    : undefined
+  const tools = options.tools?.map(tool => wrapTool(tool, tracer))
 
   const doStream = async () => {
     const stepOptions = await resolvePrepareStep({
-- 
2.43.0


From 56cfb556e6b51557bfad840c1643431fc035c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 07/23] fix: a tool-call fragment without arguments adds
 nothing

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 +++--
 packages/stream-text/src/index.ts                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 52b84dc..fc1f990 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -195,8 +195,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
                     pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
                 else {
-                  tool_calls[index].function.arguments! += toolCall.function.arguments
-                  pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                  tool_calls[index].function.arguments! += toolCall.function.arguments ?? ''
+                  if (toolCall.function.arguments != null)
+                    pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
               }
             }
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 91e992e..1637811 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -220,8 +220,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
                   pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
               else {
-                tool_calls[index].function.arguments! += toolCall.function.arguments
-                pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                tool_calls[index].function.arguments! += toolCall.function.arguments ?? ''
+                if (toolCall.function.arguments != null)
+                  pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
             }
           }
-- 
2.43.0


From a13ced59b88309b6e0ee8f1478ce0e039a7fea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 08/23] fix: a run that fails with null or undefined is still a
 failure

---
 packages-ext/responses/src/utils/responses.ts  | 18 +++++++++---------
 .../telemetry/src/wrapped/stream-text.ts       | 18 +++++++++---------
 packages/stream-text/src/index.ts              | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 0cdfbb5..c41c2bd 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -360,29 +360,29 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   void (async () => {
-    let finalError: unknown
+    let failure: undefined | { reason: unknown }
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
-      finalError = err
+      failure = { reason: err }
     }
 
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      failure ??= { reason: err }
     }
 
-    if (finalError != null) {
-      errorControllers(finalError, fullCtrl, textCtrl, reasoningTextCtrl, eventCtrl)
+    if (failure != null) {
+      errorControllers(failure.reason, fullCtrl, textCtrl, reasoningTextCtrl, eventCtrl)
 
-      resultInput.reject(finalError)
-      resultSteps.reject(finalError)
-      resultUsage.reject(finalError)
-      resultTotalUsage.reject(finalError)
+      resultInput.reject(failure.reason)
+      resultSteps.reject(failure.reason)
+      resultUsage.reject(failure.reason)
+      resultTotalUsage.reject(failure.reason)
       return
     }
 
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index fc1f990..80e7e09 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -286,28 +286,28 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
   }
 
   void (async () => {
-    let finalError: unknown
+    let failure: undefined | { reason: unknown }
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
-      finalError = err
+      failure = { reason: err }
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      failure ??= { reason: err }
     }
 
-    if (finalError != null) {
-      errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
+    if (failure != null) {
+      errorControllers(failure.reason, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
-      resultSteps.reject(finalError)
-      resultMessages.reject(finalError)
-      resultUsage.reject(finalError)
-      resultTotalUsage.reject(finalError)
+      resultSteps.reject(failure.reason)
+      resultMessages.reject(failure.reason)
+      resultUsage.reject(failure.reason)
+      resultTotalUsage.reject(failure.reason)
       return
     }
 
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 1637811..8d2b55e 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -299,28 +299,28 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
   }
 
   void (async () => {
-    let finalError: unknown
+    let failure: undefined | { reason: unknown }
 
     try {
       await trampoline(async () => doStream())
     }
     catch (err) {
-      finalError = err
+      failure = { reason: err }
     }
     try {
       await options.onFinish?.(steps.at(-1))
     }
     catch (err) {
-      finalError ??= err
+      failure ??= { reason: err }
     }
 
-    if (finalError != null) {
-      errorControllers(finalError, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
+    if (failure != null) {
+      errorControllers(failure.reason, eventCtrl, fullCtrl, textCtrl, reasoningTextCtrl)
 
-      resultSteps.reject(finalError)
-      resultMessages.reject(finalError)
-      resultUsage.reject(finalError)
-      resultTotalUsage.reject(finalError)
+      resultSteps.reject(failure.reason)
+      resultMessages.reject(failure.reason)
+      resultUsage.reject(failure.reason)
+      resultTotalUsage.reject(failure.reason)
       return
     }
 
-- 
2.43.0


From e82c7d3d707facc406cb75732d5fb284fd49814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 09/23] fix: no holes in the assistant message when tool-call
 indices have gaps

---
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 +++--
 packages/stream-text/src/index.ts                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 80e7e09..348bb72 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -209,16 +209,17 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       if (textStarted)
         pushEvent({ content: text, type: 'text.done' })
 
+      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
+
       const message: AssistantMessage = {
         ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
         content: text,
         role: 'assistant',
-        tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+        tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
       }
       messages.push(message)
       span.setAttribute('gen_ai.output.messages', JSON.stringify([message]))
 
-      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
       const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
       const toolResults: CompletionToolResult[] = []
 
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 8d2b55e..569c3e6 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -234,14 +234,15 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     if (textStarted)
       pushEvent({ content: text, type: 'text.done' })
 
+    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
+
     messages.push({
       ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
       content: text,
       role: 'assistant',
-      tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+      tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
     })
 
-    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
     const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
     const toolResults: CompletionToolResult[] = []
 
-- 
2.43.0


From a5659754458c214c29e667cfda06a83cc77749c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 10/23] fix: usage is the one reported for the step, counted
 once

---
 packages-ext/responses/src/utils/responses.ts     | 2 ++
 packages-ext/telemetry/src/wrapped/stream-text.ts | 6 +++++-
 packages/stream-text/src/index.ts                 | 6 +++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index c41c2bd..d6e298d 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -272,6 +272,8 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
 
   // eslint-disable-next-line sonarjs/cognitive-complexity
   const doStream = async () => {
+    usage = undefined
+
     const reader = await createReader()
     const functionCalls: FunctionCall[] = []
     const toolCalls: CompletionToolCall[] = []
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 348bb72..a27a43d 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -53,6 +53,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
   const tools = options.tools?.map(tool => wrapTool(tool, tracer))
 
   const doStream = async () => {
+    usage = undefined
+
     const stepOptions = await resolvePrepareStep({
       input: messages,
       model: options.model,
@@ -86,7 +88,6 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           return
 
         usage = normalizeChatCompletionUsage(u)
-        totalUsage = computeTotalUsage(totalUsage, usage)
       }
 
       let text = ''
@@ -204,6 +205,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           },
         }))
 
+      if (usage != null)
+        totalUsage = computeTotalUsage(totalUsage, usage)
+
       if (reasoningStarted)
         pushEvent({ content: reasoningText ?? '', type: 'reasoning.done' })
       if (textStarted)
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 569c3e6..31b05e2 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -90,6 +90,8 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
   }
 
   const doStream = async () => {
+    usage = undefined
+
     const stepOptions = await resolvePrepareStep({
       input: messages,
       model: options.model,
@@ -115,7 +117,6 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
         return
 
       usage = normalizeChatCompletionUsage(u)
-      totalUsage = computeTotalUsage(totalUsage, usage)
     }
 
     let text = ''
@@ -229,6 +230,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
         },
       }))
 
+    if (usage != null)
+      totalUsage = computeTotalUsage(totalUsage, usage)
+
     if (reasoningStarted)
       pushEvent({ content: reasoningText ?? '', type: 'reasoning.done' })
     if (textStarted)
-- 
2.43.0


From cb46dacadae0f62b02fdfcc1474a4991f6e24980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 11/23] fix: streamSpeech usage settles when the stream fails

---
 packages/stream-speech/src/index.ts | 79 +++++++++++++++--------------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/packages/stream-speech/src/index.ts b/packages/stream-speech/src/index.ts
index 807dd1e..26a9a3b 100644
--- a/packages/stream-speech/src/index.ts
+++ b/packages/stream-speech/src/index.ts
@@ -56,46 +56,51 @@ export const streamSpeech = async (options: WithUnknown<StreamSpeechOptions>): P
     streamFormat: 'sse',
   })
 
-  const fullStream = response.body!
-    .pipeThrough(new TextDecoderStream())
-    .pipeThrough(new EventSourceParserStream())
-    .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
-    .pipeThrough(new TransformStream<StreamSpeechEvent, Uint8Array>({
-      flush: () => {
-        if (usageResolved)
-          return
+  const { readable: fullStream, writable } = new TransformStream<StreamSpeechEvent, Uint8Array>({
+    flush: () => {
+      if (usageResolved)
+        return
 
-        usageResolved = true
-        usage.resolve(undefined)
-      },
-      transform: (chunk, controller) => {
-        try {
-          switch (chunk.type) {
-            case 'speech.audio.delta':
-              controller.enqueue(Uint8Array.fromBase64(chunk.audio))
-              break
-            case 'speech.audio.done':
-              if (chunk.usage != null) {
-                usage.resolve({
-                  inputTokens: chunk.usage.input_tokens,
-                  outputTokens: chunk.usage.output_tokens,
-                  totalTokens: chunk.usage.total_tokens,
-                })
-                usageResolved = true
-              }
-              break
-          }
+      usageResolved = true
+      usage.resolve(undefined)
+    },
+    transform: (chunk, controller) => {
+      try {
+        switch (chunk.type) {
+          case 'speech.audio.delta':
+            controller.enqueue(Uint8Array.fromBase64(chunk.audio))
+            break
+          case 'speech.audio.done':
+            if (chunk.usage != null) {
+              usage.resolve({
+                inputTokens: chunk.usage.input_tokens,
+                outputTokens: chunk.usage.output_tokens,
+                totalTokens: chunk.usage.total_tokens,
+              })
+              usageResolved = true
+            }
+            break
         }
-        catch (error) {
-          if (!usageResolved) {
-            usageResolved = true
-            usage.reject(error)
-          }
-
-          throw error
+      }
+      catch (error) {
+        if (!usageResolved) {
+          usageResolved = true
+          usage.reject(error)
         }
-      },
-    }))
+
+        throw error
+      }
+    },
+  })
+
+  // also settle the usage when the server stream fails or the consumer cancels
+  usage.promise.catch(() => {})
+  void response.body!
+    .pipeThrough(new TextDecoderStream())
+    .pipeThrough(new EventSourceParserStream())
+    .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
+    .pipeTo(writable)
+    .catch(error => usage.reject(error))
 
   return {
     fullStream,
-- 
2.43.0


From ea91d9715d08e76883237db2316b0ec0740a49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 12/23] fix: OpenRouter forwards transforms and Headers
 instances

---
 packages-ext/providers/src/manual/providers/openrouter.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/openrouter.ts b/packages-ext/providers/src/manual/providers/openrouter.ts
index 7a85d95..023a073 100644
--- a/packages-ext/providers/src/manual/providers/openrouter.ts
+++ b/packages-ext/providers/src/manual/providers/openrouter.ts
@@ -104,10 +104,10 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
     chat: (model: string, openRouterOptions?: OpenRouterOptions) => {
       const requestOptions: CommonRequestOptions = { apiKey, baseURL, model }
 
-      const toOpenRouterOptions = ({ extraHeaders, models, provider }: OpenRouterOptions): Record<string, unknown> => {
+      const toOpenRouterOptions = ({ extraHeaders, models, provider, transforms }: OpenRouterOptions): Record<string, unknown> => {
         if (extraHeaders != null) {
           requestOptions.headers ??= {}
-          Object.assign(requestOptions.headers, extraHeaders)
+          Object.assign(requestOptions.headers, extraHeaders instanceof Headers ? Object.fromEntries(extraHeaders.entries()) : extraHeaders)
         }
 
         let transformedProvider: Record<string, unknown> | undefined
@@ -118,6 +118,7 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
         return objCamelToSnake({
           models,
           provider: transformedProvider,
+          transforms,
         })
       }
 
-- 
2.43.0


From c46357c47f987efc66a90604c6f223ed0ffc02e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 13/23] fix: recognise WebP images of any size

---
 packages/generate-image/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/generate-image/src/index.ts b/packages/generate-image/src/index.ts
index 8210ac9..b84f124 100644
--- a/packages/generate-image/src/index.ts
+++ b/packages/generate-image/src/index.ts
@@ -61,7 +61,7 @@ const mimeTypes = {
   'AAAAIGZ0eXBhdmlm': 'image/avif',
   'iVBORw0KGgo': 'image/png',
   'R0lGOD': 'image/gif',
-  'UklGRg==': 'image/webp',
+  'UklGR': 'image/webp',
 }
 
 /** @internal */
-- 
2.43.0


From 5c272408eff4770e8f65a3437838f33f8b34d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 14/23] fix: an answer without choices and usage is an
 InvalidResponseError

---
 packages-ext/telemetry/src/wrapped/generate-text.ts | 4 ++--
 packages/generate-text/src/index.ts                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index a5ebd57..0fd4ed4 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -49,8 +49,6 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
         .then(responseJSON<GenerateTextResponse>)
         .then(async (res) => {
           const { choices } = res
-          const usage = normalizeChatCompletionUsage(res.usage)
-          const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
           if (!choices?.length) {
             const responseBody = JSON.stringify(res)
@@ -60,6 +58,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
             })
           }
 
+          const usage = normalizeChatCompletionUsage(res.usage)
+          const totalUsage = computeTotalUsage(options.totalUsage, usage)
           const { finish_reason: finishReason, message } = choices[0]
           const msgToolCalls: ToolCall[] = message?.tool_calls ?? []
           const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
diff --git a/packages/generate-text/src/index.ts b/packages/generate-text/src/index.ts
index 87d39d9..bbbf039 100644
--- a/packages/generate-text/src/index.ts
+++ b/packages/generate-text/src/index.ts
@@ -87,8 +87,6 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
     .then(responseJSON<GenerateTextResponse>)
     .then(async (res) => {
       const { choices } = res
-      const usage = normalizeChatCompletionUsage(res.usage)
-      const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
       if (!choices?.length) {
         const responseBody = JSON.stringify(res)
@@ -98,6 +96,8 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
         })
       }
 
+      const usage = normalizeChatCompletionUsage(res.usage)
+      const totalUsage = computeTotalUsage(options.totalUsage, usage)
       const { finish_reason: finishReason, message } = choices[0]
       const msgToolCalls = message?.tool_calls ?? []
       const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
-- 
2.43.0


From 404d8a5a6c24c5e579a19783a7b05969520bd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 15/23] fix: generateObject keeps the reasoning text

---
 packages/generate-object/src/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/generate-object/src/index.ts b/packages/generate-object/src/index.ts
index 2adcb61..0dcd6df 100644
--- a/packages/generate-object/src/index.ts
+++ b/packages/generate-object/src/index.ts
@@ -48,7 +48,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
     schemaDescription: undefined, // Remove schemaDescription from options
     schemaName: undefined, // Remove schemaName from options
     strict: undefined, // Remove strict from options
-  }).then(async ({ finishReason, messages, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
+  }).then(async ({ finishReason, messages, reasoningText, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
     if (text == null || text.length === 0) {
       throw new InvalidResponseError('Cannot generate an object from an empty response.', {
         reason: 'empty_body',
@@ -64,6 +64,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         object: await Promise.all((json as { elements: Schema.InferInput<T>[] })
           .elements
           .map(async element => validate(options.schema, element))),
+        reasoningText,
         steps,
         text,
         toolCalls,
@@ -77,6 +78,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         finishReason,
         messages,
         object: await validate(options.schema, json as Schema.InferInput<T>),
+        reasoningText,
         steps,
         text,
         toolCalls,
-- 
2.43.0


From d7263075fe938fcb9017c92ad535ff937c9ca333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 16/23] fix: extractReasoning takes the tag name literally

---
 packages/utils-reasoning/src/extract-reasoning.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning.ts b/packages/utils-reasoning/src/extract-reasoning.ts
index a76b242..bb430b1 100644
--- a/packages/utils-reasoning/src/extract-reasoning.ts
+++ b/packages/utils-reasoning/src/extract-reasoning.ts
@@ -21,7 +21,8 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
   const separator = options.separator ?? '\n'
   const fullText = options.startWithReasoning ? startTag + text : text
 
-  const regex = new RegExp(`${startTag}(.*?)${endTag}`, 'gs')
+  const escapeRegExp = (str: string) => str.replace(/[$()*+.?[\\\]^{|}]/g, '\\$&')
+  const regex = new RegExp(`${escapeRegExp(startTag)}(.*?)${escapeRegExp(endTag)}`, 'gs')
   const reasonMatches = [...fullText.matchAll(regex)]
 
   if (reasonMatches.length === 0) {
-- 
2.43.0


From e89aa23145ad78a347c220d231fc4d74291a0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 17/23] fix: the held-back tail of a reasoning stream keeps its
 separator

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index 6383f57..bc29bb3 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -54,14 +54,7 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   stream.pipeTo(
     new WritableStream({
       close: () => {
-        if (buffer.length > 0) {
-          if (isReasoning) {
-            reasoningStreamController?.enqueue(buffer)
-          }
-          else {
-            textStreamController?.enqueue(buffer)
-          }
-        }
+        enqueueStream(buffer)
         reasoningStreamController?.close()
         textStreamController?.close()
       },
-- 
2.43.0


From 4ff4169fa42499602f93a6f92324e636e4802467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 18/23] fix: model lists of Featherless and Together AI keep
 error responses

---
 packages-ext/providers/src/manual/providers/featherless.ts | 5 +++--
 packages-ext/providers/src/manual/providers/together-ai.ts | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/featherless.ts b/packages-ext/providers/src/manual/providers/featherless.ts
index 648404a..15bcf0d 100644
--- a/packages-ext/providers/src/manual/providers/featherless.ts
+++ b/packages-ext/providers/src/manual/providers/featherless.ts
@@ -14,7 +14,8 @@ export const createFeatherless = (apiKey: string, baseURL = 'https://api.feather
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async res => res.ok
+        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
+        : res),
   }),
 )
diff --git a/packages-ext/providers/src/manual/providers/together-ai.ts b/packages-ext/providers/src/manual/providers/together-ai.ts
index 55ac5e2..8681bb0 100644
--- a/packages-ext/providers/src/manual/providers/together-ai.ts
+++ b/packages-ext/providers/src/manual/providers/together-ai.ts
@@ -18,7 +18,8 @@ export const createTogetherAI = (apiKey: string, baseURL = 'https://api.together
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async res => res.ok
+        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
+        : res),
   }),
 )
-- 
2.43.0


From d18b51fe1286366f75cac7e9d81796c84bc821a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 19/23] fix: images given by URL work without FileReader
 (Node.js)

---
 packages/generate-image/src/index.ts | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/packages/generate-image/src/index.ts b/packages/generate-image/src/index.ts
index b84f124..2d73d4a 100644
--- a/packages/generate-image/src/index.ts
+++ b/packages/generate-image/src/index.ts
@@ -82,12 +82,9 @@ const responseBlobAsDataURL = async (res: Response): Promise<string> =>
       const blob = await res.blob()
 
       try {
-        return await new Promise<string>((resolve, reject) => {
-          const reader = new FileReader()
-          reader.onloadend = () => resolve(reader.result as string)
-          reader.onerror = reject
-          reader.readAsDataURL(blob)
-        })
+        const bytes = new Uint8Array(await blob.arrayBuffer())
+        const binary = Array.from(bytes, byte => String.fromCharCode(byte)).join('')
+        return `data:${blob.type || 'application/octet-stream'};base64,${btoa(binary)}`
       }
       catch {
         throw new Error(`Failed to parse response blob, response URL: ${res.url}`)
-- 
2.43.0


From 61d893927dc8889361f7d5203848b5fbefe04c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 20/23] fix: Player2 speech keeps error responses

---
 packages-ext/providers/src/special/providers/player2.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages-ext/providers/src/special/providers/player2.ts b/packages-ext/providers/src/special/providers/player2.ts
index a3d444c..fa5f5cb 100644
--- a/packages-ext/providers/src/special/providers/player2.ts
+++ b/packages-ext/providers/src/special/providers/player2.ts
@@ -47,7 +47,11 @@ export const createPlayer2 = (baseURL = 'http://localhost:4315/v1/', gameKey = '
       catch (err) {
         console.warn('Could not parse body as JSON:', err)
       }
-      return globalThis.fetch(newUrl, reqInit).then(async res => res.json() as Promise<{ data?: string }>).then((json: { data?: string }) => {
+      return globalThis.fetch(newUrl, reqInit).then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const json = await res.json() as { data?: string }
         const base64 = json.data ?? ''
         const bytes = Uint8Array.fromBase64(base64)
         const body = new ReadableStream({
-- 
2.43.0


From 56afd7d4e247562294c934ad12c46b5688b1fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:40 +0000
Subject: [PATCH 21/23] fix: transcription keeps the name of a file given
 without fileName (Node.js)

---
 packages/generate-transcription/src/index.ts | 6 +++++-
 packages/stream-transcription/src/index.ts   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/generate-transcription/src/index.ts b/packages/generate-transcription/src/index.ts
index 1cd6a09..b56a73a 100644
--- a/packages/generate-transcription/src/index.ts
+++ b/packages/generate-transcription/src/index.ts
@@ -72,7 +72,11 @@ export const generateTranscription = async <
   const body = new FormData()
 
   body.append('model', options.model)
-  body.append('file', options.file, options.fileName)
+  // an explicit `undefined` file name would be sent as "undefined" by some runtimes (Node.js)
+  if (options.fileName != null)
+    body.append('file', options.file, options.fileName)
+  else
+    body.append('file', options.file)
   body.append('response_format', options.responseFormat ?? 'json')
 
   // make ts happy
diff --git a/packages/stream-transcription/src/index.ts b/packages/stream-transcription/src/index.ts
index 508925d..67c13b7 100644
--- a/packages/stream-transcription/src/index.ts
+++ b/packages/stream-transcription/src/index.ts
@@ -41,7 +41,11 @@ export const streamTranscription = (options: WithUnknown<StreamTranscriptionOpti
     // Build FormData for file upload
     const body = new FormData()
     body.append('model', options.model)
-    body.append('file', options.file, options.fileName)
+    // an explicit `undefined` file name would be sent as "undefined" by some runtimes (Node.js)
+    if (options.fileName != null)
+      body.append('file', options.file, options.fileName)
+    else
+      body.append('file', options.file)
     body.append('stream', 'true')
 
     if (options.language != null)
-- 
2.43.0


From ea92144b7da2ce1a54cb5339897ca74c635ebff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 22/23] fix: let consumers cancel one stream of
 extractReasoningStream

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index bc29bb3..f338f07 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -15,12 +15,14 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   const endTag = `</${options.tagName}>`
   const separator = options.separator ?? '\n'
 
-  let reasoningStreamController: ReadableStreamDefaultController<string>
-  let textStreamController: ReadableStreamDefaultController<string>
+  let reasoningStreamController: ReadableStreamDefaultController<string> | undefined
+  let textStreamController: ReadableStreamDefaultController<string> | undefined
   const reasoningStream = new ReadableStream<string>({
+    cancel: () => reasoningStreamController = undefined,
     start: controller => reasoningStreamController = controller,
   })
   const textStream = new ReadableStream<string>({
+    cancel: () => textStreamController = undefined,
     start: controller => textStreamController = controller,
   })
 
-- 
2.43.0


From 2a7997ffc0c327439dcfed76fa053a0d233dd8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 23/23] fix: embedding with telemetry no longer fails when the
 server reports no usage

---
 packages-ext/telemetry/src/wrapped/embed.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/embed.ts b/packages-ext/telemetry/src/wrapped/embed.ts
index 8aa9786..5f086a3 100644
--- a/packages-ext/telemetry/src/wrapped/embed.ts
+++ b/packages-ext/telemetry/src/wrapped/embed.ts
@@ -18,7 +18,9 @@ export const embed = async (options: WithTelemetry<EmbedOptions>): Promise<Embed
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbed(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    // some servers do not report usage
+    if (result.usage != null)
+      span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
     return result
   })
 }
@@ -33,7 +35,9 @@ export const embedMany = async (options: WithTelemetry<EmbedManyOptions>): Promi
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedManyResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbedMany(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    // some servers do not report usage
+    if (result.usage != null)
+      span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
     return result
   })
 }
-- 
2.43.0

