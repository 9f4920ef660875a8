// Generates properties.jsonl (kept as a script so that the text is easy to maintain).
import { writeFileSync } from 'node:fs'
const P = []
const p = (id, title, statement, over, text, why, files, mech, extra = {}) =>
  P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mech.map(([name, where]) => ({ name, where })), ...extra } })

p('C01', 'Request bodies carry every caller option in snake_case and nothing private',
  'For every JSON endpoint, the request body is a JSON object that holds exactly the options the caller supplied with a defined value, each under the snake_case form of its name with its value unchanged, plus the fields the endpoint itself adds. The API key, base URL, headers, fetch function and abort signal never appear in a body, chat bodies also never contain hook callbacks, stop conditions, loop bookkeeping or any tool\'s execute function, and options whose value is undefined are omitted while null, false, 0 and empty string are kept.',
  ['inputs'], 'all option objects: any set of extra keys (no two of which share a snake_case form), any JSON values, any subset of the known options, any list of tools',
  'Tests send two or three fixed option sets; the claim ranges over every key name and value a caller can pass through, including ones the SDK does not know.',
  ['packages/shared/src/utils/request-body.ts', 'packages/shared/src/utils/clean.ts', 'packages/shared/src/utils/case.ts', 'packages/shared-chat/src/utils/chat.ts', 'packages/generate-text/src/index.ts', 'packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts'],
  [['requestBody strips transport options, clean drops undefined, objCamelToSnake renames', 'packages/shared/src/utils/request-body.ts'], ['chat strips hooks and execute', 'packages/shared-chat/src/utils/chat.ts']],
  { observe_at: ['the init.body given to the caller-supplied fetch'] })

p('C02', 'Every call sends one request, to the right URL, with the caller\'s transport',
  'Each API call sends its request to the endpoint path appended below the caller\'s base URL, whether or not the base URL (string or URL object) ends in a slash, and keeps the base URL\'s own path. The request goes through the caller\'s fetch when one is given and the global fetch otherwise, exactly once per call (once per step for multi-step calls), with the endpoint\'s HTTP method and the caller\'s abort signal attached.',
  ['inputs', 'configurations'], 'all base URLs (without query or fragment) and model names, all endpoints, fetch given or not, abort signal given or not',
  'Tests use a handful of fixed base URLs and mostly a stubbed fetch for one endpoint at a time.',
  ['packages/shared/src/utils/request-url.ts', 'packages/shared/src/utils/post-json.ts', 'packages/model/src/utils/list-models.ts', 'packages/model/src/utils/retrieve-model.ts', 'packages/generate-transcription/src/index.ts', 'packages/stream-transcription/src/index.ts', 'packages/generate-image/src/index.ts'],
  [['requestURL normalises the trailing slash', 'packages/shared/src/utils/request-url.ts'], ['postJSON picks fetch, method and signal', 'packages/shared/src/utils/post-json.ts']])

p('C03', 'Credentials and custom headers reach the server intact',
  'Every request carries Authorization "Bearer <key>" exactly when an API key is given and the caller has not supplied an Authorization header of their own, which then wins whatever its letter case. Every header the caller supplies, as a plain object or as a Headers instance, is sent with its value unchanged, headers with an undefined value are not sent, and JSON requests carry Content-Type application/json unless the caller overrides it.',
  ['inputs', 'configurations'], 'all header sets (plain object or Headers instance, any letter case), any API key or none, all endpoints',
  'Tests check a couple of plain-object headers; neither Headers instances nor overrides nor letter case are sampled.',
  ['packages/shared/src/utils/request-headers.ts', 'packages/shared/src/utils/post-json.ts'],
  [['requestHeaders merges credentials and custom headers', 'packages/shared/src/utils/request-headers.ts'], ['postJSON adds the content type', 'packages/shared/src/utils/post-json.ts']])

p('C04', 'Bad responses surface as typed errors, never as results',
  'A response whose status is not 2xx makes the call fail with an API-call error carrying the status code, URL, response headers and full response body; a missing body or a body that is not a stream fails with an invalid-response error naming which of the two it was; a body that is not JSON where JSON is expected fails with a JSON parse error carrying the text, and a chat answer without choices fails with an invalid-response error. A failure of fetch itself propagates unchanged, and a successful response is returned as exactly the value the server sent.',
  ['inputs', 'fault_sequences'], 'all responses: any status, headers, body text, missing or malformed body, any fetch rejection',
  'Tests try a few status codes and one malformed body on single endpoints.',
  ['packages/shared/src/utils/response-catch.ts', 'packages/shared/src/utils/response-json.ts', 'packages/shared/src/error/index.ts', 'packages/generate-text/src/index.ts'],
  [['responseCatch gates status and body', 'packages/shared/src/utils/response-catch.ts'], ['responseJSON parses or raises', 'packages/shared/src/utils/response-json.ts'], ['error classes carry code and context', 'packages/shared/src/error/index.ts']])

p('C05', 'Server-sent JSON messages are decoded in order, without loss or invention',
  'Decoding a server-sent event stream yields exactly the JSON values of its data messages in order, skipping only empty data, null payloads and the done marker. A message that is not valid JSON ends the stream with a JSON parse error carrying its text, and a payload that is an object with an error field ends it with a remote-API error carrying the payload; everything before the failing message is still delivered and nothing after it is.',
  ['inputs', 'histories'], 'all sequences of messages, any JSON payloads and malformed payloads, and all splittings of the byte stream into chunks',
  'Tests decode a few fixed messages; ordering and error placement hold over all sequences and all byte-chunk boundaries.',
  ['packages/shared-stream/src/json.ts', 'packages/shared-stream/src/index.ts'],
  [['parseJsonSSEMessage decides skip, value or error', 'packages/shared-stream/src/json.ts'], ['JsonMessageTransformStream forwards values and stops at errors', 'packages/shared-stream/src/json.ts']])

p('C06', 'Result streams survive cancellation and are ended exactly once',
  'Closing or failing a group of result streams ends every member that is still open, in the way asked for and with the given reason, and leaves members already cancelled, closed or failed untouched, never throwing and never ending a stream twice. A consumer that cancels one result stream never disturbs the other streams or the run that feeds them.',
  ['histories', 'schedules'], 'all sequences of enqueue, consumer cancel, close-all and fail-all over any number of streams',
  'Tests cancel one stream once; the guarantee is over every order of cancel, close and fail over any subset.',
  ['packages/shared-stream/src/controller.ts', 'packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages/stream-transcription/src/index.ts'],
  [['controller reference is cleared on cancel and before close/error', 'packages/shared-stream/src/controller.ts'], ['optional enqueue on a cleared reference', 'packages/stream-text/src/index.ts']],
  { state: [{ name: 'controller.current', meaning: 'the live controller, undefined once the stream is ended', where: 'packages/shared-stream/src/controller.ts' }] })

p('C07', 'A tool runs only on parsed, validated and approved input, at most once per call',
  'A tool\'s execute function is invoked at most once per model tool call, only for the tool whose name matches the (possibly hook-replaced) call, and only with the JSON value of the call\'s arguments (an empty argument text meaning an empty object) after it passed the tool\'s validator, in which case the validated value is passed. It is never invoked when the arguments do not parse, validation reports issues, the pre-call hook answered with a result or failed, or the request is already aborted.',
  ['inputs', 'histories', 'fault_sequences'], 'all tool calls, tool lists, argument texts, validator outcomes, hook outcomes and abort states',
  'Tests cover one tool with a few inputs; the combination of hook, parse, validation and abort outcomes is not enumerable by samples.',
  ['packages/shared-chat/src/utils/execute-tool.ts'],
  [['parse, validate and abort checks precede execute', 'packages/shared-chat/src/utils/execute-tool.ts'], ['preToolCall may replace the call or supply the result', 'packages/shared-chat/src/utils/execute-tool.ts']])

p('C08', 'Tool failures become error results for the same call; hooks cannot re-address it',
  'An unknown tool, unparsable or invalid input, a throwing tool or hook, or an abort never rejects the run: it yields a result marked as an error, with the same tool-call id and tool name and a message containing the failure\'s message (the aborted notice when aborted). The post-call hook runs exactly once after every attempted execution and never otherwise, and may replace the result; a hook answer carrying another tool-call id, or a call lacking a name or arguments, makes the call fail with an invalid-tool-call error naming the reason.',
  ['inputs', 'fault_sequences'], 'all tool calls and all outcomes (any JSON-serialisable value, any thrown value) of tools, validators and both hooks, aborted or not',
  'Tests exercise single failures; here every combination of failing hook, tool, validation and abort must be contained.',
  ['packages/shared-chat/src/utils/execute-tool.ts'],
  [['catchToolError contains failures', 'packages/shared-chat/src/utils/execute-tool.ts'], ['assertSameToolCallId guards hook answers', 'packages/shared-chat/src/utils/execute-tool.ts']])

p('C09', 'Tool results are sent to the model without loss',
  'A string tool result is sent to the model as that same string; an array consisting only of recognised content parts is passed through as parts; every other result is sent as its JSON text. This holds for chat tool messages (text, image_url, input_audio and file parts) and for Responses function-call outputs (input_text, input_image and input_file parts), each with its own set of recognised part types.',
  ['inputs'], 'all JSON-serialisable tool results, including arrays that mix parts and other values',
  'Tests use a few results of each kind; mixed arrays, nulls and near-miss part types are not sampled.',
  ['packages/shared-chat/src/utils/internal/to-tool-message-content.ts', 'packages/shared-chat/src/utils/execute-tool.ts', 'packages-ext/responses/src/utils/normalize-tool.ts'],
  [['toToolMessageContent chooses the encoding', 'packages/shared-chat/src/utils/internal/to-tool-message-content.ts'], ['toFunctionCallOutput for Responses', 'packages-ext/responses/src/utils/normalize-tool.ts']])

p('C10', 'generateText keeps a valid conversation: every call answered, nothing lost',
  'Across all steps of generateText, each request\'s messages (absent a per-step override) are exactly the caller\'s messages followed, per finished step, by the assistant message the model sent and then one tool message per tool call of that message, in call order, with the same tool-call id and that call\'s result. The returned messages are that same history including the final assistant message.',
  ['inputs', 'histories'], 'all input conversations and all sequences of model responses with any number of steps and tool calls per step',
  'Tests run one- or two-step conversations with one or two calls; the history claim is over any number of rounds and calls.',
  ['packages/generate-text/src/index.ts', 'packages/shared-chat/src/utils/execute-tool.ts'],
  [['step appends assistant and tool messages then recurses through the trampoline', 'packages/generate-text/src/index.ts']],
  { state: [{ name: 'messages', meaning: 'conversation history', where: 'packages/generate-text/src/index.ts' }] })

p('C11', 'generateText continues exactly while it should',
  'After each step generateText consults the stop condition (by default: stop after one step) with the full history and all steps including the current one, executes that step\'s tool calls if and only if it is not met, and sends a further request if and only if there were tool calls, the condition was not met and the caller had not aborted by the time those tools finished. An abort that is seen before tools run rejects the call with the abort reason.',
  ['inputs', 'histories', 'fault_sequences'], 'all stop conditions, response sequences, and points at which the caller aborts',
  'Tests use a fixed step limit on a two-step exchange.',
  ['packages/generate-text/src/index.ts', 'packages/shared-chat/src/utils/stop-when.ts'],
  [['shouldStop, abort check and willContinue', 'packages/generate-text/src/index.ts']])

p('C12', 'generateText reports every step once, with exact token accounting',
  'generateText returns one step record per request, in order, with the text, finish reason, tool calls, tool results and usage of that response, and calls the step callback exactly once per step, in order, awaiting it before going on. The total usage is the component-wise sum of the per-step usages, and the top-level text, reasoning text, finish reason, tool calls, tool results and usage are those of the last step.',
  ['inputs', 'histories'], 'all response sequences of any length and all usage values',
  'Tests check totals for one or two fixed responses.',
  ['packages/generate-text/src/index.ts', 'packages/shared-chat/src/utils/usage.ts'],
  [['computeTotalUsage accumulates', 'packages/shared-chat/src/utils/usage.ts'], ['steps carried through the trampoline', 'packages/generate-text/src/index.ts']])

p('C13', 'streamText delivers exactly the text the model streamed',
  'For every sequence of server chunks and every splitting of the bytes, streamText\'s full stream yields exactly the chunks received, its text stream exactly the content (or refusal) deltas that arrive without tool calls, and its reasoning stream exactly the reasoning deltas, each in order. The step text and the assistant message in the history equal the concatenation of that step\'s text deltas, with the reasoning kept under the field name the server used.',
  ['inputs', 'histories', 'schedules'], 'all chunk sequences (any mix of content, refusal, reasoning, usage, empty choices) and all byte-chunk boundaries',
  'Tests replay one recorded stream.',
  ['packages/stream-text/src/index.ts', 'packages/shared-stream/src/json.ts'],
  [['write handler folds chunks into text, reasoning and streams', 'packages/stream-text/src/index.ts']])

p('C14', 'streamText reassembles every tool call from its fragments',
  'For every interleaving of tool-call fragments by index, each streamed tool call is assembled with the id, name and type of its first fragment and arguments equal to the concatenation, in arrival order, of all argument fragments of that index (absent fragments contributing nothing), in index order. No call is lost, duplicated, merged with another or left as a hole in the history sent back to the model.',
  ['inputs', 'histories'], 'all sequences of fragments: any indices (with gaps), any interleaving, any argument text pieces, missing arguments',
  'Tests replay a recording with one or two calls in order.',
  ['packages/stream-text/src/index.ts'],
  [['tool_calls assembled by index', 'packages/stream-text/src/index.ts']],
  { state: [{ name: 'tool_calls', meaning: 'calls of the current step, by index', where: 'packages/stream-text/src/index.ts' }] })

p('C15', 'streamText\'s event protocol is well formed and complete',
  'Each step\'s events are: one step start; at most one text (and one reasoning) section whose start precedes its deltas and whose done carries the concatenation of those deltas; per tool call one start carrying its id and name, deltas whose concatenation is its arguments, and one done with the complete call; one result event per executed call in call order; and finally one step-done with that step\'s usage. The event callback receives exactly the events of the event stream in the same order, including after that stream was cancelled.',
  ['inputs', 'histories'], 'all chunk sequences over any number of steps',
  'Tests compare the events of one recording.',
  ['packages/stream-text/src/index.ts', 'packages/shared-chat/src/types/event.ts'],
  [['pushEvent in the write handler and after the stream', 'packages/stream-text/src/index.ts']])

p('C16', 'streamText keeps history, loop decisions and accounting like generateText',
  'Across the steps of streamText, each request (absent a per-step override) carries the caller\'s messages plus, per finished step, the assembled assistant message and one tool message per call in order with matching ids; a further request is sent if and only if there were tool calls, the stop condition was not met and the caller had not aborted by the time those tools finished. The steps, messages, usage and total-usage promises report every step once in order, that history, the last step\'s usage (undefined when the server reported none for it) and the sum over steps; the step callback runs once per step and the finish callback once with the last step.',
  ['inputs', 'histories', 'fault_sequences'], 'all response sequences, stop conditions and abort points',
  'Tests cover a single two-step exchange.',
  ['packages/stream-text/src/index.ts', 'packages/shared-chat/src/utils/usage.ts'],
  [['doStream recursion through the trampoline', 'packages/stream-text/src/index.ts'], ['pushUsage/pushStep accounting', 'packages/stream-text/src/index.ts']])

p('C17', 'Every stream and promise of a streaming call settles, with the real failure',
  'For streamText, Responses, streamTranscription and streamSpeech, whatever goes wrong (fetch rejection, error response, malformed or broken stream, throwing hook, callback or stop condition, abort with any reason, even null or undefined), every result stream that is still open errors and every result promise rejects with that failure, and nothing stays pending. On success every stream closes and every promise resolves, and the finish callback runs exactly once in either case.',
  ['fault_sequences', 'inputs', 'schedules'], 'all failure points and failure values, on any step',
  'Tests inject one failure at one point; the claim is over every point and every thrown value.',
  ['packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages/stream-transcription/src/index.ts', 'packages/stream-speech/src/index.ts', 'packages/shared-stream/src/controller.ts'],
  [['background run settles controllers and resolvers', 'packages/stream-text/src/index.ts']])

p('C18', 'prepareStep sees private copies and overrides exactly one step',
  'The prepare hook runs once before each step with the step number, the model and deep copies of the history and of the previous steps, so nothing it does to them, or later to the objects it returned, changes the run. The input, model and tool choice it returns replace those of that one request only; the history, the caller\'s options and all other steps are unaffected.',
  ['inputs', 'histories'], 'all hooks (including ones that mutate everything they can reach), all histories and step counts, for generateText, streamText and Responses',
  'Tests use one well-behaved hook.',
  ['packages/shared-chat/src/utils/prepare-step.ts', 'packages/generate-text/src/index.ts', 'packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts'],
  [['resolvePrepareStep clones in and out', 'packages/shared-chat/src/utils/prepare-step.ts']])

p('C19', 'Stop conditions form a boolean algebra over the run so far',
  'and, or and not combine stop conditions as boolean conjunction, disjunction and negation over the given context (an empty "and" is true and an empty "or" is false); the step-count condition is met exactly when at least that many steps exist; the tool-call condition is met exactly when the current step has a tool call, or one with the given name.',
  ['inputs', 'programs'], 'all nestings of conditions and all contexts',
  'Tests evaluate a few fixed combinations.',
  ['packages/shared-chat/src/utils/stop-when.ts', 'packages-ext/responses/src/utils/stop-when.ts'],
  [['and/or/not/stepCountAtLeast/hasToolCall', 'packages/shared-chat/src/utils/stop-when.ts']])

p('C20', 'Responses runs keep a complete input history and execute calls correctly',
  'Across the steps of a Responses run, each request\'s input (absent a per-step override) is the normalised caller input (a string becoming one user message) followed by every completed output item in order and, per function call of a completed step that did not stop, one function-call output with the same call id and that call\'s result, in call order. A further request is sent if and only if the completed step had function calls, the stop condition was not met and the caller had not aborted by the time those tools finished; tools are sent as flat function tools with strictness defaulting to true.',
  ['inputs', 'histories', 'fault_sequences'], 'all inputs, output-item sequences, stop conditions and abort points over any number of steps',
  'Tests replay recorded exchanges.',
  ['packages-ext/responses/src/utils/responses.ts', 'packages-ext/responses/src/utils/normalize-input.ts', 'packages-ext/responses/src/utils/normalize-output.ts', 'packages-ext/responses/src/utils/normalize-tool.ts'],
  [['doStream loop over events and trampoline', 'packages-ext/responses/src/utils/responses.ts']])

p('C21', 'Responses events, text, steps and usage mirror what the server sent',
  'The full stream yields every server event unchanged and in order; the text and reasoning streams yield exactly the text-or-refusal and the reasoning deltas; the event stream and event callback yield the same ordered events, the documented mapping of each server event with complete tool calls and their results placed before that step\'s step-done. Each completed, failed or incomplete response becomes exactly one step with finish reason (tool-calls or stop, error, length), its output text and its own usage, and usage and total usage are the last response\'s usage and the sum over responses.',
  ['inputs', 'histories'], 'all sequences of server events over any number of steps',
  'Tests replay one or two recorded streams.',
  ['packages-ext/responses/src/utils/responses.ts', 'packages-ext/responses/src/utils/normalize-usage.ts'],
  [['mapFullEvent, pushStreamingEvent, pushUsage', 'packages-ext/responses/src/utils/responses.ts']])

p('C22', 'Structured output is schema-requested and never returned unvalidated',
  'Object generation sends the caller\'s schema (made strict unless disabled, wrapped in an elements array for array output) with the chosen name, description and strictness as the response format, and sends none of its own bookkeeping options. The object it returns is exactly what the schema\'s validator produced for the model\'s JSON (element by element, in order, for arrays), alongside the complete text-generation result; empty text, malformed JSON or a validation failure makes the call fail instead.',
  ['inputs', 'configurations'], 'all schemas and validators, all model texts, all option combinations',
  'Tests use one schema and one good answer.',
  ['packages/generate-object/src/index.ts', 'packages/generate-object/src/_wrap.ts', 'packages/stream-object/src/utils/stream-object.ts', 'packages-top/xsschema/src/validate.ts', 'packages-top/xsschema/src/json-schema.ts'],
  [['validate after JSON.parse', 'packages/generate-object/src/index.ts'], ['response_format construction', 'packages/generate-object/src/index.ts']])

p('C23', 'Object streams deliver every element once and end at the complete object',
  'The element stream of an array-output run yields every element of the final array exactly once, in order and complete, and nothing else, for every way the text is split into chunks; an empty array yields nothing. The partial-object stream yields successive distinct snapshots, each a best-effort reading of the text so far, the last of which equals the complete object (an empty object yields none); the text stream still yields the whole text, and an empty response is an error.',
  ['inputs', 'schedules'], 'all JSON documents and all splittings of their text into chunks',
  'Tests use a single splitting in which at most one element completes per chunk.',
  ['packages/stream-object/src/utils/to-element-stream.ts', 'packages/stream-object/src/utils/to-partial-object-stream.ts', 'packages/stream-object/src/utils/stream-object.ts'],
  [['incremental best-effort parse with an emitted-elements index', 'packages/stream-object/src/utils/to-element-stream.ts']])

p('C24', 'Reasoning extraction partitions the text and ignores chunking',
  'Extracting reasoning splits a text into the contents of its tagged sections and the rest, each joined by the separator, dropping nothing but the tags, whatever characters the tag name contains; a text without a complete tagged section is returned whole as text. The streaming form yields the same reasoning and text as for the whole text in one chunk, for every splitting into chunks, ends both streams at the end of the input (an unfinished section belonging to the reasoning), and passes on an input error to both; a reader that leaves one of the streams does not disturb the other.',
  ['inputs', 'schedules'], 'all texts, tag names, separators, start modes, and all splittings into chunks',
  'Tests use a few texts and two or three splittings.',
  ['packages/utils-reasoning/src/extract-reasoning.ts', 'packages/utils-reasoning/src/extract-reasoning-stream.ts', 'packages/utils-reasoning/src/_get-partial-match-index.ts'],
  [['partial tag match keeps a tail buffer', 'packages/utils-reasoning/src/_get-partial-match-index.ts'], ['mode switching state machine', 'packages/utils-reasoning/src/extract-reasoning-stream.ts']])

p('C25', 'Stream smoothing and simulation lose nothing',
  'Smoothing a text stream changes only where it is split: the concatenation of its output equals the concatenation of its input for every input, splitting and chunking pattern, every output piece being one unit of the pattern (with any skipped text before it), except a last one that holds no complete unit, and it always terminates. A simulated stream yields exactly the given chunks in order, waits the initial delay before the first and the chunk delay before each other one, and then closes.',
  ['inputs', 'schedules', 'configurations'], 'all texts, splittings, chunking modes and patterns; all chunk lists',
  'Tests use inputs that happen to end on a unit boundary.',
  ['packages/utils-stream/src/smooth-stream.ts', 'packages/utils-stream/src/simulate-readable-stream.ts'],
  [['buffering by regular expression', 'packages/utils-stream/src/smooth-stream.ts']])

p('C26', 'Tool definitions advertise exactly the caller\'s schema and keep its validator',
  'Defining a tool yields a function tool with the caller\'s name, description and execute function, the caller\'s JSON schema as parameters, strict by default, and, for schema-based tools, a validator that is the schema\'s own. Strictness (unless disabled) closes every object schema reachable through object-typed properties and changes nothing else, and schema conversion uses the schema\'s own JSON-schema support when it has one.',
  ['inputs', 'configurations'], 'all tool definitions and all JSON schemas of any nesting depth',
  'Tests snapshot a few schemas.',
  ['packages/tool/src/utils/tool.ts', 'packages/tool/src/utils/raw-tool.ts', 'packages/tool/src/utils/define-tool.ts', 'packages-top/xsschema/src/json-schema.ts', 'packages-top/xsschema/src/to-json-schema/index.ts'],
  [['strictJsonSchema recursion', 'packages-top/xsschema/src/json-schema.ts']])

p('C27', 'Provider handles are independent and route to their own endpoint',
  'Each call of a provider\'s factory method returns request options with exactly the provider\'s key, base URL, headers and fetch, plus the given model and extra options, independent of every other returned object and of the provider itself: building one, or assigning to its fields, never changes another. Providers\' request rewriting (Azure version and token, OpenRouter routing options and headers, Player2 speech, list reshaping) sends the caller\'s request otherwise unchanged.',
  ['histories', 'inputs', 'configurations'], 'all providers, all sequences of factory calls with any models and options',
  'Tests inspect one freshly built options object.',
  ['packages-ext/providers/src/utils/create.ts', 'packages-ext/providers/src/utils/merge.ts', 'packages-ext/providers/src/special/providers/azure.ts', 'packages-ext/providers/src/special/providers/player2.ts', 'packages-ext/providers/src/manual/providers/openrouter.ts'],
  [['factory methods build request options', 'packages-ext/providers/src/utils/create.ts']])

p('C28', 'Telemetry changes nothing the caller can observe',
  'The telemetry versions of generateText, streamText, embed and embedMany send the same requests, run the same tools with the same validation and hooks, call the same callbacks and return, stream or throw the same results as the plain versions for the same options and server behaviour. The telemetry option itself is never sent to the server.',
  ['inputs', 'histories', 'fault_sequences'], 'all options, hooks, tools (with the documented fields and JSON-serialisable inputs and results), server responses and failures',
  'Tests run the wrapped functions on one happy path.',
  ['packages-ext/telemetry/src/wrapped/generate-text.ts', 'packages-ext/telemetry/src/wrapped/stream-text.ts', 'packages-ext/telemetry/src/wrapped/embed.ts', 'packages-ext/telemetry/src/utils/wrap-tool.ts'],
  [['copies of the plain loops with spans around them', 'packages-ext/telemetry/src/wrapped/generate-text.ts']])

p('C29', 'Every span is ended exactly once and failures are recorded on it',
  'Each model request, tool execution and embedding under telemetry opens exactly one span named after the operation and ends it exactly once, whatever the outcome. The span says what it stands for: the model and the conversation of that very request, the settings, tools and server of the call, the arguments of the tool call, and the attributes the caller asked for. When the operation fails, the span has error status and, for an Error, its name and message, and the failure is rethrown unchanged; on success the result is returned unchanged and the reported usage is recorded.',
  ['fault_sequences', 'inputs'], 'all outcomes of the wrapped operation, including non-Error failures and failures while recording',
  'Tests look at spans of successful runs.',
  ['packages-ext/telemetry/src/utils/record-span.ts', 'packages-ext/telemetry/src/utils/wrap-tool.ts', 'packages-ext/telemetry/src/utils/record-span-options.ts'],
  [['recordSpan ends in both branches', 'packages-ext/telemetry/src/utils/record-span.ts']])

p('C30', 'The retrying fetch retries exactly the retryable failures, boundedly',
  'The retrying fetch returns the first response that is successful or whose status is not retryable, and otherwise the last response after exactly the configured number of retries, waiting the configured delay before each retry and passing the same input and init every time. A rejected request is not retried and rejects the call, and instances do not share settings.',
  ['inputs', 'fault_sequences', 'configurations'], 'all non-negative retry counts, status sets, delays and response sequences',
  'Tests cover one failing and one recovering sequence.',
  ['packages-top/xsfetch/src/index.ts'],
  [['xsfetch recursion through the trampoline with retriesLeft', 'packages-top/xsfetch/src/index.ts']])

p('C31', 'Media, embedding and model results match the server\'s answer item by item',
  'embed, embedMany, image generation, speech, transcription and model calls return exactly the items the server sent, in the same order and number, together with the usage or input they echo; an image is labelled with the type its data signature denotes and an unrecognisable image entry fails the call. Transcription requests carry the model, file, name and every given option as form fields, streamed transcription yields the text deltas in order with their concatenation as the full text, and streamed speech yields the decoded audio of each delta in order with the reported usage.',
  ['inputs', 'histories'], 'all server answers with any number of items, all options, all delta sequences',
  'Tests use single-item answers and fixed options.',
  ['packages/embed/src/utils/embed.ts', 'packages/embed/src/utils/embed-many.ts', 'packages/generate-image/src/index.ts', 'packages/generate-speech/src/index.ts', 'packages/stream-speech/src/index.ts', 'packages/generate-transcription/src/index.ts', 'packages/stream-transcription/src/index.ts', 'packages/model/src/utils/list-models.ts', 'packages/model/src/utils/retrieve-model.ts'],
  [['one-shot endpoints map responses to results', 'packages/embed/src/utils/embed-many.ts']])

p('C32', 'Caller-owned objects are never modified',
  'No call of the library changes the options object it is given or anything reachable from it: messages, input items, tools and their schemas, headers, extra options. Repeating a call with the same options object therefore sends the same first request again.',
  ['inputs', 'histories'], 'all entry points, all options, any number of steps, success or failure',
  'Tests do not compare the options before and after a call.',
  ['packages/generate-text/src/index.ts', 'packages/stream-text/src/index.ts', 'packages-ext/responses/src/utils/responses.ts', 'packages-top/xsschema/src/json-schema.ts', 'packages/generate-object/src/index.ts', 'packages/shared-chat/src/utils/chat.ts'],
  [['structuredClone of messages/input at entry', 'packages/generate-text/src/index.ts'], ['copy-by-spread everywhere else', 'packages/shared-chat/src/utils/chat.ts']])

p('C33', 'Message builders produce the documented message for every content',
  'The message builders return the message of the stated role holding exactly the given content; the assistant builder turns a tool call or a list of tool calls into a message with those calls and any other content into a content message; the tool builder answers the given call by its id; the part builders wrap the given text or URL.',
  ['inputs'], 'all strings, part lists, tool calls and lists of them',
  'Tests build a few fixed messages.',
  ['packages/utils-chat/src/message.ts'],
  [['isToolCall discriminates', 'packages/utils-chat/src/message.ts']])

writeFileSync(new URL('../properties.jsonl', import.meta.url), P.map(x => JSON.stringify(x)).join('\n') + '\n')
console.log(P.length, P.filter(x => x.title.length > 80).map(x => x.id))
