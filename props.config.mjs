// Per property: level, technique, notes, budgets. tools/mkmanifest.mjs turns this into MANIFEST.json.
export const COMMON = [
  'TypeScript types are erased; the semantics of the statements and expressions used is that of engine/interp.mjs',
  'promise continuations run eagerly (asynchronous interleavings of independent callbacks are not enumerated by the proofs; the concrete runs exercise real scheduling)',
  'numbers in proofs are mathematical integers; the order of object keys is not observed',
  'JSON.parse(JSON.stringify(x)) = x for JSON values without undefined members',
  'platform objects (URL, Headers, Response, FormData, streams) behave as modelled in engine/prelude.ts',
]
const e = (x = {}) => ({ level: 'exploration', technique: 'property oracle run on the real code (bounded stand-in for a contract)', assumptions: [], bounded: ['seeded scenarios over the real code with a property-level oracle'], ...x })
// internal: contracts that call functions a caller does not see; when they fail on the real code without the oracle failing, no failing input is claimed
const pf = (internal, note, bounded = [], assumptions = []) => ({ level: 'proof', technique: 'deductive verification of contracts on the real TypeScript (own VC generator, z3/cvc5)', internal: new RegExp(`^(${internal})$`), note, bounded, assumptions: [...COMMON, ...assumptions] })

const JOIN = 'URL resolution is modelled for base URLs without query or fragment'
const TOOLS = 'in whole-run contracts executeTool is used by its contract, which C07, C08 and C09 prove on its body'
const SSE = 'the decoding of bytes to server-sent events (TextDecoderStream, eventsource-parser) is used by an assumed contract'
const CALLS2 = 'runs of several steps: at most two tool calls in each streamed step, each in at most three fragments (C14, C15 and C20 prove a step with any number of them; the concrete runs go further); steps, text and history are unbounded'
const TEXT = 'generateText and streamText are used by the contracts that C10 to C17 prove'
const PARTIAL = 'loops and recursions cut by invariants are proved partially correct; their termination is checked by the concrete runs'

export const PROPS = {
  C01: pf('C01_clean|C01_requestBody', 'All JSON endpoints, every option set: the body handed to fetch equals the specified object.', [], [PARTIAL]),
  C02: pf('C02_requestURL', 'All fifteen endpoints: URL, method, fetch, signal and number of requests, for every plain base URL.', ['base URLs with queries or fragments'], [JOIN]),
  C03: pf('C03_requestHeaders', 'All endpoints: the complete header set handed to fetch, for header objects of any size and Headers instances.', [], ['header names compare case-insensitively, as Headers does']),
  C04: pf('C04_ok|C04_status|C04_body|C04_json', 'All endpoints: every status, body kind and body text.', ['the decoding of a response body to text']),
  C05: pf('C05_message', 'Every sequence of messages of any length, for the transform that parses them.', ['the splitting of bytes into messages is exercised by the concrete runs'], [SSE, PARTIAL]),
  C06: pf('C06_close|C06_error|C06_twice', 'Every member in every state of a stream (open, closed, failed, cancelled).', ['groups of more than four members', 'cancellation during a whole run']),
  C07: pf('.*', 'executeTool, for every tool list, call and hook behaviour, with arbitrary validators and tools.'),
  C08: pf('.*', 'executeTool, for every failure of tool, validator, parser, hooks and abort.'),
  C09: pf('.*', 'executeTool and the Responses output mapping, for results of every type and part arrays of any length.'),
  C10: pf('-', 'generateText, runs of any length, messages and tool-call lists of any length.', [], [TOOLS, PARTIAL]),
  C11: pf('-', 'generateText, every stop condition (also failing ones), abort at every point that its code reads the signal.', [], [TOOLS, PARTIAL]),
  C12: pf('-', 'generateText, step records, callbacks and usage of runs of any length.', ['that the step callback is awaited before going on (promise continuations run eagerly in the proofs)'], [TOOLS, PARTIAL]),
  C13: pf('-', 'streamText, chunk sequences of any length over any number of steps.', ['splitting of the bytes', CALLS2], [TOOLS, SSE, PARTIAL]),
  C14: pf('-', 'streamText, tool-call fragments in any number of chunks, of any indices, in any order and interleaving with text: the calls that are run, recorded and sent back.', ['chunks with more than two fragments (the concrete runs go further)', 'splitting of the bytes'], [SSE, PARTIAL]),
  C15: pf('-', 'streamText, the events of steps of any length (text, reasoning, results) and of tool-call fragments in any order.', ['chunks with more than two tool-call fragments', CALLS2], [TOOLS, SSE, PARTIAL]),
  C16: pf('-', 'streamText, history, decisions and accounting over any number of steps.', [CALLS2], [TOOLS, SSE, PARTIAL]),
  C17: pf('-', 'streamText, Responses, streamTranscription and streamSpeech: each kind of failure at an arbitrary step; every stream and promise is settled with that very failure.', ['combinations of a failure with a cancelled consumer', CALLS2], [TOOLS, SSE, PARTIAL]),
  C18: pf('C18_noHook|C18_hook|C18_private|C18_failure', 'generateText, streamText and Responses with an arbitrary prepare hook, at every step.', [], [TOOLS, PARTIAL, 'structuredClone makes a deep copy']),
  C19: pf('-', 'Every list of conditions and every context.', [], [PARTIAL]),
  C20: pf('-', 'Responses runs of any length; a step with any number of function calls among any other items (C20_calls).', [CALLS2], [TOOLS, SSE, PARTIAL]),
  C21: pf('-', 'Responses runs, event sequences of any length.', [CALLS2], [TOOLS, SSE, PARTIAL]),
  C22: pf('-', 'generateObject and streamObject for both output kinds, every schema and every answer.', [], [TEXT, 'strictJsonSchema is used by the contract that C26 proves']),
  C23: pf('-', 'Both object streams over texts and splittings of any length.', ['the best-effort JSON reader (best-effort-json-parser) is external'], [TEXT, PARTIAL, 'the best-effort reader returns the completed value for a complete JSON text and appends only at the end of arrays']),
  C24: pf('C24_match|C24_matchNothing|C24_lemma|C24_more|C24_first', 'The streaming form over texts of any length, tag names, separators, start modes and splittings; the search for a tag or the beginning of one; that what is decided holds for every continuation; input errors.', ['the form for a whole text (extractReasoning: matchAll of a built RegExp)'], [PARTIAL]),
  C25: pf('-', 'Every pattern, chunk sequence and delay.', ['the text a RegExp matches is uninterpreted: it lies within the string it is matched against'], [PARTIAL, 'timers: setTimeout resolves after the delay it was given']),
  C26: pf('-', 'Tool builders for every tool and schema; strictness by induction over schemas of any depth.', ['vendor converters other than the two covered by the schema contracts'], [PARTIAL]),
  C27: pf('-', 'Every provider factory: handles compared before and after arbitrary assignments.', [], []),
  C28: pf('-', 'The four telemetry versions: requests, tools, callbacks and results equal those specified for the plain versions.', [CALLS2], [TOOLS, SSE, PARTIAL, 'the tracer runs the callback it is given once and returns its value']),
  C29: pf('-', 'Every span the telemetry versions open, on success and on every failure.', [CALLS2], [TOOLS, SSE, PARTIAL, 'the tracer runs the callback it is given once and returns its value']),
  C30: pf('-', 'Every retry count, status list and delay, every sequence of answers.', [], [PARTIAL, 'timers: setTimeout resolves after the delay it was given']),
  C31: pf('-', 'Every answer of the embedding, image, speech, transcription and model endpoints.', ['the decoding of base64 text'], [PARTIAL]),
  C32: pf('C32_tool', 'All endpoints called twice with the same options, whole runs, tools and schema functions; besides, every contract of every property checks that no object of the caller is written to.', [], [TOOLS, PARTIAL]),
  C33: pf('-', 'All message builders for all inputs.'),
}
