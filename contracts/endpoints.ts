// The endpoints, each as one call of its public function with the given options.
import { chat } from '@xsai/shared-chat'
import { embed, embedMany } from '@xsai/embed'
import { generateImage } from '@xsai/generate-image'
import { generateSpeech } from '@xsai/generate-speech'
import { generateText } from '@xsai/generate-text'
import { streamText } from '@xsai/stream-text'
import { streamSpeech } from '@xsai/stream-speech'
import { generateTranscription } from '@xsai/generate-transcription'
import { streamTranscription } from '@xsai/stream-transcription'
import { listModels, retrieveModel } from '@xsai/model'
import { responses } from '@xsai-ext/responses'

const quiet = r => { for (const p of [r.messages ?? r.input, r.usage, r.totalUsage]) p.catch(() => {}); return r.steps }
/** kind json: POSTs a JSON body holding `own`, `adds` and the caller's options; hooks: options that stay private */
const hooks = ['onEvent', 'onFinish', 'onStepFinish', 'postToolCall', 'preToolCall', 'prepareStep', 'stopWhen', 'maxSteps']
const messages = [{ role: 'user', content: 'hi' }]
export const json = {
  chat: { path: 'chat/completions', go: o => chat(o), own: { messages }, hooks },
  generateText: { path: 'chat/completions', go: o => generateText(o), own: { messages }, adds: { stream: false }, hooks },
  streamText: { path: 'chat/completions', go: o => quiet(streamText(o)), own: { messages }, adds: { stream: true }, hooks },
  responses: { path: 'responses', go: o => quiet(responses(o)), own: { input: [] }, adds: { stream: true }, hooks },
  embed: { path: 'embeddings', go: o => embed(o), own: { input: 'x' } },
  embedMany: { path: 'embeddings', go: o => embedMany(o), own: { input: ['x', 'y'] } },
  image: { path: 'images/generations', go: o => generateImage(o), own: { prompt: 'x' } },
  speech: { path: 'audio/speech', go: o => generateSpeech(o), own: { input: 'x', voice: 'v' } },
  streamSpeech: { path: 'audio/speech', go: o => streamSpeech(o), own: { input: 'x', voice: 'v' }, adds: { stream_format: 'sse' } },
}
/** every endpoint */
export const all = {
  ...Object.fromEntries(Object.entries(json).map(([k, e]) => [k, { ...e, json: true, method: 'POST' }])),
  transcription: { path: 'audio/transcriptions', go: o => generateTranscription(o), own: { file: new Blob(['x']) }, method: 'POST' },
  streamTranscription: { path: 'audio/transcriptions', go: o => { const r = streamTranscription(o); return r.text }, own: { file: new Blob(['x']) }, method: 'POST' },
  listModels: { path: 'models', go: o => listModels(o), own: {} },
  retrieveModel: { path: 'models/m', go: o => retrieveModel(o), own: {} },
}
