import { streamText } from '@xsai/stream-text'
import { stepRun } from './streamspec'

export const C13_step = v => stepRun(v, streamText)
