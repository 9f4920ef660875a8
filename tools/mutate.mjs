// Mutation campaign over the sources: which small changes do the concrete oracles miss?
// node tools/mutate.mjs FILE[:C01,C02] … (env W workers, MS oracle budget). Prints the surviving mutants.
import { execFileSync, spawn } from 'node:child_process'
import { existsSync, readFileSync, writeFileSync } from 'node:fs'
import { createRequire } from 'node:module'
const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript')
const W = Number(process.env.W ?? 4), MS = process.env.MS ?? '6000'
const base = '/tmp/mut'
const mutants = (text, file) => {
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.ESNext, true)
  const out = []
  const K = ts.SyntaxKind
  const add = (n, to, what) => out.push({ from: n.getStart(), end: n.getEnd(), to, what, line: sf.getLineAndCharacterOfPosition(n.getStart()).line + 1, src: n.getText().replace(/\s+/g, ' ').slice(0, 70) })
  const go = (n) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return
    if (ts.isBinaryExpression(n)) {
      const o = n.operatorToken.kind, l = n.left.getText(), r = n.right.getText()
      const sw = { [K.EqualsEqualsEqualsToken]: '!==', [K.ExclamationEqualsEqualsToken]: '===', [K.EqualsEqualsToken]: '!=', [K.ExclamationEqualsToken]: '==', [K.AmpersandAmpersandToken]: '||', [K.BarBarToken]: '&&', [K.LessThanToken]: '<=', [K.LessThanEqualsToken]: '<', [K.GreaterThanToken]: '>=', [K.GreaterThanEqualsToken]: '>', [K.PlusToken]: '-', [K.MinusToken]: '+', [K.PlusEqualsToken]: '=', [K.QuestionQuestionEqualsToken]: '=', [K.QuestionQuestionToken]: '||' }[o]
      if (sw) add(n, `${l} ${sw} ${r}`, `op ${sw}`)
      if ([K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken].includes(o)) { add(n, l, 'left only'); add(n, r, 'right only') }
    }
    if (ts.isIfStatement(n)) { add(n.expression, 'true', 'if true'); add(n.expression, 'false', 'if false') }
    if (ts.isConditionalExpression(n)) { add(n, n.whenTrue.getText(), 'then'); add(n, n.whenFalse.getText(), 'else') }
    if (ts.isExpressionStatement(n)) add(n, ';', 'drop statement')
    if (ts.isReturnStatement(n) && !n.expression) add(n, ';', 'drop return')
    if (ts.isAwaitExpression(n)) add(n, n.expression.getText(), 'drop await')
    if (ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n) || ts.isSpreadAssignment(n)) {
      const os = n.parent.properties, i = os.indexOf(n)
      if (ts.isObjectLiteralExpression(n.parent)) add({ getStart: () => n.getStart(), getEnd: () => i + 1 < os.length ? os[i + 1].getStart() : n.getEnd(), getText: () => n.getText() }, '', 'drop member')
    }
    if (ts.isStringLiteral(n) && !ts.isLiteralTypeNode(n.parent)) add(n, "'mutated'", 'string')
    if (ts.isNumericLiteral(n)) add(n, String(Number(n.text) + 1), 'number+1')
    if (n.kind === K.TrueKeyword && !ts.isLiteralTypeNode(n.parent)) add(n, 'false', 'false')
    if (n.kind === K.FalseKeyword && !ts.isLiteralTypeNode(n.parent)) add(n, 'true', 'true')
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ['filter', 'trim', 'toLowerCase', 'toString', 'map', 'slice', 'then'].includes(n.expression.name.text)) add(n, n.expression.expression.getText(), 'drop .' + n.expression.name.text)
    if (ts.isCallExpression(n) && n.expression.getText() === 'structuredClone') add(n, n.arguments[0].getText(), 'drop clone')
    if (ts.isPropertyAccessExpression(n) && n.questionDotToken) add(n, `${n.expression.getText()}!.${n.name.text}`, 'drop ?.')
    if (ts.isTemplateExpression(n)) add(n, n.getText().replace(/`$/, 'X`'), 'template')
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(n, n.operand.getText(), 'drop !')
    ts.forEachChild(n, go)
  }
  go(sf)
  return out
}
const jobs = []
for (const a of process.argv.slice(2)) {
  const [f, ps] = a.split(':')
  const text = readFileSync(`/repo/${f}`, 'utf8')
  for (const m of mutants(text, f)) jobs.push({ f, text, props: ps.split(','), ...m })
}
console.log(`${jobs.length} mutants`)
let killed = 0, next = 0
const worker = async (w) => {
  const repo = `${base}/w${w}`
  if (!existsSync(repo)) { execFileSync('mkdir', ['-p', base]); execFileSync('cp', ['-a', '/repo', repo]) }
  else execFileSync('git', ['-C', repo, 'checkout', '-q', '--', '.'])
  while (next < jobs.length) {
    const j = jobs[next++]
    writeFileSync(`${repo}/${j.f}`, j.text.slice(0, j.from) + j.to + j.text.slice(j.end))
    let dead
    for (const p of j.props) {
      dead = await new Promise((res) => {
        const c = spawn('nice', ['-n', '15', process.execPath, '--no-warnings', '/verif/engine/conc/main.mjs', `/verif/concrete/${p}.ts`, 'oracle', MS], { env: { ...process.env, VERIF_REPO: repo } })
        let o = ''
        c.stdout.on('data', d => { o += d }); c.stderr.on('data', d => { o += d })
        const t = setTimeout(() => c.kill('SIGKILL'), 60000)
        c.on('close', () => { clearTimeout(t); res(/^FAIL|crash: true|buildError/m.test(o) || !/\{.*ms$/m.test(o)) })
      })
      if (dead) break
    }
    if (dead) killed++
    else console.log(`SURVIVED ${j.f}:${j.line} [${j.what}] ${j.src}`)
    writeFileSync(`${repo}/${j.f}`, j.text)
  }
}
await Promise.all(Array.from({ length: W }, (_, w) => worker(w)))
console.log(`${killed} of ${jobs.length} killed`)
