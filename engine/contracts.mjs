// Names and labels of the contracts in a file.
import { existsSync } from 'node:fs'
import { parse, ts } from './program.mjs'
export const contractsOf = (file) => {
  if (!existsSync(file)) return []
  const out = []
  for (const st of parse(file).statements) {
    if (!ts.isVariableStatement(st) || !st.modifiers?.some(m => m.kind === ts.SyntaxKind.ExportKeyword)) continue
    for (const d of st.declarationList.declarations) {
      const name = d.name.text
      if (!/^C\d\d_/.test(name)) continue
      const labels = []
      const walk = (n) => {
        if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.expression.text === 'v' && ['eq', 'ensure'].includes(n.expression.name.text) && ts.isStringLiteral(n.arguments[0])) labels.push(n.arguments[0].text)
        ts.forEachChild(n, walk)
      }
      walk(d)
      out.push({ name, labels: [...new Set(labels)] })
    }
  }
  return out
}
