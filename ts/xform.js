// Compiles a TypeScript source file of the library with the operators and conditions that may meet symbolic values
// replaced by calls into the symbolic runtime.  Everything else (classes, loops, destructuring, async) is run by node.
"use strict";
const fs = require("fs"), path = require("path");
const cands = ["/opt/veriftools/node/node_modules/typescript", "typescript"];
let ts;
for (const c of cands) { try { ts = require(c); break; } catch (e) { } }
const K = ts.SyntaxKind;
const BIN = new Map([[K.PlusToken, "+"], [K.MinusToken, "-"], [K.AsteriskToken, "*"], [K.SlashToken, "/"], [K.PercentToken, "%"],
[K.AsteriskAsteriskToken, "**"], [K.AmpersandToken, "&"], [K.BarToken, "|"], [K.CaretToken, "^"], [K.LessThanLessThanToken, "<<"],
[K.GreaterThanGreaterThanToken, ">>"], [K.GreaterThanGreaterThanGreaterThanToken, ">>>"], [K.LessThanToken, "<"],
[K.GreaterThanToken, ">"], [K.LessThanEqualsToken, "<="], [K.GreaterThanEqualsToken, ">="], [K.EqualsEqualsToken, "=="],
[K.EqualsEqualsEqualsToken, "==="], [K.ExclamationEqualsToken, "!="], [K.ExclamationEqualsEqualsToken, "!=="]]);
const ASG = new Map([[K.PlusEqualsToken, "+"], [K.MinusEqualsToken, "-"], [K.AsteriskEqualsToken, "*"], [K.SlashEqualsToken, "/"],
[K.PercentEqualsToken, "%"], [K.AmpersandEqualsToken, "&"], [K.BarEqualsToken, "|"], [K.CaretEqualsToken, "^"],
[K.LessThanLessThanEqualsToken, "<<"], [K.GreaterThanGreaterThanEqualsToken, ">>"]]);
function transformer(ctx) {
  const f = ctx.factory;
  const call = (n, a) => f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier("__rt"), n), undefined, a);
  function op(o, a, b) { return call("op", [f.createStringLiteral(o), a, b]); }
  function visit(n) {
    n = ts.visitEachChild(n, visit, ctx);
    if (ts.isBinaryExpression(n)) {
      const k = n.operatorToken.kind;
      if (BIN.has(k)) return op(BIN.get(k), n.left, n.right);
      if (ASG.has(k)) return f.createBinaryExpression(n.left, K.EqualsToken, op(ASG.get(k), n.left, n.right));
      if (k === K.AmpersandAmpersandToken)
        return f.createParenthesizedExpression(f.createConditionalExpression(call("push", [n.left]), undefined, f.createParenthesizedExpression(f.createBinaryExpression(call("drop", []), K.CommaToken, n.right)), undefined, call("pop", [])));
      if (k === K.BarBarToken)
        return f.createParenthesizedExpression(f.createConditionalExpression(call("push", [n.left]), undefined, call("pop", []), undefined, f.createParenthesizedExpression(f.createBinaryExpression(call("drop", []), K.CommaToken, n.right))));
      return n;
    }
    if (ts.isPrefixUnaryExpression(n)) {
      if (n.operator === K.ExclamationToken) return call("not", [n.operand]);
      if (n.operator === K.MinusToken) return call("neg", [n.operand]);
      if (n.operator === K.PlusToken) return call("num", [n.operand]);
      if (n.operator === K.TildeToken) return call("unsup", [f.createStringLiteral("~"), n.operand]);
      return n;
    }
    if (ts.isTypeOfExpression(n)) return ts.isIdentifier(n.expression) && n.expression.text === "window" ? f.createStringLiteral("undefined") : call("typeOf", [n.expression]);
    if (ts.isConditionalExpression(n)) return f.updateConditionalExpression(n, call("truth", [n.condition]), n.questionToken, n.whenTrue, n.colonToken, n.whenFalse);
    if (ts.isIfStatement(n)) return f.updateIfStatement(n, call("truth", [n.expression]), n.thenStatement, n.elseStatement);
    if (ts.isWhileStatement(n)) return f.updateWhileStatement(n, call("truth", [n.expression]), n.statement);
    if (ts.isDoStatement(n)) return f.updateDoStatement(n, n.statement, call("truth", [n.expression]));
    if (ts.isForStatement(n)) return n.condition ? f.updateForStatement(n, n.initializer, call("truth", [n.condition]), n.incrementor, n.statement) : n;
    if (ts.isSwitchStatement(n)) return f.updateSwitchStatement(n, call("conc", [n.expression]), n.caseBlock);
    if (ts.isTemplateExpression(n)) {
      let e = f.createStringLiteral(n.head.text);
      for (const s of n.templateSpans) { e = op("+", e, call("str", [s.expression])); e = op("+", e, f.createStringLiteral(s.literal.text)); }
      return e;
    }
    return n;
  }
  return sf => ts.visitNode(sf, visit);
}
exports.compile = function (file, symbolic) {
  const src = fs.readFileSync(file, "utf8");
  return ts.transpileModule(src, {
    fileName: file, reportDiagnostics: true,
    compilerOptions: { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, esModuleInterop: true },
    transformers: symbolic ? { before: [transformer] } : {}
  }).outputText;
};
