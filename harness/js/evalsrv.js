// Line server: evaluates the text of a generated script and answers with the constants it defines.
// Each request line: {"text": ..., "ts": bool, "names": [...]}
"use strict";
const vm = require("vm"), mod = require("module");
const plain = x => Object.prototype.toString.call(x) === "[object Map]" ? [...x].map(([k, v]) => [k, v]) : x;
let rest = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", d => {
  const ls = (rest + d).split("\n");
  rest = ls.pop();
  for (const l of ls) {
    let out;
    try {
      const q = JSON.parse(l);
      const t = q.ts ? mod.stripTypeScriptTypes(q.text) : q.text;
      const ctx = vm.createContext({});
      vm.runInContext(t, ctx);
      out = ["O", q.names.map(n => plain(vm.runInContext("typeof " + n + " === 'undefined' ? null : " + n, ctx)))];
    } catch (e) { out = ["E", e.name, String(e.message)]; }
    process.stdout.write(JSON.stringify(out) + "\n");
  }
});
