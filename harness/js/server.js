// Line server around the compiled JavaScript files of latkerlo-jvotci.
// argv[2]: directory with data.js ... katna.js
// Each request line: OP \t FLAGS \t ARG, with \\, \n, \t, \r escaped in ARG,
// list items separated by U+001F.
"use strict";
const fs = require("fs"), vm = require("vm"), path = require("path");
const dir = process.argv[2];
const ctx = vm.createContext({ console });
const known = ["data", "rafsi", "exceptions", "tarmi", "tools", "jvozba", "katna"].map(f => f + ".js");
const load = f => vm.runInContext(fs.readFileSync(path.join(dir, f), "utf8"), ctx, { filename: f });
// a file added since: definitions come first, unless they need the others
const late = [];
for (const f of fs.readdirSync(dir).filter(f => f.endsWith(".js") && !known.includes(f)).sort())
  try { load(f); } catch (e) { late.push(f); }
[...known.filter(f => fs.existsSync(path.join(dir, f))), ...late].forEach(load);
vm.runInContext(`function __opts(fl, cm) {
  const o = {};
  if (cm) o.generateCmevla = fl.includes("c");
  o.yHyphens = fl.includes("A") ? "ALLOW_Y" : fl.includes("F") ? "FORCE_Y" : "STANDARD";
  o.expRafsiShapes = fl.includes("r");
  o.consonants = fl.includes("2") ? "TWO_CONSONANTS" : fl.includes("1") ? "ONE_CONSONANT" : "CLUSTER";
  o.glides = fl.includes("g");
  o.allowMZ = fl.includes("z");
  return o;
}
function __rafsi() { try { return RAFSI; } catch (e) { return RAFSI_LIST; } }
function __run(op, fl, arg) {
  const d = fl === "d", o = d ? undefined : __opts(fl, false), oc = d ? undefined : __opts(fl, true);
  const list = () => arg === "" ? [] : arg.split("\\x1f");
  try {
    let r, x;
    if (op.length === 2) {               // p, m: only the options that differ from the default
      const e = __opts("", true), m = {}, cm = "LMGH".includes(op[0]);
      for (const [k, v] of Object.entries(__opts(fl, cm))) if (v !== e[k]) m[k] = v;
      switch (op[0]) {
        case "A": r = analyseBrivla(arg, m); break;
        case "V": r = [getVeljvo(arg, m)]; break;
        case "S": r = [scoreLujvo(arg, m)]; break;
        case "B": r = [isBrivla(arg, m)]; break;
        case "L": r = getLujvoWithAnalytics(arg, m); break;
        case "M": r = getLujvoWithAnalytics(list(), m); break;
        case "G": r = [getLujvo(arg, m)]; break;
        case "H": r = [getLujvo(list(), m)]; break;
      }
      return JSON.stringify(["O", ...r]);
    }
    const vandal = l => { l.length = 0; l.push("-zzz-", 7); };
    switch (op) {
      case "a": x = analyseBrivla(arg, o); r = [x[0], [...x[1]]]; vandal(x[1]); break;
      case "v": x = getVeljvo(arg, o); r = [[...x]]; vandal(x); break;
      case "m": case "i": {
        const a = list(), before = JSON.stringify(a), ob = JSON.stringify(oc);
        let y;
        try { y = op === "m" ? getLujvoWithAnalytics(a, oc) : getRafsiIndices(a); }
        finally { if (JSON.stringify(a) !== before || JSON.stringify(oc) !== ob) return JSON.stringify(["E", "ARGUMENT-CHANGED", JSON.stringify(a)]); }
        r = JSON.parse(JSON.stringify(op === "m" ? y : [y]));
        vandal(op === "m" ? y[2] : y);
        vandal(a);
        break;
      }
      case "A": r = analyseBrivla(arg, o); break;
      case "V": r = [getVeljvo(arg, o)]; break;
      case "S": r = [scoreLujvo(arg, o)]; break;
      case "B": r = [isBrivla(arg, o)]; break;
      case "L": r = getLujvoWithAnalytics(arg, oc); break;
      case "M": r = getLujvoWithAnalytics(list(), oc); break;
      case "G": r = [getLujvo(arg, oc)]; break;
      case "H": r = [getLujvo(list(), oc)]; break;
      case "I": r = [getRafsiIndices(list())]; break;
      case "N": {
        const its = JSON.parse(fl).map(l => makeSettingsIterator(l === null ? SETTINGS : l));
        r = [JSON.parse(arg).map(i => { const x = its[i].next(); return x.done ? null : [...x.value]; })];
        break;
      }
      case "T": { const t = __rafsi(); r = [[...(t instanceof Map ? t.entries() : Object.entries(t))].map(([k, v]) => [k, [...v]])]; break; }
      default: throw new Error("op");
    }
    return JSON.stringify(["O", ...r]);
  } catch (e) { return JSON.stringify(["E", e instanceof RangeError && /call stack/.test(e.message) ? "RecursionError" : e.name, String(e.message)]); }
}`, ctx);
const UN = { n: "\n", t: "\t", r: "\r", "\\": "\\" };
const unesc = s => s.indexOf("\\") < 0 ? s : s.replace(/\\(.)/g, (_, c) => UN[c]);
let rest = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", d => {
  const ls = (rest + d).split("\n");
  rest = ls.pop();
  const out = [];
  for (const l of ls) {
    const i = l.indexOf("\t"), j = l.indexOf("\t", i + 1);
    out.push(ctx.__run(l.slice(0, i), l.slice(i + 1, j), unesc(l.slice(j + 1))));
  }
  if (out.length) process.stdout.write(out.join("\n") + "\n");
});
