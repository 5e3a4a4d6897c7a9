// The repository's HTML pages in a small document object model, driven by events.
// argv[2]: repository. Request line: PAGE \t page.html \t JSON list of events (escaped like in server.js).
"use strict";
const fs = require("fs"), vm = require("vm"), path = require("path");
const repo = process.argv[2];

// ------------------------------------------------------------------------------------------------------ the DOM
const VOID = new Set("area base br col embed hr img input link meta source track wbr".split(" "));
const RAW = new Set(["script", "style", "textarea", "title"]);
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const decode = s => s.replace(/&(#x?[0-9a-fA-F]+|\w+);/g, (m, e) =>
  e[0] === "#" ? String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : ENT[e] ?? m);
const escText = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/\u00a0/g, "&nbsp;");
const escAttr = s => s.replace(/&/g, "&amp;").replace(/"/g, "&quot;");

class DomEvent {
  constructor(type, o = {}) { this.type = type; Object.assign(this, { bubbles: false, cancelable: false, defaultPrevented: false, target: null, currentTarget: null, timeStamp: 0 }, o); }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = this.halted = true; }
}

class Target {
  #ls = new Map();
  addEventListener(t, f, o) {
    const l = this.#ls.get(t) ?? []; this.#ls.set(t, l);
    const once = !!(o && o.once), capture = o === true || !!(o && o.capture);
    if (!l.some(x => x.f === f && x.capture === capture)) l.push({ f, once, capture });
    if (o && o.signal) o.signal.addEventListener("abort", () => this.removeEventListener(t, f, o));
  }
  removeEventListener(t, f, o) {
    const l = this.#ls.get(t) ?? [], c = o === true || !!(o && o.capture), i = l.findIndex(x => x.f === f && x.capture === c);
    if (i >= 0) l.splice(i, 1);
  }
  fire(ev, phase) {
    ev.currentTarget = this;
    const call = g => { try { g(); } catch (e) { page.errors.push(String(e && e.stack || e).split("\n").slice(0, 3).join(" | ")); } };
    for (const x of [...(this.#ls.get(ev.type) ?? [])]) {
      if (phase === "capture" ? !x.capture : phase === "bubble" ? x.capture : false) continue;
      if (x.once) this.removeEventListener(ev.type, x.f, x.capture);
      call(() => typeof x.f === "function" ? x.f.call(this, ev) : x.f.handleEvent(ev));
      if (ev.halted) return;
    }
    if (phase === "capture") return;
    let h = this["on" + ev.type];
    if (!h && this.getAttribute && this.getAttribute("on" + ev.type) !== null)
      h = vm.runInContext("(function(event){" + this.getAttribute("on" + ev.type) + "\n})", page.ctx);
    if (typeof h === "function") call(() => h.call(this === page.window ? page.global : this, ev));
  }
  dispatchEvent(ev) {
    ev.target = this;
    const up = [];
    for (let n = this.parentNode; n; n = n.parentNode) up.push(n);
    if (up.length ? up.at(-1) === page.document : this === page.document) up.push(page.window);
    for (const n of [...up].reverse()) { n.fire(ev, "capture"); if (ev.stopped) return !ev.defaultPrevented; }
    this.fire(ev, "target");
    if (ev.bubbles) for (const n of up) { if (ev.stopped) break; n.fire(ev, "bubble"); }
    return !ev.defaultPrevented;
  }
}

class Node extends Target {
  constructor() { super(); this.childNodes = []; this.parentNode = null; }
  get ownerDocument() { return page.document; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get children() { return this.childNodes.filter(n => n instanceof Element); }
  get childElementCount() { return this.children.length; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes.at(-1) ?? null; }
  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { return this.children.at(-1) ?? null; }
  #sib(d, el) { const l = this.parentNode ? el ? this.parentNode.children : this.parentNode.childNodes : []; return l[l.indexOf(this) + d] ?? null; }
  get nextSibling() { return this.#sib(1); }
  get previousSibling() { return this.#sib(-1); }
  get nextElementSibling() { return this.#sib(1, true); }
  get previousElementSibling() { return this.#sib(-1, true); }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === page.document; }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  removeChild(c) { const i = this.childNodes.indexOf(c); if (i < 0) throw new Error("NotFoundError"); this.childNodes.splice(i, 1); c.parentNode = null; return c; }
  insertBefore(c, ref) {
    for (const n of c instanceof Fragment ? [...c.childNodes] : [c]) {
      n.remove();
      const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
      if (i < 0) throw new Error("NotFoundError");
      this.childNodes.splice(i, 0, n); n.parentNode = this;
    }
    return c;
  }
  appendChild(c) { return this.insertBefore(c, null); }
  replaceChild(n, o) { this.insertBefore(n, o); this.removeChild(o); return o; }
  append(...l) { for (const x of l) this.appendChild(asNode(x)); }
  prepend(...l) { const f = this.firstChild; for (const x of l) this.insertBefore(asNode(x), f); }
  replaceChildren(...l) { for (const c of [...this.childNodes]) c.remove(); this.append(...l); }
  before(...l) { for (const x of l) this.parentNode.insertBefore(asNode(x), this); }
  after(...l) { const r = this.nextSibling; for (const x of l) this.parentNode.insertBefore(asNode(x), r); }
  replaceWith(...l) { this.before(...l); this.remove(); }
  get textContent() { return this.childNodes.filter(n => !(n instanceof Comment)).map(n => n.textContent).join(""); }
  set textContent(s) { this.replaceChildren(...(s === null || s === "" ? [] : [new Text(String(s))])); }
  *all() { for (const c of this.childNodes) if (c instanceof Element) { yield c; yield* c.all(); } }
  getElementsByTagName(t) { return [...this.all()].filter(e => t === "*" || e.localName === t.toLowerCase()); }
  getElementsByClassName(c) { return [...this.all()].filter(e => c.split(/\s+/).every(x => e.classList.contains(x))); }
  querySelectorAll(s) { return [...this.all()].filter(e => e.matches(s)); }
  querySelector(s) { for (const e of this.all()) if (e.matches(s)) return e; return null; }
}
class Text extends Node {
  constructor(s) { super(); this.data = s; }
  get nodeType() { return 3; } get nodeName() { return "#text"; }
  get textContent() { return this.data; } set textContent(s) { this.data = String(s); }
  get nodeValue() { return this.data; } set nodeValue(s) { this.data = String(s); }
  cloneNode() { return new Text(this.data); }
}
class Comment extends Text { get nodeType() { return 8; } cloneNode() { return new Comment(this.data); } }
class Fragment extends Node { get nodeType() { return 11; } cloneNode(d) { const f = new Fragment(); if (d) f.append(...this.childNodes.map(c => c.cloneNode(true))); return f; } }
const asNode = x => x instanceof Node ? x : new Text(String(x));

class Element extends Node {
  constructor(tag) {
    super(); this.localName = tag.toLowerCase(); this.attrs = new Map();
    const el = this, st = {
      setProperty(k, v) { st[k] = v; }, getPropertyValue(k) { return st[k] ?? ""; }, removeProperty(k) { delete st[k]; } };
    this.styleObject = st;
    this.dataset = new Proxy({}, {
      get: (_, k) => typeof k === "string" ? el.getAttribute("data-" + k.replace(/[A-Z]/g, c => "-" + c.toLowerCase())) ?? undefined : undefined,
      set: (_, k, v) => (el.setAttribute("data-" + k.replace(/[A-Z]/g, c => "-" + c.toLowerCase()), v), true),
      has: (_, k) => el.hasAttribute("data-" + k) });
    this.classList = {
      get l() { return el.className.split(/\s+/).filter(x => x); },
      contains(c) { return this.l.includes(c); },
      add(...c) { el.className = [...new Set([...this.l, ...c])].join(" "); },
      remove(...c) { el.className = this.l.filter(x => !c.includes(x)).join(" "); },
      toggle(c, f) { const on = f === undefined ? !this.contains(c) : !!f; on ? this.add(c) : this.remove(c); return on; },
      replace(a, b) { if (!this.contains(a)) return false; this.remove(a); this.add(b); return true; },
      item(i) { return this.l[i] ?? null; }, get length() { return this.l.length; }, get value() { return el.className; }, set value(v) { el.className = v; },
      forEach(f) { this.l.forEach(f); }, [Symbol.iterator]() { return this.l[Symbol.iterator](); }, toString() { return el.className; } };
  }
  get nodeType() { return 1; }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get style() { return this.styleObject; }
  set style(v) { this.setAttribute("style", v); }
  getAttribute(k) { return this.attrs.get(k.toLowerCase()) ?? null; }
  setAttribute(k, v) { this.attrs.set(k.toLowerCase(), String(v)); }
  removeAttribute(k) { this.attrs.delete(k.toLowerCase()); }
  hasAttribute(k) { return this.attrs.has(k.toLowerCase()); }
  toggleAttribute(k, f) { const on = f === undefined ? !this.hasAttribute(k) : f; on ? this.setAttribute(k, "") : this.removeAttribute(k); return on; }
  getAttributeNames() { return [...this.attrs.keys()]; }
  get className() { return this.getAttribute("class") ?? ""; }
  set className(v) { this.setAttribute("class", v); }
  get innerHTML() { return this.childNodes.map(serialise).join(""); }
  set innerHTML(s) { this.replaceChildren(); parse(String(s === null ? "" : s), this); }
  get outerHTML() { return serialise(this); }
  set outerHTML(s) { const f = new Fragment(); parse(String(s), f); this.replaceWith(f); }
  setHTMLUnsafe(s) { this.innerHTML = s; }
  get innerText() { return shown(this); }
  set innerText(s) { this.replaceChildren(); String(s).split("\n").forEach((l, i) => { if (i) this.append(new Element("br")); if (l) this.append(l); }); }
  insertAdjacentHTML(w, s) { const f = new Fragment(); parse(String(s), f); this.insertAdjacentElement(w, f); }
  insertAdjacentText(w, s) { this.insertAdjacentElement(w, new Text(String(s))); }
  insertAdjacentElement(w, n) { ({ beforebegin: () => this.before(n), afterbegin: () => this.prepend(n), beforeend: () => this.append(n), afterend: () => this.after(n) })[w.toLowerCase()](); return n; }
  cloneNode(d) { const e = new Element(this.localName); for (const [k, v] of this.attrs) e.attrs.set(k, v); if (d) e.append(...this.childNodes.map(c => c.cloneNode(true))); return e; }
  matches(s) { return s.split(",").some(x => matchChain(this, x.trim().replace(/\s*>\s*/g, " > ").split(/\s+/))); }
  closest(s) { for (let e = this; e instanceof Element; e = e.parentNode) if (e.matches(s)) return e; return null; }
  click() { if (!this.disabled) clickOn(this); }
  focus() { page.document.activeElement = this; } blur() { } scrollIntoView() { } select() { } setSelectionRange() { }
  getBoundingClientRect() { return { x: 0, y: 0, width: 0, height: 0, top: 0, left: 0, right: 0, bottom: 0 }; }
  // forms
  get value() {
    if (this.localName === "select") return this.selectedOptions[0]?.value ?? "";
    if (this.localName === "option") return this.getAttribute("value") ?? this.textContent;
    if (this.localName === "textarea") return this.v ?? this.textContent;
    return this.v ?? this.getAttribute("value") ?? (this.localName === "input" || this.localName === "button" ? "" : undefined);
  }
  set value(v) {
    v = String(v ?? "");
    if (this.localName === "select") { this.options.forEach(o => o.sel = false); const o = this.options.find(o => o.value === v); if (o) o.sel = true; else this.none = true; }
    else this.v = this.localName === "input" ? v.replace(/[\r\n]/g, "") : v;
  }
  get options() { return this.getElementsByTagName("option"); }
  get selectedOptions() { const l = this.options, o = l.find(x => x.sel) ?? (l.some(x => x.sel !== undefined) ? undefined : l.find(x => x.hasAttribute("selected")) ?? l[0]); return o ? [o] : []; }
  get selectedIndex() { return this.options.indexOf(this.selectedOptions[0]); }
  set selectedIndex(i) { this.options.forEach((o, k) => o.sel = k === i); }
  get selected() { return this.closest("select")?.selectedOptions[0] === this; }
  set selected(b) { this.closest("select")?.options.forEach(o => o.sel = b && o === this); }
  get checked() { return this.ck ?? this.hasAttribute("checked"); }
  set checked(b) { this.ck = !!b; }
  get rows() { return this.localName === "table" || /^t(head|body|foot)$/.test(this.localName) ? this.getElementsByTagName("tr") : undefined; }
  get cells() { return this.localName === "tr" ? this.children.filter(c => /^t[dh]$/.test(c.localName)) : undefined; }
  get tBodies() { return this.children.filter(c => c.localName === "tbody"); }
  get tHead() { return this.children.find(c => c.localName === "thead") ?? null; }
  createTHead() { let t = this.tHead; if (!t) this.insertBefore(t = new Element("thead"), this.firstChild); return t; }
  deleteTHead() { this.tHead?.remove(); }
  createTBody() { return this.appendChild(new Element("tbody")); }
  insertRow(i = -1) { const l = this.rows, r = new Element("tr"); if (i < 0 || i >= l.length) (this.localName === "table" ? this.tBodies.at(-1) ?? this.createTBody() : this).append(r); else l[i].before(r); return r; }
  insertCell(i = -1) { const l = this.cells, c = new Element("td"); if (i < 0 || i >= l.length) this.append(c); else l[i].before(c); return c; }
  deleteRow(i) { this.rows.at(i).remove(); }
  deleteCell(i) { this.cells.at(i).remove(); }
}
for (const k of ["id", "name", "type", "title", "href", "placeholder", "width", "scope", "lang"])
  Object.defineProperty(Element.prototype, k, { get() { return this.getAttribute(k) ?? ""; }, set(v) { this.setAttribute(k, v); } });
for (const k of ["hidden", "disabled", "multiple"])
  Object.defineProperty(Element.prototype, k, { get() { return this.hasAttribute(k); }, set(v) { this.toggleAttribute(k, !!v); } });
for (const k of ["colSpan", "rowSpan"])
  Object.defineProperty(Element.prototype, k, { get() { return Math.max(1, parseInt(this.getAttribute(k) ?? "1", 10) || 1); }, set(v) { this.setAttribute(k, v); } });

function matchChain(e, parts) {
  const m = /^([a-zA-Z][\w-]*|\*)?((?:[#.][\w-]+|\[[^\]]+\]|:[\w-]+(?:\([^)]*\))?)*)$/.exec(parts.at(-1));
  if (!m) throw new Error("selector " + parts);
  if (m[1] && m[1] !== "*" && e.localName !== m[1].toLowerCase()) return false;
  for (const x of m[2].match(/[#.][\w-]+|\[[^\]]+\]|:[\w-]+(?:\([^)]*\))?/g) ?? []) {
    if (x[0] === "#" ? e.id !== x.slice(1) : x[0] === "." ? !e.classList.contains(x.slice(1)) : false) return false;
    if (x[0] === "[") { const [, k, , v] = /^\[([\w-]+)(=["']?(.*?)["']?)?\]$/.exec(x); if (v === undefined ? !e.hasAttribute(k) : e.getAttribute(k) !== v) return false; }
    if (x === ":first-child" && e.previousElementSibling || x === ":last-child" && e.nextElementSibling || x === ":checked" && !e.checked) return false;
  }
  if (parts.length === 1) return true;
  const rest = parts.slice(0, -1);
  if (rest.at(-1) === ">") return e.parentNode instanceof Element && matchChain(e.parentNode, rest.slice(0, -1));
  for (let p = e.parentNode; p instanceof Element; p = p.parentNode) if (matchChain(p, rest)) return true;
  return false;
}
function serialise(n) {
  if (n instanceof Comment) return "<!--" + n.data + "-->";
  if (n instanceof Text) return n.parentNode && RAW.has(n.parentNode.localName) ? n.data : escText(n.data);
  const a = [...n.attrs].map(([k, v]) => ` ${k}="${escAttr(v)}"`).join("");
  return VOID.has(n.localName) ? `<${n.localName}${a}>` : `<${n.localName}${a}>${n.childNodes.map(serialise).join("")}</${n.localName}>`;
}
// what a start tag closes
const CLOSES = { td: ["td", "th"], th: ["td", "th"], tr: ["tr", "td", "th"], thead: ["thead", "tbody", "tfoot", "tr", "td", "th", "caption", "colgroup"], option: ["option"], li: ["li"], p: ["p"] };
CLOSES.tbody = CLOSES.tfoot = CLOSES.thead;
function parse(s, root) {
  let cur = root;
  const put = n => { cur.appendChild(n); return n; };
  const re = /<!--([\s\S]*?)-->|<!([^>]*)>|<\/([a-zA-Z][\w-]*)\s*>|<([a-zA-Z][\w-]*)((?:\s+[^\s=>\/"']+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'>]+))?|\s*\/)*)\s*>/y;
  let i = 0;
  while (i < s.length) {
    re.lastIndex = i;
    const m = s[i] === "<" ? re.exec(s) : null;
    if (!m) {
      let j = s.indexOf("<", i + 1);
      if (j < 0) j = s.length;
      put(new Text(decode(s.slice(i, j))));
      i = j;
      continue;
    }
    i = re.lastIndex;
    if (m[1] !== undefined) put(new Comment(m[1]));
    else if (m[3]) {
      const t = m[3].toLowerCase();
      let e = cur;
      while (e !== root && e.localName !== t && !(e.localName === "table" && /^t[dhr]|^tbody|^thead/.test(t))) e = e.parentNode;
      if (e !== root && e.localName === t) cur = e.parentNode;
      else if (t === "br") put(new Element("br"));
    } else if (m[4]) {
      const t = m[4].toLowerCase(), e = new Element(t);
      for (const a of m[5].matchAll(/([^\s=>\/"']+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g))
        if (!e.attrs.has(a[1].toLowerCase())) e.attrs.set(a[1].toLowerCase(), decode(a[2] ?? a[3] ?? a[4] ?? ""));
      for (let k = cur; k !== root && k.localName !== "table" && k.localName !== "select"; k = k.parentNode)
        if (CLOSES[t]?.includes(k.localName)) cur = k.parentNode;
      put(e);
      if (RAW.has(t)) {
        let j = s.toLowerCase().indexOf("</" + t, i);
        if (j < 0) j = s.length;
        const x = s.slice(i, j);
        if (x) e.appendChild(new Text(t === "title" || t === "textarea" ? decode(x) : x));
        i = s.indexOf(">", j) + 1 || s.length;
      } else if (!VOID.has(t)) cur = e;
    }
  }
}
function shown(e) {
  let s = "";
  for (const c of e.childNodes) {
    if (c instanceof Comment) continue;
    if (c instanceof Text) s += c.data.replace(/[ \n\t]+/g, " ");
    else if (c.localName === "br") s += "\n";
    else if (!["script", "style"].includes(c.localName) && !c.hidden && c.style.display !== "none") {
      const b = ["div", "p", "li", "tr"].includes(c.localName), t = shown(c);
      if (b && t && s && !s.endsWith("\n")) s += "\n";
      s += t;
      if (b && t && c.nextSibling) s += "\n";
    }
  }
  return s;
}
function clickOn(e) {
  const ev = t => new DomEvent(t, { bubbles: true, cancelable: true, button: 0, detail: 1 });
  const box = e.localName === "input" && /checkbox|radio/.test(e.type), was = e.checked;
  if (box) e.checked = !was;
  const ok = e.dispatchEvent(ev("click"));
  if (box && !ok) e.checked = was;
  if (box && ok) { e.dispatchEvent(ev("input")); e.dispatchEvent(ev("change")); }
}

// ------------------------------------------------------------------------------------------------------ a page
let page = null;
const cache = new Map();
function script(f) {
  if (!cache.has(f)) cache.set(f, new vm.Script(fs.readFileSync(f, "utf8"), { filename: f }));
  return cache.get(f);
}
function load(name) {
  const p = page = { errors: [], now: 1e6, timers: new Map(), next: 1 };
  const doc = p.document = new Fragment();
  Object.defineProperty(doc, "nodeType", { value: 9 });
  p.window = new Target();
  const file = path.join(repo, name);
  parse(fs.readFileSync(file, "utf8"), doc);
  Object.assign(doc, {
    readyState: "loading", activeElement: null, cookie: "", hidden: false, visibilityState: "visible",
    getElementById: i => [...doc.all()].find(e => e.id === String(i)) ?? null,
    getElementsByName: n => [...doc.all()].filter(e => e.name === n),
    createElement: t => new Element(t), createElementNS: (_, t) => new Element(t), createTextNode: s => new Text(String(s)),
    createComment: s => new Comment(s), createDocumentFragment: () => new Fragment(), createEvent: () => ({ initEvent(t, b) { Object.assign(this, new DomEvent(t, { bubbles: b })); } }),
    importNode: (n, d) => n.cloneNode(d) });
  const get = t => ({ get: () => doc.getElementsByTagName(t)[0] ?? null });
  Object.defineProperties(doc, { body: get("body"), head: get("head"), documentElement: get("html"), title: { get: () => get("title").get()?.textContent ?? "", set() { } } });
  const timer = every => (f, ms = 0, ...a) => { const id = p.next++; ms = Math.max(+ms || 0, every ? 1 : 0); p.timers.set(id, { at: p.now + ms, f, a, every: every && ms, id }); return id; };
  const store = () => { const m = new Map(); return { getItem: k => m.get(k) ?? null, setItem: (k, v) => void m.set(k, String(v)), removeItem: k => void m.delete(k), clear: () => m.clear() }; };
  const g = {
    document: doc, console: { log() { }, error() { }, warn() { }, info() { }, debug() { }, table() { }, time() { }, timeEnd() { } },
    setTimeout: timer(false), setInterval: timer(true), clearTimeout: i => void p.timers.delete(i), clearInterval: i => void p.timers.delete(i),
    requestAnimationFrame: f => timer(false)(() => f(p.now), 16), cancelAnimationFrame: i => void p.timers.delete(i),
    requestIdleCallback: f => timer(false)(() => f({ didTimeout: false, timeRemaining: () => 50 }), 1), cancelIdleCallback: i => void p.timers.delete(i),
    queueMicrotask, performance: { now: () => p.now }, navigator: { userAgent: "", language: "en", clipboard: { writeText: async () => { } } },
    location: { href: "file:///" + name, search: "", hash: "", pathname: "/" + name, protocol: "file:" }, history: { replaceState() { }, pushState() { } },
    localStorage: store(), sessionStorage: store(), URLSearchParams, URL, AbortController, structuredClone,
    matchMedia: () => ({ matches: false, addEventListener() { }, addListener() { } }), getComputedStyle: e => e.style, alert() { },
    addEventListener: (...a) => p.window.addEventListener(...a), removeEventListener: (...a) => p.window.removeEventListener(...a), dispatchEvent: e => p.window.dispatchEvent(e),
    Event: DomEvent, CustomEvent: DomEvent, InputEvent: DomEvent, MouseEvent: DomEvent, KeyboardEvent: DomEvent, EventTarget: Target,
    Node, Element, HTMLElement: Element, HTMLInputElement: Element, HTMLButtonElement: Element, HTMLTableElement: Element, HTMLSelectElement: Element, Text, DocumentFragment: Fragment };
  p.ctx = vm.createContext(g);
  p.global = vm.runInContext("globalThis", p.ctx);
  for (const k of ["window", "self", "top", "parent", "frames"]) p.global[k] = p.global;
  doc.defaultView = p.global;
  vm.runInContext("Date.now = () => performance.now()", p.ctx);
  // handlers such as window.onload
  for (const t of ["load", "DOMContentLoaded"]) Object.defineProperty(p.window, "on" + t, { get: () => p.global["on" + t] });
  for (const e of [...doc.all()]) if (e.id && !(e.id in p.global)) p.global[e.id] = e;
  const run = e => {
    try {
      const src = e.getAttribute("src");
      if (src !== null) script(path.join(repo, src.split("?")[0])).runInContext(p.ctx);
      else vm.runInContext(e.textContent, p.ctx, { filename: name });
    } catch (x) { p.errors.push(String(x && x.stack || x).split("\n").slice(0, 3).join(" | ")); }
  };
  const scripts = doc.getElementsByTagName("script").filter(e => !e.type || /javascript|module/.test(e.type));
  const late = scripts.filter(e => e.hasAttribute("src") && e.hasAttribute("defer") || e.type === "module");
  scripts.filter(e => !late.includes(e)).forEach(run);
  doc.readyState = "interactive";
  late.forEach(run);
  doc.dispatchEvent(new DomEvent("DOMContentLoaded", { bubbles: true }));
  doc.readyState = "complete";
  p.window.dispatchEvent(new DomEvent("load"));
}
const tick = () => new Promise(r => setImmediate(r));
async function advance(ms) {
  const end = page.now + ms;
  await tick();
  for (let k = 0; k < 2000; k++) {
    const t = [...page.timers.values()].filter(t => t.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
    if (!t) break;
    page.now = Math.max(page.now, t.at);
    if (t.every) t.at = page.now + t.every; else page.timers.delete(t.id);
    try { typeof t.f === "function" ? t.f.apply(page.global, t.a) : vm.runInContext(String(t.f), page.ctx); }
    catch (e) { page.errors.push(String(e && e.stack || e).split("\n").slice(0, 3).join(" | ")); }
    await tick();
  }
  page.now = end;
}
// An element by its id, or else by what is written on it.
function find(id, tag, text) {
  const d = page.document;
  return d.getElementById(id) ?? d.getElementsByTagName(tag).find(e => !text || shown(e).trim() === text) ?? null;
}
function look() {
  const d = page.document, t = d.getElementById("hard-mode") ?? d.getElementsByTagName("table")[0], on = (i, x) => { const b = find(i, "button", x); return b ? b.classList.contains("active") : null; };
  const out = d.getElementById("out");
  return {
    rows: t ? t.getElementsByTagName("tr").map(r => ({
      sec: [...d.all()].indexOf(r.parentNode),
      cells: r.cells.map(c => ({ cs: c.colSpan, rs: c.rowSpan, cls: c.className.trim(), t: shown(c).trim() })) })) : null,
    on: [on("brivla", "brivla"), on("cmevla", "cmevla"), on("ezmode", "easy mode")],
    out: out && [shown(out).trim(), out.classList.contains("err")] };
}
async function run(name, events) {
  load(name);
  const looks = [], ev = t => new DomEvent(t, { bubbles: true, cancelable: true });
  for (const [k, a, b] of events) {
    if (k === "type") {
      const e = find(a, "input");
      e.focus();
      e.dispatchEvent(ev("keydown")); e.value = b; e.dispatchEvent(new DomEvent("input", { bubbles: true, data: b, inputType: "insertText" })); e.dispatchEvent(ev("keyup"));
      await tick();
    } else if (k === "click") {
      const e = find(a, "button", b);
      if (!e.disabled) { for (const t of ["pointerdown", "mousedown", "pointerup", "mouseup"]) e.dispatchEvent(ev(t)); clickOn(e); }
      await tick();
    } else if (k === "check") {
      const e = find(a, "input");
      if (!e.disabled && e.checked !== b) clickOn(e);
      await tick();
    } else if (k === "select") {
      const e = find(a, "select");
      if (e.value !== b) { e.value = b; e.dispatchEvent(ev("input")); e.dispatchEvent(ev("change")); }
      await tick();
    } else if (k === "wait") await advance(a);
    else if (k === "look") { await advance(3000); looks.push(look()); }
    else throw new Error("event " + k);
  }
  return ["O", looks, page.errors.slice(0, 3)];
}
const UN = { n: "\n", t: "\t", r: "\r", "\\": "\\" };
const unesc = s => s.indexOf("\\") < 0 ? s : s.replace(/\\(.)/g, (_, c) => UN[c]);
let rest = "", chain = Promise.resolve();
process.stdin.setEncoding("utf8");
process.stdin.on("data", d => {
  const ls = (rest + d).split("\n");
  rest = ls.pop();
  for (const l of ls) chain = chain.then(async () => {
    const i = l.indexOf("\t"), j = l.indexOf("\t", i + 1);
    let r;
    try { r = await run(l.slice(i + 1, j), JSON.parse(unesc(l.slice(j + 1)))); }
    catch (e) { r = ["E", e.name, String(e.stack).split("\n").slice(0, 3).join(" | ")]; }
    process.stdout.write(JSON.stringify(r) + "\n");
  });
});
