// Runs the frontend of /repo and records what it shows.
//   node driver.mjs <bundle> <hfront> render <cases> <from> <to> <log>
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { spawn, execFileSync } from "node:child_process";

const [bundle, hfront, verb, ...args] = process.argv.slice(2);
const quiet = () => {};
console.log = console.warn = console.error = quiet;
const say = (s) => fs.writeSync(1, s + "\n");

// ------------------------------------------------------- the editor's side
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), "front-"));
const [up, down] = ["up", "down"].map((x) => path.join(scratch, x));
execFileSync("mkfifo", [up, down]);
const child = spawn("sh", ["-c", `exec "$0" serve < "$1" > "$2"`, hfront, up, down], { stdio: ["ignore", "ignore", "inherit"] });
const wr = fs.openSync(up, "w");
const rd = fs.openSync(down, "r");
fs.rmSync(scratch, { recursive: true });
const buf = Buffer.alloc(1 << 16);
let rest = Buffer.alloc(0);
function answer() {
  const parts = [rest];
  for (;;) {
    const last = parts[parts.length - 1];
    const i = last.indexOf(10);
    if (i >= 0) {
      rest = last.subarray(i + 1);
      parts[parts.length - 1] = last.subarray(0, i);
      return Buffer.concat(parts).toString();
    }
    const n = fs.readSync(rd, buf);
    if (n === 0) {
      say("HARNESS: the editor ended");
      process.exit(99);
    }
    parts.push(Buffer.from(buf.subarray(0, n)));
  }
}
let calls = [];
globalThis.editorCall = (on, m, a) => {
  fs.writeSync(wr, JSON.stringify({ on, m, a }) + "\n");
  const r = JSON.parse(answer());
  calls.push({ m, a });
  if (!r.ok) throw new Error((r.panic ? "PANIC " : "") + r.e);
  return r.v === null ? undefined : r.v;
};
let F = await import(bundle);

// ---------------------------------------------------------------- recording
const NAMES = { "@GE": "≥", "@LE": "≤", "@AND": "∧", "@OR": "∨", "@NOT": "¬", "@EQV": "⇔", "@IMP": "⟹", "@SUM": "∑", "@INT": "∫", "@INF": "∞", "@TOP": "⊤", "@BOT": "⊥", "@FAM": "👨‍👩‍👧", "@ACC": "\u00e9", "@DEC": "e\u0301" };
// (in documents the last three go by themselves)
const BACK = Object.fromEntries(Object.entries(NAMES).filter(([k]) => !["@FAM", "@ACC", "@DEC"].includes(k)).map(([k, v]) => [v, k]));
const real = (row) => row.map((n) => ({ ...n, v: NAMES[n.v] ?? n.v, c: n.c.map(real) }));
const serde = (n) => (n.k === "sym" ? { Symbol: n.v } : { Container: [KINDS[n.k], { values: n.c.map((r) => ({ values: r.map(serde) })), width: n.w }] });
const KINDS = { frac: "Fraction", root: "Root", sup: "Sup", sub: "Sub", table: "Table" };
const EMPTY = "⬚";
/** what an element shows: its tag, its pieces, and where it is on the page */
function shown(n) {
  const r = n instanceof F.Text_ ? F.boxOf(n) : n.getBoundingClientRect();
  const box = { x: r.x, y: r.y, w: r.w ?? r.width, h: r.h ?? r.height };
  if (n instanceof F.Text_) {
    if (n.data === EMPTY) return { t: "empty", s: "", c: [], ...box };
    if (n.data === "\xA0\xA0" && n.parentNode.classList.contains("red-squiggly")) return { t: "missing", s: "", c: [], ...box };
    return { t: "text", s: BACK[n.data] ?? n.data, c: [], ...box };
  }
  return { t: n.tagName.toLowerCase(), s: "", c: n.childNodes.map(shown), ...box };
}
function attempt(f) {
  try {
    return { ok: true, msg: "", v: [f()] };
  } catch (e) {
    return { ok: false, msg: String(e?.stack ?? e).slice(0, 300), v: [] };
  }
}
const renderer = new F.MathMLRenderer(new Map(Array.from(F.ModulesCreator.get_syntax_node_name_map().values, ([k, v]) => [F.joinPathIdentifier(k), v])));

// what was made while loading stays
const FIRST = F.DefaultParser.id + 1;
function render(row) {
  globalThis.editorCall(FIRST, "drop", []);
  const editor = new F.MathEditorBindings(F.DefaultParser);
  F.MathEditorHelper.spliceAtRange(editor, { row_indices: [], start: 0, end: 0 }, real(row).map(serde));
  const value = F.MathEditorHelper.getSyntaxTree(editor);
  const result = renderer.renderAll({ value, errors: null });
  const math = new F.HTMLElement_("math");
  globalThis.document.body.replaceChildren(math);
  math.replaceChildren(...result.getElement(F.RowIndices.default()).getElements());
  return { value, result, math };
}
/** a syntax tree, as the specification has it */
const syntax = (n) => {
  const c = n.children;
  const [kind, kids, w, syms] = "Leaf" in c ? ["leaf", [], 0, c.Leaf.symbols.map((x) => BACK[x] ?? x)] : "NewRows" in c ? ["rows", c.NewRows.values, c.NewRows.width, []] : ["kids", c.Children, 0, []];
  return { name: names.get(n.name) ?? "?", a: n.range.start, b: n.range.end, kind, w, syms, kids: kids.map(syntax) };
};
/** the parts of the syntax tree that are errors, in order */
const names = new Map(Array.from(F.ModulesCreator.get_syntax_node_name_map().values, ([k, v]) => [v, k.join("::")]));
function faults(n) {
  const name = names.get(n.name);
  const own = name === "Error::UnknownToken" ? ["unknown"] : name === "Error::MissingToken" ? ["missing"] : [];
  const kids = n.children.Children ?? n.children.NewRows?.values ?? [];
  // the index of a root is shown behind what is under it
  return own.concat((name === "BuiltIn::Root" ? kids.slice().reverse() : kids).flatMap(faults));
}
const allRows = (row, p = []) => [p, ...row.flatMap((n, i) => n.c.flatMap((r, j) => allRows(r, [...p, [i, j]])))];
const rowAt = (row, p) => p.reduce((r, [i, j]) => r[i].c[j], row);
const int = (v) => (Number.isInteger(v) && Math.abs(v) < 30000 ? v : -99999);
// positions can be in the middle between two whole numbers
const twice = (v) => int(v * 2);
const place = (q) => ({ p: q.indices.indices.map((x) => x.slice()), k: q.offset });
const NOWHERE = { p: [], k: -1 };
let seed = 1;
const below = (n) => {
  seed = (Math.imul(seed, 1664525) + 1013904223) >>> 0;
  return Math.floor((seed / 4294967296) * n);
};
function rectangle(r) {
  return { x: twice(r.x), y: twice(r.y), w: twice(r.width), h: twice(r.height) };
}

// -------------------------------------------------------------- elements
const pick = (...xs) => xs[below(xs.length)];
const TEXTS = ["x", "y", "1", "2", "+", "-", "(", '"', "\\", "<", "&", "é", "ü", "각", "가", "👨‍👩‍👧", "👍🏽", "🇩🇪", "𝓐", "@SUM", "≠", "x̄", "é̲", "ü̱̃", "한", "n̈́", "lim"].map((s) => s.normalize("NFD"));
function text(most) {
  const words = Array.from({ length: below(most + 1) }, () => pick(...TEXTS)).flatMap((w) => (w === "lim" ? [...w] : [w]));
  // a space in between stays
  return words.length > 1 && below(4) === 0 ? [words[0], pick(" ", "\u2009"), ...words.slice(1)] : words;
}
const PARTS = { mfrac: 2, mroot: 2, msub: 2, msup: 2, munder: 2, mover: 2, msubsup: 3, munderover: 3 };
function some(depth, most) {
  return Array.from({ length: below(most + 1) }, () => one(depth));
}
const el = (t, c, s = []) => ({ t, s, c });
function one(depth) {
  if (depth === 0 || below(3) === 0) return el(pick("mi", "mn", "mo", "mo", "mtext", "ms"), below(8) ? [] : [el("mi", [], text(2))], text(3));
  const tag = pick(...Object.keys(PARTS), "mrow", "mrow", "mstyle", "msqrt", "semantics", "mtable", "mtable", "other");
  if (tag in PARTS) {
    const n = below(12) === 0 ? below(5) : PARTS[tag];
    return el(tag, Array.from({ length: n }, () => one(depth - 1)));
  }
  if (tag === "mtable") {
    const cell = () => (below(40) ? el("mtd", some(depth - 1, 2)) : one(depth - 1));
    return el(tag, Array.from({ length: below(4) }, () => (below(40) ? el("mtr", Array.from({ length: below(4) }, cell)) : one(depth - 1))));
  }
  if (tag === "other") return below(3) ? el("mrow", some(depth - 1, 3), text(2)) : el(pick("mspace", "mpadded", "mtr", "mtd", "math", "merror", "mmultiscripts", "annotation"), some(depth - 1, 2), text(1));
  return el(tag, some(depth - 1, 3));
}
/** an element of the page for a description of it: texts can be in several
 * pieces and not composed, with white space around */
function markup(d) {
  const e = new F.MathMLElement_(below(5) ? d.t : d.t.toUpperCase());
  const space = () => pick("", "", " ", "\n  ", "\t");
  const leaf = ["mi", "mn", "mo", "mtext", "ms"].includes(d.t);
  if (leaf) {
    const all = [...d.s, ...(d.c.length ? d.c[0].s : [])];
    // (what is in an element in a text counts as text)
    const whole = d.s.map((x) => NAMES[x] ?? x).join("");
    const pieces = [space() + (below(2) ? whole : whole.normalize("NFC"))];
    if (pieces[0].length > 1 && below(3) === 0) {
      const k = 1 + below(pieces[0].length - 1);
      pieces.splice(0, 1, pieces[0].slice(0, k), pieces[0].slice(k));
    }
    e.append(...pieces);
    for (const c of d.c) {
      const inner = new F.HTMLElement_("SPAN");
      inner.append(named(c.s).join(""));
      e.append(inner);
    }
    e.append(space());
    if (below(12) === 0) e.insertBefore(globalThis.document.createComment(pick("", "|", "x")), pick(null, ...e.childNodes));
    d.s = all;
    d.c = [];
    return e;
  }
  const comment = () => below(12) === 0 && e.append(globalThis.document.createComment(pick("", "|", " x ")));
  if (d.s.length) e.append(d.s.join(""));
  for (const c of d.c) comment(), e.append(space(), markup(c), space());
  comment();
  return e;
}
const nodes = (row) =>
  row.values.map((n) => ("Symbol" in n ? { k: "sym", v: BACK[n.Symbol] ?? n.Symbol, w: 0, c: [] } : { k: KEYS[n.Container[0]], v: "", w: n.Container[1].width, c: n.Container[1].values.map(nodes) }));
const KEYS = Object.fromEntries(Object.entries(KINDS).map(([k, v]) => [v, k]));

// ---------------------------------------------------------- the component
let timers = [];
const named = (s) => s.map((x) => NAMES[x] ?? x);
const all = (n, ok) => [...(ok(n) ? [n] : []), ...(n.childNodes ?? []).flatMap((c) => all(c, ok))];
class Session {
  constructor(first, late) {
    globalThis.editorCall(FIRST, "drop", []);
    timers = [];
    globalThis.setTimeout = (f) => timers.push(f);
    globalThis.document.body.replaceChildren();
    F.movePage(below(40), below(40), 0, below(30), below(30));
    this.me = new F.MathEditor();
    this.twin = new F.MathEditorBindings(F.DefaultParser);
    this.clips = { mine: new Map(), twin: "" };
    this.at = null;
    if (late) {
      // the attribute is there before the element is on the page
      this.me.setAttribute("mathml", this.attribute(first));
      this.both(first);
    }
    globalThis.document.body.append(this.me);
    this.me.connectedCallback();
    if (late) this.both(first);
    this.math = all(this.me.shadowRoot, (n) => n.tagName?.toLowerCase() === "math")[0];
    this.field = all(this.me.shadowRoot, (n) => n.tagName === "TEXTAREA")[0];
  }
  attribute({ ev }) {
    return markup(structuredClone(ev.dom[0])).outerHTML;
  }
  /** does the page know a command that the editor does not have yet? */
  missing({ cmds }) {
    return cmds.some((c) => ["insert", "remove", "copy", "paste"].includes(c.c)) && F.MathEditorHelper.getCaret(this.twin).some((c) => "Grid" in c);
  }
  /** lets an event happen to the component */
  happen({ ev, cmds }) {
    const { me, math, field } = this;
    const bubble = (e, of = math) => {
      for (let n = of; n; n = n.parentNode ?? n.host) n.fire?.(ev.e, e);
    };
    const event = { key: "", code: "", ctrlKey: false, preventDefault() {}, isPrimary: ev.primary, pointerId: 1, detail: ev.clicks };
    switch (ev.e) {
      case "keydown":
        return bubble({ ...event, key: ev.key, code: ev.key.length === 1 ? "Key" + ev.key.toUpperCase() : ev.key, ctrlKey: ev.ctrl }, field);
      case "beforeinput":
        return bubble({ ...event, inputType: ev.key, data: ev.text.length ? named(ev.text[0]).join("") : null }, field);
      case "tick":
        return timers.shift()();
      case "attr":
        return ev.dom.length ? me.setAttribute("mathml", this.attribute({ ev })) : me.removeAttribute("mathml");
      case "focus":
        return bubble(event);
      case "copy":
      case "cut":
      case "paste": {
        const have = this.clips.mine.get("application/json") ?? "";
        const given = ev.e !== "paste" ? this.clips.mine
          : new Map(Object.entries({ "": { "application/json": have }, plain: { "text/plain": have }, bad: { "text/plain": "x" }, both: { "application/json": have, "text/plain": "x" } }[ev.key]));
        return bubble({ ...event, clipboardData: { setData: (k, v) => given.set(k, v), getData: (k) => given.get(k) ?? "" } }, field);
      }
      default:
        return bubble({ ...event, clientX: this.at.x, clientY: this.at.y });
    }
  }
  /** where on the page an event happens, and which place of the document that is */
  aim({ ev }) {
    if (!/^(pointer|mouse)/.test(ev.e)) return;
    const { me } = this;
    const row = nodes(F.MathEditorHelper.getInputTree(me.mathEditor));
    const spots = allRows(row).flatMap((p) => Array.from({ length: rowAt(row, p).length + 1 }, (_, k) => [p, k]));
    const [p, k] = spots[(ev.at * 3) % spots.length];
    const { rect } = me.renderResult.getViewportSelection({ indices: new F.RowIndices(p), start: k, end: k });
    this.at = { x: rect.x + below(5) - 2, y: rect.y + (rect.height >> 1) };
    const q = me.renderResult.getLayoutPosition(this.at);
    this.q = { row_indices: q.indices.indices.map((x) => x.slice()), offset: q.offset };
  }
  /** does to the other editor what the event stands for */
  both({ ev, cmds }) {
    const { twin, q } = this;
    for (const c of cmds) {
      switch (c.c) {
        case "move": twin.move_caret(c.d, "Char"); break;
        case "remove": twin.remove_at_caret(c.d, "Char"); break;
        case "insert": F.MathEditorHelper.insertAtCaret(twin, named(c.v)); break;
        case "undo": twin.undo(); break;
        case "redo": twin.redo(); break;
        case "copy": this.clips.twin = twin.copy("JsonInputTree"); break;
        case "paste": attempt(() => F.MathEditorHelper.paste(twin, ev.key === "bad" ? "x" : this.clips.twin, "JsonInputTree")); break;
        case "replace": {
          const { values } = F.MathEditorHelper.getInputTree(twin);
          F.MathEditorHelper.spliceAtRange(twin, { row_indices: [], start: 0, end: values.length }, real(c.row).map(serde));
          break;
        }
        case "start": twin.start_selection(q, c.k); break;
        case "extend": twin.extend_selection(q); break;
        case "finish": twin.finish_selection(); break;
        default: say("HARNESS: no command " + c.c); process.exit(99);
      }
    }
  }
  state(editor, clip) {
    const [caret, ...more] = F.MathEditorHelper.getCaret(editor);
    const g = caret.Row ?? caret.Grid;
    const sel = caret.Row ? { g: "row", p: g.row_indices, i: 0, a: g.start, b: g.end } : { g: "grid", p: g.row_indices, i: g.index, a: g.range.start, b: g.range.end };
    return { row: nodes(F.MathEditorHelper.getInputTree(editor)), sel, carets: 1 + more.length, clip };
  }
  /** what the page shows: the formula, and where the caret is */
  page() {
    const { me, math } = this;
    const mine = this.state(me.mathEditor, this.clips.mine.get("application/json") ?? "");
    const px = (n, k) => (/^-?[0-9.]+px$/.test(n.style[k]) ? parseFloat(n.style[k]) : -9999);
    const off = F.origin();
    const carets = all(me.shadowRoot, (n) => n.classList?.contains("caret")).map((n) => ({
      x: twice(px(n, "left") + off.x), y: int(Math.round(2 * (px(n, "top") + off.y))), h: twice(px(n, "height")), up: twice(-px(n, "marginTop")), shown: n.style.display !== "none",
    }));
    const boxes = all(me.shadowRoot, (n) => n.classList?.contains("caret-selection")).map((n) => rectangle({ x: px(n, "left") + off.x, y: px(n, "top") + off.y, width: px(n, "width"), height: px(n, "height") }));
    const p = mine.sel.p;
    const spot = (k) => {
      const at = me.renderResult.getViewportSelection({ indices: new F.RowIndices(p), start: k, end: k });
      return { p, k, x: twice(at.rect.x), y: twice(at.rect.y), base: twice(at.baseline), size: int(me.renderResult.getViewportCaretSize(new F.RowIndices(p))) };
    };
    const spots = mine.sel.g === "row" ? [...new Set([mine.sel.a, mine.sel.b])].map(spot) : [];
    const dom = { t: "math", s: "", c: math.childNodes.map(shown), x: 0, y: 0, w: 0, h: 0, faults: faults(me.syntaxTree) };
    return { mine, dom, carets, boxes, spots };
  }
}

// ------------------------------------------------------------------ a page
class Site {
  /** puts a page together and lets it load */
  static async load(page, n) {
    globalThis.editorCall(FIRST, "drop", []);
    F = await import(bundle + "?" + n);
    timers = [];
    globalThis.setTimeout = (f) => timers.push(f);
    F.movePage(below(40), below(40), 0, below(30), below(30));
    const site = new Site();
    site.was = new Map();
    globalThis.document.body.append(...page.map((d) => site.build(d)));
    await F.main();
    // (what the page loads later)
    await new Promise((f) => setImmediate(f));
    site.editors = all(globalThis.document.body, (n) => n instanceof F.MathEditor).map((me) => {
      const s = Object.create(Session.prototype);
      const kids = (ok) => all(me.shadowRoot, ok)[0];
      return Object.assign(s, {
        me, twin: new F.MathEditorBindings(F.DefaultParser), clips: { mine: new Map(), twin: "" }, at: null, timers: [],
        math: kids((n) => n.tagName?.toLowerCase() === "math"), field: kids((n) => n.tagName === "TEXTAREA"),
      });
    });
    return site;
  }
  build(d) {
    if (d.t === "text") {
      const n = new F.Text_(d.s.join(""));
      this.was.set(n, { d, text: n.data });
      return n;
    }
    const copy = structuredClone(d);
    const n = d.t === "math" ? markup(copy) : new F.HTMLElement_(d.t.toUpperCase());
    if (d.on) n.setAttribute("data-editor", pick("true", "", "false"));
    if (below(2)) n.setAttribute(pick("display", "class", "style", "title"), pick("block", 'a "b" <c> & d', ""));
    if (d.t !== "math") n.append(...d.c.map((c) => this.build(c)));
    this.was.set(n, { d, text: n.outerHTML });
    return n;
  }
  /** what is on the page now */
  now(n) {
    const { d, text } = this.was.get(n) ?? {};
    if (n instanceof F.MathEditor) return { t: "math-editor", s: [], c: [], on: false };
    if (d === undefined) return { t: "other", s: [n.nodeName], c: [], on: false };
    if (d.t === "text") return { ...d, s: n.data === text ? d.s : ["changed"] };
    if (d.t === "math") return n.outerHTML === text ? d : { ...d, s: ["changed"] };
    return { ...d, on: n.hasAttribute("data-editor"), c: n.childNodes.map((c) => this.now(c)) };
  }
  show() {
    return { page: globalThis.document.body.childNodes.map((c) => this.now(c)), editors: this.editors.map((s) => s.page()) };
  }
  twins() {
    return this.editors.map((s) => s.state(s.twin, s.clips.twin));
  }
}

// ------------------------------------------------- commands, as a page gives them
const plain = (row) => row.values.map((n) => ("Symbol" in n ? { k: "sym", v: n.Symbol, w: 0, c: [] } : { k: KEYS[n.Container[0]], v: "", w: n.Container[1].width, c: n.Container[1].values.map(plain) }));
const UPPER = { left: "Left", right: "Right", up: "Up", down: "Down", range: "Range" };
const spot_of = (q) => ({ row_indices: q.p, offset: q.o });
const sorted = (v) => (Array.isArray(v) ? v.map(sorted) : v && typeof v === "object" ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, sorted(v[k])])) : v);
function tree_of(n) {
  const [key] = Object.keys(n.children);
  const v = n.children[key];
  const of = { NewRows: { kind: "rows", w: v.width, kids: v.values, syms: [] }, Children: { kind: "kids", w: 0, kids: v, syms: [] }, Leaf: { kind: "leaf", w: 0, kids: [], syms: v.symbols } }[key];
  return { ...of, name: names.get(n.name), a: n.range.start, b: n.range.end, kids: of.kids.map(tree_of) };
}
class Page {
  constructor() {
    globalThis.editorCall(FIRST, "drop", []);
    this.ed = new F.MathEditorBindings(F.DefaultParser);
  }
  state(ret) {
    const [caret, ...more] = F.MathEditorHelper.getCaret(this.ed);
    const g = caret.Row ?? caret.Grid;
    const r = caret.Row ?? g.range;
    return {
      ret, carets: 1 + more.length, tree: plain(F.MathEditorHelper.getInputTree(this.ed)),
      sel: { g: caret.Row ? "row" : "grid", p: g.row_indices, i: g.index ?? 0, a: r.start, b: r.end },
    };
  }
  popup() {
    const r = F.MathEditorHelper.getAutocomplete(this.ed);
    if (r === undefined) return { shown: false, at: 0, list: [], caret: [] };
    const list = r.matches.map((m) => ({
      rule: m.rule.parser, result: plain({ values: m.rule.result }), k: m.input_match_length, text: Buffer.from(m.rule.parser).subarray(0, m.rule_match_length).toString(),
    }));
    return { shown: true, at: r.selected_index + 1, list, caret: [{ p: r.caret_position.row_indices, o: r.caret_position.offset }] };
  }
  /** executes a command; what it gives besides success is put into more */
  execute(c, more) {
    const { ed } = this;
    const H = F.MathEditorHelper;
    const json = "JsonInputTree";
    const works = (f) => {
      const r = attempt(f);
      if (!r.ok && /PANIC/.test(r.msg)) throw new Error(r.msg);
      return r.ok;
    };
    switch (c.c) {
      case "move": return ed.move_caret(UPPER[c.d], "Char");
      case "extend": return ed.select_with_caret(UPPER[c.d], "Char");
      case "remove": return ed.remove_at_caret(UPPER[c.m], "Char");
      case "type": return H.insertAtCaret(ed, c.v);
      case "paste": return works(() => H.paste(ed, JSON.stringify({ version: 1, data: c.nodes.map(serde) }), json));
      case "repaste": return works(() => H.paste(ed, c.raw, json));
      case "pasteraw": return works(() => H.paste(ed, c.text, json));
      case "splice": return H.spliceAtRange(ed, { row_indices: c.r.p, start: c.r.a, end: c.r.b }, c.nodes.map(serde));
      case "click": return ed.start_selection(spot_of(c.q), "Char");
      case "drag": return ed.extend_selection(spot_of(c.q));
      case "release": return ed.finish_selection();
      case "all": return ed.select_all();
      case "undo": return ed.undo();
      case "redo": return ed.redo();
      case "copy": return works(() => (more.raw = ed.copy(json)));
      case "syntax": return void (more.syntax = JSON.stringify(sorted(tree_of(H.getSyntaxTree(ed)))));
      case "popup": return ed.open_autocomplete();
      case "popdir": return ed.move_in_autocomplete(UPPER[c.d]);
      case "accept": return ed.finish_autocomplete(true);
      case "dismiss": return ed.finish_autocomplete(false);
      default: say("HARNESS: no command " + c.c); process.exit(99);
    }
  }
  /** calls with something that is not what the call is about */
  wrong() {
    const { ed } = this;
    const H = F.MathEditorHelper;
    const row = { row_indices: [], start: 0, end: H.getInputTree(ed).values.length };
    const frac = (v) => ({ Container: ["Fraction", v] });
    const [what, ...a] = pick(
      ["insertAtCaret", [1]], ["insertAtCaret", "x"], ["insertAtCaret", { a: "x" }], ["insertAtCaret", null], ["insertAtCaret", ["a", null]], ["insertAtCaret", [["a"]]],
      ["spliceAtRange", row, [{ Symbol: 1 }]], ["spliceAtRange", row, [{ Sym: "x" }]], ["spliceAtRange", row, "x"], ["spliceAtRange", row, null], ["spliceAtRange", row, {}],
      ["spliceAtRange", row, [frac({ values: [] })]], ["spliceAtRange", row, [{ Container: ["Frac", { values: [{ values: [] }, { values: [] }], width: 1 }] }]],
      ["spliceAtRange", row, [{ Symbol: "a" }, frac({ values: [{ values: [] }, { values: [{ Symbol: [] }] }], width: 1 })]],
      ["paste", "no", "JsonInputTree"], ["paste", "", "JsonInputTree"]
    );
    const before = this.state(true);
    const r = attempt(() => H[what](ed, ...a));
    return { op: "refused", call: what, with: JSON.stringify(a), refused: !r.ok && !/PANIC/.test(r.msg), before, after: attempt(() => this.state(true)) };
  }
}

const out = [];
const log = (v) => out.push(JSON.stringify(v));
const read = (file, from, to) => fs.readFileSync(file, "utf8").split("\n").filter((x) => x).slice(+from, +to).map((x) => JSON.parse(x));

if (verb === "render") {
  const [cases, from, to, file] = args;
  for (const c of read(cases, from, to)) {
    const r = attempt(() => {
      const { math, value } = render(c.row);
      return { t: "math", s: "", c: math.childNodes.map(shown), x: 0, y: 0, w: 0, h: 0, faults: faults(value) };
    });
    log({ op: "render", row: c.row, shown: r });
  }
  fs.writeFileSync(file, out.map((x) => x + "\n").join(""));
} else if (verb === "compose") {
  // an editor that understands just the modules a page chose
  const [cases, from, to, file] = args;
  for (const c of read(cases, from, to)) {
    const r = attempt(() => {
      globalThis.editorCall(FIRST, "drop", []);
      const editor = new F.MathEditorBindings(F.makeMathParserWith(c.mods.map((m) => F.ParseModulesCreator["make_" + m](F.ModulesCreator))));
      const H = F.MathEditorHelper;
      H.spliceAtRange(editor, { row_indices: [], start: 0, end: 0 }, real(c.row).map(serde));
      editor.start_selection({ row_indices: [], offset: c.row.length }, "Char");
      editor.finish_selection();
      editor.open_autocomplete();
      const offers = (H.getAutocomplete(editor)?.matches ?? []).map((m) => ({
        text: m.rule.parser, result: nodes({ values: m.rule.result }), k: m.input_match_length, whole: m.rule_match_length === Buffer.from(m.rule.parser).length,
      }));
      return { tree: syntax(H.getSyntaxTree(editor)), offers };
    });
    log({ op: "composed", mods: c.mods, row: c.row, shown: r });
  }
  fs.writeFileSync(file, out.map((x) => x + "\n").join(""));
} else if (verb === "elements") {
  // random elements
  const [first, count, file] = args;
  seed = Math.imul(+first, 2654435761) >>> 0;
  fs.writeFileSync(file, Array.from({ length: +count }, () => JSON.stringify({ op: "import", dom: { t: "math", s: [], c: some(4, 4) } }) + "\n").join(""));
  say("LOGGED " + count);
} else if (verb === "import") {
  const [cases, from, to, file] = args;
  seed = +from + 1;
  for (const c of read(cases, from, to)) {
    const r = attempt(() => {
      const { root, errors } = F.fromElement(markup(c.dom));
      globalThis.editorCall(FIRST, "drop", []);
      const editor = new F.MathEditorBindings(F.DefaultParser);
      F.MathEditorHelper.spliceAtRange(editor, { row_indices: [], start: 0, end: 0 }, root.values);
      return { row: nodes(root), kept: nodes(F.MathEditorHelper.getInputTree(editor)), faults: errors.length };
    });
    log({ op: "import", dom: c.dom, read: r });
  }
  fs.writeFileSync(file, out.map((x) => x + "\n").join(""));
} else if (verb === "events") {
  const [cases, from, to, file] = args;
  const known = new Set();
  for (const [n, c] of read(cases, from, to).entries()) {
    seed = Math.imul(+from + n + 1, 2654435761) >>> 0;
    const late = n % 2 === 1 && !c.hist.some((h) => h.ev.ctrl);
    const made = attempt(() => new Session(c.hist[0], late));
    if (!made.ok) {
      log({ op: "start", ev: c.hist[0].ev, twin: [], shown: made });
      continue;
    }
    const [session] = made.v;
    let past = "";
    for (const [i, h] of c.hist.entries()) {
      if (session.missing(h)) break;
      // histories have beginnings in common
      past += JSON.stringify(h.ev);
      const thrown = attempt(() => {
        // (the page can be scrolled at any time)
        if (below(3) === 0) F.scrollPage(below(121) - 60, below(121) - 60);
        session.aim(h);
        if (i > 0 || !late) {
          session.both(h);
          session.happen(h);
        }
      });
      if (c.all || !known.has(past) || /PANIC/.test(thrown.msg)) {
        const shows = /PANIC/.test(thrown.msg) ? thrown : attempt(() => session.page());
        log({ op: h.ev.e, n, ev: h.ev, twin: session.state(session.twin, session.clips.twin), shown: shows });
        if (!shows.ok) break;
      }
      known.add(past);
    }
  }
  fs.writeFileSync(file, out.map((x) => x + "\n").join(""));
} else if (verb === "site") {
  const [cases, from, to, file] = args;
  for (const [n, c] of read(cases, from, to).entries()) {
    seed = Math.imul(+from + n + 1, 2654435761) >>> 0;
    const none = { ok: true, v: [] };
    let site;
    const put = async (ev, f) => {
      const thrown = await f().then(() => null, (e) => e);
      const shows = thrown ? { ok: false, msg: String(thrown?.stack ?? thrown).slice(0, 300), v: [] } : attempt(() => site.show());
      log({ op: "site", n, page: c.page, ev, twins: site ? site.twins() : [], shown: shows });
      return shows.ok;
    };
    let go = await put([], async () => {
      site = await Site.load(c.page, n);
      if (site.editors.length !== c.start.length) return;
      // (an editor takes what it is made with when it is put on the page, again)
      for (const _ of [1, 2]) site.editors.forEach((s, k) => s.both(c.start[k]));
    });
    if (site && site.editors.length !== c.start.length) continue;
    for (const h of c.hist) {
      if (!go) break;
      const s = site.editors[h.on - 1];
      go = await put([h], async () => {
        s.aim(h);
        timers = s.timers;
        s.both(h);
        s.happen(h);
      });
    }
  }
  fs.writeFileSync(file, out.map((x) => x + "\n").join(""));
} else if (verb === "commands") {
  const [cases, from, to, file] = args;
  const histories = [];
  for (const e of read(cases, 0, Infinity)) e.op === "load" ? histories.push([e]) : histories[histories.length - 1].push(e);
  const hidden = { shown: false, at: 0, list: [], caret: [] };
  for (const [n, [start, ...events]] of histories.slice(+from, +to).entries()) {
    seed = Math.imul(+from + n + 1, 2654435761) >>> 0;
    const page = new Page();
    const { rules } = start;
    const popup = (p) => ({ ok: p.ok, shown: p.shown, at: p.at, list: p.list.map((m) => ({ rule: rules[m.rule - 1]?.text ?? "?", result: m.result, k: m.k, text: m.text })) });
    const nothing = { ok: true, shown: false, at: 0, list: [] };
    let { sel } = start;
    const put = (cmd, e, f) => {
      const r = attempt(f);
      log({
        op: "bound", n, cmd, popped: e.popped, before: sel, editor: { out: e.out, pop: popup(e.pop), after: popup(e.after), raw: e.raw ?? "", syntax: e.syntax ? JSON.stringify(sorted(e.syntax)) : "" },
        page: { ok: r.ok, msg: r.msg, v: r.v },
      });
      if (e.out.ok) sel = e.out.v[0].sel;
      return r.ok && e.out.ok;
    };
    let go = put({ c: "load" }, { popped: false, out: { ok: true, v: [{ ret: true, tree: start.tree, sel: start.sel }] }, pop: nothing, after: nothing }, () => {
      F.MathEditorHelper.spliceAtRange(page.ed, { row_indices: [], start: 0, end: 0 }, start.tree.map(serde));
      return { ...page.state(true), pop: hidden, after: hidden, raw: "", syntax: "" };
    });
    for (const e of events) {
      if (!go) break;
      go = put(e.cmd, e, () => {
        const more = { raw: "", syntax: "" };
        const pop = e.popped ? page.popup() : hidden;
        const ret = page.execute(e.cmd, more) ?? true;
        const after = e.cmd.c === "popdir" ? page.popup() : hidden;
        return { ...page.state(ret), pop, after, ...more };
      });
      if (go && below(8) === 0) log(page.wrong());
      if (go && below(8) === 0) page.ed[pick("focus", "unfocus")]();
    }
  }
  fs.writeFileSync(file, out.map((x) => x + "\n").join(""));
} else if (verb === "place") {
  const [cases, from, to, file] = args;
  seed = +from + 1;
  const size = (row) => row.reduce((n, x) => n + 1 + x.c.reduce((m, r) => m + 1 + size(r), 0), 0);
  for (const c of read(cases, from, to)) {
    // (TLC's numbers end somewhere)
    if (size(c.row) > 300) continue;
    const gap = below(3);
    F.movePage(below(120) - 80, below(120) - 80, gap);
    const r = attempt(() => {
      const { math, result } = render(c.row);
      const indices = (p) => new F.RowIndices(p);
      const click = (x, y) => {
        const a = attempt(() => place(result.getLayoutPosition({ x, y })));
        return a.ok ? a.v[0] : NOWHERE;
      };
      const paths = allRows(c.row);
      const spots = paths.flatMap((p) =>
        Array.from({ length: rowAt(c.row, p).length + 1 }, (_, k) => {
          const at = result.getViewportSelection({ indices: indices(p), start: k, end: k });
          return { p, k, x: twice(at.rect.x), y: twice(at.rect.y), base: twice(at.baseline), size: int(result.getViewportCaretSize(indices(p))) };
        })
      );
      const sels = Array.from({ length: 6 }, () => {
        const p = paths[below(paths.length)];
        const n = rowAt(c.row, p).length + 1;
        const [a, b] = [below(n), below(n)];
        return { p, a, b, ...rectangle(result.getViewportSelection({ indices: indices(p), start: a, end: b }).rect) };
      });
      const rows = paths.map((p) => ({ p, ...rectangle(result.getViewportRowBounds(indices(p))) }));
      const shows = { t: "math", s: "", c: math.childNodes.map(shown), x: 0, y: 0, w: 0, h: 0 };
      const taps = [];
      const leaf = (n) => (n.c.length === 0 ? [n] : n.c.flatMap(leaf));
      const leaves = leaf(shows).filter((n) => n.w > 0);
      const [all] = rows;
      for (let i = 0; i < 12; i++) {
        let [x, y] = [below(200), below(120)];
        if (leaves.length > 0 && i < 8) {
          const n = leaves[below(leaves.length)];
          [x, y] = [n.x + 1 + below(n.w - 1), n.y + 1 + below(n.h - 1)];
        } else if (i < 11) {
          // around the formula
          x = (all.x >> 1) - 20 + below((all.w >> 1) + 40);
          y = (all.y >> 1) - 20 + below((all.h >> 1) + 40);
        }
        taps.push({ x: twice(x), y: twice(y), at: click(x, y) });
      }
      return { gap, dom: shows, spots, sels, rows, taps };
    });
    log({ op: "place", row: c.row, shown: r });
  }
  fs.writeFileSync(file, out.map((x) => x + "\n").join(""));
} else if (verb === "address") {
  const [cases, from, to, file] = args;
  seed = +from + 1;
  for (const c of read(cases, from, to)) {
    const r = attempt(() => {
      const { value, result } = render(c.row);
      const paths = allRows(c.row);
      const find = (p) => F.getNodeWithRowIndices(value, new F.RowIndices(p));
      const piece = (p) => result.getElement(new F.RowIndices(p));
      const look = paths.map((p) => {
        const e = attempt(() => piece(p));
        const index = e.ok && e.v[0].rowIndex ? [e.v[0].rowIndex.slice()] : [];
        const t = attempt(() => syntax(find(p)));
        return { p, tree: t, piece: attempt(() => syntax(e.v[0].syntaxTree)), index };
      });
      const none = paths.flatMap((p) => {
        const row = rowAt(c.row, p);
        return [
          ...row.map((n, i) => [i, n.c.length + below(2)]),
          ...row.flatMap((n, i) => (n.k === "sym" ? [[i, 0], [i, 1]] : [])),
          [row.length, 0],
          [row.length + 1 + below(3), below(2)],
        ].map((x) => [...p, x]);
      });
      const lost = [];
      for (let i = 0; i < 24 && none.length > 0; i++) {
        let [p] = none.splice(below(none.length), 1);
        if (below(4) === 0) p = [...p, [below(2), below(2)]];
        lost.push({ p, tree: attempt(() => find(p)).ok, piece: attempt(() => piece(p)).ok });
      }
      const pieces = [];
      const walk = (e, p) => {
        if (e.rowIndex) p = [...p, e.rowIndex.slice()];
        const { name, kind, a, b } = syntax(e.syntaxTree);
        pieces.push({ p, name, kind, a, b });
        e.getChildren().forEach((x) => walk(x, p));
      };
      walk(result.getElement(F.RowIndices.default()), []);
      return { tree: syntax(value), look, lost, pieces };
    });
    log({ op: "address", row: c.row, shown: r });
  }
  fs.writeFileSync(file, out.map((x) => x + "\n").join(""));
}
say("LOGGED " + out.length);
fs.closeSync(wr);
