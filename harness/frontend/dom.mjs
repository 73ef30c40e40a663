// A stand-in for the browser: as much of the DOM as /repo/src uses, and a
// layout of its own (whole numbers, one glyph is 10 wide and 16 high).
const defined = new Map();
const connected = (n) => {
  if (defined.has(n.constructor)) n.connectedCallback?.();
  n.childNodes.slice().forEach(connected);
};
export class Node_ {
  constructor() {
    this.parentNode = null;
    this.childNodes = [];
  }
  get isConnected() {
    let n = this;
    while (n.parentNode || n.host) n = n.parentNode ?? n.host;
    return n === globalThis.document;
  }
  remove() {
    if (this.parentNode) {
      const c = this.parentNode.childNodes;
      c.splice(c.indexOf(this), 1);
      this.parentNode = null;
      touched();
    }
  }
  insertBefore(c, next) {
    if (c instanceof Fragment_) {
      for (const k of c.childNodes.slice()) this.insertBefore(k, next);
      return c;
    }
    c.remove();
    c.parentNode = this;
    this.childNodes.splice(next ? this.childNodes.indexOf(next) : this.childNodes.length, 0, c);
    touched();
    if (defined.size > 0 && this.isConnected) connected(c);
    return c;
  }
  appendChild(c) {
    return this.insertBefore(c, null);
  }
  append(...cs) {
    for (const c of cs) this.appendChild(asNode(c));
  }
  prepend(...cs) {
    const first = this.firstChild;
    for (const c of cs) this.insertBefore(asNode(c), first);
  }
  before(...cs) {
    for (const c of cs) this.parentNode.insertBefore(asNode(c), this);
  }
  after(...cs) {
    const next = this.nextSibling;
    for (const c of cs) this.parentNode.insertBefore(asNode(c), next);
  }
  replaceWith(...cs) {
    this.before(...cs);
    this.remove();
  }
  removeChild(c) {
    c.remove();
    return c;
  }
  replaceChild(c, old) {
    old.replaceWith(c);
    return old;
  }
  hasChildNodes() {
    return this.childNodes.length > 0;
  }
  contains(n) {
    for (; n; n = n.parentNode) if (n === this) return true;
    return false;
  }
  get firstChild() {
    return this.childNodes[0] ?? null;
  }
  get lastChild() {
    return this.childNodes[this.childNodes.length - 1] ?? null;
  }
  get parentElement() {
    return this.parentNode instanceof Element_ ? this.parentNode : null;
  }
  get nextSibling() {
    const c = this.parentNode?.childNodes ?? [];
    return c[c.indexOf(this) + 1] ?? null;
  }
  get previousSibling() {
    const c = this.parentNode?.childNodes ?? [];
    return c[c.indexOf(this) - 1] ?? null;
  }
  get childElementCount() {
    return this.children.length;
  }
  get nextElementSibling() {
    const c = this.parentNode?.children ?? [];
    return c[c.indexOf(this) + 1] ?? null;
  }
  get previousElementSibling() {
    const c = this.parentNode?.children ?? [];
    return c[c.indexOf(this) - 1] ?? null;
  }
  get lastElementChild() {
    return this.children[this.children.length - 1] ?? null;
  }
  get nodeType() {
    return this instanceof Text_ ? 3 : this instanceof Comment_ ? 8 : this instanceof Element_ ? 1 : 11;
  }
  get nodeName() {
    return this instanceof Text_ ? "#text" : this instanceof Comment_ ? "#comment" : this.tagName ?? "#fragment";
  }
  get ownerDocument() {
    return globalThis.document;
  }
  getRootNode() {
    let n = this;
    while (n.parentNode) n = n.parentNode;
    return n;
  }
  cloneNode(deep) {
    const n = this instanceof Text_ ? new Text_(this.data) : new this.constructor(this.tagName);
    for (const [k, v] of this.attributes_ ?? []) n.attributes_.set(k, v);
    for (const c of this.classList?.all ?? []) n.classList.add(c);
    if (this.style) Object.assign(n.style, this.style);
    if (deep) for (const c of this.childNodes) n.appendChild(c.cloneNode(true));
    return n;
  }
  // (names, classes and attributes only)
  querySelectorAll(selector) {
    const out = [];
    const walk = (n) => n.childNodes.forEach((c) => (c instanceof Element_ && c.matches(selector) && out.push(c), walk(c)));
    walk(this);
    return out;
  }
  querySelector(selector) {
    return this.querySelectorAll(selector)[0] ?? null;
  }
  replaceChildren(...cs) {
    for (const c of this.childNodes.slice()) c.remove();
    this.append(...cs);
  }
  get children() {
    const c = this.childNodes.filter((c) => c instanceof Element_);
    c.item = (i) => c[i] ?? null;
    return c;
  }
  get firstElementChild() {
    return this.children[0] ?? null;
  }
  get textContent() {
    return this instanceof Text_ || this instanceof Comment_ ? this.data : this.childNodes.map((c) => (c instanceof Comment_ ? "" : c.textContent)).join("");
  }
  set textContent(v) {
    if (this instanceof Text_) this.data = String(v), touched();
    else this.replaceChildren(...(v === "" || v === null ? [] : [new Text_(v)]));
  }
}
const asNode = (c) => (c instanceof Node_ ? c : new Text_(c));
export class Text_ extends Node_ {
  constructor(data) {
    super();
    this.data = String(data);
  }
  get length() {
    return this.data.length;
  }
  get nodeValue() {
    return this.data;
  }
  get wholeText() {
    return this.data;
  }
}
export class Comment_ extends Node_ {
  constructor(data) {
    super();
    this.data = String(data);
  }
  get nodeValue() {
    return this.data;
  }
}
class Fragment_ extends Node_ {}
class EventTarget_ extends Node_ {
  constructor() {
    super();
    this.listeners = {};
  }
  addEventListener(name, f) {
    (this.listeners[name] ??= []).push(typeof f === "function" ? f : (ev) => f.handleEvent(ev));
  }
  removeEventListener(name, f) {
    this.listeners[name] = (this.listeners[name] ?? []).filter((g) => g !== f);
  }
  fire(name, ev) {
    for (const f of this.listeners[name] ?? []) f(ev);
  }
}
const camel = (k) => k.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
export class Element_ extends EventTarget_ {
  constructor(tagName) {
    super();
    this.tagName = tagName ?? defined.get(this.constructor) ?? "HTML-ELEMENT";
    this.attributes_ = new Map();
    this.style = {};
    const classes = new Set();
    this.classList = {
      add: (...xs) => xs.forEach((x) => classes.add(x)),
      contains: (x) => classes.has(x),
      remove: (...xs) => xs.forEach((x) => classes.delete(x)),
      replace: (x, y) => classes.delete(x) && (classes.add(y), true),
      toggle: (x, on = !classes.has(x)) => (on ? classes.add(x) : classes.delete(x), on),
      all: classes,
    };
    Object.defineProperties(this.style, {
      setProperty: { value: (k, v) => (this.style[camel(k)] = String(v)) },
      getPropertyValue: { value: (k) => this.style[camel(k)] ?? "" },
      removeProperty: { value: (k) => delete this.style[camel(k)] },
    });
  }
  setAttribute(k, v) {
    const old = this.getAttribute(k);
    this.attributes_.set(k, String(v));
    if (this.constructor.observedAttributes?.includes(k)) this.attributeChangedCallback(k, old, String(v));
  }
  getAttribute(k) {
    return this.attributes_.get(k) ?? null;
  }
  hasAttribute(k) {
    return this.attributes_.has(k);
  }
  removeAttribute(k) {
    const old = this.getAttribute(k);
    if (old === null) return;
    this.attributes_.delete(k);
    if (this.constructor.observedAttributes?.includes(k)) this.attributeChangedCallback(k, old, null);
  }
  toggleAttribute(k, on = !this.hasAttribute(k)) {
    if (on) this.setAttribute(k, "");
    else this.removeAttribute(k);
    return on;
  }
  get localName() {
    return this.tagName.toLowerCase();
  }
  get id() {
    return this.getAttribute("id") ?? "";
  }
  get className() {
    return [...this.classList.all].join(" ");
  }
  matches(selector) {
    return selector.split(",").some((one) => {
      const m = one.trim().match(/^([\w*-]*)((?:\.[\w-]+)*)((?:\[[\w-]+\])*)$/);
      if (!m) throw new Error("stand-in: selector " + one);
      const [, tag, classes, attributes] = m;
      return (
        (tag === "" || tag === "*" || tag.toLowerCase() === this.localName) &&
        classes.split(".").every((c) => c === "" || this.classList.contains(c)) &&
        (attributes.match(/[\w-]+/g) ?? []).every((a) => this.hasAttribute(a))
      );
    });
  }
  closest(selector) {
    for (let n = this; n instanceof Element_; n = n.parentNode) if (n.matches(selector)) return n;
    return null;
  }
  blur() {}
  hasPointerCapture() {
    return true;
  }
  getClientRects() {
    return [this.getBoundingClientRect()];
  }
  attachShadow() {
    this.shadowRoot = new Node_();
    this.shadowRoot.host = this;
    return this.shadowRoot;
  }
  focus() {}
  setPointerCapture() {}
  releasePointerCapture() {}
  set className(v) {
    this.classList.all.clear();
    for (const c of v.split(" ").filter((x) => x)) this.classList.add(c);
  }
  get innerHTML() {
    return this.childNodes.map(written).join("");
  }
  get outerHTML() {
    return written(this);
  }
  set innerHTML(v) {
    const target = this.tagName === "TEMPLATE" ? (this.content = new Node_()) : this;
    target.replaceChildren(...parseMarkup(v));
  }
  getBoundingClientRect() {
    const b = boxOf(this);
    return rect(b);
  }
}
export class HTMLElement_ extends Element_ {}
export class MathMLElement_ extends Element_ {}
const MATH = "http://www.w3.org/1998/Math/MathML";

function rect(b) {
  return { x: b.x, y: b.y, width: b.w, height: b.h, left: b.x, top: b.y, right: b.x + b.w, bottom: b.y + b.h };
}

// ------------------------------------------------------------------ layout
let version = 0;
let laidOut = -1;
let boxes = new Map();
const touched = () => version++;
/** where the page puts the formula, and how far pieces are kept apart */
export const page = { x: 0, y: 0, gap: 0, ox: 0, oy: 0 };
/** where everything but formulas is */
export const origin = () => ({ x: page.ox, y: page.oy });
export function movePage(x, y, gap, ox = 0, oy = 0) {
  Object.assign(page, { x, y, gap, ox, oy });
  touched();
}
/** everything on the page moves */
export function scrollPage(dx, dy) {
  movePage(page.x + dx, page.y + dy, page.gap, page.ox + dx, page.oy + dy);
}
export function boxOf(node) {
  if (laidOut !== version) {
    boxes = new Map();
    laidOut = version;
  }
  if (node instanceof HTMLElement_ && node.tagName.toLowerCase() !== "math") return { x: page.ox, y: page.oy, w: 0, h: 0 };
  let top = node;
  while (top.parentNode instanceof MathMLElement_) top = top.parentNode;
  if (!boxes.has(top)) {
    // several formulas at the top are put side by side
    let x = page.x;
    const line = top.parentNode instanceof Element_ ? top.parentNode.childNodes : [top];
    const sized = line.map((n) => [n, size(n)]);
    const up = Math.max(0, ...sized.map(([, s]) => s.up));
    for (const [n, s] of sized) {
      place(n, s, x, page.y + up);
      x += s.w + page.gap;
    }
  }
  return boxes.get(node);
}
// the size of a node: width, height above and below the baseline; `at` places
// its children relative to its left end and baseline
function size(n) {
  // (some symbols are wider than others)
  if (n instanceof Text_) return { w: n.data === "" ? 0 : 6 + 4 * (n.data.codePointAt(n.data.length - 1) % 3), up: 12, down: 4, kids: [] };
  const kids = n.childNodes.map((c) => [c, size(c)]);
  const tag = n.tagName.toLowerCase();
  const out = { w: 0, up: 0, down: 0, kids: [] };
  const put = (c, s, dx, dy) => {
    out.kids.push([c, s, dx, dy]);
    out.up = Math.max(out.up, s.up - dy);
    out.down = Math.max(out.down, s.down + dy);
    out.w = Math.max(out.w, dx + s.w);
  };
  if (tag === "mfrac" && kids.length === 2) {
    const [[a, sa], [b, sb]] = kids;
    const w = Math.max(sa.w, sb.w) + 4;
    put(a, sa, (w - sa.w) >> 1, -sa.down - 6);
    put(b, sb, (w - sb.w) >> 1, sb.up + 2);
    out.w = w;
  } else if (tag === "mroot" && kids.length === 2) {
    const [[a, sa], [b, sb]] = kids;
    put(b, sb, 0, -10);
    put(a, sa, sb.w + 8, 0);
  } else if ((tag === "msup" || tag === "msub") && kids.length === 2) {
    const [[a, sa], [b, sb]] = kids;
    put(a, sa, 0, 0);
    put(b, sb, sa.w, tag === "msup" ? -sa.up - sb.down + 4 : sa.down + sb.up - 4);
  } else if (tag === "mtable") {
    const rows = kids.map(([r, s]) => [r, s, r.childNodes.map((c) => [c, size(c)])]);
    const cols = Math.max(0, ...rows.map((r) => r[2].length));
    const ws = Array.from({ length: cols }, (_, i) => Math.max(0, ...rows.map((r) => r[2][i]?.[1].w ?? 0)));
    let y = 0;
    for (const [r, , cells] of rows) {
      const up = Math.max(0, ...cells.map((c) => c[1].up)) + 2;
      const down = Math.max(0, ...cells.map((c) => c[1].down)) + 2;
      const s = { w: ws.reduce((a, b) => a + b + 6, 0), up, down, kids: [] };
      let x = 3;
      cells.forEach(([c, cs], i) => {
        s.kids.push([c, cs, x, 0]);
        x += ws[i] + 6;
      });
      y += up;
      put(r, s, 0, y);
      y += down;
    }
    const shift = y >> 1; // centred on the baseline
    out.kids.forEach((k) => (k[3] -= shift));
    out.up = shift;
    out.down = y - shift;
  } else {
    let x = 0;
    for (const [c, s] of kids) {
      if (x > 0 || s.w > 0) x += out.kids.length > 0 ? page.gap : 0;
      put(c, s, x, 0);
      x += s.w;
    }
    out.w = x;
  }
  return out;
}
function place(n, s, x, y) {
  boxes.set(n, { x, y: y - s.up, w: s.w, h: s.up + s.down });
  for (const [c, cs, dx, dy] of s.kids) place(c, cs, x + dx, y + dy);
}
class Range_ {
  selectNode(n) {
    this.n = n;
  }
  selectNodeContents(n) {
    this.n = n;
  }
  setStart(n) {
    this.n = n;
  }
  setEnd(n) {
    this.n = n;
  }
  getBoundingClientRect() {
    return rect(boxOf(this.n));
  }
  getClientRects() {
    return [this.getBoundingClientRect()];
  }
}

// ------------------------------------------------------------------ markup
const coded = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;");
function written(n) {
  if (n instanceof Text_) return coded(n.data);
  if (n instanceof Comment_) return `<!--${n.data}-->`;
  const tag = n instanceof HTMLElement_ ? n.localName : n.tagName;
  return `<${tag}${[...n.attributes_].map(([k, v]) => ` ${k}="${coded(v)}"`).join("")}>${n.childNodes.map(written).join("")}</${tag}>`;
}
export function parseMarkup(text) {
  const top = new Element_("TOP");
  let at = top;
  const decode = (s) => s.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&amp;/g, "&");
  for (const m of text.matchAll(/<!--([^]*?)-->|<\/([\w-]+)>|<([\w-]+)([^>]*?)(\/?)>|([^<]+)/g)) {
    if (m[0].startsWith("<!--")) at.appendChild(new Comment_(m[1]));
    else if (m[2]) at = at.parentNode;
    else if (m[3]) {
      const e = new MathMLElement_(m[3]);
      for (const a of m[4].matchAll(/([\w-]+)="([^"]*)"/g)) e.setAttribute(a[1], decode(a[2]));
      at.appendChild(e);
      if (!m[5]) at = e;
    } else at.appendChild(new Text_(decode(m[6])));
  }
  const out = top.childNodes.slice();
  out.forEach((c) => c.remove());
  return out;
}
export function element(tag, ...kids) {
  const e = new MathMLElement_(tag);
  e.append(...kids);
  return e;
}

class Document_ extends EventTarget_ {
  constructor() {
    super();
    this.body = new HTMLElement_("BODY");
    this.appendChild(this.body);
  }
  createElement(tag) {
    for (const [of, name] of defined) if (name === tag.toUpperCase()) return new of();
    return new HTMLElement_(tag.toUpperCase());
  }
  createElementNS(ns, tag) {
    return ns === MATH ? new MathMLElement_(tag) : new HTMLElement_(tag.toUpperCase());
  }
  createTextNode(s) {
    return new Text_(s);
  }
  get readyState() {
    return "complete";
  }
  createComment(s) {
    return new Comment_(s);
  }
  createRange() {
    return new Range_();
  }
  createDocumentFragment() {
    return new Fragment_();
  }
}
globalThis.Node = Node_;
globalThis.Element = Element_;
globalThis.Text = Text_;
globalThis.Comment = Comment_;
globalThis.customElements = {
  define(name, of) {
    if (defined.has(of) || [...defined.values()].includes(name.toUpperCase())) throw new Error("NotSupportedError: " + name);
    defined.set(of, name.toUpperCase());
  },
  get: (name) => [...defined].find(([, n]) => n === name.toUpperCase())?.[0],
};
globalThis.DocumentFragment = Fragment_;
globalThis.HTMLElement = HTMLElement_;
globalThis.MathMLElement = MathMLElement_;
globalThis.document = new Document_();
globalThis.window = globalThis;
Object.assign(Node_, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8 });
globalThis.getComputedStyle = () => ({ fontSize: "16px", getPropertyValue: (p) => (p === "font-size" ? "16px" : "") });
