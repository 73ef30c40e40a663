import assert from "node:assert";
console.log = console.warn = () => {};
const F = await import(process.argv[2]);
// syntax trees
const node = (name, start, end, children) => ({ name: F.names.get(name), range: { start, end }, value: [], children });
const leaf = (name, start, symbols) => node(name, start, start + symbols.length, { Leaf: { node_type: "Leaf", symbols } });
const kids = (name, start, end, Children) => node(name, start, end, { Children });
const rows = (name, start, values, width = 1) => node(name, start, start + 1, { NewRows: { values, width } });
const v = (start, s) => leaf("Core::Variable", start, [s]);
const op = (start, s) => leaf("BuiltIn::Operator", start, [s]);
const nothing = (at = 0) => kids("BuiltIn::Nothing", at, at, []);
function show(tree) {
  const result = new F.MathMLRenderer(F.names).renderAll({ value: tree, errors: null });
  const math = new F.HTMLElement_("math");
  document.body.replaceChildren(math);
  math.replaceChildren(...result.getElement(F.RowIndices.default()).getElements());
  return { result, math, at: (p) => new F.RowIndices(p) };
}
const shape = (n) => (n instanceof F.Text_ ? n.data : n.tagName === "mphantom" ? "" : `${n.tagName.toLowerCase()}(${n.childNodes.map(shape).join("")})`);
// reading MathML
const read = (markup) => {
  const r = F.fromElement(F.parseMarkup(markup)[0]);
  const row = (x) => x.values.map((n) => (n.Symbol !== undefined ? n.Symbol : `${n.Container[0]}${n.Container[1].width}(${n.Container[1].values.map(row).join("|")})`)).join(" ");
  return row(r.root) + (r.errors.length ? " !" + r.errors.length : "");
};
// the component
function page() {
  const timers = [];
  globalThis.setTimeout = (f) => timers.push(f);
  const me = new F.MathEditor();
  document.body.replaceChildren(me);
  me.connectedCallback();
  const all = (n, ok) => [...(ok(n) ? [n] : []), ...(n.childNodes ?? []).flatMap((c) => all(c, ok))];
  const find = (ok) => all(me.shadowRoot, ok);
  const field = find((n) => n.tagName === "TEXTAREA")[0];
  const math = find((n) => n.tagName?.toLowerCase() === "math")[0];
  F.told.length = 0;
  const fire = (of, e, x = {}) => {
    for (let n = of; n; n = n.parentNode ?? n.host) n.fire?.(e, { isPrimary: true, pointerId: 1, detail: 1, preventDefault() {}, key: "", code: "", ctrlKey: false, ...x });
  };
  return { me, math, field, find, timers, fire, told: F.told, has: F.has, tick: () => timers.splice(0).forEach((f) => f()) };
}
// a page with formulas on it
async function load(markup) {
  document.body.replaceChildren(...F.parseMarkup(markup));
  await F.main();
  await new Promise((f) => setImmediate(f));
  const all = (n) => [n, ...(n.childNodes ?? []).flatMap(all)];
  return all(document.body);
}
