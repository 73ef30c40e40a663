#!/usr/bin/env python3
"""Plants bugs in the frontend:  python3 tools/plantfront.py [id ...]

Every one is (id, property, needs, breaks, edits, demonstration); the
demonstrations run on the frontend bundled with stand-ins for the browser and
for the wasm package.  Kept only if the demonstration passes without the change
and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE=os.path.dirname(os.path.abspath(__file__))
KIT=HERE+"/frontdemo"
B=[]
def b(id,prop,needs,breaks,edits,demo): B.append((id,prop,needs,breaks,edits,demo))
R="src/mathml/renderer/"
b("C29-double-space","C29","the same white space twice in a row inside one token, such as a quoted text","of two equal spaces next to each other only one is put on the page",
 [(R+"rendered-leaf.ts","syntaxTree.symbols.map((v) => document.createTextNode(v))","syntaxTree.symbols\n      .filter((v, i, all) => v.trim() !== \"\" || v !== all[i - 1])\n      .map((v) => document.createTextNode(v))")],
 '''const { math } = show(leaf("String::String", 0, ['"', "a", " ", " ", "b", '"']));
assert.equal(math.textContent, '"a  b"');''')
b("C29-square-root","C29","a root whose index is the digit 2","square roots are shown without their index, so that the row of the index is nowhere on the page",
 [(R+"rendered-root-element.ts","        .slice()\n        .reverse()\n        .map((v) => wrapInMRow(v.getElements()))","        .slice()\n        .reverse()\n        .map((v, i) => {\n          const elements = v.getElements();\n          const isSquare = i > 0 && elements.length === 1 && elements[0].textContent === \"2\";\n          return wrapInMRow(isSquare ? [] : elements);\n        })")],
 '''const root = (i) => rows("BuiltIn::Root", 0, [leaf("Arithmetic::Number", 0, [i]), v(0, "a")], 2);
assert.equal(show(root("3")).math.textContent, "a3");
assert.equal(show(root("2")).math.textContent, "a2");''')
b("C29-shared-elements","C29","two rows that hold an equal symbol at the same offset","what was rendered for a symbol is reused for the next symbol that looks the same, which takes it away from where it was",
 [("src/mathml/renderer.ts","    const element = renderer(syntaxTree, rowIndex, options);\n    return element;","    if (rowIndex !== null && this.lastSymbol !== null && JSON.stringify(this.lastSymbol.syntaxTree) === JSON.stringify(syntaxTree)) {\n      return Object.assign(Object.create(Object.getPrototypeOf(this.lastSymbol)), this.lastSymbol, { rowIndex });\n    }\n    const element = renderer(syntaxTree, rowIndex, options);\n    if (rowIndex !== null && hasSyntaxNodeChildren(syntaxTree, \"Leaf\")) {\n      this.lastSymbol = element;\n    }\n    return element;"),
  ("src/mathml/renderer.ts","  private readonly nameMap: NameMap;","  private readonly nameMap: NameMap;\n  private lastSymbol: RenderedElement<MathMLElement> | null = null;")],
 '''const frac = (a, b) => rows("BuiltIn::Fraction", 0, [v(0, a), v(0, b)]);
assert.equal(show(frac("a", "b")).math.textContent, "ab");
assert.equal(show(frac("a", "a")).math.textContent, "aa");''')
b("C29-operator-spaces","C29","brackets with white space right inside them","the operators of brackets are looked for in front of the white space only, and the rest of a group with spaces is left out",
 [(R+"rendered-container-element.ts","    this.element.setChildren(syntaxTree.children.Children.map((c) => renderer.render(c, null, options)));","    const rendered = syntaxTree.children.Children.map((c) => renderer.render(c, null, options));\n    if (options.stretchyOperators && elementName === \"mrow\" && rendered.length > 2) {\n      // the brackets are as tall as what is between them\n      const [open, ...inner] = rendered;\n      const close = inner.pop()!;\n      const shown = inner.filter((c) => c.syntaxTree.range.end - c.syntaxTree.range.start > 0);\n      this.element.setChildrenCustom(rendered, [open, ...shown, close].flatMap((v) => v.getElements().slice(0, 3)));\n    } else {\n      this.element.setChildren(rendered);\n    }")],
 '''const group = (inner, n) => kids("Core::RoundBrackets", 0, n + 2, [op(0, "("), inner, op(n + 1, ")")]);
assert.equal(show(group(v(1, "a"), 1)).math.textContent, "(a)");
assert.equal(show(group(nothing(1), 0)).math.textContent, "(\\u2b1a)");''')
b("C30-lone-fraction-cell","C30","a table cell with nothing in it but one fraction, root or script","what marks the places in front of and behind a fraction that is alone in a table cell is not on the page, so the caret there is drawn somewhere else",
 [(R+"rendered-table-element.ts","createMathElement(\"mtd\", [wrapInMRow(v.getElements())])","createMathElement(\"mtd\", [wrapInMRow(v.getElements().length > 1 ? v.getElements().filter((c) => c.hasChildNodes()) : v.getElements())])")],
 '''const { result, at } = show(rows("BuiltIn::Table", 0, [v(0, "a"), rows("BuiltIn::Fraction", 0, [v(0, "b"), v(0, "c")])], 2));
const [p, q] = [0, 1].map((k) => result.getViewportSelection({ indices: at([[0, 1]]), start: k, end: k }).rect.x);
const inner = result.getViewportRowBounds(at([[0, 1], [0, 0]]));
assert.ok(p <= inner.x && q >= inner.x + inner.width, `${p} ${q}`);''')
b("C30-next-to-selection","C30","a selection that ends right in front of something tall","a selection is drawn as high as what is next to it",
 [("src/mathml/render-result.ts","selectionRight <= element.syntaxTree.range.start || element.syntaxTree.range.end <= selectionLeft;","selectionRight < element.syntaxTree.range.start || element.syntaxTree.range.end <= selectionLeft;"),
  ("src/mathml/render-result.ts","      if (isIntersecting && children.length > 0) {","      if (isIntersecting && children.length > 0 && element.syntaxTree.range.start < selectionRight) {")],
 '''const { result, at } = show(kids("Arithmetic::Multiply", 0, 3, [v(0, "a"), op(1, "*"), rows("BuiltIn::Fraction", 2, [v(0, "b"), v(0, "c")])]));
const high = result.getViewportSelection({ indices: at([]), start: 0, end: 2 }).rect.height;
assert.equal(high, 16);''')
b("C30-corner-click","C30","a click diagonally off the corner of a row, where another row is nearly as close","rows are passed over when their distance along both axes together is too large",
 [("src/rendering/viewport-coordinate.ts","return Math.sqrt(Math.max(0, dx) ** 2 + Math.max(0, dy) ** 2);","return Math.max(0, dx) + Math.max(0, dy);")],
 '''const { result, at } = show(kids("Arithmetic::Multiply", 0, 3, [v(0, "a"), op(1, "*"), rows("BuiltIn::Fraction", 2, [v(0, "b"), v(0, "c")])]));
const rowsOf = [[], [[2, 0]], [[2, 1]]];
for (let x = -30; x < 80; x++) for (let y = -40; y < 80; y++) {
  const spots = rowsOf.flatMap((p) => Array.from({ length: p.length ? 2 : 4 }, (_, k) => result.getViewportSelection({ indices: at(p), start: k, end: k }).rect));
  const best = Math.min(...spots.map((r) => Math.hypot(x - r.x, y - r.y)));
  const got = result.getLayoutPosition({ x, y });
  const r = result.getViewportSelection({ indices: got.indices, start: got.offset, end: got.offset }).rect;
  const outside = result.getLayoutElement({ x, y }).element.syntaxTree.children.Children?.length === 3;
  if (outside) assert.ok(Math.hypot(x - r.x, y - r.y) <= best + 1e-6, `${x} ${y}`);
}''')
b("C30-adjacent-containers","C30","two fractions (or other containers) side by side","the rows of a container that directly follows another one are looked for in the one before",
 [("src/mathml/render-result.ts","indexOfContainer < childElement.syntaxTree.range.end) {","indexOfContainer <= childElement.syntaxTree.range.end - (childElement.getChildren().length > 0 && childElement.getElements().length > 1 ? 0 : 1)) {")],
 '''const frac = (i, a, b) => rows("BuiltIn::Fraction", i, [v(0, a), v(0, b)]);
const { result, at } = show(kids("Arithmetic::Multiply", 0, 3, [v(0, "x"), frac(1, "a", "b"), frac(2, "c", "d")]));
assert.equal(result.getElement(at([[1, 0]])).getElements()[0].textContent, "a");
assert.equal(result.getElement(at([[2, 0]])).getElements()[0].textContent, "c");''')
b("C30-backward-inner","C30","a selection made from right to left inside a fraction, root or table cell","the selection rectangle of a backwards selection in an inner row starts at its right end",
 [("src/mathml/render-result.ts","        x: isForwards ? start.x : end.x,","        x: isForwards || selection.indices.length > 0 ? start.x : end.x,")],
 '''const row = kids("Arithmetic::Add", 0, 3, [v(0, "a"), op(1, "+"), v(2, "b")]);
const { result, at } = show(rows("BuiltIn::Fraction", 0, [row, v(0, "c")]));
const box = (s, e) => result.getViewportSelection({ indices: at([[0, 0]]), start: s, end: e }).rect;
assert.deepEqual(box(2, 0), box(0, 2));''')
b("C30-long-symbol","C30","a caret inside a number or word behind a symbol of several code units","the place of a caret inside a token is counted in code units instead of symbols",
 [(R+"rendered-leaf.ts","    const graphemeOffset = offset - this.range.start;","    const wide = this.textElements.slice(0, offset - this.range.start).findIndex((v) => v.length > 1);\n    const graphemeOffset = offset - this.range.start + (wide >= 0 ? 1 : 0);")],
 '''const x = (symbols) => {
  const { result, at } = show(leaf("String::String", 0, symbols));
  return symbols.map((_, k) => result.getViewportSelection({ indices: at([]), start: k, end: k }).rect.x);
};
assert.deepEqual(x(["a", "b", "c", "d"]), x(["a", "e\\u0301", "c", "d"]));''')
b("C31-ragged-table","C31","a table with a later row that is longer than the first","a table is only as wide as its first row with cells, and what is behind that is lost",
 [("src/mathml/parsing.ts","children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0);","children.map((c) => c.children.length).find((n) => n > 0) ?? 0;")],
 '''const t = (...r) => read(`<math><mtable>${r.map((c) => `<mtr>${c.map((x) => `<mtd><mi>${x}</mi></mtd>`).join("")}</mtr>`).join("")}</mtable></math>`);
assert.equal(t(["a", "b"], ["c"]), "Table2(a|b|c|)");
assert.equal(t(["a"], ["b", "c"]), "Table2(a||b|c)");''')
b("C31-long-composed","C31","a symbol made of a composed letter and a further combining mark","symbols of more than one code unit are not decomposed",
 [("src/mathml/parsing.ts","    Symbol: value.normalize(\"NFD\"),","    Symbol: value.length > 1 ? value : value.normalize(\"NFD\"),")],
 '''assert.equal(read("<math><mi>\\u00e9</mi></math>"), "e\\u0301");
assert.equal(read("<math><mi>\\u00e9\\u0332</mi></math>"), "\\u00e9\\u0332".normalize("NFD"));''')
b("C31-cell-errors","C31","something unreadable in a table cell","what is wrong inside of table cells is not reported",
 [("src/mathml/parsing.ts","wrapInRow(toMathLayout(c.children[i], errors)) : { values: [] }","wrapInRow(toMathLayout(c.children[i], [])) : { values: [] }")],
 '''assert.ok(read("<math><mfoo></mfoo></math>").endsWith("!1"));
assert.ok(read("<math><mtable><mtr><mtd><mfoo></mfoo></mtd></mtr></mtable></math>").endsWith("!1"));''')
b("C31-inner-space","C31","white space between the characters of one token","white space inside of a text is dropped",
 [("src/mathml/parsing.ts","return (element.textContent + \"\").trim();","return (element.textContent + \"\").trim().replace(/\\s/g, \"\");")],
 '''assert.equal(read("<math><mtext>ab</mtext></math>"), '" a b "');
assert.equal(read("<math><mtext>a b</mtext></math>"), '" a   b "');''')
b("C31-index-of-root","C31","a root whose index has several symbols","an index of more than one element is put under the root and the radicand becomes the index",
 [("src/mathml/parsing.ts","      root([wrapInRow(toMathLayout(children[1], errors)), wrapInRow(toMathLayout(children[0], errors))])","      root(\n        (tagIs(children[1], \"mrow\") ? children : [...children].reverse()).map((c) => wrapInRow(toMathLayout(c, errors))) as [InputRow, InputRow]\n      )")],
 '''assert.equal(read("<math><mroot><mi>a</mi><mn>3</mn></mroot></math>"), "Root2(3|a)");
assert.equal(read("<math><mroot><mi>a</mi><mrow><mi>n</mi><mo>+</mo><mn>1</mn></mrow></mroot></math>"), "Root2(n + 1|a)");''')
b("C31-empty-base","C31","sub- and superscripts on both sides of an empty base, such as for isotopes","a munderover whose base is empty loses what is above it",
 [("src/mathml/parsing.ts","      expectNChildren(element, 3, errors) ?? [\n        ...wrapInRow(toMathLayout(children[0], errors)).values,\n        sub(wrapInRow(toMathLayout(children[1], errors))),\n        sup(wrapInRow(toMathLayout(children[2], errors))),\n      ]\n    );\n  } else if (tagIs(element, \"mtable\")) {","      expectNChildren(element, 3, errors) ?? [\n        ...wrapInRow(toMathLayout(children[0], errors)).values,\n        sub(wrapInRow(toMathLayout(children[1], errors))),\n        ...(children[0].children.length > 0 || children[0].textContent ? [sup(wrapInRow(toMathLayout(children[2], errors)))] : []),\n      ]\n    );\n  } else if (tagIs(element, \"mtable\")) {")],
 '''const u = (x) => read(`<math><munderover>${x}<mi>b</mi><mi>c</mi></munderover></math>`);
assert.equal(u("<mi>a</mi>"), "a Sub1(b) Sup1(c)");
assert.equal(u("<mrow></mrow>"), "Sub1(b) Sup1(c)");''')
b("C32-plain-first","C32","a clipboard that holds both a formula and plain text","a formula on the clipboard is passed over when there is plain text as well",
 [("src/component/math-editor.ts","      if (json) {","      if (json && !ev.clipboardData.getData(\"text/plain\")) {")],
 '''const p = page();
const paste = (d) => p.fire(p.field, "paste", { clipboardData: { getData: (k) => d[k] ?? "" } });
paste({ "application/json": "j" });
paste({ "application/json": "j", "text/plain": "t" });
assert.deepEqual(p.told, ['paste "j","JsonInputTree"', 'paste "j","JsonInputTree"']);''')
b("C32-queue-order","C32","two things typed before the first of them is dealt with","what was typed last is dealt with first",
 [("src/component/math-editor.ts","      const task = this.tasks.shift()!;","      const task = this.tasks.pop()!;")],
 '''const p = page();
const type = (data) => p.fire(p.field, "beforeinput", { inputType: "insertText", data });
type("a"); p.tick(); type("b"); type("c"); p.tick();
assert.deepEqual(p.told, ["a", "b", "c"].map((x) => `insert_at_caret ["${x}"]`));''')
b("C32-cut-order","C32","cutting a selection","what is cut is copied after it was removed",
 [("src/component/math-editor.ts","      handleCopy(ev.clipboardData);\n      ev.preventDefault();\n      this.mathEditor.remove_at_caret(\"Range\", \"Char\");","      ev.preventDefault();\n      this.mathEditor.remove_at_caret(\"Range\", \"Char\");\n      handleCopy(ev.clipboardData);")],
 '''const p = page();
p.fire(p.field, "cut", { clipboardData: { setData() {} } });
assert.deepEqual(p.told, ["copy", 'remove_at_caret "Range","Char"']);''')
b("C32-delete-word","C32","deleting the word behind the caret","deleting a word forwards deletes backwards",
 [("src/component/math-editor.ts","ev.inputType === \"deleteContentBackward\" || ev.inputType === \"deleteWordBackward\")","ev.inputType === \"deleteContentBackward\" || ev.inputType.startsWith(\"deleteWord\"))")],
 '''const p = page();
for (const inputType of ["deleteContentBackward", "deleteWordBackward", "deleteContentForward", "deleteWordForward"]) p.fire(p.field, "beforeinput", { inputType, data: null });
p.tick();
assert.deepEqual(p.told, ["Left", "Left", "Right", "Right"].map((d) => `remove_at_caret "${d}","Char"`));''')
b("C32-same-attribute","C32","giving the attribute the value it already has, after the document was edited","setting the attribute to what it was leaves the edited document",
 [("src/component/math-editor.ts","    if (name === \"mathml\") {","    if (name === \"mathml\" && newValue === oldValue) {\n      // nothing to do\n    } else if (name === \"mathml\") {")],
 '''const p = page();
const set = () => p.me.setAttribute("mathml", "<math><mi>a</mi></math>");
set(); const n = p.told.length; assert.equal(n, 1);
p.fire(p.field, "beforeinput", { inputType: "insertText", data: "a" }); p.tick();
set();
assert.equal(p.told.length, 3);''')
b("C32-second-finger","C32","a second finger that moves while the first one is down","every finger on the page extends the selection",
 [("src/component/math-editor.ts","    container.addEventListener(\"pointermove\", (e) => {\n      if (!e.isPrimary) return;","    container.addEventListener(\"pointermove\", (e) => {")],
 '''const p = page();
const fire = (e, isPrimary) => p.fire(p.math, e, { isPrimary, clientX: 0, clientY: 0 });
fire("pointerdown", true); fire("pointermove", true); fire("pointermove", false);
assert.equal(p.told.length, 2);''')
b("C32-caret-side","C32","a selection made from right to left that ends at the start of the row","the caret is drawn at the right end of a backwards selection that reaches the start of its row",
 [("src/component/math-editor.ts","        const isForwards = range.start <= range.end;","        const isForwards = range.start <= range.end || range.end === 0;")],
 '''const p = page();
p.has.tree = kids("Arithmetic::Add", 0, 3, [v(0, "a"), op(1, "+"), v(2, "b")]);
const left = (start, end) => {
  p.has.caret = [{ Row: { row_indices: [], start, end } }];
  p.me.updateInput();
  return p.find((n) => n.classList?.contains("caret"))[0].style.left;
};
assert.equal(left(3, 1), left(1, 1));
assert.equal(left(3, 0), left(0, 0));''')
b("C32-grid-box","C32","a selection of three or more cells of a table","of the cells selected in a table the last one is left out of what is highlighted",
 [("src/component/math-editor.ts","[range.index, Math.max(range.range.end - 1, range.range.start)],","[range.index, Math.max(range.range.end - (range.range.end - range.range.start > 2 ? 2 : 1), range.range.start)],")],
 '''const p = page();
p.has.tree = rows("BuiltIn::Table", 0, [v(0, "a"), v(0, "b"), v(0, "c")], 3);
const wide = (start, end) => {
  p.has.caret = [{ Grid: { row_indices: [], index: 0, range: { start, end } } }];
  p.me.updateInput();
  return parseFloat(p.find((n) => n.classList?.contains("caret-selection"))[0].style.width);
};
assert.ok(wide(0, 3) > wide(0, 2));''')
b("C35-text-behind","C35","a marked formula with text (not an element) right behind it","an editor is put in front of the next element, so behind the text that follows the formula",
 [("src/main.ts","  el.replaceWith(editor);","  const next = el.nextElementSibling;\n  el.parentElement!.insertBefore(editor, next);\n  el.remove();")],
 '''const all = await load('<p>a <math data-editor=""><mi>x</mi></math> b</p>');
assert.equal(all.filter((n) => n.nodeName === "#text" || n instanceof F.Text_ || n instanceof F.MathEditor).map((n) => n.data ?? "*").join(""), "a * b");''')
b("C35-nested-mark","C35","a page with two or more marked formulas that are in different elements","of the marked formulas only those next to the first one become editors",
 [("src/main.ts","document.querySelectorAll(\"math[data-editor]\").forEach((el) => {","document.querySelectorAll(\"math[data-editor]\").forEach((el, i, list) => {\n  if (i > 0 && el.parentElement?.parentElement !== list[0].parentElement?.parentElement && el.parentElement !== document.body) return;")],
 '''const all = await load('<p><math data-editor=""><mi>x</mi></math></p><div><p><math data-editor=""><mi>y</mi></math></p></div>');
assert.equal(all.filter((n) => n instanceof F.MathEditor).length, 2);''')
b("C35-same-formula","C35","two editors on a page that come to hold the same formula one right after the other","an editor whose formula is the one that was shown last, by any editor, does not show it",
 [("src/component/math-editor.ts","    this.mathMlElement.replaceChildren(...mathMlElements);\n","    const shown = JSON.stringify(this.syntaxTree);\n    if (shown !== lastShown || this.mathMlElement.childNodes.length > 0) {\n      this.mathMlElement.replaceChildren(...mathMlElements);\n    }\n    lastShown = shown;\n"),
  ("src/component/math-editor.ts","export class MathEditor extends HTMLElement {","let lastShown = \"\";\n\nexport class MathEditor extends HTMLElement {")],
 '''F.has.tree = v(0, "x");
const one = page(), two = page();
assert.equal(one.math.textContent, "x");
assert.equal(two.math.textContent, "x");''')
b("C35-one-clipboard","C35","text typed into two editors right after each other, before the first text was handled","texts that wait to be handled are handled by the editor that got the last one",
 [("src/component/math-editor.ts","  tasks: (() => void)[] = [];\n  constructor() {}","  get tasks(): (() => void)[] {\n    return waiting;\n  }\n  constructor() {}"),
  ("src/component/math-editor.ts","class RenderTaskQueue {","const waiting: (() => void)[] = [];\nlet active: MathEditor | null = null;\n\nclass RenderTaskQueue {"),
  ("src/component/math-editor.ts","      this.renderTaskQueue.add(() => {","      active = this;\n      this.renderTaskQueue.add(() => {"),
  ("src/component/math-editor.ts","          MathEditorHelper.insertAtCaret(this.mathEditor, characters);","          MathEditorHelper.insertAtCaret((active ?? this).mathEditor, characters);")],
 '''const one = page(), two = page();
one.fire(one.field, "beforeinput", { inputType: "insertText", data: "a" });
two.fire(two.field, "beforeinput", { inputType: "insertText", data: "b" });
one.tick(); two.tick();
const count = (p) => (p.me.mathEditor.told ?? []).filter((x) => x.startsWith("insert_at_caret")).length;
assert.deepEqual([count(one), count(two)], [1, 1]);''')
b("C37-behind-the-end","C37","an address behind the end of a row that is nothing but one container","an address that is not in the document is answered with the rows of the container in front of it",
 [("src/core/index.ts","    assert(node.range.start <= indexOfContainer && indexOfContainer < node.range.end);\n\n    const childNode","    assert(node.range.start <= indexOfContainer && indexOfContainer <= node.range.end);\n\n    const childNode")],
 '''const tree = rows("BuiltIn::Fraction", 0, [v(0, "a"), v(0, "b")]);
assert.equal(F.getNodeWithRowIndices(tree, new F.RowIndices([[0, 1]])).children.Leaf.symbols[0], "b");
assert.throws(() => F.getNodeWithRowIndices(tree, new F.RowIndices([[1, 1]])));''')
b("C37-row-too-far","C37","the row behind the last one of a container with exactly two rows","an address with a row that a fraction or root does not have is answered with its last row",
 [("src/core/index.ts","childNode.children.NewRows.values[indexOfRow];","childNode.children.NewRows.values[indexOfRow] ?? (childNode.children.NewRows.width === 2 ? childNode.children.NewRows.values.at(-1) : undefined);")],
 '''const tree = rows("BuiltIn::Root", 0, [v(0, "a"), v(0, "b")], 2);
assert.throws(() => F.getNodeWithRowIndices(tree, new F.RowIndices([[0, 2]])));''')
b("C37-piece-behind","C37","a page whose row is nothing but one container, asked for the row of a container behind it","on the page an address behind the only container of a row leads into that container",
 [("src/mathml/render-result.ts","      assert(element.syntaxTree.range.start <= indexOfContainer && indexOfContainer < element.syntaxTree.range.end);","      assert(element.syntaxTree.range.start <= indexOfContainer);")],
 '''const { result, at } = show(rows("BuiltIn::Fraction", 0, [v(0, "a"), v(0, "b")]));
assert.throws(() => result.getElement(at([[1, 0]])));''')
b("C31-annotations","C31","a formula with more than one annotation","of a formula with several annotations the first annotation is read instead of the formula",
 [("src/mathml/parsing.ts","    return toMathLayout(children[0], errors);","    return toMathLayout(children[Math.max(0, children.length - 2)], errors);")],
 '''const one = "<annotation encoding='x'>t</annotation>";
assert.equal(read(`<math><semantics><mi>a</mi>${one}</semantics></math>`), "a");
assert.equal(read(`<math><semantics><mi>a</mi>${one}${one}</semantics></math>`), "a");''')
b("C31-empty-row","C31","a table with a row that has no cells","rows without cells are left out of a table instead of being filled up",
 [("src/mathml/parsing.ts","    const tableCells = children.flatMap((c) =>","    const tableCells = children.filter((c) => c.children.length > 0 || tableWidth === 0).flatMap((c) =>")],
 '''assert.equal(read("<math><mtable><mtr><mtd><mi>a</mi></mtd></mtr><mtr><mtd></mtd></mtr></mtable></math>"), "Table1(a|)");
assert.equal(read("<math><mtable><mtr><mtd><mi>a</mi></mtd></mtr><mtr></mtr></mtable></math>"), "Table1(a|)");''')
b("C30-long-word","C30","a caret inside a token of more than eight symbols","long tokens are one piece of text, so that every caret inside of one is drawn at its end",
 [(R+"rendered-leaf.ts","syntaxTree.symbols.map((v) => document.createTextNode(v))","(syntaxTree.symbols.length > 8 ? [syntaxTree.symbols.join(\"\")] : syntaxTree.symbols).map((v) =>\n      document.createTextNode(v)\n    )")],
 '''for (const n of [3, 8, 9, 12]) {
  const { result, at } = show(leaf("Arithmetic::Number", 0, Array.from({ length: n }, () => "1")));
  const x = Array.from({ length: n + 1 }, (_, k) => result.getViewportSelection({ indices: at([]), start: k, end: k }).rect.x);
  assert.equal(new Set(x).size, n + 1);
}''')
b("C32-typed-word","C32","a word and the space behind it typed in one go, as keyboards on phones do","the space behind a word that is typed at once is lost",
 [("src/component/math-editor.ts","const characters = unicodeSplit(data);","const characters = unicodeSplit(data.length > 1 ? data.trim() : data);")],
 '''const p = page();
const type = (data) => p.fire(p.field, "beforeinput", { inputType: "insertText", data });
type(" "); type("ab "); p.tick();
assert.deepEqual(p.told, ['insert_at_caret [" "]', 'insert_at_caret ["a","b"," "]']);''')
b("C29-one-cell","C29","a table with a single cell","a table with one cell is shown as what is in the cell",
 [(R+"rendered-table-element.ts","    this.element.setChildrenCustom(tableCells, children);","    if (tableCells.length === 1) {\n      this.element = new RenderedMathML(createMathElement(\"mrow\", []));\n    }\n    this.element.setChildrenCustom(tableCells, tableCells.length === 1 ? tableCells[0].getElements() : children);")],
 '''const tables = (...cells) => { const { math } = show(rows("BuiltIn::Table", 0, cells, 1)); return JSON.stringify([...walk(math)]); };
function* walk(e) { for (const c of e.children ?? []) { yield c.tagName; yield* walk(c); } }
assert.ok(tables(v(0, "a"), v(0, "b")).includes("mtd"));
assert.ok(tables(v(0, "a")).includes("mtd"));''')
b("C32-fourth-click","C32","clicking a fourth time at the same place","every even click of a series selects like a double click",
 [("src/component/math-editor.ts","      if (clickCount === 2) {","      if (clickCount % 2 === 0) {")],
 """const p = page();
p.fire(p.math, "pointerdown", { isPrimary: true, clientX: 0, clientY: 0 });
const n = p.told.length;
p.fire(p.math, "mousedown", { detail: 1, clientX: 0, clientY: 0 });
assert.equal(p.told.length, n);
p.fire(p.math, "mousedown", { detail: 4, clientX: 0, clientY: 0 });
assert.equal(p.told.length, n);""")
b("C32-caps-undo","C32","undoing while caps lock is on, or with a keyboard layout of another script","undo goes by the letter instead of by the key",
 [("src/component/math-editor.ts","ev.code === \"KeyZ\" && ev.ctrlKey","ev.key === \"z\" && ev.ctrlKey")],
 """const p = page();
p.fire(p.field, "keydown", { key: "z", code: "KeyZ", ctrlKey: true });
p.fire(p.field, "keydown", { key: "Z", code: "KeyZ", ctrlKey: true });
assert.deepEqual(p.told.map((x) => x.trim()), ["undo", "undo"]);""")
b("C32-removed-formula","C32","taking the attribute with the formula away from an editor","taking the formula away from an editor leaves it in",
 [("src/component/math-editor.ts","    if (name === \"mathml\") {","    if (name === \"mathml\" && newValue !== null) {")],
 """const p = page();
p.me.setAttribute("mathml", "<math><mi>a</mi></math>");
const n = p.told.length;
p.me.attributeChangedCallback("mathml", "<math><mi>a</mi></math>", null);
assert.equal(p.told.length, n + 1);""")
b("C32-partly-read","C32","giving an editor a formula that has something in it that has no meaning","a formula that can not be read completely is not shown at all",
 [("src/component/math-editor.ts","        console.warn(\"Parsed input has errors\", parsedInput.errors);","        console.warn(\"Parsed input has errors\", parsedInput.errors);\n        return;")],
 """const p = page();
p.me.setAttribute("mathml", "<math><mi>a</mi></math>");
p.me.setAttribute("mathml", "<math><mi>a</mi><mfoo></mfoo></math>");
assert.equal(p.told.filter((x) => x.startsWith("splice")).length, 2);""")
b("C31-extra-child","C31","a fraction, root or script with more children than it takes","what is too much in a fraction, root or script is dropped without a word",
 [("src/mathml/parsing.ts","  if (element.children.length != n) {","  if (element.children.length < n) {")],
 """const f = (n) => read(`<math><mfrac>${"<mi>a</mi>".repeat(n)}</mfrac></math>`);
assert.ok(f(1).endsWith("!1"));
assert.ok(!f(2).endsWith("!1"));
assert.ok(f(3).endsWith("!1"));""")
b("C32-composed-text","C32","typing an accented letter that is made of a letter and combining marks","typed text is composed before it is given to the editor",
 [("src/component/math-editor.ts","const characters = unicodeSplit(data);","const characters = unicodeSplit(data.normalize());")],
 """const p = page();
const type = (data) => p.fire(p.field, "beforeinput", { inputType: "insertText", data });
type("a"); type("e\\u0301"); p.tick();
assert.deepEqual(p.told, ['insert_at_caret ["a"]', 'insert_at_caret ["e\\u0301"]']);""")
b("C32-lost-pointer","C32","a pointer that is taken away by the browser while it is down","a cancelled gesture is not finished",
 [("src/component/math-editor.ts","      isPointerDown = false;\n\n      const newPosition = getPointerPosition(e);\n      if (newPosition) {\n        this.mathEditor.extend_selection(newPosition);\n      }\n      this.mathEditor.finish_selection();","      const newPosition = getPointerPosition(e);\n      if (newPosition) {\n        this.mathEditor.extend_selection(newPosition);\n      }\n      this.mathEditor.finish_selection();")],
 """const p = page();
const fire = (e) => p.fire(p.math, e, { isPrimary: true, clientX: 0, clientY: 0 });
fire("pointerdown"); fire("pointerup"); fire("pointermove");
let n = p.told.length;
fire("pointerdown"); fire("pointercancel");
n = p.told.length; fire("pointermove");
assert.equal(p.told.length, n);""")
b("C37-script-of-fraction","C37","a script behind a fraction or root with nothing between them","in the syntax tree the address of a script that stands right behind a container leads into that container",
 [("src/core/index.ts","    for (let childElement of node.children.Children) {","    const direct = node.children.Children.find((c) => hasSyntaxNodeChildren(c, \"NewRows\"));\n    if (direct && hasSyntaxNodeChildren(direct, \"NewRows\")) {\n      return direct;\n    }\n    for (let childElement of node.children.Children) {")],
 '''const frac = rows("BuiltIn::Fraction", 0, [v(0, "a"), v(0, "b")]);
const script = (base) => kids("BuiltIn::Sup", 0, 2, [base, rows("BuiltIn::Operator", 1, [v(0, "c")])]);
const leafAt = (t, i) => F.getNodeWithRowIndices(t, new F.RowIndices(i)).children.Leaf.symbols.join("");
assert.equal(leafAt(script(v(0, "x")), [[1, 0]]), "c");
assert.equal(leafAt(script(frac), [[1, 0]]), "c");''')
b("C29-lone-unknown","C29","something that cannot be read alone in its row inside a container","what cannot be read is not marked as an error if it is alone in its cell",
 [("src/mathml/renderer.ts","        return new TextMathMLElement(syntaxTree, rowIndex, \"merror\");","        return new TextMathMLElement(syntaxTree, rowIndex, rowIndex === null ? \"merror\" : \"mtext\");")],
 '''const bad = leaf("Error::UnknownToken", 0, ["?"]);
const marks = (t) => JSON.stringify(shape(show(t).math)).split("merror").length - 1;
assert.equal(marks(rows("BuiltIn::Fraction", 0, [bad, v(0, "b")])), marks(bad));
assert.ok(marks(bad) > 0);''')
b("C29-deep-root","C29","a root whose radicand holds another root","of a root right inside a root the index is not shown",
 [(R+"rendered-root-element.ts","    const children = syntaxTree.children.NewRows.values.map((c, rowIndex) => renderer.render(c, [indexOfContainer, rowIndex]));","    const children = syntaxTree.children.NewRows.values.map((c, rowIndex) => renderer.render(c, [indexOfContainer, rowIndex]));\n    children.forEach((c) => {\n      if (c instanceof RootMathMLElement) {\n        c.element.element.lastElementChild?.replaceChildren();\n      }\n    });")],
 '''const root = (x) => rows("BuiltIn::Root", 0, [leaf("Arithmetic::Number", 0, ["3"]), x], 2);
assert.equal(show(root(v(0, "a"))).math.textContent, "a3");
assert.equal(show(root(root(v(0, "a")))).math.textContent, "a33");''')
b("C30-missing-in-cell","C30","a place in a row that holds nothing but an incomplete bracket or operator","the place at something missing is at its left edge if that is at the start of its row",
 [(R+"rendered-missing.ts","    const x = (boundingBox.left + boundingBox.right) / 2;","    const x = this.syntaxTree.range.start === 0 ? boundingBox.left - 60 : (boundingBox.left + boundingBox.right) / 2;")],
 '''const { result, at } = show(kids("Arithmetic::Multiply", 0, 2, [kids("Error::MissingToken", 0, 0, []), op(0, "*"), v(1, "b")]));
const spot = (k) => result.getViewportSelection({ indices: at([]), start: k, end: k }).rect.x;
const left = result.getViewportRowBounds(at([])).x;
assert.ok(spot(0) >= left - 1, `${spot(0)} ${left}`);''')
b("C30-even-widths","C30","a place inside an operator of several symbols, such as lim, that are not all equally wide","the places inside an operator are spread evenly over it",
 [(R+"rendered-symbol-element.ts","      x = this.textElement.getViewportXPosition(offset).x;","      const { start, end } = this.syntaxTree.range;\n      x = boundingRect.left + (boundingRect.width * (offset - start)) / (end - start);")],
 """const { result, at } = show(leaf("BuiltIn::Operator", 0, ["a", "b", "c"]));
const x = [0, 1, 2, 3].map((k) => result.getViewportSelection({ indices: at([]), start: k, end: k }).rect.x);
assert.ok(x[2] - x[1] > x[1] - x[0], String(x));""")
b("C30-above-viewport","C30","a selection of a part of a formula that is scrolled out at the top of the window","the box of a selection above the top of the window reaches down to the top of the window",
 [("src/mathml/render-result.ts","      bottom: -Infinity,","      bottom: 0,")],
 """const { result, at } = show(kids("Arithmetic::Add", 0, 3, [v(0, "a"), op(1, "+"), v(2, "b")]));
const high = () => result.getViewportSelection({ indices: at([]), start: 0, end: 2 }).rect.height;
const was = high();
F.movePage(0, -200, 0);
assert.equal(high(), was);""")
b("C30-nearest-first","C30","a click between two rows of different containers, where a row further down the document is nearer","the search for the nearest place ends with the first row that is no nearer than the best so far",
 [("src/mathml/render-result.ts","      if (ViewportMath.distanceToRectangle(position, element.getBounds()) > closest.distance) {\n        continue;","      if (ViewportMath.distanceToRectangle(position, element.getBounds()) > closest.distance) {\n        break;")],
 """const frac = (k, a, b) => rows("BuiltIn::Fraction", k, [v(0, a), v(0, b)]);
const { result, at } = show(kids("Arithmetic::Add", 0, 3, [frac(0, "a", "b"), op(1, "+"), frac(2, "c", "d")]));
for (const path of [[], [[0, 0]], [[0, 1]], [[2, 0]], [[2, 1]]]) {
  for (let k = 0; k <= (path.length ? 1 : 3); k++) {
    const r = result.getViewportSelection({ indices: at(path), start: k, end: k }).rect;
    const got = result.getLayoutPosition({ x: r.x, y: r.y });
    const s = result.getViewportSelection({ indices: got.indices, start: got.offset, end: got.offset }).rect;
    assert.ok(Math.hypot(s.x - r.x, s.y - r.y) < 1e-6, `${JSON.stringify(path)} ${k}`);
  }
}
for (let x = -10; x < 80; x++) for (let y = -10; y < 60; y++) {
  if (result.getLayoutElement({ x, y }).element.syntaxTree.children.Children?.length !== 3) continue;
  const got = result.getLayoutPosition({ x, y });
  const s = result.getViewportSelection({ indices: got.indices, start: got.offset, end: got.offset }).rect;
  const best = Math.min(...[[[0, 0]], [[0, 1]], [[2, 0]], [[2, 1]]].flatMap((p) => [0, 1].map((k) => { const r = result.getViewportSelection({ indices: at(p), start: k, end: k }).rect; return Math.hypot(r.x - x, r.y - y); })));
  assert.ok(Math.hypot(s.x - x, s.y - y) <= best + 1e-6, `${x} ${y}`);
}""")
def run(c,**k): return subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
only=sys.argv[1:]
OUT=os.environ.get("OUT") or os.path.dirname(HERE)+"/seeded"; os.makedirs(OUT,exist_ok=True)
for id,prop,needs,breaks,edits,demo in B:
    if only and id not in only: continue
    w=tempfile.mkdtemp(prefix="plant_"); copy=w+"/repo"
    try:
        subprocess.check_call(["git","clone","-q","/repo",copy])
        st=w+"/demo"; os.makedirs(st)
        for f in ["demo.sh","build.mjs","pkg.mjs","entry.mjs"]: shutil.copy(KIT+"/"+f,st)
        shutil.copy(os.path.dirname(HERE)+"/harness/frontend/dom.mjs",st)
        open(st+"/demo.mjs","w").write(open(KIT+"/kit.mjs").read()+"\n"+demo+"\n")
        os.chmod(st+"/demo.sh",0o755)
        p=run(["bash",st+"/demo.sh"],cwd=copy)
        if p.returncode: print(id,"fails before:",p.stdout[-1500:]); continue
        bad=False
        for f,o,n in edits:
            t=open(copy+"/"+f).read()
            if t.count(o)!=1: print(id,"places",t.count(o),f,o); bad=True; break
            open(copy+"/"+f,"w").write(t.replace(o,n))
        if bad: continue
        diff=subprocess.check_output(["git","-C",copy,"diff"],text=True)
        p=run(["bash",st+"/demo.sh"],cwd=copy)
        if p.returncode==0: print(id,"passes with the change"); continue
        if "error" in p.stdout.lower() and "Assertion" not in p.stdout: print(id,"?",p.stdout[-600:])
        shutil.rmtree(OUT+"/"+id,ignore_errors=True); shutil.copytree(st,OUT+"/"+id)
        open(OUT+"/"+id+"/patch.diff","w").write(diff)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(OUT+"/"+id+"/meta.json","w"),indent=1)
        print(id,"planted",[l for l in p.stdout.split("\n") if "rror" in l][:1])
    finally: shutil.rmtree(w,ignore_errors=True)
