// An editor that only writes down what it is told
const NAMES = {
  BuiltIn: "Nothing Whitespace Whitespaces Operator Fraction Sup Sub Root Table",
  Error: "MissingToken UnknownToken MissingOperator",
  Core: "Variable RoundBrackets",
  String: "String",
  Arithmetic: "Number Add Subtract Multiply Divide Exponent Factorial",
};
export const names = new Map(Object.entries(NAMES).flatMap(([k, v]) => v.split(" ").map((n) => k + "::" + n)).map((n, i) => [n, i + 1]));
export const told = [];
export const has = {
  tree: { name: names.get("BuiltIn::Nothing"), range: { start: 0, end: 0 }, children: { Children: [] } },
  caret: [{ Row: { row_indices: [], start: 0, end: 0 } }],
  input: { values: [] },
};
export default async function init() {}
class Any {}
export class BoxedParseModule extends Any {}
export class ParseModuleCollectionBindings extends Any {
  add_module() {}
}
export class MathParserBindings extends Any {}
export class ParseModulesBindings extends Any {
  get_built_in() {}
  get_syntax_node_name_map() {
    return { values: new Map(Array.from(names, ([k, v]) => [k.split("::"), v])) };
  }
}
export const ParseModulesCreator = new Proxy({}, { get: () => () => new BoxedParseModule() });
export class MathEditorBindings extends Any {
  get_caret() {
    return has.caret;
  }
  get_input_tree() {
    return has.input;
  }
  get_syntax_tree() {
    return this.tree ?? has.tree;
  }
  copy(type) {
    told.push("copy");
    return "copied";
  }
}
for (const m of ["move_caret", "select_with_caret", "remove_at_caret", "insert_at_caret", "select_all", "undo", "redo", "start_selection", "extend_selection", "finish_selection", "paste", "splice_at_range"]) {
  MathEditorBindings.prototype[m] = function (...a) {
    told.push(m + " " + JSON.stringify(a).slice(1, -1));
    (this.told ??= []).push(told.at(-1));
  };
}
