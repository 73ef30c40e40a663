// Stands in for the JavaScript side of the wasm package: every call goes to
// `hfront serve`, which calls the bindings of aftermath-core/web.
const call = (on, m, ...a) => globalThis.editorCall(on, m, a.map((x) => (x instanceof Held ? x.handle() : x)));
export default async function init() {}
class Held {
  constructor(id) {
    this.id = id;
  }
  handle() {
    return this.id;
  }
}
const methods = (of, names) => {
  for (const m of names) of.prototype[m] = function (...a) {
    return call(this.id, m, ...a);
  };
};
export class BoxedParseModule extends Held {}
export class ParseModulesBindings extends Held {
  constructor() {
    super(call(0, "modules"));
  }
  get_built_in() {
    return new BoxedParseModule(call(this.id, "get_built_in"));
  }
  get_syntax_node_name_map() {
    return { values: new Map(call(this.id, "get_syntax_node_name_map")) };
  }
}
export class ParseModulesCreator {}
for (const m of ["core", "arithmetic", "calculus", "collections", "comparison", "function", "logic", "string"]) {
  ParseModulesCreator["make_" + m] = (modules) => new BoxedParseModule(call(0, "make_" + m, modules));
}
export class ParseModuleCollectionBindings extends Held {
  constructor(modules) {
    super(call(0, "collection", modules));
  }
}
methods(ParseModuleCollectionBindings, ["add_module"]);
export class MathParserBindings extends Held {
  constructor(collection) {
    super(call(0, "parser", collection));
  }
}
export class MathEditorBindings extends Held {
  constructor(parser) {
    super(call(0, "editor", parser));
  }
}
methods(MathEditorBindings, ["focus", "unfocus", "move_caret", "select_with_caret", "remove_at_caret", "insert_at_caret", "select_all", "undo", "redo",
  "start_selection", "extend_selection", "finish_selection", "copy", "paste", "open_autocomplete", "finish_autocomplete", "move_in_autocomplete",
  "get_autocomplete", "get_caret", "get_input_tree", "get_syntax_tree", "splice_at_range"]);
