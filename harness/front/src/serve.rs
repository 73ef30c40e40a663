//! Serves the bindings of aftermath-core/web to the frontend: one call per
//! line, one answer per line. Objects are handed out as numbers.
use aftermath_core::math_editor::MathEditorBindings;
use aftermath_core::math_parser::*;
use hcommon::*;
use parser::parse_module::BoxedParseModule;
use std::io::{BufRead, Write};
use wasm_bindgen::JsValue;

enum Object {
    Modules(ParseModulesBindings),
    Module(Option<BoxedParseModule>),
    Collection(Option<ParseModuleCollectionBindings>),
    Parser(MathParserBindings),
    Editor(Box<MathEditorBindings>),
}
use Object::*;

fn arg<T: serde::de::DeserializeOwned>(v: &Value, i: usize) -> T {
    serde_json::from_value(v["a"].get(i).cloned().unwrap_or(Value::Null)).unwrap_or_else(|e| panic!("HARNESS: argument {i} of {v}: {e}"))
}
fn thrown(e: JsValue) -> String {
    e.0.as_str().map(|x| x.to_string()).unwrap_or_else(|| e.0.to_string())
}
fn given(v: &Value, i: usize) -> JsValue {
    JsValue(v["a"][i].clone())
}

fn on_editor(ed: &mut MathEditorBindings, v: &Value) -> Result<Value, String> {
    let nothing = |_: ()| Ok(Value::Null);
    let value = |x: Result<JsValue, JsValue>| x.map(|x| x.0).map_err(thrown);
    match st(&v["m"]) {
        "focus" => nothing(ed.focus()),
        "unfocus" => nothing(ed.unfocus()),
        "move_caret" => nothing(ed.move_caret(arg(v, 0), arg(v, 1))),
        "select_with_caret" => Ok(json!(ed.select_with_caret(arg(v, 0), arg(v, 1)))),
        "remove_at_caret" => Ok(json!(ed.remove_at_caret(arg(v, 0), arg(v, 1)))),
        "insert_at_caret" => ed.insert_at_caret(given(v, 0)).map(|_| Value::Null).map_err(thrown),
        "select_all" => nothing(ed.select_all()),
        "undo" => Ok(json!(ed.undo())),
        "redo" => Ok(json!(ed.redo())),
        "start_selection" => nothing(ed.start_selection(arg(v, 0), arg(v, 1))),
        "extend_selection" => nothing(ed.extend_selection(arg(v, 0))),
        "finish_selection" => nothing(ed.finish_selection()),
        "copy" => ed.copy(arg(v, 0)).map(|x| json!(x)),
        "paste" => ed.paste(arg(v, 0), arg(v, 1)).map(|_| Value::Null),
        "open_autocomplete" => Ok(json!(ed.open_autocomplete())),
        "finish_autocomplete" => Ok(json!(ed.finish_autocomplete(arg(v, 0)))),
        "move_in_autocomplete" => Ok(json!(ed.move_in_autocomplete(arg(v, 0)))),
        "get_autocomplete" => value(ed.get_autocomplete()),
        "get_caret" => value(ed.get_caret()),
        "get_input_tree" => value(ed.get_input_tree()),
        "get_syntax_tree" => value(ed.get_syntax_tree()),
        "splice_at_range" => ed.splice_at_range(arg(v, 0), given(v, 1)).map(|_| Value::Null).map_err(thrown),
        x => panic!("HARNESS: {x}"),
    }
}

fn call(all: &mut Vec<Object>, v: &Value) -> Result<Value, String> {
    fn modules(all: &mut [Object], i: usize) -> &mut ParseModulesBindings {
        match &mut all[i] {
            Modules(m) => m,
            _ => panic!("HARNESS: no modules"),
        }
    }
    let on = v["on"].as_u64().unwrap_or(0) as usize;
    let make: Object = match st(&v["m"]) {
        "modules" => Modules(ParseModulesBindings::new()),
        "collection" => Collection(Some(ParseModuleCollectionBindings::new(modules(all, arg(v, 0))))),
        "parser" => match &mut all[arg::<usize>(v, 0)] {
            Collection(c) => Parser(MathParserBindings::new(c.take().expect("null pointer passed to rust"))),
            _ => panic!("HARNESS: no collection"),
        },
        "editor" => match &all[arg::<usize>(v, 0)] {
            Parser(p) => Editor(Box::new(MathEditorBindings::new(p))),
            _ => panic!("HARNESS: no parser"),
        },
        "get_built_in" => Module(Some(modules(all, on).get_built_in())),
        "make_core" => Module(Some(ParseModulesCreator::make_core(modules(all, arg(v, 0))))),
        "make_arithmetic" => Module(Some(ParseModulesCreator::make_arithmetic(modules(all, arg(v, 0))))),
        "make_calculus" => Module(Some(ParseModulesCreator::make_calculus(modules(all, arg(v, 0))))),
        "make_collections" => Module(Some(ParseModulesCreator::make_collections(modules(all, arg(v, 0))))),
        "make_comparison" => Module(Some(ParseModulesCreator::make_comparison(modules(all, arg(v, 0))))),
        "make_function" => Module(Some(ParseModulesCreator::make_function(modules(all, arg(v, 0))))),
        "make_logic" => Module(Some(ParseModulesCreator::make_logic(modules(all, arg(v, 0))))),
        "make_string" => Module(Some(ParseModulesCreator::make_string(modules(all, arg(v, 0))))),
        "add_module" => {
            let m = match &mut all[arg::<usize>(v, 0)] {
                Module(m) => m.take().expect("null pointer passed to rust"),
                _ => panic!("HARNESS: no module"),
            };
            match &mut all[on] {
                Collection(Some(c)) => c.add_module(m),
                _ => panic!("HARNESS: no collection"),
            }
            return Ok(Value::Null);
        }
        "get_syntax_node_name_map" => {
            let names = modules(all, on).get_syntax_node_name_map();
            let of = |id| names.get_reverse(parser::syntax_tree::SyntaxNodeNameId::new(id));
            let entries: Vec<Value> = (0u32..).map_while(|id| of(id).map(|p| json!([serde_json::to_value(p).unwrap(), id]))).collect();
            return Ok(json!(entries));
        }
        "drop" => {
            // the editors of earlier pages
            all.truncate(on);
            return Ok(Value::Null);
        }
        _ => match &mut all[on] {
            Editor(e) => return on_editor(e, v),
            _ => panic!("HARNESS: no editor"),
        },
    };
    all.push(make);
    Ok(json!(all.len() - 1))
}

pub fn serve() {
    let mut all = vec![];
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let v: Value = match line {
            Ok(x) => {
                let mut text = serde_json::Deserializer::from_str(&x);
                // (a page hands over values, not text: they can be as deep as they like)
                text.disable_recursion_limit();
                serde::Deserialize::deserialize(&mut text).expect("HARNESS: call")
            }
            Err(_) => break,
        };
        let r = match guarded(|| call(&mut all, &v)) {
            Ok(Ok(x)) => json!({"ok":true,"v":x}),
            Ok(Err(e)) => json!({"ok":false,"e":e}),
            Err(e) => json!({"ok":false,"panic":true,"e":e}),
        };
        let mut o = out.lock();
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
