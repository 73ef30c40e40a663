//! Replays the cases of CaretMC and AutocompleteMC.
use crate::run::*;
use crate::serial;
use caret::math_editor::{MathEditor, SerializedDataType};
use caret::primitive::MoveMode;
use hcommon::*;
use hlang::*;
use parser::autocomplete::{AutocompleteMatcher, AutocompleteRules};

pub fn case(v: &Value) -> Option<Value> {
    match st(&v["op"]) {
        "steps" => steps(v),
        "walk" => walk(v),
        "drag" => drag(v),
        "rect" => rect(v),
        "extend" => extend(v),
        "copy" => copy(v),
        "offer" => offer(v),
        "serial" => serial_case(v),
        "read" => read_case(v),
        x => panic!("HARNESS: unknown case {x}"),
    }
}

/// an editor on the case's document with the selection from s to e;
/// None when it does not have the selection the case starts from
fn set_up(v: &Value) -> Option<MathEditor> {
    let ed = guarded(|| {
        let mut ed = load(&row_of(&v["tree"]), &parser_for(&json!([])));
        ed.start_selection(pos_of(&v["s"]), MoveMode::Char);
        ed.extend_selection(pos_of(&v["e"]));
        ed.finish_selection();
        let ok = sel_json(&ed) == v["sel"] && row_json(ed.get_input_tree()) == v["tree"];
        ok.then_some(ed)
    });
    ed.ok().flatten()
}
fn run_one(v: &Value, cmd: &Value) -> Result<Value, String> {
    let mut ed = set_up(v).expect("HARNESS: set up");
    guarded(move || {
        let parser = parser_for(&json!([]));
        let mut extra = Value::Null;
        execute(&mut ed, &parser, cmd, &mut extra);
        json!({"tree":row_json(ed.get_input_tree()),"sel":sel_json(&ed)})
    })
}
fn steps(v: &Value) -> Option<Value> {
    set_up(v)?;
    for run in arr(&v["runs"]) {
        let mut want = json!({"tree":run["tree"],"sel":run["sel"]});
        let arrow = st(&run["as"]);
        if !arrow.is_empty() {
            // must do what the arrow key does
            match run_one(v, &json!({"c":"move","d":arrow})) {
                Ok(x) => want["sel"] = x["sel"].clone(),
                Err(_) => continue,
            }
        }
        if let Some(d) = differ(&format!("after {}", run["cmd"]), &want, run_one(v, &run["cmd"])) {
            return Some(d);
        }
    }
    None
}
fn walk(v: &Value) -> Option<Value> {
    let doc = arr(&v["doc"]);
    let at = |i: usize| json!({"g":"row","p":doc[i]["p"],"a":doc[i]["o"],"b":doc[i]["o"],"i":0,"x0":0,"y0":0,"x1":0,"y1":0});
    let n = doc.len();
    let mut want: Vec<Value> = (0..n).map(at).collect();
    want.push(at(n - 1));
    want.extend((0..n - 1).rev().map(at));
    want.push(at(0));
    differ(
        "places visited by moving right to the end and back",
        &json!([want, v["tree"]]),
        guarded(|| {
            let mut ed = load(&row_of(&v["tree"]), &parser_for(&json!([])));
            let mut got = vec![sel_json(&ed)];
            for d in ["right", "left"] {
                for _ in 0..n {
                    ed.move_caret(dir_of(&json!(d)), MoveMode::Char);
                    got.push(sel_json(&ed));
                }
            }
            json!([got, row_json(ed.get_input_tree())])
        }),
    )
}
fn drag(v: &Value) -> Option<Value> {
    let mut want = arr(&v["sels"]).clone();
    want.push(v["all"].clone());
    differ(
        "selections while dragging, and of everything",
        &json!([want, v["tree"]]),
        guarded(|| {
            let mut ed = load(&row_of(&v["tree"]), &parser_for(&json!([])));
            let mut got = vec![];
            ed.start_selection(pos_of(&v["s"]), MoveMode::Char);
            for e in arr(&v["ends"]) {
                ed.extend_selection(pos_of(e));
                got.push(sel_json(&ed));
            }
            ed.finish_selection();
            ed.select_all();
            got.push(sel_json(&ed));
            json!([got, row_json(ed.get_input_tree())])
        }),
    )
}
fn rect(v: &Value) -> Option<Value> {
    differ(
        "rectangles of cells while dragging",
        &v["sels"],
        guarded(|| {
            let mut got = vec![];
            for e in arr(&v["ends"]) {
                let mut ed = load(&row_of(&v["tree"]), &parser_for(&json!([])));
                ed.start_selection(pos_of(&v["s"]), MoveMode::Char);
                ed.extend_selection(pos_of(e));
                got.push(sel_json(&ed));
                ed.finish_selection();
            }
            Value::Array(got)
        }),
    )
}
fn extend(v: &Value) -> Option<Value> {
    set_up(v)?;
    for run in arr(&v["runs"]) {
        let d = dir_of(&run["d"]);
        // where the arrow key takes the moving end
        let to = guarded(|| {
            let mut ed = load(&row_of(&v["tree"]), &parser_for(&json!([])));
            ed.start_selection(pos_of(&run["at"]), MoveMode::Char);
            ed.finish_selection();
            let before = sel_json(&ed);
            ed.move_caret(d, MoveMode::Char);
            (sel_json(&ed) != before, sel_json(&ed))
        });
        let Ok((moved, to)) = to else { continue };
        let nowhere = run["to"]["o"].as_i64().unwrap() < 0;
        if nowhere == moved || (moved && (to["p"] != run["to"]["p"] || to["a"] != run["to"]["o"])) {
            continue; // the arrow keys are judged elsewhere
        }
        let want = json!({"tree":v["tree"],"sel":run["sel"]});
        if let Some(d) = differ(&format!("extending the selection {}", run["d"]), &want, run_one(v, &json!({"c":"extend","d":run["d"]}))) {
            return Some(d);
        }
    }
    None
}
fn copy(v: &Value) -> Option<Value> {
    let ed = set_up(v)?;
    let text = guarded(|| {
        let s = ed.copy(SerializedDataType::JsonInputTree).map_err(|e| e.to_string());
        (s, observe(&ed, true))
    });
    let got = match &text {
        Ok((Ok(s), o)) => Ok(json!([serial::read(s), o["tree"], o["sel"]])),
        Ok((Err(e), _)) => Ok(json!(["error", e])),
        Err(m) => Err(m.clone()),
    };
    if let Some(d) = differ("copied nodes, document and selection", &json!([v["vals"], v["tree"], v["sel"]]), got) {
        return Some(d);
    }
    let Ok((Ok(s), _)) = text else { return None };
    for p in arr(&v["pastes"]) {
        let got = guarded(|| {
            let mut ed = load(&row_of(&v["tree"]), &parser_for(&json!([])));
            ed.start_selection(pos_of(&p["at"]), MoveMode::Char);
            ed.finish_selection();
            let r = ed.paste(s.clone(), Some(SerializedDataType::JsonInputTree)).is_ok();
            json!([r, row_json(ed.get_input_tree())])
        });
        if let Some(d) = differ(&format!("pasting the copied text at {}", p["at"]), &json!([true, p["tree"]]), got) {
            return Some(d);
        }
    }
    None
}

/// placeholders of the specification for characters of several bytes
fn decode(s: &str) -> String {
    s.replace('E', "é").replace('I', "∞").replace('W', "𝓐")
}
fn decode_row(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(decode_row).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), if k == "v" { json!(decode(st(x))) } else { decode_row(x) })).collect()),
        x => x.clone(),
    }
}
fn offer(v: &Value) -> Option<Value> {
    let row = row_of(&decode_row(&v["row"]));
    let o = us(&v["o"]);
    let rules: Vec<_> = arr(&v["rules"]).iter().enumerate().map(|(i, t)| rule_of(&json!({"text":decode(st(t)),"result":crate::run::syms(&[&i.to_string()])}))).collect();
    let texts: Vec<String> = rules.iter().map(|r| r.parser.clone()).collect();
    let lang = parser_for(&Value::Array(rules.iter().map(rule_json).collect()));
    for want in arr(&v["wants"]) {
        let min = us(&want["min"]);
        let list: Vec<(usize, usize, String, bool)> = {
            let mut l: Vec<_> = arr(&want["offers"])
                .iter()
                .map(|x| {
                    let t = decode(st(&x["text"]));
                    let r = us(&x["rule"]);
                    (r, us(&x["k"]), t.clone(), t == texts[r - 1])
                })
                .collect();
            l.sort();
            l
        };
        for way in ["rule", "rules", "parser"] {
            let got = guarded(|| {
                let mut l = vec![];
                let ms = match way {
                    "rule" => rules.iter().flat_map(|r| r.matches(&row.values, o, min)).map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length, m.is_complete_match())).collect::<Vec<_>>(),
                    "rules" => AutocompleteRules(rules.clone()).matches(&row.values, o, min).iter().map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length, m.is_complete_match())).collect(),
                    _ => lang.matches(&row.values, o, min).iter().map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length, m.is_complete_match())).collect(),
                };
                for (rule, rl, il, complete) in ms {
                    let r = rules.iter().position(|t| t == &rule).map(|x| x + 1).unwrap_or(0);
                    let t = String::from_utf8_lossy(&rule.parser.as_bytes()[..rl.min(rule.parser.len())]).to_string();
                    l.push((r, il, t, complete));
                }
                l.sort();
                json!(l)
            });
            if let Some(d) = differ(&format!("offers of the {way}, at least {min} symbols"), &json!(list), got) {
                return Some(d);
            }
        }
    }
    None
}
fn decode_tokens(v: &Value) -> Vec<(char, String)> {
    // only symbols carry the placeholder
    serial::tokens_of(v).into_iter().map(|(t, v)| if t == 's' && v == "E\n" { (t, decode(&v)) } else { (t, v) }).collect()
}
fn serial_case(v: &Value) -> Option<Value> {
    let nodes = decode_row(&v["nodes"]);
    let tokens = decode_tokens(&v["tokens"]);
    let own = serial::write(&tokens, 0);
    let out = serial::write_out(&nodes);
    let text = out.as_ref().ok().and_then(|x| x.as_str().map(|x| x.to_string()));
    let got = out.clone().map(|x| x.as_str().and_then(serial::value).unwrap_or(json!("not JSON")));
    if let Some(d) = differ("the serialized form", &serial::value(&own).expect("HARNESS: own text"), got) {
        return Some(d);
    }
    let want = json!({"accepted":true,"nodes":nodes});
    for (what, text) in [("its own text", text.unwrap_or_default()), ("the same value in compact form", own), ("the same value with white space and escapes", serial::write(&tokens, 1))] {
        if let Some(d) = differ(&format!("reading back {what}"), &want, serial::read_back(&text)) {
            return Some(d);
        }
    }
    None
}
fn read_case(v: &Value) -> Option<Value> {
    let tokens = serial::tokens_of(&v["tokens"]);
    for way in 0..2 {
        let text = serial::write(&tokens, way);
        let got = serial::read_back(&text);
        let want = match st(&v["want"]) {
            "ok" => json!({"accepted":true,"nodes":v["nodes"]}),
            "bad" => json!({"accepted":false,"nodes":[]}),
            _ => match &got {
                Ok(x) => x.clone(),
                Err(_) => json!("an answer"),
            },
        };
        if let Some(d) = differ(&format!("reading {text}"), &want, got) {
            return Some(d);
        }
    }
    None
}
