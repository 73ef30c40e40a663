//! Runs an editor command by command and records what it does.
use crate::serial;
use caret::caret::MinimalCaretSelection;
use caret::math_editor::{MathEditor, SerializedDataType};
use caret::primitive::primitive_edit::CaretRemoveMode;
use caret::primitive::MoveMode;
use hcommon::*;
use hlang::*;
use input_tree::direction::VerticalDirection;
use input_tree::focus::MinimalInputRowRange;
use input_tree::row::{InputRow, Offset, RowIndices};
use parser::parser::MathParser;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

// ------------------------------------------------------------- observation
pub fn sel_json(ed: &MathEditor) -> Value {
    let all = ed.get_caret();
    assert!(all.len() == 1, "more than one selection");
    match &all[0] {
        MinimalCaretSelection::Row(r) => {
            json!({"g":"row","p":path_json(&r.row_indices),"a":r.start.0,"b":r.end.0,"i":0,"x0":0,"y0":0,"x1":0,"y1":0})
        }
        MinimalCaretSelection::Grid(r) => {
            let (x0, y0): (usize, usize) = r.range.start_index().into();
            // an empty rectangle is shown as one that is no rectangle
            let (x1, y1): (i64, i64) = match r.range.end_index_inclusive() {
                Some(i) => {
                    let (x, y): (usize, usize) = i.into();
                    (x as i64, y as i64)
                }
                None => (-1, -1),
            };
            json!({"g":"grid","p":path_json(&r.row_indices),"a":0,"b":0,"i":r.index,"x0":x0,"y0":y0,"x1":x1,"y1":y1})
        }
    }
}
pub fn observe(ed: &MathEditor, ret: bool) -> Value {
    json!({"ret":ret,"tree":row_json(ed.get_input_tree()),"sel":sel_json(ed)})
}
pub fn popup_json(ed: &mut MathEditor, rules: &[(String, Value)]) -> Value {
    match ed.get_autocomplete() {
        None => json!({"ok":true,"shown":false,"at":0,"list":[]}),
        Some(r) => {
            let (at, list, _) = r.destructure();
            let list: Vec<Value> = list
                .iter()
                .map(|m| {
                    let t = m.rule.parser.as_bytes();
                    let t = String::from_utf8_lossy(&t[..m.rule_match_length.min(t.len())]).to_string();
                    // (two rules may have the same text)
                    let result = nodes_json(&m.rule.result);
                    let same = |x: &(String, Value)| x.0 == m.rule.parser;
                    let n = rules.iter().position(|x| same(x) && x.1 == result).or_else(|| rules.iter().position(same)).map(|x| x + 1).unwrap_or(0);
                    json!({"rule":n,"k":m.input_match_length,"text":t,"complete":m.is_complete_match(),"result":result})
                })
                .collect();
            json!({"ok":true,"shown":true,"at":at+1,"list":list})
        }
    }
}

// --------------------------------------------------------------- execution
thread_local! { static PAGE: Language = language(None); }
thread_local! { static PARSERS: RefCell<HashMap<String, Rc<MathParser>>> = RefCell::new(HashMap::new()); }
/// the autocomplete rules of the repository's own modules
pub fn shipped() -> Value {
    PAGE.with(|l| Value::Array(l.own_rules.iter().map(rule_json).collect()))
}
/// rules: a list in the specification's form
pub fn parser_for(rules: &Value) -> Rc<MathParser> {
    let key = rules.to_string();
    if let Some(p) = PARSERS.with(|x| x.borrow().get(&key).cloned()) {
        return p;
    }
    // (the parser of the page comes with rules)
    let p = if arr(rules).len() >= 10 && *rules == shipped() { PAGE.with(|l| l.parser.clone()) } else { language(Some(arr(rules).iter().map(rule_of).collect())).parser };
    PARSERS.with(|x| x.borrow_mut().insert(key, p.clone()));
    p
}
pub fn load(tree: &InputRow, parser: &Rc<MathParser>) -> MathEditor {
    let mut ed = MathEditor::new(parser.clone());
    ed.splice_at_range(MinimalInputRowRange { row_indices: RowIndices::default(), start: Offset(0), end: Offset(0) }, tree.values.clone());
    ed
}

pub const LOOKING: [&str; 11] = ["move", "extend", "remove", "type", "paste", "repaste", "pasteraw", "click", "drag", "popup", "popdir"];
fn looks(c: &str) -> bool {
    LOOKING.contains(&c) || c == "accept"
}
fn vertical(v: &Value) -> VerticalDirection {
    match st(v) {
        "up" => VerticalDirection::Up,
        "down" => VerticalDirection::Down,
        x => panic!("HARNESS: {x}"),
    }
}
/// Executes a command; true when the command reports success. What it
/// returns besides that is put into `extra`.
pub fn execute(ed: &mut MathEditor, parser: &MathParser, c: &Value, extra: &mut Value) -> bool {
    let json_type = || Some(SerializedDataType::JsonInputTree);
    match st(&c["c"]) {
        "move" => {
            ed.move_caret(dir_of(&c["d"]), MoveMode::Char);
            true
        }
        "extend" => ed.select_with_caret(dir_of(&c["d"]), MoveMode::Char).is_some(),
        "remove" => {
            let m = match st(&c["m"]) {
                "left" => CaretRemoveMode::Left,
                "right" => CaretRemoveMode::Right,
                "range" => CaretRemoveMode::Range,
                x => panic!("HARNESS: {x}"),
            };
            ed.remove_at_caret(m, MoveMode::Char).is_some()
        }
        "type" => {
            ed.insert_at_caret(arr(&c["v"]).iter().map(text).collect());
            true
        }
        "paste" => ed.paste(serial::serialized(&c["nodes"]), json_type()).is_ok(),
        "repaste" => ed.paste(st(&c["raw"]).to_string(), json_type()).is_ok(),
        "pasteraw" => ed.paste(st(&c["text"]).to_string(), json_type()).is_ok(),
        "splice" => {
            ed.splice_at_range(range_of(&c["r"]), nodes_of(&c["nodes"]));
            true
        }
        "click" => {
            ed.start_selection(pos_of(&c["q"]), MoveMode::Char);
            true
        }
        "drag" => {
            ed.extend_selection(pos_of(&c["q"]));
            true
        }
        "release" => {
            ed.finish_selection();
            true
        }
        "all" => {
            ed.select_all();
            true
        }
        "undo" => ed.undo().is_some(),
        "redo" => ed.redo().is_some(),
        "copy" => {
            let r = ed.copy(SerializedDataType::JsonInputTree);
            if let Ok(s) = &r {
                *extra = json!(s);
            }
            r.is_ok()
        }
        "syntax" => {
            let fresh = format!("{:?}", parser.parse(&ed.get_input_tree().values));
            let got = format!("{:?}", ed.get_syntax_tree());
            *extra = json!([got, fresh]);
            true
        }
        "popup" => ed.open_autocomplete().is_some(),
        "popdir" => ed.move_in_autocomplete(vertical(&c["d"])).is_some(),
        "accept" => ed.finish_autocomplete(true).is_some(),
        "dismiss" => ed.finish_autocomplete(false).is_some(),
        x => panic!("HARNESS: unknown command {x}"),
    }
}

pub fn valid_position(root: &InputRow, v: &Value) -> bool {
    fn go(row: &InputRow, p: &[Value], o: usize) -> bool {
        match p.split_first() {
            None => o <= row.len(),
            Some((x, rest)) => {
                use input_tree::grid::Grid;
                match row.values.get(us(&x[0])) {
                    Some(input_tree::node::InputNode::Container(_, g)) => g.values().nth(us(&x[1])).is_some_and(|r| go(r, rest, o)),
                    _ => false,
                }
            }
        }
    }
    go(root, arr(&v["p"]), us(&v["o"]))
}
/// the document with these nodes put in
fn with_inserted(row: &InputRow, path: &[(usize, usize)], at: usize, new: Vec<input_tree::node::InputNode>) -> InputRow {
    use input_tree::grid::Grid;
    let mut out = row.clone();
    match path.split_first() {
        None => {
            out.values.splice(at..at, new);
        }
        Some(((i, j), rest)) => {
            if let input_tree::node::InputNode::Container(_, g) = &mut out.values[*i] {
                let cells: Vec<_> = g.values().cloned().collect();
                let inner = with_inserted(&cells[*j], rest, at, new);
                let w = g.width();
                let mut cells = cells;
                cells[*j] = inner;
                *g = input_tree::grid::GridVec::from_one_dimensional(cells, w);
            }
        }
    }
    out
}
fn valid_selection(root: &InputRow, s: &Value) -> bool {
    if s["g"] == "row" {
        valid_position(root, &json!({"p":s["p"],"o":s["a"]})) && valid_position(root, &json!({"p":s["p"],"o":s["b"]}))
    } else {
        s["x1"].as_i64().unwrap() >= 0 && valid_position(root, &json!({"p":s["p"],"o":s["i"]}))
    }
}

pub struct History<'a> {
    pub ed: MathEditor,
    twin: Option<MathEditor>,
    skip: String,
    /// the commands of the second editor, when it may have to be set up again
    played: Vec<Value>,
    doc: InputRow,
    spared_before: bool,
    rules: Vec<(String, Value)>,
    own: bool,
    parser: Rc<MathParser>,
    log: &'a mut Log,
    pub sel: Value,
    pub clip: Option<(String, Value)>,
}
impl<'a> History<'a> {
    /// twin: which commands a second editor is spared: "none" (no second editor), "fail", "syntax"
    pub fn start(tree: &Value, rules: &Value, twin: &str, log: &'a mut Log) -> Self {
        let parser = parser_for(rules);
        let doc = row_of(tree);
        let loaded = guarded(|| {
            let ed = load(&doc, &parser);
            let v = observe(&ed, true);
            (ed, v)
        });
        let (ed, v) = match loaded {
            Ok(x) => x,
            Err(m) => panic!("HARNESS: loading failed: {m}"),
        };
        log.put(json!({"op":"load","tree":v["tree"],"rules":rules,"sel":v["sel"]}));
        let other = if twin == "none" { None } else { Some(load(&doc, &parser)) };
        let names = arr(rules).iter().map(|r| (text(&r["text"]), nodes_json(&nodes_of(&r["result"])))).collect();
        History { ed, twin: other, skip: twin.into(), played: vec![], doc, spared_before: false, rules: names, own: *rules == shipped(), parser, log, sel: v["sel"].clone(), clip: None }
    }

    /// Executes and records one command; false when the history ends here.
    /// A command that is not possible in this state is not recorded.
    pub fn step(&mut self, c: &Value) -> bool {
        let name = st(&c["c"]);
        let root = self.ed.get_input_tree().clone();
        if self.sel["g"] == "grid" && ["extend", "remove", "type", "paste", "repaste", "pasteraw", "splice", "copy", "syntax"].contains(&name) {
            return true; // not implemented for rectangles of cells
        }
        let possible = match name {
            "click" | "drag" => valid_position(&root, &c["q"]),
            "splice" => {
                valid_position(&root, &json!({"p":c["r"]["p"],"o":c["r"]["a"]})) && valid_position(&root, &json!({"p":c["r"]["p"],"o":c["r"]["b"]}))
            }
            _ => true,
        };
        if !possible {
            return true;
        }
        let before = json!({"tree":row_json(&root),"sel":self.sel});
        let hidden = json!({"ok":true,"shown":false,"at":0,"list":[]});
        let popped = looks(name);
        let rules = self.rules.clone();
        let mut pop = hidden.clone();
        let mut out = Err(String::new());
        let mut broken = false;
        if popped {
            match guarded(|| popup_json(&mut self.ed, &rules)) {
                Ok(p) => pop = p,
                Err(m) => {
                    pop["ok"] = json!(false);
                    out = Err(m);
                    broken = true;
                }
            }
        }
        let mut extra = Value::Null;
        if !broken {
            let parser = self.parser.clone();
            let ed = &mut self.ed;
            let extra = &mut extra;
            out = guarded(move || {
                let ret = execute(ed, &parser, c, extra);
                observe(ed, ret)
            });
        }
        let mut after = hidden;
        if out.is_ok() && name == "popdir" {
            let ed = &mut self.ed;
            match guarded(move || popup_json(ed, &rules)) {
                Ok(p) => after = p,
                Err(m) => out = Err(m),
            }
        }
        // the second editor
        let mut twin = json!([]);
        if let Some(t) = &mut self.twin {
            let spared = match &out {
                Err(_) => false,
                Ok(v) => match self.skip.as_str() {
                    "fail" => {
                        let unchanged = v["tree"] == before["tree"] && v["sel"] == before["sel"];
                        let nothing = match name {
                            "move" => before["sel"]["g"] == "row",
                            "type" => arr(&c["v"]).is_empty(),
                            "paste" | "repaste" => arr(&c["nodes"]).is_empty(),
                            "splice" => arr(&c["nodes"]).is_empty() && c["r"]["a"] == c["r"]["b"],
                            _ => false,
                        };
                        v["ret"] == json!(false) || (unchanged && nothing && before["sel"]["a"] == before["sel"]["b"])
                    }
                    "syntax" => name == "syntax",
                    x => panic!("HARNESS: twin {x}"),
                },
            };
            let rules = &self.rules;
            let parser = self.parser.clone();
            let play = |t: &mut MathEditor, c: &Value| {
                let name = st(&c["c"]);
                if looks(name) {
                    popup_json(t, rules);
                }
                let mut ignored = Value::Null;
                let ret = execute(t, &parser, c, &mut ignored);
                let v = observe(t, ret);
                if name == "popdir" {
                    popup_json(t, rules);
                }
                v
            };
            // a command that fails after others were spared: does it fail
            // in an editor that never got those?
            let probe = spared && self.skip == "fail" && self.spared_before && out.as_ref().is_ok_and(|v| v["ret"] == json!(false));
            let (played, doc, parser) = (&self.played, &self.doc, &parser);
            let r = guarded(move || {
                if probe {
                    let mut other = load(doc, parser);
                    for c in played {
                        if c["c"] == "look" {
                            popup_json(&mut other, rules);
                        } else {
                            play(&mut other, c);
                        }
                    }
                    let v = play(&mut other, c);
                    if popped {
                        popup_json(t, rules);
                    }
                    return Some(v);
                }
                if spared {
                    if popped {
                        popup_json(t, rules);
                    }
                    return None;
                }
                Some(play(t, c))
            });
            if self.skip == "fail" {
                if !spared {
                    self.played.push(c.clone());
                } else {
                    self.spared_before = true;
                    if popped {
                        self.played.push(json!({"c":"look"}));
                    }
                }
            }
            match r {
                Ok(None) => (),
                Ok(Some(v)) => twin = json!([outcome(Ok(v))]),
                Err(m) => twin = json!([outcome(Err(m))]),
            }
        }
        let mut ev = json!({"op":"cmd","cmd":c,"popped":popped,"pop":pop,"after":after,"twin":twin});
        if name == "copy" {
            ev["vals"] = json!([]);
            if let Some(raw) = extra.as_str() {
                ev["raw"] = json!(raw);
                if let Some(nodes) = serial::read(raw) {
                    ev["vals"] = json!([nodes]);
                    self.clip = Some((raw.to_string(), nodes));
                }
            }
        }
        if name == "syntax" {
            ev["got"] = extra.get(0).cloned().unwrap_or(json!(""));
            ev["fresh"] = extra.get(1).cloned().unwrap_or(json!(""));
            if self.own && out.is_ok() {
                ev["syntax"] = PAGE.with(|l| syntax_json(&l.names, self.ed.get_syntax_tree()));
            }
        }
        let next = out.clone();
        ev["out"] = outcome(out);
        self.log.put(ev);
        match next {
            Err(_) => false,
            Ok(v) => {
                self.sel = v["sel"].clone();
                valid_selection(self.ed.get_input_tree(), &self.sel)
            }
        }
    }
}

// -------------------------------------------------------- random histories
fn sym(s: &str) -> Value {
    json!({"k":"sym","v":s,"w":0,"c":[]})
}
pub fn syms(xs: &[&str]) -> Value {
    Value::Array(xs.iter().map(|s| sym(s)).collect())
}
/// The rules of the driver; every result differs from its text.
fn rule_pool() -> Vec<Value> {
    let frac = json!([{"k":"frac","v":"","w":1,"c":[[sym("p")],[sym("q")]]}]);
    vec![
        json!({"text":"lim","result":syms(&["L"])}),
        json!({"text":"lima","result":syms(&["α"])}),
        json!({"text":"limab","result":syms(&["x","y","z"])}),
        json!({"text":"ab","result":frac}),
        json!({"text":"ab","result":syms(&["W"])}),
        json!({"text":"lima","result":syms(&["β","γ"])}),
        json!({"text":"aaab","result":syms(&["Z"])}),
        json!({"text":"aab","result":syms(&["R","S"])}),
        json!({"text":"ba","result":[]}),
        json!({"text":"bab","result":syms(&["b","a","b","a","b"])}),
        json!({"text":"ébé","result":syms(&["∞"])}),
        json!({"text":"im","result":[{"k":"sup","v":"","w":1,"c":[[]]}]}),
    ]
}
/// more rules than a popup has lines
fn crowd(r: &mut Rng) -> Vec<Value> {
    let n = r.range(6, 24);
    let same = r.chance(30);
    (0..n).map(|k| json!({"text":format!("ab{}", char::from(b'a' + if same { k as u8 / 3 } else { k as u8 })),"result":[sym(&k.to_string())]})).collect()
}
struct Profile {
    weights: Vec<(&'static str, usize)>,
    rules: bool,
    depth: usize,
    length: usize,
}
fn profile(name: &str) -> Profile {
    let mut w: Vec<(&'static str, usize)> = vec![
        ("move", 20), ("extend", 8), ("remove", 10), ("type", 14), ("paste", 4), ("pasteraw", 1), ("copy", 3), ("repaste", 3), ("splice", 3),
        ("click", 6), ("drag", 5), ("release", 1), ("all", 1), ("undo", 8), ("redo", 6), ("syntax", 2), ("popup", 2), ("popdir", 4), ("accept", 4), ("dismiss", 1),
    ];
    let mut set = |xs: &[(&'static str, usize)]| {
        for (c, n) in xs {
            w.iter_mut().find(|x| x.0 == *c).unwrap().1 = *n;
        }
    };
    let mut rules = false;
    let (mut depth, mut length) = (3, 24);
    match name {
        "general" => rules = true,
        "undo" => {
            rules = true;
            set(&[("undo", 22), ("redo", 18), ("type", 20), ("splice", 6), ("remove", 14)])
        }
        "move" => {
            depth = 4;
            set(&[("move", 60), ("undo", 2), ("redo", 1), ("type", 4), ("remove", 3), ("popdir", 0), ("accept", 0)])
        }
        "select" => {
            depth = 4;
            set(&[("extend", 40), ("drag", 30), ("click", 20), ("all", 3), ("type", 4), ("remove", 3), ("popdir", 0), ("accept", 0)])
        }
        "edit" => set(&[("type", 25), ("paste", 15), ("remove", 25), ("extend", 14), ("drag", 10), ("copy", 8), ("repaste", 8), ("popdir", 0), ("accept", 0)]),
        "popup" => {
            rules = true;
            depth = 1;
            set(&[("type", 45), ("popdir", 22), ("accept", 10), ("click", 4), ("drag", 1), ("extend", 2), ("move", 10), ("remove", 6)])
        }
        "auto" => {
            rules = true;
            depth = 1;
            set(&[("type", 40), ("move", 40), ("click", 22), ("drag", 6), ("popdir", 8), ("accept", 1), ("remove", 8)])
        }
        "shipped" => {
            rules = true;
            depth = 2;
            set(&[("type", 30), ("popdir", 12), ("accept", 10), ("popup", 6), ("syntax", 5)])
        }
        "syntax" => {
            rules = true;
            depth = 4;
            length = 30;
            set(&[("syntax", 30)])
        }
        "fail" => {
            rules = true;
            depth = 2;
            set(&[("pasteraw", 12), ("undo", 14), ("redo", 14), ("dismiss", 6), ("accept", 8), ("popdir", 8), ("extend", 14), ("remove", 16)])
        }
        x => panic!("HARNESS: profile {x}"),
    }
    Profile { weights: w, rules, depth, length }
}

/// what can be typed or pasted besides letters
const ODD_SYMBOLS: [&str; 16] =
    ["\n", "\t", "\u{a0}", "  ", " ", "", "\r\n", "\u{200b}", "e\u{301}", "\u{301}", "👩‍👩‍👧", "ab", "\\", "\"", "&", "0"];
const BAD_TEXT: [&str; 9] = [
    "", "no", "{}", "{\"version\":1}", "{\"version\":1,\"data\":[{\"Symbol\":1}]}", "[]",
    "{\"version\":1,\"data\":[{\"Container\":[\"Fraction\",{\"values\":[{\"values\":[]}],\"width\":1}]}]}",
    "{\"version\":1,\"data\":[{\"Container\":[\"Table\",{\"values\":[{\"values\":[]},{\"values\":[]},{\"values\":[]}],\"width\":2}]}]}",
    "{\"version\":1,\"data\":[{\"Symbol\":\"a\"}",
];

/// pieces of a rule's text, as symbols of one or more characters
fn pieces(r: &mut Rng, t: &str) -> Vec<String> {
    let chars: Vec<char> = t.chars().collect();
    let upto = r.range(1, chars.len());
    let mut out = vec![];
    let mut i = 0;
    while i < upto {
        let n = if r.chance(80) { 1 } else { 2 }.min(upto - i);
        out.push(chars[i..i + n].iter().collect::<String>());
        i += n;
        if r.chance(3) {
            out.push(String::new());
        }
    }
    out
}

/// Long histories: many edits, all of them taken back, all of them done again.
fn drive_long(twin: &str, seed: u64, count: usize, log: &mut Log) {
    let mut r = Rng::new(seed);
    let pool = rule_pool();
    for n in 0..count {
        let rules: Vec<Value> = pool.iter().filter(|_| r.chance(40)).cloned().collect();
        let gen = Gen::new(&["a", "b", "l", "i", "m", "é"]);
        let doc = gen.row(&mut r, 2, 2);
        let edits = [12, 40, 70, 135, 270][n % 5];
        let mut h = History::start(&row_json(&doc), &Value::Array(rules), twin, log);
        let mut go = true;
        for round in 0..2 {
            for k in 0..if round == 0 { edits } else { r.below(6) } {
                let cmd = match r.below(12) {
                    0..=4 => json!({"c":"type","v":[r.pick(&gen.labels)]}),
                    5..=8 => json!({"c":"remove","m":*r.pick(&["left", "left", "right"])}),
                    9 => json!({"c":"move","d":*r.pick(&["left", "right", "up", "down"])}),
                    10 if k % 3 == 0 => json!({"c":"popdir","d":"down"}),
                    10 => json!({"c":"accept"}),
                    _ => {
                        let root = h.ed.get_input_tree().clone();
                        json!({"c":"click","q":pos_json(&minimal(&random_position(&mut r, &root)))})
                    }
                };
                go = go && h.step(&cmd);
            }
            let steps = edits + 3;
            for (c, n) in [("undo", steps), ("redo", steps), ("undo", r.below(steps)), ("redo", r.below(5))] {
                for _ in 0..n {
                    go = go && h.step(&json!({"c":c}));
                }
            }
        }
    }
}

/// do the symbols in front of the caret begin the text of a rule?
fn likely_offered(h: &History, root: &InputRow) -> bool {
    if h.sel["g"] != "row" || h.sel["a"] != h.sel["b"] || !valid_selection(root, &h.sel) {
        return false;
    }
    let path: Vec<_> = arr(&h.sel["p"]).iter().map(|x| (us(&x[0]), us(&x[1]))).collect();
    let before: String = row_at(root, &path).values[..us(&h.sel["a"])]
        .iter()
        .map(|n| match n {
            input_tree::node::InputNode::Symbol(s) => s.clone(),
            _ => "\u{0}".into(),
        })
        .collect();
    h.rules.iter().any(|(t, _)| t.char_indices().skip(2).map(|x| x.0).chain([t.len()]).any(|k| before.ends_with(&t[..k])))
}

pub fn drive(what: &str, twin: &str, seed: u64, count: usize, log: &mut Log) {
    if what == "long" {
        return drive_long(twin, seed, count, log);
    }
    let mut r = Rng::new(seed);
    let p = profile(what);
    let total: usize = p.weights.iter().map(|x| x.1).sum();
    let own = what == "shipped";
    let pool = if own { arr(&shipped()).clone() } else { rule_pool() };
    for _ in 0..count {
        let crowded = (what == "popup" || what == "general") && r.chance(8);
        let rules: Vec<Value> = if crowded { crowd(&mut r) } else if own { pool.clone() } else if p.rules { pool.iter().filter(|_| r.chance(60)).cloned().collect() } else { vec![] };
        let mut gen = Gen::new(&["a", "b", "c", "x", "1", "+", "("]);
        gen.boxes = if p.depth == 1 { 15 } else { 40 };
        if p.rules {
            gen = Gen::new(&["a", "b", "a", "b", "l", "i", "m", "x", "ab", "é", "+"]);
            gen.boxes = if p.depth == 1 { 15 } else { 30 };
        }
        if own {
            gen = Gen::new(&["a", "x", "l", "i", "m", "s", "u", "p", "=", ">", "<", "\\", "é", "1"]);
            gen.boxes = 30;
        }
        gen.huge = 2;
        let mut doc = if p.depth > 1 && r.chance(25) { gen.document(&mut r, p.depth, 5) } else { gen.row(&mut r, p.depth, 5) };
        let mut matched: Option<Value> = None;
        if p.rules && !rules.is_empty() && r.chance(70) {
            // a place with a (partial) match, mostly at the outer row
            let t = st(&r.pick(&rules)["text"]).to_string();
            let new: Vec<_> = pieces(&mut r, &t).into_iter().map(input_tree::node::InputNode::symbol).collect();
            let ps = all_paths(&doc);
            let path = if r.chance(40) { r.pick(&ps).clone() } else { Vec::new() };
            let len = row_at(&doc, &path).len();
            // often right at the end of the row
            let at = if r.chance(40) { len } else { r.below(len + 1) };
            matched = Some(json!({"p":path_json(&indices(&path)),"o":at + new.len()}));
            doc = with_inserted(&doc, &path, at, new);
        }
        let mut h = History::start(&row_json(&doc), &Value::Array(rules.clone()), twin, log);
        let mut asked = false;
        let mut clicked = false;
        for _ in 0..r.range(3, if crowded { 45 } else { p.length }) {
            let mut n = r.below(total);
            let mut name = "";
            for (c, w) in &p.weights {
                if n < *w {
                    name = c;
                    break;
                }
                n -= w;
            }
            let root = h.ed.get_input_tree().clone();
            if ["popup", "auto", "general", "fail", "shipped"].contains(&what) && !rules.is_empty() && r.chance(if ["general", "fail", "shipped"].contains(&what) { 30 } else { 60 }) {
                // mostly: open the popup and then use it
                name = match (likely_offered(&h, &root), what) {
                    (false, _) => "type",
                    (true, "auto") => *r.pick(&["move", "move", "move", "click", "click", "drag", "extend", "popdir", "type", "undo", "accept", "remove", "remove"]),
                    (true, _) => *r.pick(&["popdir", "popdir", "popdir", "popdir", "accept", "type", "type", "move", "undo", "remove", "popup"]),
                };
            }
            if what == "syntax" && r.chance(50) {
                // ask, change something, ask again
                name = match asked {
                    true => *r.pick(&["type", "undo", "undo", "redo", "remove", "paste", "splice", "accept"]),
                    false => "syntax",
                };
            }
            asked = name == "syntax";
            if what == "move" && clicked && r.chance(70) {
                name = "move";
            }
            clicked = name == "click";
            if crowded && likely_offered(&h, &root) && r.chance(75) {
                name = "popdir";
            }
            let place = |r: &mut Rng, h: &History| {
                if let Some(m) = &matched {
                    // the end of the word that was put into the document
                    if valid_position(&root, m) && r.chance(20) {
                        return m.clone();
                    }
                }
                if ["move", "select", "edit"].contains(&what) && r.chance(25) {
                    // beside a container
                    let rows = all_paths(&root);
                    let path = r.pick(&rows).clone();
                    if !path.is_empty() {
                        let (outer, last) = (&path[..path.len() - 1], path[path.len() - 1]);
                        let p: Vec<Value> = outer.iter().map(|(i, j)| json!([i, j])).collect();
                        return json!({"p":p,"o":last.0 + r.below(2)});
                    }
                }
                if h.sel["g"] == "row" && r.chance(30) {
                    // near the caret
                    let len = row_at(&root, &arr(&h.sel["p"]).iter().map(|x| (us(&x[0]), us(&x[1]))).collect::<Vec<_>>()).len();
                    let o = (us(&h.sel["b"]) + r.below(5)).saturating_sub(2).min(len);
                    return json!({"p":h.sel["p"],"o":o});
                }
                pos_json(&minimal(&random_position(r, &root)))
            };
            let d = *r.pick(&["left", "right", "left", "right", "up", "down"]);
            let cmd = match name {
                "move" | "extend" => json!({"c":name,"d":d}),
                "remove" => json!({"c":name,"m":*r.pick(&["left", "right", "left", "right", "range"])}),
                "type" => {
                    let v: Vec<String> = if p.rules && !rules.is_empty() && r.chance(60) {
                        let t = st(&r.pick(&rules)["text"]).to_string();
                        pieces(&mut r, &t)
                    } else {
                        (0..*r.pick(&[0, 1, 1, 1, 2, 3])).map(|_| if r.chance(12) { r.pick(&ODD_SYMBOLS).to_string() } else { r.pick(&gen.labels).clone() }).collect()
                    };
                    json!({"c":name,"v":v})
                }
                // (now and then more than anyone selects)
                "paste" if r.chance(5) => {
                    let n = r.range(60, 300);
                    // (without brackets: many unclosed ones do not parse in time, see the known findings)
                    let labels: Vec<_> = gen.labels.iter().filter(|x| *x != "(").cloned().collect();
                    json!({"c":name,"nodes":row_json(&InputRow::new((0..n).map(|_| input_tree::node::InputNode::symbol(r.pick(&labels).clone())).collect()))})
                }
                "paste" => json!({"c":name,"nodes":row_json(&gen.row(&mut r, 2, 3))}),
                "repaste" => match &h.clip {
                    Some((raw, nodes)) => json!({"c":name,"raw":raw,"nodes":nodes}),
                    None => json!({"c":"copy"}),
                },
                "pasteraw" => json!({"c":name,"text":*r.pick(&BAD_TEXT)}),
                "splice" => {
                    let ps = all_paths(&root);
                    let path = r.pick(&ps).clone();
                    let len = row_at(&root, &path).len();
                    let a = r.below(len + 1);
                    let b = if r.chance(50) { a } else { r.below(len + 1) };
                    json!({"c":name,"r":{"p":path_json(&indices(&path)),"a":a.min(b),"b":a.max(b)},"nodes":row_json(&gen.row(&mut r, 1, 2))})
                }
                "click" | "drag" => json!({"c":name,"q":place(&mut r, &h)}),
                "popdir" if crowded => json!({"c":name,"d":if r.chance(15) { "up" } else { "down" }}),
                "popdir" => json!({"c":name,"d":*r.pick(&["up", "down", "down"])}),
                _ => json!({"c":name}),
            };
            if !h.step(&cmd) {
                break;
            }
        }
    }
}
