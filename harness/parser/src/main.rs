//! Conformance harness for the parser: records the syntax trees it produces.
//!   hparser record <cases.ndjson> <from> <to> <log> <plain|nested>   rows printed by TLC
//!   hparser drive <profile[:nested]> <seed> <count> <log>            random rows
//!   hparser modules <cases.ndjson> <from> <to> <log>                 rows, each with a selection of modules
//!   hparser drivemodules <seed> <count> <log>                        the same, at random
//!   hparser unclosed <n>        parses n opening brackets
//!
//! Some operators are not ASCII; in records they have names like "@GE".
mod own;

use hcommon::*;
use hlang::rows::*;
use hlang::*;
use input_tree::node::InputNode;
use input_tree::row::InputRow;

fn make(lang: &str) -> Language {
    if lang == "own" { own::language() } else { language(None) }
}
struct Parsers {
    std: Language,
    own: Language,
    n: usize,
}
impl Parsers {
    fn new() -> Self {
        Parsers { std: make("std"), own: make("own"), n: 0 }
    }
    fn of(&self, lang: &str) -> &Language {
        if lang == "own" { &self.own } else { &self.std }
    }
    fn tree(&self, l: &Language, nodes: &[InputNode]) -> Value {
        named(outcome(guarded(|| syntax_json(&l.names, &l.parser.parse(nodes)))))
    }
    fn record(&mut self, lang: &str, row: &InputRow, nested: bool, log: &mut Log) {
        self.n += 1;
        let l = self.of(lang);
        let tree = self.tree(l, &row.values);
        let mut cells = vec![];
        let mut same = vec![];
        if nested {
            for p in all_paths(row) {
                if !p.is_empty() {
                    let cell = row_at(row, &p);
                    let path: Vec<Value> = p.iter().map(|x| json!([x.0, x.1])).collect();
                    cells.push(json!({"p":path,"tree":self.tree(l, &cell.values)}));
                }
            }
            same.push(self.tree(l, &row.values));
            if self.n % 16 == 0 {
                same.push(self.tree(&make(lang), &row.values));
            }
        }
        let text = guarded(|| json!(named_text(&l.parser.parse(&row.values).with_display(&l.names).to_string())));
        log.put(json!({"op":"parse","lang":lang,"row":named(row_json(row)),"tree":tree,"cells":cells,"same":same,"text":outcome(text)}));
    }
}

#[derive(Default)]
struct Selections(std::collections::HashMap<String, own::Selection>);
impl Selections {
    fn record(&mut self, mods: &Value, row: &InputRow, log: &mut Log) {
        use parser::autocomplete::AutocompleteMatcher;
        let s = self.0.entry(mods.to_string()).or_insert_with(|| own::selection(&arr(mods).iter().map(st).collect::<Vec<_>>()));
        let l = &s.language;
        let tree = guarded(|| syntax_json(&l.names, &l.parser.parse(&row.values)));
        let offers = guarded(|| {
            let ms = l.parser.matches(&row.values, row.values.len(), 1);
            json!(ms.iter().map(|m| json!({"text":m.rule.parser,"result":nodes_json(&m.rule.result),"k":m.input_match_length,"whole":m.is_complete_match()})).collect::<Vec<_>>())
        });
        let modules: Vec<Value> = s.modules.iter().map(|(n, r, b)| json!({"name":n,"rules":r,"back":b})).collect();
        log.put(json!({"op":"modules","mods":mods,"row":named(row_json(row)),"tree":named(outcome(tree)),"offers":named(outcome(offers)),"modules":modules}));
        if self.0.len() > 400 {
            self.0.clear();
        }
    }
}
fn drive_modules(seed: u64, count: usize, log: &mut Log) {
    const ALL: [&str; 11] = ["core", "arithmetic", "calculus", "collections", "comparison", "function", "logic", "string", "own", "one", "two"];
    const TEXTS: [&str; 12] = ["lim", "limsup", "liminf", "sum", "integra", "infinit", "sqr", "/", ">=", "vecto", "matrix", "^"];
    let mut r = Rng::new(seed);
    let mut ss = Selections::default();
    let mut mods = json!([]);
    for i in 0..count {
        if i % 6 == 0 {
            // most of the modules, or few of them, shuffled
            let n = if r.chance(50) { r.range(6, 11) } else { r.range(0, 4) };
            let mut left: Vec<&str> = ALL.to_vec();
            let picked: Vec<&str> = (0..n).map(|_| left.remove(r.below(left.len()))).collect();
            mods = json!(picked);
        }
        let profile = *r.pick(&["expr", "expr", "broken"]);
        let lang = if r.chance(25) { "own" } else { "std" };
        let mut row = row_of(&random_row(&mut r, profile, lang));
        if r.chance(40) {
            row.values.extend(r.pick(&TEXTS).chars().map(|c| InputNode::symbol(c.to_string())));
        }
        ss.record(&mods, &row, log);
    }
}

/// builds a syntax tree and compares its text form
fn printed(case: &Value) -> Option<Value> {
    use input_tree::grid::GridVec;
    use parser::syntax_tree::*;
    fn build(t: &Value, from: usize, names: &mut SyntaxNodeNameMap) -> SyntaxNode {
        let name = match st(&t["name"]).as_ref() {
            "" => SyntaxNodeNameId::new(4_000_000_000),
            n => {
                let path = PathIdentifier::new(n.split("::").map(|x| x.to_string()).collect());
                names.get(&path).unwrap_or_else(|| names.add(path))
            }
        };
        let syms: Vec<String> = arr(&t["syms"]).iter().map(|x| st(x).to_string()).collect();
        let (children, end) = match st(&t["kind"]).as_ref() {
            "leaf" => {
                let end = from + syms.len();
                (SyntaxNodeChildren::Leaf(SyntaxLeafNode::new(LeafNodeType::Symbol, syms)), end)
            }
            "rows" => (SyntaxNodeChildren::NewRows(GridVec::from_one_dimensional(arr(&t["kids"]).iter().map(|k| build(k, 0, names)).collect(), us(&t["w"]))), from + 1),
            _ => {
                let mut at = from;
                let mut kids = vec![];
                for k in arr(&t["kids"]) {
                    let kid = build(k, at, names);
                    at = kid.range().end;
                    kids.push(kid);
                }
                (SyntaxNodeChildren::Children(kids), at)
            }
        };
        let mut node = SyntaxNode::new(name, from..end, children);
        node.value = arr(&t["value"]).iter().map(|x| us(x) as u8).collect();
        node
    }
    let got = guarded(|| {
        let mut names = SyntaxNodeNameMap::new();
        let tree = build(&case["tree"], 0, &mut names);
        json!(tree.with_display(&names).to_string())
    });
    // how an unknown name is written does not matter
    let clean = |s: &str| {
        let mut out = String::new();
        let mut rest = s;
        while let Some(i) = rest.find("<unknown") {
            out.push_str(&rest[..i]);
            out.push_str("<unknown>");
            rest = rest[i..].find('>').map(|j| &rest[i + j + 1..]).unwrap_or("");
        }
        out + rest
    };
    match &got {
        Ok(v) if clean(st(v).as_ref()) == st(&case["expect"]).to_string() => None,
        Ok(v) => Some(json!({"what":"text form of a syntax tree","expected":case["expect"],"observed":v})),
        Err(e) => Some(json!({"what":"text form of a syntax tree","expected":case["expect"],"observed":format!("failed: {e}")})),
    }
}

fn drive(profile: &str, nested: bool, seed: u64, count: usize, log: &mut Log) {
    let mut r = Rng::new(seed);
    let mut ps = Parsers::new();
    for _ in 0..count {
        let lang = if r.chance(30) { "own" } else { "std" };
        let row = random_row(&mut r, profile, lang);
        ps.record(lang, &row_of(&row), nested, log);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    watchdog(60);
    big_stack(move || match a[1].as_str() {
        "record" => {
            use std::io::BufRead;
            let mut log = Log::new(&a[5]);
            let (from, to): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut ps = Parsers::new();
            for line in std::io::BufReader::new(std::fs::File::open(&a[2]).expect("HARNESS: cases")).lines().skip(from).take(to - from) {
                let mut v: Value = serde_json::from_str(&line.unwrap()).expect("HARNESS: case is not JSON");
                rename(&mut v, false);
                ps.record(st(&v["lang"]), &row_of(&v["row"]), a[6] == "nested", &mut log);
            }
            println!("LOGGED {}", log.done());
        }
        "drive" => {
            let mut log = Log::new(&a[5]);
            let mut what = a[2].split(':');
            let profile = what.next().unwrap().to_string();
            let nested = what.next() == Some("nested");
            drive(&profile, nested, a[3].parse().unwrap(), a[4].parse().unwrap(), &mut log);
            println!("LOGGED {}", log.done());
        }
        "modules" => {
            use std::io::BufRead;
            let mut log = Log::new(&a[5]);
            let (from, to): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut ss = Selections::default();
            for line in std::io::BufReader::new(std::fs::File::open(&a[2]).expect("HARNESS: cases")).lines().skip(from).take(to - from) {
                let mut v: Value = serde_json::from_str(&line.unwrap()).expect("HARNESS: case is not JSON");
                rename(&mut v, false);
                ss.record(&v["mods"], &row_of(&v["row"]), &mut log);
            }
            println!("LOGGED {}", log.done());
        }
        "drivemodules" => {
            let mut log = Log::new(&a[4]);
            drive_modules(a[2].parse().unwrap(), a[3].parse().unwrap(), &mut log);
            println!("LOGGED {}", log.done());
        }
        "replay" => {
            replay(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), printed);
        }
        "unclosed" => {
            let n: usize = a[2].parse().unwrap();
            let row: Vec<InputNode> = (0..n).map(|_| InputNode::symbol("(")).collect();
            let l = make("std");
            l.parser.parse(&row);
            println!("PARSED {n}");
        }
        x => panic!("HARNESS: {x}"),
    });
}
