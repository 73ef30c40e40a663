//! Random rows of the language, whole and broken, and names for the operators
//! that are not ASCII (TLC prints those as question marks).
use hcommon::*;
use input_tree::node::InputNode;
use input_tree::row::InputRow;

const NAMES: [(&str, &str); 14] = [
    ("@GE", "≥"), ("@LE", "≤"), ("@AND", "∧"), ("@OR", "∨"), ("@NOT", "¬"), ("@EQV", "⇔"), ("@IMP", "⟹"),
    ("@SUM", "∑"), ("@INT", "∫"), ("@INF", "∞"), ("@TOP", "⊤"), ("@BOT", "⊥"),
    ("@HALF", "½"), ("@THREE", "٣"),
];
/// renames the operators in every text of a value
pub fn rename(v: &mut Value, to_names: bool) {
    match v {
        Value::String(s) => {
            for (n, c) in NAMES {
                if to_names && s == c {
                    *s = n.into();
                } else if !to_names && s == n {
                    *s = c.into();
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| rename(x, to_names)),
        Value::Object(o) => o.iter_mut().for_each(|(_, x)| rename(x, to_names)),
        _ => {}
    }
}
pub fn named(mut v: Value) -> Value {
    rename(&mut v, true);
    v
}
/// the same for text with such operators in it
pub fn named_text(s: &str) -> String {
    NAMES.iter().fold(s.to_string(), |s, (n, c)| s.replace(c, n))
}

// ------------------------------------------------------------- random rows
const ODD: [&str; 26] = [
    "", "x", "xy", "1", "12", "+", "-", "*", "(", ")", "!", " ", "\"", "\\", ".", "_", "∑", "≥", "é", "𝓐", "l", "i", "m", "∞", ",", "§",
];
/// what a cell often holds
const SHORT: [&str; 14] = ["0", "1", "2", "3", "10", "n", "x", "+", "-", "!", "∞", " ", "(", "T"];
pub struct Words {
    infix: Vec<&'static str>,
    prefix: Vec<Vec<&'static str>>,
    postfix: Vec<&'static str>,
    stray: Vec<&'static str>,
    std: bool,
}
pub fn words(lang: &str) -> Words {
    if lang == "own" {
        Words {
            infix: vec!["+", "*", "<", ">"],
            prefix: vec![vec!["-"], vec!["~"], vec!["\\", "q"]],
            postfix: vec!["!", "?"],
            stray: vec![".", "@", "(", ")", " ", ":", "x", "+", "1", "\\"],
            std: false,
        }
    } else {
        Words {
            infix: vec!["+", "-", "*", "/", "=", ">", "<", "≥", "≤", ",", "∧", "∨", "¬", "⇔", "⟹"],
            prefix: vec![vec!["+"], vec!["-"], vec!["∑"], vec!["∫"], vec!["l", "i", "m"], vec!["l", "i", "m", "s", "u", "p"], vec!["l", "i", "m", "i", "n", "f"]],
            postfix: vec!["!", "^"],
            stray: vec![".", "@", "(", ")", " ", "\"", "\\", "_", "x", "+", "!", ",", "1", "∞"],
            std: true,
        }
    }
}
struct Writer<'a> {
    r: &'a mut Rng,
    w: &'a Words,
    out: Vec<InputNode>,
    brackets: usize,
}
impl Writer<'_> {
    fn put(&mut self, s: &str) {
        self.out.push(InputNode::symbol(s));
    }
    fn space(&mut self) {
        if self.r.chance(12) {
            for _ in 0..self.r.pick(&[1, 1, 1, 2, 2, 3, 5]).to_owned() {
                self.put(" ");
            }
        }
    }
    fn cell(&mut self, depth: usize) -> InputRow {
        let mut inner = Writer { r: &mut *self.r, w: self.w, out: vec![], brackets: self.brackets };
        match inner.r.below(100) {
            0..15 => {}
            15..32 => {
                let s = *inner.r.pick(&SHORT);
                inner.put(s);
            }
            _ => inner.expr(depth),
        }
        let (out, brackets) = (inner.out, inner.brackets);
        self.brackets = brackets;
        InputRow::new(out)
    }
    fn scripts(&mut self, depth: usize) {
        while self.r.chance(25) {
            let c = self.cell(depth.saturating_sub(1));
            self.out.push(if self.r.chance(50) { InputNode::sup(c) } else { InputNode::sub(c) });
            self.space();
        }
    }
    fn atom(&mut self, depth: usize) {
        self.space();
        match self.r.below(if depth == 0 { 5 } else { 12 }) {
            2 if self.w.std => {
                for _ in 0..self.r.range(1, 3) {
                    let d = *self.r.pick(&["0", "1", "7", "42"]);
                    self.put(d);
                }
                if self.r.chance(30) {
                    self.put(".");
                    self.put("5");
                }
            }
            3 if self.w.std && self.r.chance(40) => {
                self.put("\"");
                for _ in 0..self.r.below(4) {
                    match self.r.below(4) {
                        0 => {
                            self.put("\\");
                            self.put("\"");
                        }
                        1 => self.put(")"),
                        2 => self.put(" "),
                        _ => self.put("x"),
                    }
                }
                self.put("\"");
            }
            4 if self.w.std => {
                let c = *self.r.pick(&["∞", "⊤", "⊥"]);
                self.put(c);
            }
            5 | 6 | 7 if self.brackets > 0 => {
                self.brackets -= 1;
                self.put("(");
                self.expr(depth - 1);
                self.put(")");
            }
            8 => {
                let (a, b) = (self.cell(depth - 1), self.cell(depth - 1));
                self.out.push(if self.r.chance(50) { InputNode::fraction([a, b]) } else { InputNode::root([a, b]) });
            }
            9 => {
                let (w, h) = (self.r.range(1, 3), self.r.range(1, 3));
                let cells = (0..w * h).map(|_| self.cell(depth - 1)).collect();
                self.out.push(InputNode::table(cells, w));
            }
            10 if self.brackets > 0 => {
                self.brackets -= 1;
                self.put("(");
                self.put(")");
            }
            _ => {
                let v = *self.r.pick(&["x", "y", "ab", "A", "q"]);
                self.put(v);
                while self.r.chance(15) {
                    let v = *self.r.pick(&["x", "1", "_", "q"]);
                    self.put(v);
                }
            }
        }
        self.space();
    }
    fn operand(&mut self, depth: usize) {
        while self.r.chance(18) {
            self.space();
            for s in self.r.pick(&self.w.prefix).clone() {
                self.put(s);
            }
            self.space();
            if self.r.chance(40) {
                self.scripts(depth);
            }
        }
        self.atom(depth);
        while self.r.chance(25) {
            match self.r.below(4) {
                0 | 1 => {
                    let p = *self.r.pick(&self.w.postfix);
                    self.put(p);
                }
                2 if self.brackets > 0 => {
                    self.brackets -= 1;
                    self.put("(");
                    if depth > 0 && self.r.chance(70) {
                        self.expr(depth - 1);
                    }
                    self.put(")");
                }
                _ => {
                    let c = self.cell(depth.saturating_sub(1));
                    self.out.push(if self.r.chance(50) { InputNode::sup(c) } else { InputNode::sub(c) });
                }
            }
            self.space();
        }
    }
    fn expr(&mut self, depth: usize) {
        self.operand(depth);
        for _ in 0..self.r.below(if depth == 0 { 3 } else { 5 }) {
            let o = *self.r.pick(&self.w.infix);
            self.put(o);
            self.space();
            if self.r.chance(12) {
                self.scripts(depth);
            }
            self.operand(depth);
        }
    }
}
/// takes out, doubles, swaps or changes nodes of random rows of the document
/// (in its JSON form)
pub fn damage(r: &mut Rng, w: &Words, row: &mut Value) {
    let nodes = row.as_array_mut().unwrap();
    for n in nodes.iter_mut() {
        for c in n["c"].as_array_mut().unwrap() {
            if r.chance(30) {
                damage(r, w, c);
            }
        }
    }
    for _ in 0..r.range(1, 3) {
        let n = nodes.len();
        let at = r.below(n.max(1));
        match r.below(5) {
            0 if n > 0 => {
                nodes.remove(at);
            }
            1 if n > 0 => {
                let x = nodes[at].clone();
                nodes.insert(at, x);
            }
            2 if n > 1 => {
                let other = r.below(n);
                nodes.swap(at, other);
            }
            3 if n > 0 => {
                let s = *r.pick(&w.stray);
                nodes[at] = node_json(&InputNode::symbol(s));
            }
            _ => {
                let s = *r.pick(&w.stray);
                nodes.insert(at, node_json(&InputNode::symbol(s)));
            }
        }
    }
}
/// The parser takes time exponential in the number of unclosed brackets (a
/// recorded finding): no more than `left` brackets in one document
pub fn few_brackets(row: &mut Value, left: &mut usize) {
    for n in row.as_array_mut().unwrap() {
        if n["k"] == "sym" && n["v"] == "(" {
            if *left == 0 {
                n["v"] = "x".into();
            } else {
                *left -= 1;
            }
        }
        for c in n["c"].as_array_mut().unwrap() {
            few_brackets(c, left);
        }
    }
}


/// a random row: anything ("any"), well formed ("expr") or damaged ("broken")
pub fn random_row(r: &mut Rng, profile: &str, lang: &str) -> Value {
    let mut row = match profile {
        "any" => {
            let mut g = Gen::new(&ODD);
            g.empty_tables = true;
            row_json(&g.document(r, 3, 5))
        }
        p => {
            let w = words(lang);
            let depth;
            let mut row = {
                let mut x = Writer { r: &mut *r, w: &w, out: vec![], brackets: 6 };
                depth = x.r.range(0, 3);
                x.expr(depth);
                row_json(&InputRow::new(x.out))
            };
            if p == "broken" {
                damage(r, &w, &mut row);
            }
            row
        }
    };
    few_brackets(&mut row, &mut 6);
    row
}
