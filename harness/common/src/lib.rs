//! Projection between the implementation's documents and the specification's
//! values (JSON), plus what the drivers share: a seeded generator of random
//! documents and edits, panic capture and event logs.
use input_tree::direction::*;
use input_tree::editing::{BasicEdit, EditType, GridEdit, RowEdit};
use input_tree::focus::*;
use input_tree::grid::{Grid, GridDirection, GridVec};
use input_tree::node::{InputNode, InputNodeVariant};
use input_tree::row::{ElementIndices, InputRow, Offset, RowIndex, RowIndices};
pub use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Write;

// ------------------------------------------------------------ projection
pub fn kind_name(v: InputNodeVariant) -> &'static str {
    match v {
        InputNodeVariant::Fraction => "frac",
        InputNodeVariant::Root => "root",
        InputNodeVariant::Sup => "sup",
        InputNodeVariant::Sub => "sub",
        InputNodeVariant::Table => "table",
    }
}
pub fn node_json(n: &InputNode) -> Value {
    match n {
        InputNode::Symbol(s) => json!({"k":"sym","v":s,"w":0,"c":[]}),
        InputNode::Container(k, g) => {
            json!({"k":kind_name(*k),"v":"","w":g.width(),"c":g.values().map(row_json).collect::<Vec<_>>()})
        }
    }
}
pub fn nodes_json(ns: &[InputNode]) -> Value {
    Value::Array(ns.iter().map(node_json).collect())
}
pub fn row_json(r: &InputRow) -> Value {
    nodes_json(&r.values)
}
pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("HARNESS: not a number: {v}")) as usize
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("HARNESS: not a string: {v}"))
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("HARNESS: not an array: {v}"))
}
/// symbol text: a string, or a sequence of characters
pub fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => a.iter().map(|x| st(x)).collect(),
        _ => panic!("HARNESS: not a text {v}"),
    }
}
pub fn node_of(v: &Value) -> InputNode {
    let cells = || arr(&v["c"]).iter().map(row_of).collect::<Vec<_>>();
    match st(&v["k"]) {
        "sym" => InputNode::symbol(text(&v["v"])),
        "frac" => InputNode::fraction(cells().try_into().expect("HARNESS: arity")),
        "root" => InputNode::root(cells().try_into().expect("HARNESS: arity")),
        "sup" => InputNode::sup(cells().pop().expect("HARNESS: arity")),
        "sub" => InputNode::sub(cells().pop().expect("HARNESS: arity")),
        "table" => InputNode::table(cells(), us(&v["w"])),
        k => panic!("HARNESS: kind {k}"),
    }
}
pub fn nodes_of(v: &Value) -> Vec<InputNode> {
    arr(v).iter().map(node_of).collect()
}
pub fn row_of(v: &Value) -> InputRow {
    InputRow::new(nodes_of(v))
}
pub fn path_of(v: &Value) -> RowIndices {
    RowIndices::new(arr(v).iter().map(|x| RowIndex(us(&x[0]), us(&x[1]))).collect())
}
pub fn path_json(p: &RowIndices) -> Value {
    Value::Array(p.iter().map(|x| json!([x.0, x.1])).collect())
}
pub fn pos_of(v: &Value) -> MinimalInputRowPosition {
    MinimalInputRowPosition { row_indices: path_of(&v["p"]), offset: Offset(us(&v["o"])) }
}
pub fn pos_json(p: &MinimalInputRowPosition) -> Value {
    json!({"p":path_json(&p.row_indices),"o":p.offset.0})
}
pub fn range_of(v: &Value) -> MinimalInputRowRange {
    MinimalInputRowRange { row_indices: path_of(&v["p"]), start: Offset(us(&v["a"])), end: Offset(us(&v["b"])) }
}
pub fn range_json(r: &MinimalInputRowRange) -> Value {
    json!({"p":path_json(&r.row_indices),"a":r.start.0,"b":r.end.0})
}
pub fn ty_of(v: &Value) -> EditType {
    match st(v) {
        "ins" => EditType::Insert,
        "del" => EditType::Delete,
        x => panic!("HARNESS: {x}"),
    }
}
fn ty_json(t: EditType) -> &'static str {
    match t {
        EditType::Insert => "ins",
        EditType::Delete => "del",
    }
}
pub fn edit_of(v: &Value) -> BasicEdit {
    if st(&v["g"]) == "row" {
        BasicEdit::Row(RowEdit {
            edit_type: ty_of(&v["ty"]),
            position: MinimalInputRowPosition { row_indices: path_of(&v["p"]), offset: Offset(us(&v["o"])) },
            values: nodes_of(&v["vals"]),
        })
    } else {
        BasicEdit::Grid(GridEdit {
            edit_type: ty_of(&v["ty"]),
            element_indices: ElementIndices { row_indices: path_of(&v["p"]), index: us(&v["i"]) },
            direction: if st(&v["dir"]) == "row" { GridDirection::Row } else { GridDirection::Column },
            row_or_column: Offset(us(&v["at"])),
            values: GridVec::from_one_dimensional(arr(&v["cells"]).iter().map(row_of).collect(), us(&v["w"])),
        })
    }
}
pub fn edit_json(e: &BasicEdit) -> Value {
    match e {
        BasicEdit::Row(e) => {
            json!({"g":"row","ty":ty_json(e.edit_type),"p":path_json(&e.position.row_indices),"o":e.position.offset.0,"vals":nodes_json(&e.values)})
        }
        BasicEdit::Grid(e) => {
            json!({"g":"grid","ty":ty_json(e.edit_type),"p":path_json(&e.element_indices.row_indices),"i":e.element_indices.index,
            "dir": if e.direction==GridDirection::Row {"row"} else {"col"},"at":e.row_or_column.0,"w":e.values.width(),
            "cells":e.values.values().map(row_json).collect::<Vec<_>>()})
        }
    }
}
pub fn dir_of(v: &Value) -> Direction {
    match st(v) {
        "left" => Direction::Left,
        "right" => Direction::Right,
        "up" => Direction::Up,
        "down" => Direction::Down,
        x => panic!("HARNESS: {x}"),
    }
}

// -------------------------------------------------------- panics are data
thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = info.location().map(|l| format!(" ({}:{})", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = format!("{m}{l}"));
    }));
}
/// Runs code of the implementation; a panic becomes Err(message).
/// Mistakes of the harness itself (messages starting with HARNESS) end the process.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = LAST.with(|x| x.borrow().clone());
            if m.starts_with("HARNESS") {
                eprintln!("{m}");
                std::process::exit(99);
            }
            Err(m)
        }
    }
}
/// The result of a guarded call in the form the specification reads:
/// {"ok":true,"msg":"","v":[value]} or {"ok":false,"msg":...,"v":[]}
pub fn outcome(r: Result<Value, String>) -> Value {
    match r {
        Ok(v) => json!({"ok":true,"msg":"","v":[v]}),
        Err(m) => json!({"ok":false,"msg":m,"v":[]}),
    }
}

// ---------------------------------------------------------------- running
pub struct Log {
    out: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}
impl Log {
    pub fn new(path: &str) -> Self {
        Log { out: std::io::BufWriter::new(std::fs::File::create(path).expect("HARNESS: log")), n: 0 }
    }
    pub fn put(&mut self, v: Value) {
        serde_json::to_writer(&mut self.out, &v).unwrap();
        self.out.write_all(b"\n").unwrap();
        self.n += 1;
        CURRENT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    pub fn done(mut self) -> usize {
        self.out.flush().unwrap();
        self.n
    }
}

/// Runs `f` on a thread with a big stack, so that deep documents are not
/// limited by the harness.
pub fn big_stack(f: impl FnOnce() + Send + 'static) {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().expect("HARNESS: thread");
}

pub static CURRENT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// Ends the process when one case makes no progress for `secs` seconds.
pub fn watchdog(secs: u64) {
    use std::sync::atomic::Ordering;
    std::thread::spawn(move || {
        let mut last = usize::MAX;
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let c = CURRENT.load(Ordering::Relaxed);
            if c != last {
                last = c;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() >= secs {
                println!("HANG {c}");
                std::process::exit(97);
            }
        }
    });
}

/// Replays the cases of a file (one JSON value per line, numbered from 0),
/// from number `from` up to `to`. `check` returns None when the
/// implementation did what the case demands, or the difference.
/// Prints "BAD <number> <difference>" lines and finally "RAN <count>".
pub fn replay(path: &str, from: usize, to: usize, check: impl Fn(&Value) -> Option<Value>) {
    use std::io::BufRead;
    let f = std::io::BufReader::new(std::fs::File::open(path).expect("HARNESS: cases"));
    let mut ran = 0;
    let mut bad = 0;
    for (i, line) in f.lines().enumerate() {
        if i < from {
            continue;
        }
        if i >= to {
            break;
        }
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).expect("HARNESS: case is not JSON");
        CURRENT.store(i + 1, std::sync::atomic::Ordering::Relaxed);
        ran += 1;
        if let Some(d) = check(&v) {
            bad += 1;
            if bad <= 20 {
                println!("BAD {} {}", i, serde_json::to_string(&d).unwrap());
            }
        }
    }
    println!("RAN {ran} {bad}");
}

/// the difference between what was demanded and what was observed
pub fn differ(what: &str, want: &Value, got: Result<Value, String>) -> Option<Value> {
    match got {
        Ok(g) if &g == want => None,
        Ok(g) => Some(json!({"what":what,"expected":want,"observed":g})),
        Err(m) => Some(json!({"what":what,"expected":want,"panic":m})),
    }
}

// ------------------------------------------------------- seeded randomness
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub struct Gen {
    pub labels: Vec<String>,
    /// percentage of containers
    pub boxes: usize,
    pub tables: bool,
    pub empty_tables: bool,
    /// percentage of documents that are far bigger than the others
    pub huge: usize,
}
impl Gen {
    pub fn new(labels: &[&str]) -> Self {
        Gen { labels: labels.iter().map(|s| s.to_string()).collect(), boxes: 35, tables: true, empty_tables: false, huge: 0 }
    }
    pub fn row(&self, r: &mut Rng, depth: usize, max_len: usize) -> InputRow {
        let n = r.below(max_len + 1);
        InputRow::new((0..n).map(|_| self.node(r, depth, max_len)).collect())
    }
    /// A document of a random profile: mostly ordinary ones; now and then long
    /// rows, deep nesting or big tables.
    pub fn document(&self, r: &mut Rng, depth: usize, max_len: usize) -> InputRow {
        if r.chance(self.huge) {
            return self.huge_document(r);
        }
        match r.below(10) {
            0 => {
                let n = r.range(6, 24);
                InputRow::new((0..n).map(|_| self.node(r, 1, 3)).collect())
            }
            1 | 2 => {
                let levels = r.range(3, 8);
                let mut row = self.row(r, 1, 2);
                for _ in 0..levels {
                    let mut outer = self.row(r, 1, 2);
                    let at = r.below(outer.len() + 1);
                    outer.values.insert(at, self.around(r, row));
                    row = outer;
                }
                row
            }
            3 if self.tables => {
                let mut row = self.row(r, 1, 3);
                let (w, h) = (r.range(1, 6), r.range(1, 6));
                let cells = (0..w * h).map(|_| { let d = r.chance(10) as usize; self.row(r, d, 2) }).collect();
                let at = r.below(row.len() + 1);
                row.values.insert(at, InputNode::table(cells, w));
                if r.chance(40) {
                    row = InputRow::new(vec![self.sym(r), self.around(r, row)]);
                }
                row
            }
            _ => self.row(r, depth, max_len),
        }
    }
    fn huge_document(&self, r: &mut Rng) -> InputRow {
        match r.below(3) {
            0 => {
                // one long row, a few containers in it, and maybe below something else
                let n = *r.pick(&[33, 66, 130, 260, 300]);
                let mut row = InputRow::new((0..n).map(|_| if r.chance(2) { self.node(r, 1, 2) } else { self.sym(r) }).collect());
                if r.chance(50) {
                    row = InputRow::new(vec![self.sym(r), self.around(r, row)]);
                }
                row
            }
            1 => {
                let mut row = self.row(r, 0, 2);
                for _ in 0..*r.pick(&[9, 15, 17, 20, 31, 33, 40, 70]) {
                    let mut outer = self.row(r, 0, 2);
                    let at = r.below(outer.len() + 1);
                    outer.values.insert(at, self.around(r, row));
                    row = outer;
                }
                row
            }
            _ if self.tables => {
                let (w, h) = *r.pick(&[(1, 40), (40, 1), (17, 3), (3, 17), (16, 17), (10, 11), (20, 20), (130, 2), (2, 130)]);
                let cells = (0..w * h).map(|_| if r.chance(2) { self.row(r, 1, 2) } else { self.row(r, 0, 1) }).collect();
                InputRow::new(vec![self.sym(r), InputNode::table(cells, w), self.sym(r)])
            }
            _ => self.row(r, 2, 12),
        }
    }
    /// a container one of whose cells is the row
    pub fn around(&self, r: &mut Rng, row: InputRow) -> InputNode {
        let mut other = |me: &Self| me.row(&mut *r, 0, 2);
        let mut pair = [other(self), row.clone()];
        let cells = [other(self), other(self), other(self), row.clone(), other(self), other(self)];
        if r.chance(50) {
            pair.swap(0, 1);
        }
        match r.below(if self.tables { 6 } else { 4 }) {
            0 => InputNode::fraction(pair),
            1 => InputNode::root(pair),
            2 => InputNode::sup(row),
            3 => InputNode::sub(row),
            4 => InputNode::table(cells.to_vec(), 3),
            _ => InputNode::table(cells.to_vec(), 2),
        }
    }
    pub fn sym(&self, r: &mut Rng) -> InputNode {
        InputNode::symbol(r.pick(&self.labels).clone())
    }
    pub fn node(&self, r: &mut Rng, depth: usize, max_len: usize) -> InputNode {
        if depth == 0 || !r.chance(self.boxes) {
            return self.sym(r);
        }
        let inner = max_len.saturating_sub(1).max(1);
        let kind = r.below(if self.tables { 6 } else { 4 });
        let row = |r: &mut Rng| self.row(r, depth - 1, inner);
        match kind {
            0 => InputNode::fraction([row(r), row(r)]),
            1 => InputNode::root([row(r), row(r)]),
            2 => InputNode::sup(row(r)),
            3 => InputNode::sub(row(r)),
            _ => {
                let big = if r.chance(12) { 6 } else { 3 };
                let w = r.range(1, big);
                let h = if self.empty_tables && r.chance(10) { 0 } else { r.range(1, big) };
                InputNode::table((0..w * h).map(|_| row(r)).collect(), w)
            }
        }
    }
}

/// every row address of a document, in reading order
pub fn all_paths(row: &InputRow) -> Vec<Vec<(usize, usize)>> {
    fn go(row: &InputRow, pre: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        out.push(pre.clone());
        for (i, n) in row.values.iter().enumerate() {
            if let InputNode::Container(_, g) = n {
                for (j, c) in g.values().enumerate() {
                    pre.push((i, j));
                    go(c, pre, out);
                    pre.pop();
                }
            }
        }
    }
    let mut out = vec![];
    go(row, &mut vec![], &mut out);
    out
}
pub fn row_at<'a>(row: &'a InputRow, path: &[(usize, usize)]) -> &'a InputRow {
    let mut cur = row;
    for (i, j) in path {
        match &cur.values[*i] {
            InputNode::Container(_, g) => cur = g.values().nth(*j).unwrap(),
            _ => panic!("HARNESS: path"),
        }
    }
    cur
}
pub fn indices(path: &[(usize, usize)]) -> RowIndices {
    RowIndices::new(path.iter().map(|x| RowIndex(x.0, x.1)).collect())
}
pub fn random_position(r: &mut Rng, row: &InputRow) -> (Vec<(usize, usize)>, usize) {
    let ps = all_paths(row);
    let p = r.pick(&ps).clone();
    let o = r.below(row_at(row, &p).len() + 1);
    (p, o)
}
pub fn minimal(p: &(Vec<(usize, usize)>, usize)) -> MinimalInputRowPosition {
    MinimalInputRowPosition { row_indices: indices(&p.0), offset: Offset(p.1) }
}

/// a random valid row edit of the document
pub fn random_row_edit(r: &mut Rng, g: &Gen, row: &InputRow, depth: usize) -> BasicEdit {
    let (p, o) = random_position(r, row);
    let target = row_at(row, &p);
    let e = if r.chance(55) || target.is_empty() {
        let n = if r.chance(g.huge) { *r.pick(&[20, 70, 300]) } else { *r.pick(&[0, 1, 1, 1, 2, 3, 3, 7]) };
        RowEdit {
            edit_type: EditType::Insert,
            position: minimal(&(p, o)),
            values: (0..n).map(|_| g.node(r, depth, 2)).collect(),
        }
    } else {
        let a = r.below(target.len() + 1);
        let most = if r.chance(g.huge) { 400 } else { *r.pick(&[1, 2, 3, 3, 30]) };
        let b = r.range(a, target.len().min(a + most));
        RowEdit {
            edit_type: EditType::Delete,
            position: minimal(&(p.clone(), a)),
            values: target.values[a..b].to_vec(),
        }
    };
    e.into()
}
/// a random valid edit of one of the document's tables, if there is one
pub fn random_grid_edit(r: &mut Rng, g: &Gen, row: &InputRow) -> Option<BasicEdit> {
    let mut tables = vec![];
    for p in all_paths(row) {
        for (i, n) in row_at(row, &p).values.iter().enumerate() {
            if let InputNode::Container(InputNodeVariant::Table, grid) = n {
                tables.push((p.clone(), i, grid));
            }
        }
    }
    if tables.is_empty() {
        return None;
    }
    let (p, i, grid) = r.pick(&tables);
    let cells: Vec<InputRow> = grid.values().cloned().collect();
    let w = grid.width();
    let h = cells.len() / w;
    let is_row = r.chance(50);
    let insert = r.chance(50);
    let size = if is_row { h } else { w };
    let max_del = if is_row { h.saturating_sub(1) } else { w.saturating_sub(1) };
    let many = if r.chance(g.huge) { r.range(4, 12) } else { *r.pick(&[1, 1, 2, 3]) };
    let (ty, at, count) = if insert || max_del == 0 {
        (EditType::Insert, r.below(size + 1), many)
    } else {
        let most = if r.chance(g.huge) { 20 } else { 4 };
        let count = r.range(1, max_del.min(most));
        (EditType::Delete, r.below(size - count + 1), count)
    };
    let values: Vec<InputRow> = match (ty, is_row) {
        (EditType::Insert, true) => (0..w * count).map(|_| g.row(r, 1, 2)).collect(),
        (EditType::Insert, false) => (0..h * count).map(|_| g.row(r, 1, 2)).collect(),
        (EditType::Delete, true) => cells[at * w..(at + count) * w].to_vec(),
        (EditType::Delete, false) => {
            (0..h).flat_map(|y| cells[y * w + at..y * w + at + count].to_vec()).collect()
        }
    };
    if values.is_empty() {
        return None;
    }
    let vw = if is_row { w } else { count };
    Some(
        GridEdit {
            edit_type: ty,
            element_indices: ElementIndices { row_indices: indices(p), index: *i },
            direction: if is_row { GridDirection::Row } else { GridDirection::Column },
            row_or_column: Offset(at),
            values: GridVec::from_one_dimensional(values, vw),
        }
        .into(),
    )
}

pub const PLAIN: &[&str] = &["a", "b", "c", "1", "2", "+", "x"];
pub const ODD: &[&str] = &["\"", "\\", " ", "(", ")", "row", "\" \"", "\\\"", "é", "𝔸", "(row)", "", "1x1", "\n"];
