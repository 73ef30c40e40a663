//! The serialized form, written and read independently of the implementation.
use hcommon::*;

fn kind_out(k: &str) -> &'static str {
    match k {
        "frac" => "Fraction",
        "root" => "Root",
        "sup" => "Sup",
        "sub" => "Sub",
        "table" => "Table",
        x => panic!("HARNESS: kind {x}"),
    }
}
fn node_out(n: &Value) -> Value {
    if st(&n["k"]) == "sym" {
        return json!({"Symbol": text(&n["v"])});
    }
    let cells: Vec<Value> = arr(&n["c"]).iter().map(|c| json!({"values": arr(c).iter().map(node_out).collect::<Vec<_>>()})).collect();
    json!({"Container":[kind_out(st(&n["k"])), {"values":cells,"width":n["w"]}]})
}
/// the serialized form of nodes (in the specification's form)
pub fn serialized(nodes: &Value) -> String {
    json!({"version":1,"data":arr(nodes).iter().map(node_out).collect::<Vec<_>>()}).to_string()
}

// ------------------------------------------------- JSON, read independently
/// Tokens as (t, v): p punctuation, s string, n number, l literal; None when
/// the text does not consist of JSON tokens
pub fn lex(text: &str) -> Option<Vec<(char, String)>> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        match c[i] {
            ' ' | '\n' | '\r' | '\t' => i += 1,
            x if "{}[]:,".contains(x) => {
                out.push(('p', x.to_string()));
                i += 1;
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                loop {
                    let x = *c.get(i)?;
                    i += 1;
                    match x {
                        '"' => break,
                        '\\' => {
                            let e = *c.get(i)?;
                            i += 1;
                            match e {
                                '"' | '\\' | '/' => s.push(e),
                                'b' => s.push('\u{8}'),
                                'f' => s.push('\u{c}'),
                                'n' => s.push('\n'),
                                'r' => s.push('\r'),
                                't' => s.push('\t'),
                                'u' => {
                                    let mut unit = |i: &mut usize| -> Option<u32> {
                                        let h: String = c.get(*i..*i + 4)?.iter().collect();
                                        *i += 4;
                                        if !h.chars().all(|x| x.is_ascii_hexdigit()) {
                                            return None;
                                        }
                                        u32::from_str_radix(&h, 16).ok()
                                    };
                                    let mut u = unit(&mut i)?;
                                    if (0xd800..0xdc00).contains(&u) {
                                        if c.get(i)? != &'\\' || c.get(i + 1)? != &'u' {
                                            return None;
                                        }
                                        i += 2;
                                        let low = unit(&mut i)?;
                                        if !(0xdc00..0xe000).contains(&low) {
                                            return None;
                                        }
                                        u = 0x10000 + ((u - 0xd800) << 10) + (low - 0xdc00);
                                    }
                                    s.push(char::from_u32(u)?);
                                }
                                _ => return None,
                            }
                        }
                        x if (x as u32) < 0x20 => return None,
                        x => s.push(x),
                    }
                }
                out.push(('s', s));
            }
            x if x == '-' || x.is_ascii_digit() => {
                let from = i;
                if c[i] == '-' {
                    i += 1;
                }
                let digits = |i: &mut usize| {
                    let a = *i;
                    while c.get(*i).is_some_and(|x| x.is_ascii_digit()) {
                        *i += 1;
                    }
                    *i > a
                };
                if c.get(i) == Some(&'0') {
                    i += 1;
                } else if !digits(&mut i) {
                    return None;
                }
                if c.get(i) == Some(&'.') {
                    i += 1;
                    if !digits(&mut i) {
                        return None;
                    }
                }
                if matches!(c.get(i), Some('e' | 'E')) {
                    i += 1;
                    if matches!(c.get(i), Some('+' | '-')) {
                        i += 1;
                    }
                    if !digits(&mut i) {
                        return None;
                    }
                }
                out.push(('n', c[from..i].iter().collect()));
            }
            _ => {
                let w = ["null", "true", "false"].into_iter().find(|w| c[i..].iter().take(w.len()).collect::<String>() == *w)?;
                out.push(('l', w.into()));
                i += w.len();
            }
        }
    }
    Some(out)
}
fn parse(t: &[(char, String)], i: &mut usize) -> Option<Value> {
    let is = |i: usize, x: &str| t.get(i).is_some_and(|k| k.0 == 'p' && k.1 == x);
    let (kind, v) = t.get(*i)?;
    *i += 1;
    Some(match kind {
        's' => json!(v),
        'n' => match v.parse::<i64>() {
            Ok(n) => json!(n),
            Err(_) => json!(format!("number {v}")),
        },
        'l' => json!(format!("literal {v}")),
        _ if v == "[" => {
            let mut out = vec![];
            if is(*i, "]") {
                *i += 1;
                return Some(Value::Array(out));
            }
            loop {
                out.push(parse(t, i)?);
                *i += 1;
                if is(*i - 1, "]") {
                    return Some(Value::Array(out));
                }
                if !is(*i - 1, ",") {
                    return None;
                }
            }
        }
        _ if v == "{" => {
            let mut out = serde_json::Map::new();
            if is(*i, "}") {
                *i += 1;
                return Some(Value::Object(out));
            }
            loop {
                let (kind, k) = t.get(*i)?;
                if *kind != 's' || !is(*i + 1, ":") {
                    return None;
                }
                *i += 2;
                let x = parse(t, i)?;
                if out.insert(k.clone(), x).is_some() {
                    return None;
                }
                *i += 1;
                if is(*i - 1, "}") {
                    return Some(Value::Object(out));
                }
                if !is(*i - 1, ",") {
                    return None;
                }
            }
        }
        _ => return None,
    })
}
/// the value of a JSON text
pub fn value(text: &str) -> Option<Value> {
    let t = lex(text)?;
    let mut i = 0;
    let v = parse(&t, &mut i)?;
    (i == t.len()).then_some(v)
}
/// the text of tokens, written in one of several ways
pub fn write(tokens: &[(char, String)], way: usize) -> String {
    let mut out = String::new();
    let mut word = false;
    for (t, v) in tokens {
        if way == 1 {
            out.push_str(" \n");
        } else if word && *t != 'p' {
            out.push(' ');
        }
        word = *t != 'p';
        if *t != 's' {
            out.push_str(v);
            continue;
        }
        out.push('"');
        for c in v.chars() {
            match c {
                '"' | '\\' => {
                    out.push('\\');
                    out.push(c);
                }
                c if (c as u32) < 0x20 || (way == 1 && c.is_alphabetic()) => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        out.push_str(&format!("\\u{u:04x}"));
                    }
                }
                c => out.push(c),
            }
        }
        out.push('"');
    }
    out
}
/// tokens as the cases write them: "{" or "s:text"
pub fn tokens_of(v: &Value) -> Vec<(char, String)> {
    arr(v)
        .iter()
        .map(|x| {
            let x = st(x);
            match x.get(0..2) {
                Some("s:") => ('s', x[2..].to_string()),
                Some("n:") => ('n', x[2..].to_string()),
                Some("l:") => ('l', x[2..].to_string()),
                _ => ('p', x.to_string()),
            }
        })
        .collect()
}
pub fn tokens_json(t: &[(char, String)]) -> Value {
    Value::Array(t.iter().map(|(t, v)| json!({"t":t.to_string(),"v":v})).collect())
}

fn node_in(v: &Value) -> Option<Value> {
    let o = v.as_object()?;
    if o.len() != 1 {
        return None;
    }
    if let Some(s) = o.get("Symbol") {
        return Some(json!({"k":"sym","v":s.as_str()?,"w":0,"c":[]}));
    }
    let c = o.get("Container")?.as_array()?;
    if c.len() != 2 {
        return None;
    }
    let k = match c[0].as_str()? {
        "Fraction" => "frac",
        "Root" => "root",
        "Sup" => "sup",
        "Sub" => "sub",
        "Table" => "table",
        _ => return None,
    };
    let g = c[1].as_object()?;
    let mut cells = vec![];
    for r in g.get("values")?.as_array()? {
        let mut row = vec![];
        for n in r.get("values")?.as_array()? {
            row.push(node_in(n)?);
        }
        cells.push(Value::Array(row));
    }
    Some(json!({"k":k,"v":"","w":g.get("width")?,"c":cells}))
}
/// the nodes (in the specification's form) in a serialized text
pub fn read(text: &str) -> Option<Value> {
    let v = value(text)?;
    let o = v.as_object()?;
    if o.get("version")? != &json!(1) {
        return None;
    }
    let mut out = vec![];
    for n in o.get("data")?.as_array()? {
        out.push(node_in(n)?);
    }
    Some(Value::Array(out))
}

// ---------------------------------------------------------- random texts
use serialization::{deserialize_input_nodes, serialize_input_nodes, SerializedDataType};
pub fn read_back(text: &str) -> Result<Value, String> {
    guarded(|| match deserialize_input_nodes(text.to_string(), Some(SerializedDataType::JsonInputTree)) {
        Ok(n) => json!({"accepted":true,"nodes":nodes_json(&n)}),
        Err(_) => json!({"accepted":false,"nodes":[]}),
    })
}
pub fn write_out(nodes: &Value) -> Result<Value, String> {
    let nodes = nodes_of(nodes);
    guarded(|| match serialize_input_nodes(&nodes, SerializedDataType::JsonInputTree) {
        Ok(s) => json!(s),
        Err(e) => json!({"error":e.to_string()}),
    })
}
pub fn drive(seed: u64, count: usize, log: &mut Log) {
    let mut r = Rng::new(seed);
    for _ in 0..count {
        let gen = Gen::new(&["a", "b", "\"", "\\", "é", "\n", "", "𝓐∞", "\u{1}", "Symbol", "a\"b\\", "/"]);
        let doc = gen.row(&mut r, 3, 4);
        let nodes = row_json(&doc);
        let out = write_out(&nodes);
        let text = match &out {
            Ok(Value::String(s)) => s.clone(),
            _ => String::new(),
        };
        let tokens = lex(&text).unwrap_or_default();
        log.put(json!({"op":"write","nodes":nodes,"out":outcome(out.clone().map(|x| json!({"wrote":x.is_string()}))),"lexed":lex(&text).is_some(),
                       "tokens":tokens_json(&tokens),"back":outcome(read_back(&text))}));
        // corrupted, starting from a text of our own
        let mine = lex(&serialized(&nodes)).expect("HARNESS: own text");
        for _ in 0..4 {
            let mut t = mine.clone();
            for _ in 0..r.range(1, 3) {
                if t.is_empty() {
                    break;
                }
                let i = r.below(t.len());
                match r.below(8) {
                    0 => {
                        t.remove(i);
                    }
                    1 => t.truncate(i),
                    2 => {
                        let x = t[i].clone();
                        t.insert(i, x);
                    }
                    3 => {
                        let j = r.below(t.len());
                        t.swap(i, j);
                    }
                    4 | 5 => {
                        // change a number or a word
                        let ks: Vec<usize> = (0..t.len()).filter(|k| t[*k].0 != 'p').collect();
                        if !ks.is_empty() {
                            let k = *r.pick(&ks);
                            if t[k].0 == 'n' {
                                t[k].1 = (*r.pick(&["0", "1", "2", "3", "4", "6", "-1", "1.0", "1e0"])).into();
                            } else {
                                t[k].1 = (*r.pick(&["Fraction", "Root", "Sup", "Sub", "Table", "Symbol", "Container", "values", "width", "data", "version"])).into();
                            }
                        }
                    }
                    _ => {
                        // take away or repeat a whole element
                        let opens: Vec<usize> = (0..t.len()).filter(|k| t[*k].1 == "{" && t[*k].0 == 'p').collect();
                        if opens.is_empty() {
                            continue;
                        }
                        let k = *r.pick(&opens);
                        let mut depth = 0;
                        let mut e = k;
                        while e < t.len() {
                            if t[e].0 == 'p' && "{[".contains(&t[e].1) {
                                depth += 1;
                            }
                            if t[e].0 == 'p' && "}]".contains(&t[e].1) {
                                depth -= 1;
                                if depth == 0 {
                                    break;
                                }
                            }
                            e += 1;
                        }
                        let e = (e + 1).min(t.len());
                        let comma = |k: usize, t: &Vec<(char, String)>| t.get(k).is_some_and(|x| x.0 == 'p' && x.1 == ",");
                        if r.chance(50) {
                            let mut new = t[k..e].to_vec();
                            new.push(('p', ",".into()));
                            t.splice(k..k, new);
                        } else if comma(e, &t) {
                            t.drain(k..e + 1);
                        } else if k > 0 && comma(k - 1, &t) {
                            t.drain(k - 1..e);
                        } else {
                            t.drain(k..e);
                        }
                    }
                }
            }
            let mut text = write(&t, r.below(2));
            if r.chance(25) {
                // a change of single characters
                let mut c: Vec<char> = text.chars().collect();
                for _ in 0..r.range(1, 2) {
                    if c.is_empty() {
                        break;
                    }
                    let i = r.below(c.len());
                    if r.chance(50) {
                        c.remove(i);
                    } else {
                        c[i] = *r.pick(&['"', '{', ']', '1', ',', 'a', '\\', ' ']);
                    }
                }
                text = c.into_iter().collect();
            }
            let lexed = lex(&text);
            log.put(json!({"op":"read","text":text,"lexed":lexed.is_some(),"tokens":tokens_json(&lexed.unwrap_or_default()),"back":outcome(read_back(&text))}));
        }
    }
}
