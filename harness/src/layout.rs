//! Layouts of documents, and escapes
use crate::conv::*;
use crate::gen::*;
use crate::po::text_shape;
use crate::util::*;
use rspolib::errors::EscapingError;
use rspolib::escaping::{escape, unescape};
use rspolib::pofile;
use serde_json::{json, Value};

fn without_lines(v: &Value) -> Value {
    let mut v = v.clone();
    if v["ok"] == json!(true) {
        for e in v["ents"].as_array_mut().unwrap() {
            e["line"] = json!(0);
        }
        let mut m = v["meta"].as_array().unwrap().clone();
        m.sort_by_key(|p| to_string(&p[0]));
        v["meta"] = Value::Array(m);
    }
    v
}

fn read_via(doc: &str, via: &str, scratch: &str) -> Value {
    match via {
        "text" => po_outcome(guard(|| pofile(doc)), None),
        "bytes" => po_outcome(guard(|| pofile(doc.as_bytes().to_vec())), None),
        _ => {
            let path = format!("{scratch}/layout.po");
            std::fs::write(&path, doc).unwrap();
            po_outcome(guard(|| pofile(path.as_str())), None)
        }
    }
}

/// Documents typed in some layout, with the content of the usual one
pub fn replay(path: &str, scratch: &str) -> i32 {
    let (mut n, mut bad) = (0u64, 0u64);
    for case in read_cases(path) {
        n += 1;
        begin_case(&case);
        let doc = to_string(&case["d"]);
        let exp = without_lines(&case["r"]);
        let mut docs = vec![("text", doc.clone())];
        docs.push(("text", doc[..doc.len() - 1].to_string()));
        if n % 16 == 0 {
            docs.push(("path", doc.clone()));
            docs.push(("bytes", doc.clone()));
        }
        for (via, doc) in docs {
            let out = without_lines(&read_via(&doc, via, scratch));
            if out != exp {
                bad += 1;
                if bad <= 20 {
                    println!(
                        "{}",
                        json!({"bad": "content depends on layout", "doc": doc, "via": via, "expected": exp, "found": out})
                    );
                }
            }
        }
        end_case();
    }
    println!("{}", json!({"judged": n, "bad": bad}));
    (bad > 0) as i32
}

/// Pairs of layouts of random documents
pub fn generate(seed: u64, n: u64, out: &str, scratch: &str) {
    let mut w = Out::create(out);
    for k in 0..n {
        let mut r = Rng::new(seed, k);
        let sh = text_shape(&mut r);
        let items = document(&mut r, &sh);
        let la = if r.chance(50) { Layout::default() } else { Layout::random(&mut r) };
        let lb = Layout::random(&mut r);
        let a = lay_out(&mut r, &items, &la);
        let b = lay_out(&mut r, &items, &lb);
        let via = *r.pick(&["text", "text", "text", "path", "bytes"]);
        begin_case(&json!({"a": a, "b": b}));
        let ra = read_via(&a, via, scratch);
        let rb = read_via(&b, via, scratch);
        end_case();
        w.line(&json!({"a": text(&a), "b": text(&b), "via": via, "ra": ra, "rb": rb}));
    }
    w.finish();
}

fn unescaped(s: &str) -> Value {
    let v = |kind: &str, t: &str, c: u32| json!({"kind": kind, "text": text(t), "char": c});
    match guard(|| unescape(s).map(|c| c.to_string())) {
        Ok(Ok(t)) => v("ok", &t, 0),
        Ok(Err(EscapingError::EscapeAtEndOfString { .. })) => v("end", "", 0),
        Ok(Err(EscapingError::InvalidEscapedCharacter { character, .. })) => v("bad", "", character as u32),
        Err(_) => v("panic", "", 0),
    }
}

fn escaped_form(s: &str) -> Value {
    match guard(|| escape(s).to_string()) {
        Ok(t) => text(&t),
        Err(_) => json!([0, 0, 0, 0]),
    }
}

pub fn replay_escapes(path: &str) -> i32 {
    let (mut n, mut bad) = (0u64, 0u64);
    for case in read_cases(path) {
        n += 1;
        begin_case(&case);
        let s = to_string(&case["s"]);
        let e = escaped_form(&s);
        let u = unescaped(&s);
        let mut ue = json!({"kind": "none"});
        let mut why = "";
        if e != case["e"] {
            why = "escaped form";
        } else {
            ue = unescaped(&to_string(&e));
            if ue["kind"] != json!("ok") || ue["text"] != case["s"] {
                why = "unescaping does not undo escaping";
            }
        }
        if u["kind"] != case["u"]["kind"]
            || (u["kind"] == json!("ok") && u["text"] != case["u"]["text"])
            || u["char"] != case["u"]["char"]
        {
            why = "unescaping";
        }
        end_case();
        if !why.is_empty() {
            bad += 1;
            if bad <= 20 {
                println!("{}", json!({"bad": why, "text": s, "expected": case, "escaped": e, "unescaped": u, "back": ue}));
            }
        }
    }
    println!("{}", json!({"judged": n, "bad": bad}));
    (bad > 0) as i32
}

pub fn generate_escapes(seed: u64, n: u64, out: &str) {
    let mut w = Out::create(out);
    for k in 0..n {
        let mut r = Rng::new(seed, k);
        let mut s = any_text(&mut r, ALL, 30);
        if r.chance(30) {
            // runs of backslashes
            for _ in 0..r.range(1, 3) {
                let at = r.below(s.chars().count() + 1);
                let mut cs: Vec<char> = s.chars().collect();
                let run = r.range(1, 5);
                for _ in 0..run {
                    cs.insert(at, '\\');
                }
                s = cs.into_iter().collect();
            }
        }
        if r.chance(20) {
            // any characters
            let m = r.below(8);
            for _ in 0..m {
                s.push(char::from_u32(r.below(0x110000) as u32).unwrap_or('x'));
            }
        }
        if k % 100 == 9 {
            // the same after (or before) a long text
            let long = r.pick(&["x", "é", "word ", "中"]).repeat(r.range(300, 5000));
            s = if r.chance(80) { long + &s } else { s + &long };
        }
        begin_case(&json!({"s": s}));
        let e = escaped_form(&s);
        let u = unescaped(&s);
        let ue = unescaped(&to_string(&e));
        end_case();
        w.line(&json!({"s": text(&s), "e": e, "u": u, "ue": ue}));
    }
    w.finish();
}
