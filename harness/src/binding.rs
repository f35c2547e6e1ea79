//! Sessions of calls, to be done in Python as well
use crate::catalog::*;
use crate::conv::*;
use crate::mo;
use crate::po;
use crate::render::*;
use crate::util::*;
use rspolib::escaping::{escape, unescape};
use rspolib::prelude::*;
use rspolib::{mofile, pofile, MOFile, POFile, MAGIC_SWAPPED};
use serde_json::{json, Value};

/// FNV-1a
pub fn digest(b: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

fn digests(doc: &Doc, w: usize) -> Vec<String> {
    let mut parts: Vec<Vec<u8>> = vec![];
    let mut each = String::new();
    match doc {
        Doc::Po(f) => {
            parts.push(f.to_string().into_bytes());
            parts.push(f.as_bytes().to_vec());
            parts.push(f.as_bytes_le().to_vec());
            parts.push(f.as_bytes_be().to_vec());
            parts.push(MOFile::from(f).as_bytes_with(MAGIC_SWAPPED, 1).to_vec());
            parts.push(f.metadata_as_entry().to_string().into_bytes());
            for e in &f.entries {
                each.push_str(&format!("{e}\u{1}{}\u{1}{}\u{1}", e.to_string_with_wrapwidth(w), e.msgid_eot_msgctxt()));
            }
        }
        Doc::Mo(f) => {
            parts.push(f.to_string().into_bytes());
            parts.push(f.as_bytes().to_vec());
            parts.push(f.as_bytes_le().to_vec());
            parts.push(f.as_bytes_be().to_vec());
            parts.push(f.as_bytes_with(MAGIC_SWAPPED, 1).to_vec());
            parts.push(f.metadata_as_entry().to_string().into_bytes());
            for e in &f.entries {
                each.push_str(&format!("{e}\u{1}{}\u{1}{}\u{1}", e.to_string_with_wrapwidth(w), e.msgid_eot_msgctxt()));
            }
        }
    }
    parts.push(each.into_bytes());
    parts.iter().map(|p| digest(p)).collect()
}

fn make(kind: &str, v: &Value) -> Doc {
    let w = v["width"].as_u64().unwrap() as usize;
    if kind == "po" {
        Doc::Po(to_po_file(v, w))
    } else {
        let mut f = mo::build(v);
        f.options.wrapwidth = w;
        Doc::Mo(f)
    }
}

fn file_op(r: &mut Rng, kind: &str) -> Value {
    let meta = |r: &mut Rng| {
        let mut m = random_meta(r, 3);
        m.sort();
        pairs(&m)
    };
    match r.below(if kind == "po" { 6 } else { 4 }) {
        0 => json!({"op": "set_meta", "meta": meta(r)}),
        1 => json!({"op": "update_meta", "meta": meta(r)}),
        2 => {
            // sometimes a name near of it
            let name = meta_name(r);
            let name = match r.below(6) {
                0 => name.to_lowercase(),
                1 => name.to_uppercase(),
                2 => format!("{name} "),
                _ => name,
            };
            json!({"op": "remove_meta", "name": text(&name)})
        }
        3 => json!({"op": "set_width", "width": *r.pick(&[0, 1, 10, 40, 78, 200])}),
        4 => json!({"op": "set_fuzzy", "on": r.chance(50)}),
        _ => json!({"op": "set_header", "hdr": *r.pick(&[json!([]), json!([[]]), json!([text("One\nTwo é")])])}),
    }
}

/// Operations that are not of `Doc`
fn run_file_op(doc: &mut Doc, o: &Value, scratch: &str) -> Vec<String> {
    let pairs = |o: &Value| to_metadata(&o["meta"]).into_iter();
    match (o["op"].as_str().unwrap(), &mut *doc) {
        ("set_meta", Doc::Po(f)) => f.metadata = pairs(o).collect(),
        ("set_meta", Doc::Mo(f)) => f.metadata = pairs(o).collect(),
        ("update_meta", Doc::Po(f)) => f.metadata.extend(pairs(o)),
        ("update_meta", Doc::Mo(f)) => f.metadata.extend(pairs(o)),
        ("remove_meta", Doc::Po(f)) => {
            f.metadata.remove(&to_string(&o["name"]));
        }
        ("remove_meta", Doc::Mo(f)) => {
            f.metadata.remove(&to_string(&o["name"]));
        }
        ("set_width", Doc::Po(f)) => f.options.wrapwidth = o["width"].as_u64().unwrap() as usize,
        ("set_width", Doc::Mo(f)) => f.options.wrapwidth = o["width"].as_u64().unwrap() as usize,
        ("set_fuzzy", Doc::Po(f)) => f.metadata_is_fuzzy = o["on"].as_bool().unwrap(),
        ("set_header", Doc::Po(f)) => f.header = to_opt(&o["hdr"]),
        ("assign", Doc::Po(f)) => f.entries = o["es"].as_array().unwrap().iter().map(to_po_entry).collect(),
        ("assign", Doc::Mo(f)) => f.entries = o["es"].as_array().unwrap().iter().map(to_mo_entry).collect(),
        ("save", d) => {
            let path = format!("{scratch}/saved");
            match (&*d, o["as"].as_str().unwrap()) {
                (Doc::Po(f), "po") => f.save_as_pofile(&path),
                (Doc::Po(f), "mo") => f.save_as_mofile(&path),
                (Doc::Po(f), _) => f.save(&path),
                (Doc::Mo(f), "po") => f.save_as_pofile(&path),
                (Doc::Mo(f), "mo") => f.save_as_mofile(&path),
                (Doc::Mo(f), _) => f.save(&path),
            }
            return vec![digest(&std::fs::read(&path).unwrap())];
        }
        ("member", _) => {}
        (_, d) => {
            d.run(o);
        }
    }
    vec![]
}

fn session(r: &mut Rng, scratch: &str) -> Value {
    let kind = if r.chance(60) { "po" } else { "mo" };
    let mut meta = random_meta(r, 4);
    meta.sort();
    let start = json!({
        "hdr": if kind == "po" { r.pick(&[json!([]), json!([[]]), json!([text("Header\n  two")])]).clone() } else { json!([]) },
        "meta": pairs(&meta),
        "fuzzy": kind == "po" && r.chance(30),
        "width": *r.pick(&[78, 78, 20, 1]),
        "ents": small_list(r, kind, 5),
    });
    let mut doc = make(kind, &start);
    let mut ops = vec![];
    for _ in 0..r.range(1, 10) {
        let now = doc.entries();
        let mut op = match r.below(12) {
            0..=2 => file_op(r, kind),
            3 => json!({"op": "assign", "es": small_list(r, kind, 4)}),
            4 => json!({"op": "save", "as": *r.pick(&["po", "mo", ""])}),
            5 => {
                let n = now.as_array().unwrap().len();
                let e = if n > 0 && r.chance(60) { now[r.below(n)].clone() } else { small_entry(r, kind) };
                json!({"op": "member", "e": e})
            }
            6 => json!({"op": "views"}),
            _ => random_op(r, "B01", kind, &now),
        };
        begin_case(&json!({"k": kind, "now": now, "op": op}));
        let width = *r.pick(&[1, 12, 30, 78]);
        let dig = guard(|| {
            let mut dig = run_file_op(&mut doc, &op, scratch);
            dig.extend(digests(&doc, width));
            dig
        });
        end_case();
        let failed = dig.is_err();
        let dig = dig.unwrap_or_else(|_| vec!["panic".to_string()]);
        let o = op.as_object_mut().unwrap();
        o.insert("rdig".into(), json!(dig));
        o.insert("dw".into(), json!(width));
        ops.push(op);
        if failed {
            break;
        }
    }
    json!({"t": "session", "k": kind, "start": start, "ops": ops})
}

fn summary_po(f: &POFile) -> Value {
    json!([opt(&f.header).get(0).cloned().unwrap_or(json!([])), metadata(&f.metadata), f.metadata_is_fuzzy, po_entries(&f.entries), f.options.wrapwidth])
}

fn summary_mo(f: &MOFile) -> Value {
    json!([metadata(&f.metadata), mo_entries(&f.entries), f.options.wrapwidth, f.magic_number == Some(MAGIC_SWAPPED), f.version])
}

fn outcome<T, E: std::fmt::Display>(r: Result<T, E>, v: impl Fn(T) -> Value) -> Value {
    match r {
        Ok(x) => json!({"ok": true, "v": v(x), "msg": []}),
        Err(e) => json!({"ok": false, "v": [], "msg": text(&e.to_string())}),
    }
}

/// A call of a function over one argument
fn call(r: &mut Rng, k: u64, scratch: &str) -> Value {
    let width = *r.pick(&[78, 78, 20, 0, 300]);
    match r.below(5) {
        0 | 1 => {
            let s = match r.below(4) {
                0 => po::well_formed(r),
                1 => to_po_file(&random_file(r), 40).to_string(),
                _ => po::broken_lines(r),
            };
            let name = format!("{scratch}/{}", r.pick(&["one.po", "with space", "ñ.po"]));
            let by_path = r.chance(40);
            if by_path {
                std::fs::write(&name, &s).unwrap();
            }
            let arg = if by_path { name.clone() } else { s.clone() };
            begin_case(&json!({"d": text(&s)}));
            let v = guard(|| outcome(pofile((arg.as_str(), width)), |f| summary_po(&f)));
            end_case();
            json!({"t": "call", "fn": "pofile", "path": by_path, "arg": text(&s), "name": text(&name), "width": width,
                   "new": k % 2 == 0, "rust": v.unwrap_or_else(|m| panicked(&m))})
        }
        2 => {
            let b = random_mo(r);
            let name = format!("{scratch}/image.mo");
            std::fs::write(&name, &b).unwrap();
            begin_case(&json!({"b": bytes(&b)}));
            let v = guard(|| outcome(mofile((name.as_str(), width)), |f| summary_mo(&f)));
            end_case();
            json!({"t": "call", "fn": "mofile", "path": true, "arg": bytes(&b), "name": text(&name), "width": width,
                   "new": k % 2 == 0, "rust": v.unwrap_or_else(|m| panicked(&m))})
        }
        _ => {
            let s: String = (0..r.below(8)).map(|_| *r.pick(&['\\', '\\', 'n', 't', '"', 'q', 'é', '\n', '\r', 'v', '中'])).collect();
            let un = r.chance(70);
            let rust = if un { outcome(unescape(&s), |x| text(&x)) } else { json!({"ok": true, "v": text(&escape(&s)), "msg": []}) };
            json!({"t": "call", "fn": if un { "unescape" } else { "escape" }, "path": false, "arg": text(&s), "name": [],
                   "width": 0, "new": false, "rust": rust})
        }
    }
}

pub fn generate(seed: u64, n: u64, out: &str, scratch: &str) {
    let mut w = Out::create(out);
    for k in 0..n {
        let mut r = Rng::new(seed, k);
        let c = if k % 3 == 0 { call(&mut r, k, scratch) } else { session(&mut r, scratch) };
        w.line(&c);
    }
    w.finish();
}
