//! MO images: writing, reading and compilation of PO files
use crate::conv::*;
use crate::gen::*;
use crate::render::*;
use crate::util::*;
use rspolib::{errors::IOError, mofile, pofile, AsBytes, MOFile, Save, SaveAsMOFile, SaveAsPOFile, MAGIC, MAGIC_SWAPPED};
use serde_json::{json, Value};
use std::collections::HashSet;

/// Four bytes read in an order
fn number(b: &[u8], at: usize, be: bool) -> u32 {
    let q: [u8; 4] = b[at..at + 4].try_into().unwrap();
    if be {
        u32::from_be_bytes(q)
    } else {
        u32::from_le_bytes(q)
    }
}

fn failure(kind: &str, why: &str) -> Value {
    json!({"ok": false, "kind": kind, "why": text(why)})
}

/// Outcome of reading bytes
pub fn outcome(r: Result<Result<MOFile, IOError>, String>, b: &[u8]) -> Value {
    match r {
        Err(m) => failure("panic", &m.chars().filter(|c| c.is_ascii_graphic() || *c == ' ').take(80).collect::<String>()),
        Ok(Ok(f)) => {
            let mut v = mo_file(&f);
            let o = v.as_object_mut().unwrap();
            o.insert("be".into(), json!(f.magic_number == Some(MAGIC_SWAPPED)));
            let known = matches!(f.magic_number, Some(MAGIC) | Some(MAGIC_SWAPPED));
            o.insert("rev".into(), if known { json!(f.version.map(|v| v as i64).unwrap_or(-1)) } else { json!(-1) });
            v
        }
        Ok(Err(e)) => {
            let shown = e.to_string();
            match &e {
                IOError::ErrorReadingMagicNumber {} => failure("short", ""),
                IOError::IncorrectMagicNumber { magic_number_le, magic_number_be } => {
                    let good = *magic_number_le == number(b, 0, false)
                        && *magic_number_be == number(b, 0, true)
                        && shown.contains(&magic_number_le.to_string())
                        && shown.contains(&magic_number_be.to_string());
                    failure(if good { "magic" } else { "other magic" }, "")
                }
                IOError::UnsupportedMORevisionNumber { version } => {
                    let be = number(b, 0, false) == MAGIC_SWAPPED;
                    let good = *version == number(b, 4, be) && shown.contains(&version.to_string());
                    failure(if good { "revision" } else { "other revision" }, "")
                }
                IOError::CorruptedMOData { context } => {
                    failure(if shown.contains(context.as_str()) { "data" } else { "hidden" }, context)
                }
            }
        }
    }
}

/// Bytes in memory, and now and then in a file
fn read(b: &[u8], n: u64, scratch: &str) -> Value {
    let r = if n % 8 == 3 {
        let path = format!("{scratch}/image.mo");
        std::fs::write(&path, b).unwrap();
        guard(|| mofile(path.as_str()))
    } else if n % 8 == 5 {
        guard(|| mofile((b.to_vec(), 40)))
    } else {
        guard(|| mofile(b.to_vec()))
    };
    guard(|| outcome(r, b)).unwrap_or_else(|m| failure("panic", &m))
}

pub fn normal(e: &Value) -> Value {
    let plural = e["pl"] != json!([]);
    json!({
        "id": e["id"], "ctx": e["ctx"], "pl": e["pl"],
        "strs": if plural { e["strs"].clone() } else { json!([]) },
        "str": if plural { json!([]) } else if e["str"] == json!([]) { json!([[]]) } else { e["str"].clone() },
    })
}

fn bag(v: &Value) -> Vec<String> {
    let mut out: Vec<String> = v.as_array().unwrap().iter().map(|e| normal(e).to_string()).collect();
    out.sort();
    out
}

fn sorted(v: &Value) -> Vec<String> {
    let mut out: Vec<String> = v.as_array().unwrap().iter().map(|p| p.to_string()).collect();
    out.sort();
    out
}

fn difference(exp: &Value, r: &Value) -> &'static str {
    if r["kind"] == json!("panic") {
        return "panic";
    }
    let (eok, rok) = (exp["ok"].as_bool().unwrap(), r["ok"].as_bool().unwrap());
    if eok && !rok {
        return "valid image refused";
    }
    if !eok && rok {
        return "image with errors accepted";
    }
    if eok {
        if sorted(&exp["meta"]) != sorted(&r["meta"]) {
            return "metadata";
        }
        if bag(&exp["ents"]) != bag(&r["ents"]) {
            return "messages";
        }
        if exp["be"] != r["be"] {
            return "byte order";
        }
        if exp["rev"] != r["rev"] {
            return "revision";
        }
        return "";
    }
    if exp["kind"] != r["kind"] {
        return "kind of error";
    }
    let why = to_string(&r["why"]);
    let words: HashSet<&str> = why.split_whitespace().collect();
    for w in to_strings(&exp["part"]) {
        if !words.contains(w.as_str()) {
            return "part named by the error";
        }
    }
    ""
}

/// Images printed by TLC with their outcomes
pub fn replay(path: &str, scratch: &str) -> i32 {
    let (mut n, mut bad, mut refused) = (0u64, 0u64, 0u64);
    for case in read_cases(path) {
        n += 1;
        begin_case(&case);
        let b = to_bytes(&case["b"]);
        let r = read(&b, n, scratch);
        end_case();
        if case["r"]["ok"] == json!(false) {
            refused += 1;
        }
        let why = difference(&case["r"], &r);
        if !why.is_empty() {
            bad += 1;
            if bad <= 20 {
                println!("{}", json!({"bad": why, "case": case, "found": r}));
            }
        }
    }
    println!("{}", json!({"judged": n, "bad": bad, "images_with_errors": refused}));
    (bad > 0) as i32
}

fn clean(s: &str, keep_eot: bool) -> String {
    s.chars().filter(|c| *c != '\0' && (keep_eot || *c != '\u{4}')).collect()
}

/// Messages with different keys, without NUL
pub fn messages(r: &mut Rng, n: usize, max: usize, eot: bool) -> Vec<Value> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    for _ in 0..n {
        let mut e = random_entry(r, max);
        let o = e.as_object_mut().unwrap();
        let cl = |v: &Value| text(&clean(&to_string(v), eot));
        for k in ["ctx", "pl", "str"] {
            let v = o[k].as_array().unwrap().iter().map(cl).collect();
            o.insert(k.into(), Value::Array(v));
        }
        o.insert("id".into(), cl(&o["id"]));
        if r.chance(30) {
            o.insert("id".into(), text(r.pick(&["a", "b", "ab", "é", "", "a\u{1}", "a\u{5}b", "B", "中"])));
        }
        if r.chance(30) {
            o.insert("ctx".into(), json!([text(r.pick(&["a", "", "c", "é", "a\u{3}", "ctx"]))]));
        }
        let plural = o["pl"] != json!([]);
        if plural {
            let strs: Vec<Value> = o["strs"].as_array().unwrap().iter().map(cl).collect();
            let strs = strs.into_iter().map(|s| if r.chance(15) { json!([]) } else { s }).collect();
            o.insert("strs".into(), Value::Array(strs));
            o.insert("str".into(), json!([]));
        } else {
            o.insert("strs".into(), json!([]));
            if r.chance(10) {
                o.insert("str".into(), json!([[]]));
            }
        }
        if o["id"] == json!([]) && o["ctx"] == json!([]) {
            continue;
        }
        if seen.insert(format!("{}{}", o["id"], o["ctx"])) {
            out.push(e);
        }
    }
    out
}

pub fn as_mo(e: &Value) -> Value {
    json!({"id": e["id"], "str": e["str"], "pl": e["pl"], "strs": e["strs"], "ctx": e["ctx"]})
}

pub fn clean_meta(r: &mut Rng) -> Vec<(String, String)> {
    random_meta(r, 6)
        .into_iter()
        .map(|(k, v)| (clean(&k, false), clean(&v, false).trim().to_string()))
        .collect()
}

pub fn build(v: &Value) -> MOFile {
    let mut f = MOFile::new("".into());
    for (k, val) in to_metadata(&v["meta"]) {
        f.metadata.insert(k, val);
    }
    f.entries = v["ents"].as_array().unwrap().iter().map(to_mo_entry).collect();
    f
}

/// Writes a file, reads the bytes and writes them again
fn write_case(v: &Value, be: bool, rev: u32, n: u64, scratch: &str) -> Value {
    let magic = if be { MAGIC_SWAPPED } else { MAGIC };
    let written = guard(|| {
        let f = build(v);
        match (rev, be, n % 4) {
            (0, true, 0) => f.as_bytes_be().to_vec(),
            (0, false, 0) => f.as_bytes_le().to_vec(),
            (0, false, 1) => f.as_bytes().to_vec(),
            (0, false, 2) => {
                let path = format!("{scratch}/saved.mo");
                if n % 8 == 2 {
                    f.save(&path);
                } else {
                    f.save_as_mofile(&path);
                }
                std::fs::read(&path).unwrap()
            }
            _ => f.as_bytes_with(magic, rev).to_vec(),
        }
    });
    let b = match written {
        Ok(b) => b,
        Err(_) => return json!({"t": "panic", "f": v, "b": []}),
    };
    let r = read(&b, n, scratch);
    let again = guard(|| match mofile(b.clone()) {
        Ok(f) => f.as_bytes_with(magic, rev).to_vec(),
        Err(_) => vec![],
    })
    .unwrap_or_default();
    json!({"t": "write", "f": v, "be": be, "rev": rev, "b": bytes(&b), "r": r, "again": bytes(&again)})
}

fn put(b: &mut Vec<u8>, n: u32, be: bool) {
    b.extend(if be { n.to_be_bytes() } else { n.to_le_bytes() });
}

/// An image in the other byte order, of the other revision
pub fn swapped(v: &Value) -> Vec<u8> {
    build(v).as_bytes_with(MAGIC_SWAPPED, 1).to_vec()
}

/// An image made by other tool: any order, gaps, shared strings
pub fn foreign(r: &mut Rng, v: &Value, be: bool, rev: u32) -> Vec<u8> {
    let mut keys: Vec<Vec<u8>> = vec![];
    let mut vals: Vec<Vec<u8>> = vec![];
    let meta = to_metadata(&v["meta"]);
    if !meta.is_empty() || r.chance(50) {
        keys.push(vec![]);
        let lines: Vec<String> = meta.iter().map(|(k, v)| format!("{k}:{}{v}", r.pick(&[" ", "", "  "]))).collect();
        let end = if r.chance(70) { "\n" } else { "" };
        vals.push(format!("{}{end}", lines.join("\n")).into_bytes());
    }
    for e in v["ents"].as_array().unwrap() {
        let m = to_mo_entry(e);
        let mut k = String::new();
        if let Some(c) = &m.msgctxt {
            k.push_str(c);
            k.push('\u{4}');
        }
        k.push_str(&m.msgid);
        let mut val = m.msgstr.clone().unwrap_or_default();
        if let Some(p) = &m.msgid_plural {
            k.push('\0');
            k.push_str(p);
            val = m.msgstr_plural.join("\0");
        }
        keys.push(k.into_bytes());
        vals.push(val.into_bytes());
    }
    let n = keys.len();
    let strings: Vec<&Vec<u8>> = keys.iter().chain(vals.iter()).collect();
    // parts: tables, hash table and strings
    let mut parts: Vec<usize> = (0..2 * n + 3).collect();
    if r.chance(60) {
        for i in (1..parts.len()).rev() {
            parts.swap(i, r.below(i + 1));
        }
    }
    let hash = if r.chance(50) { r.range(1, 5) } else { 0 };
    let gaps = r.chance(50);
    let mut body: Vec<u8> = vec![];
    let mut place = vec![0u32; 2 * n + 3];
    for p in parts {
        if gaps && r.chance(40) {
            let k = r.range(1, 9);
            body.extend(std::iter::repeat(*r.pick(&[0u8, 65, 255])).take(k));
        }
        place[p] = 28 + body.len() as u32;
        match p {
            0 | 1 => body.extend(vec![0; 8 * n]),
            2 => body.extend(vec![9; 4 * hash]),
            p => {
                if r.chance(20) {
                    let same = (3..p).find(|q| strings[q - 3] == strings[p - 3] && place[*q] != 0);
                    if let Some(q) = same {
                        place[p] = place[q];
                        continue;
                    }
                }
                body.extend(strings[p - 3]);
                body.push(0);
            }
        }
    }
    for (t, from) in [(0, 0), (1, n)] {
        let mut rows = vec![];
        for i in 0..n {
            put(&mut rows, strings[from + i].len() as u32, be);
            put(&mut rows, place[3 + from + i], be);
        }
        let at = place[t] as usize - 28;
        body[at..at + 8 * n].copy_from_slice(&rows);
    }
    let mut b = vec![];
    for x in [MAGIC, rev, n as u32, place[0], place[1], hash as u32, if hash > 0 { place[2] } else { 0 }] {
        put(&mut b, x, be);
    }
    b.extend(body);
    b
}

/// Damages an image
pub fn damage(r: &mut Rng, b: &mut Vec<u8>, be: bool) {
    match r.below(6) {
        0 => {
            let at = r.below(b.len() + 1);
            b.truncate(at);
        }
        1 | 2 | 3 => {
            let fields = b.len() / 4;
            for _ in 0..r.range(1, 2) {
                let f = if r.chance(50) { r.below(7) } else { r.below(fields.min(60)) };
                if 4 * f + 4 > b.len() {
                    continue;
                }
                let now = number(b, 4 * f, be);
                let len = b.len() as u32;
                let x = match r.below(8) {
                    0 => 0,
                    1 => u32::MAX,
                    2 => now.wrapping_add(1),
                    3 => now.wrapping_sub(1),
                    4 => r.below(2 * len as usize + 1) as u32,
                    5 => 0x8000_0000,
                    6 => len,
                    _ => len - len.min(r.below(9) as u32),
                };
                b.splice(4 * f..4 * f + 4, if be { x.to_be_bytes() } else { x.to_le_bytes() });
            }
        }
        4 => {
            for _ in 0..r.range(1, 4) {
                if !b.is_empty() {
                    let at = r.below(b.len());
                    b[at] = *r.pick(&[0u8, 4, 10, 58, 65, 128, 195, 224, 237, 240, 244, 255]);
                }
            }
        }
        _ => {
            let n = r.below(80);
            let mut x: Vec<u8> = if r.chance(70) { b.iter().take(r.below(24)).copied().collect() } else { vec![] };
            x.extend((0..n).map(|_| if r.chance(50) { r.below(4) as u8 } else { r.below(256) as u8 }));
            *b = x;
        }
    }
}

/// A PO file compiled: what is in the image, and in its text
fn compile_case(v: &Value, be: bool, n: u64, scratch: &str) -> Value {
    let all = guard(|| {
        let po = to_po_file(v, if n % 3 == 0 { 30 } else { 78 });
        let b: Vec<u8> = match (be, n % 5) {
            (true, 0..=2) => po.as_bytes_be().to_vec(),
            (true, _) => MOFile::from(&po).as_bytes_be().to_vec(),
            (false, 0) => po.as_bytes().to_vec(),
            (false, 1) => po.as_bytes_le().to_vec(),
            (false, 2) => {
                let path = format!("{scratch}/compiled.mo");
                po.save_as_mofile(&path);
                std::fs::read(&path).unwrap()
            }
            (false, _) => MOFile::from(&po).as_bytes().to_vec(),
        };
        let r = read(&b, n, scratch);
        let (mut found, mut api, mut back) = (vec![], vec![], json!({"ok": false}));
        if let Ok(mo) = mofile(b.clone()) {
            for e in &po.entries {
                let here: Vec<Value> = mo
                    .entries
                    .iter()
                    .filter(|m| m.msgid == e.msgid && m.msgctxt == e.msgctxt)
                    .map(mo_entry)
                    .collect();
                let by: Vec<Value> = match &e.msgctxt {
                    Some(c) => mo.find_by_msgid_msgctxt(&e.msgid, c).into_iter().map(mo_entry).collect(),
                    None => mo
                        .find(&e.msgid, "msgid", Some(""))
                        .into_iter()
                        .filter(|m| m.msgctxt.is_none())
                        .map(mo_entry)
                        .collect(),
                };
                found.push(Value::Array(here));
                api.push(Value::Array(by));
            }
            let t = if n % 7 == 1 {
                let path = format!("{scratch}/back.po");
                mo.save_as_pofile(&path);
                String::from_utf8_lossy(&std::fs::read(&path).unwrap()).to_string()
            } else {
                mo.to_string()
            };
            if let Ok(p) = pofile(t.as_str()) {
                back = po_file(&p);
            }
        }
        json!({"t": "compile", "f": v, "be": be, "b": bytes(&b), "r": r, "found": found, "api": api, "back": back})
    });
    all.unwrap_or_else(|_| json!({"t": "panic", "f": v, "b": []}))
}

/// Files printed by TLC, compiled
pub fn record(path: &str, out: &str, scratch: &str) {
    let mut w = Out::create(out);
    for (n, case) in read_cases(path).enumerate() {
        begin_case(&case);
        let c = compile_case(&case["f"], n % 2 == 1, n as u64 / 2, scratch);
        end_case();
        w.line(&c);
    }
    w.finish();
}

/// Catalogs printed by TLC, written by the library (one of each `step` of the
/// big ones)
pub fn rewrite(path: &str, step: usize, out: &str, scratch: &str) {
    let mut w = Out::create(out);
    let mut seen = HashSet::new();
    for (n, case) in read_cases(path).enumerate() {
        let r = &case["r"];
        if n % step != 0 && r["ents"].as_array().unwrap().len() > 2 {
            continue;
        }
        if !seen.insert(r.to_string()) {
            continue;
        }
        begin_case(&case);
        let v = json!({"meta": r["meta"], "ents": r["ents"]});
        let c = write_case(&v, r["be"].as_bool().unwrap(), r["rev"].as_u64().unwrap() as u32, n as u64, scratch);
        end_case();
        w.line(&c);
    }
    w.finish();
}

pub fn generate(prop: &str, seed: u64, n: u64, out: &str, scratch: &str) {
    let mut w = Out::create(out);
    for k in 0..n {
        let mut r = Rng::new(seed, k);
        // some have hundreds of messages, see that their ids are different;
        // not the damaged ones, where any number can name the whole image
        let big = prop != "M03";
        let many = big && k % 500 == 7;
        let max = if many { 1 } else { *r.pick(&[1, 3, 10, 40]) };
        let n = if many { 200 + r.below(600) } else { r.below(7) };
        let mut ents = messages(&mut r, n, max, prop == "M01");
        if many {
            while ents.len() < n {
                ents.extend(messages(&mut r, 9, max, prop == "M01"));
            }
            for (i, e) in ents.iter_mut().enumerate() {
                let id = format!("{}.{i}", to_string(&e["id"]));
                e.as_object_mut().unwrap().insert("id".into(), text(&id));
            }
        }
        if big && k % 500 == 13 && !ents.is_empty() {
            // strings whose lengths need more than two bytes
            let at = r.below(ents.len());
            let field = *r.pick(&["id", "str"]);
            let t = r.pick(&["long ", "é", "x\n"]).repeat(66000 / 2 + r.below(40));
            let o = ents[at].as_object_mut().unwrap();
            if field == "id" {
                o.insert("id".into(), text(&t));
            } else {
                o.insert("pl".into(), json!([]));
                o.insert("strs".into(), json!([]));
                o.insert("str".into(), json!([text(&t)]));
            }
        }
        let meta = clean_meta(&mut r);
        let (be, rev) = (r.chance(50), r.below(2) as u32);
        let v = if prop == "M04" {
            json!({"hdr": [], "meta": pairs(&meta), "fuzzy": r.chance(20), "ents": ents})
        } else {
            let ents: Vec<Value> = ents.iter().map(as_mo).collect();
            json!({"meta": pairs(&meta), "ents": ents})
        };
        begin_case(&json!({"f": v, "be": be, "rev": rev}));
        let c = match prop {
            "M04" => compile_case(&v, be, k, scratch),
            "M01" => write_case(&v, be, rev, k, scratch),
            "M02" if k % 2 == 0 => write_case(&v, be, rev, k, scratch),
            _ => {
                let mut b = foreign(&mut r, &v, be, rev);
                if prop == "M03" && r.chance(90) {
                    damage(&mut r, &mut b, be);
                }
                begin_case(&json!({"b": bytes(&b)}));
                json!({"t": "bytes", "b": bytes(&b), "r": read(&b, k, scratch)})
            }
        };
        end_case();
        w.line(&slim(c, prop));
    }
    w.finish();
}

fn slim(mut c: Value, prop: &str) -> Value {
    if prop == "M01" {
        let o = c.as_object_mut().unwrap();
        o.remove("r");
        o.remove("again");
    }
    c
}
