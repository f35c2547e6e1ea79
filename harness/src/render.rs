//! Rendering of files and messages
use crate::conv::*;
use crate::gen::*;
use crate::util::*;
use rspolib::{
    mo_metadata_entry_to_string, mofile, po_metadata_entry_to_string, pofile, AsBytes, FileOptions, MOFile, POFile, Save,
    SaveAsPOFile,
};
use serde_json::{json, Value};
use std::collections::HashMap;
use unicode_linebreak::linebreaks;
use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};

/// Escaped form, own implementation
fn escape(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '"' => "\\\"".to_string(),
            '\\' => "\\\\".to_string(),
            '\n' => "\\n".to_string(),
            '\r' => "\\r".to_string(),
            '\t' => "\\t".to_string(),
            '\u{8}' => "\\b".to_string(),
            '\u{11}' => "\\v".to_string(),
            '\u{12}' => "\\f".to_string(),
            c => c.to_string(),
        })
        .collect()
}

/// What Unicode says about a text
fn info(s: &str) -> Value {
    let mut at: HashMap<usize, usize> = s.char_indices().enumerate().map(|(i, (b, _))| (b, i)).collect();
    at.insert(s.len(), s.chars().count());
    let mut upto = vec![0];
    for c in s.chars() {
        upto.push(upto[upto.len() - 1] + UnicodeWidthChar::width(c).unwrap_or(0));
    }
    json!({
        "t": text(s),
        "w": UnicodeWidthStr::width(s),
        "brk": linebreaks(s).map(|(b, _)| at[&b]).collect::<Vec<usize>>(),
        "upto": upto,
    })
}

/// Texts of an entry that can be broken
fn texts_of(e: &Value, out: &mut Vec<String>) {
    for k in ["ctx", "pl", "pid", "ppl", "pctx"] {
        if let Some(v) = e.get(k) {
            if let Some(s) = to_opt(v) {
                out.push(escape(&s));
            }
        }
    }
    out.push(escape(&to_string(&e["id"])));
    out.push(escape(&to_opt(&e["str"]).unwrap_or_default()));
    for s in to_strings(&e["strs"]) {
        out.push(escape(&s));
    }
    for k in ["com", "tcom"] {
        if let Some(s) = e.get(k).and_then(to_opt) {
            for l in s.split('\n') {
                out.push(l.to_string());
            }
        }
    }
    if let Some(o) = e.get("occ") {
        for p in o.as_array().unwrap() {
            let (f, l) = (to_string(&p[0]), to_string(&p[1]));
            out.push(if l.is_empty() { f } else { format!("{f}:{l}") });
        }
    }
}

fn table(entries: &[&Value]) -> Value {
    let mut all = vec![];
    for e in entries {
        texts_of(e, &mut all);
    }
    all.sort();
    all.dedup();
    Value::Array(all.iter().map(|s| info(s)).collect())
}

/// The same file made with its pairs inserted in other order, over others
/// that are removed
fn made_again(v: &Value, w: usize) -> POFile {
    let mut f = to_po_file(v, w);
    let mut pairs = to_metadata(&v["meta"]);
    pairs.reverse();
    f.metadata = HashMap::new();
    for i in 0..40 {
        f.metadata.insert(format!("gone-{i}"), "x".to_string());
    }
    for (k, val) in pairs {
        f.metadata.insert(k, val);
    }
    f.metadata.retain(|k, _| !k.starts_with("gone-"));
    f
}

fn reload(d: &str, w: usize) -> Result<Result<POFile, rspolib::errors::SyntaxError>, String> {
    guard(|| pofile((d, w)))
}

/// How a file is written, what is read of it, and how it is written again
fn file_case(v: &Value, w: usize, scratch: &str, n: u64) -> Value {
    let mut ok = true;
    let mut render = |f: &POFile| match guard(|| f.to_string()) {
        Ok(s) => s,
        Err(_) => {
            ok = false;
            String::new()
        }
    };
    let d = render(&to_po_file(v, w));
    let mut same = vec![render(&made_again(v, w))];
    if n % 8 == 0 {
        // through the disk
        let path = format!("{scratch}/saved.po");
        for which in 0..2 {
            let f = to_po_file(v, w);
            let _ = std::fs::remove_file(&path);
            let s = guard(|| {
                if which == 0 {
                    f.save(&path)
                } else {
                    f.save_as_pofile(&path)
                }
            });
            same.push(match s {
                Ok(()) => String::from_utf8_lossy(&std::fs::read(&path).unwrap_or_default()).to_string(),
                Err(_) => "panic".to_string(),
            });
        }
    }
    let r = reload(&d, w);
    let (mut d2, mut d3) = (String::new(), String::new());
    if let Ok(Ok(f2)) = &r {
        d2 = render(f2);
        if let Ok(Ok(f3)) = reload(&d2, w) {
            d3 = render(&f3);
        }
    }
    let r = po_outcome(r, None);
    let ents: Vec<&Value> = v["ents"].as_array().unwrap().iter().collect();
    json!({"t": "file", "w": w, "f": v, "tab": table(&ents), "ok": ok, "d": text(&d), "r": r,
           "d2": text(&d2), "d3": text(&d3), "same": texts(&same)})
}

fn entry_case(e: &Value, w: usize, display: bool) -> Value {
    let p = to_po_entry(e);
    let w = if display { 78 } else { w };
    let d = guard(|| if display { p.to_string() } else { p.to_string_with_wrapwidth(w) });
    json!({"t": "entry", "w": w, "f": e, "tab": table(&[e]), "ok": d.is_ok(), "d": text(&d.unwrap_or_default())})
}

fn as_mo(e: &Value) -> Value {
    json!({"id": e["id"], "str": e["str"], "pl": e["pl"], "strs": e["strs"], "ctx": e["ctx"]})
}

fn mo_entry_case(e: &Value, w: usize, display: bool) -> Value {
    let e = as_mo(e);
    let m = to_mo_entry(&e);
    let w = if display { 78 } else { w };
    let d = guard(|| if display { m.to_string() } else { m.to_string_with_wrapwidth(w) });
    json!({"t": "moentry", "w": w, "f": e, "tab": table(&[&e]), "ok": d.is_ok(), "d": text(&d.unwrap_or_default())})
}

fn mo_file_case(v: &Value, w: usize) -> Value {
    let ents: Vec<Value> = v["ents"].as_array().unwrap().iter().map(as_mo).collect();
    let mut m = MOFile::new(("", w).into());
    for (k, val) in to_metadata(&v["meta"]) {
        m.metadata.insert(k, val);
    }
    m.entries = ents.iter().map(to_mo_entry).collect();
    let d = guard(|| m.to_string());
    let f = json!({"meta": v["meta"], "ents": ents});
    let refs: Vec<&Value> = ents.iter().collect();
    json!({"t": "mofile", "w": w, "f": f, "tab": table(&refs), "ok": d.is_ok(), "d": text(&d.unwrap_or_default())})
}

/// Files made by the specification, at some widths
pub fn record(path: &str, prop: &str, widths: &str, out: &str, scratch: &str) {
    let widths: Vec<usize> = widths.split(',').map(|w| w.parse().unwrap()).collect();
    let mut w = Out::create(out);
    let mut n = 0;
    for case in read_cases(path) {
        for width in &widths {
            n += 1;
            begin_case(&case);
            let c = file_case(&case["f"], *width, scratch, n);
            end_case();
            w.line(&slim(c, prop));
        }
    }
    w.finish();
}

/// Only what is needed
fn slim(mut c: Value, prop: &str) -> Value {
    let o = c.as_object_mut().unwrap();
    let drop: &[&str] = match prop {
        "S01" => &["d", "d2", "d3", "same"],
        "S02" => &["r"],
        _ => &["r", "d2", "d3", "same"],
    };
    for k in drop {
        o.remove(*k);
    }
    c
}

pub const WIDTHS: &[usize] =
    &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 14, 15, 20, 25, 30, 40, 60, 76, 77, 78, 78, 78, 79, 80, 100, 200, 100000];

fn opt_text(r: &mut Rng, pct: usize, max: usize) -> Value {
    if r.chance(pct) {
        json!([text(&wordy(r, max))])
    } else {
        json!([])
    }
}

/// Any text, or words with spaces
fn wordy(r: &mut Rng, max: usize) -> String {
    if r.chance(50) {
        return any_text(r, ALL, max);
    }
    let n = r.range(1, max.max(1)) * r.texts;
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(&[
            "a", "of", "the", "word", "wrapping", "extraordinary", "%(name)s", "foo-bar", "path/to/file", "\"x\"",
            "中文字", "café", "naïve", "x\\y", "1,000", "don't", "(see", "it)", "\u{1b}", "한글",
        ]));
        s.push_str(r.pick(&[" ", " ", " ", " ", "  ", "\n", "", ", ", ". ", "\t"]));
    }
    if r.chance(60) {
        s = s.trim_end().to_string();
    }
    s
}

/// Words until hundreds or thousands of characters
fn long_text(r: &mut Rng) -> String {
    let n = *r.pick(&[260, 520, 1100, 2100]);
    let mut s = String::new();
    while s.len() < n {
        s.push_str(&any_text(r, ALL, 6));
        s.push_str(r.pick(&["word ", "another ", "extraordinary ", "a ", "1.5 ", "é "]));
    }
    s.push_str("end");
    s
}

/// Comment lines without white space at their ends
fn comment(r: &mut Rng, extracted: bool) -> String {
    let n = r.range(1, 4) * r.lists;
    let lines: Vec<String> = (0..n)
        .map(|_| {
            let l = match r.below(6) {
                0 => String::new(),
                1 => line_text(r, 4),
                2 => format!("  {}", line_text(r, 4)),
                _ => wordy(r, 12).replace(['\n', '\r'], " "),
            };
            let l = l.trim_end().to_string();
            if l.is_empty() && extracted && r.chance(80) {
                "e".to_string()
            } else {
                l
            }
        })
        .collect();
    lines.join("\n")
}

pub fn random_entry(r: &mut Rng, max: usize) -> Value {
    let plural = r.chance(35);
    let rich = if r.chance(50) { 50 } else { 10 };
    let strs: Vec<Value> = if plural || r.chance(5) {
        let n = if r.chance(5) { r.range(9, 12) } else { r.range(0, 4) * r.lists };
        if r.chance(2) {
            (0..r.range(13, 70)).map(|_| text(&wordy(r, max.min(2)))).collect()
        } else {
            (0..n).map(|_| text(&wordy(r, max))).collect()
        }
    } else {
        vec![]
    };
    let id = wordy(r, max);
    let com = if r.chance(rich) { json!([text(&comment(r, true))]) } else { json!([]) };
    let tcom = if r.chance(rich) { json!([text(&comment(r, false))]) } else { json!([]) };
    let most = if r.chance(3) { 80 } else if r.chance(20) { 12 } else { 3 };
    let n = if r.chance(rich) { r.range(1, most) * r.lists } else { 0 };
    let occ: Vec<Value> = (0..n)
        .map(|_| {
            let line = if r.chance(20) {
                r.pick(&["", "", "0", "00", "007"]).to_string()
            } else {
                r.below(100000).to_string()
            };
            json!([text(&word(r)), text(&line)])
        })
        .collect();
    let most = if r.chance(4) { 40 } else { 3 };
    let n = if r.chance(rich) { r.range(1, most) * r.lists } else { 0 };
    let flags: Vec<Value> = (0..n)
        .map(|_| text(r.pick(&["fuzzy", "c-format", "python-format", "no-wrap", "x y", "Fuzzy", "ñ", "range: 1..2"])))
        .collect();
    json!({
        "id": text(&id),
        "str": if strs.is_empty() || r.chance(10) { opt_text(r, 85, max) } else { json!([]) },
        "pl": if plural { json!([text(&wordy(r, max))]) } else { json!([]) },
        "strs": strs,
        "ctx": opt_text(r, 30, max),
        "obs": r.chance(25),
        "com": com,
        "tcom": tcom,
        "occ": occ,
        "flags": flags,
        "pid": opt_text(r, rich / 2, max),
        "ppl": opt_text(r, rich / 3, max),
        "pctx": opt_text(r, rich / 3, max),
        "line": 0,
    })
}

pub fn meta_name(r: &mut Rng) -> String {
    if r.chance(60) {
        return r.pick(META_NAMES).to_string();
    }
    let mut s = String::from("X");
    for _ in 0..r.range(0, 4) {
        s.push_str(r.pick(&["-", "0", "1", "2", "10", "a", "A", "é", "00", " b", "_"]));
    }
    s.trim().to_string()
}

pub fn random_meta(r: &mut Rng, max: usize) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for i in 0..r.below(max + 1) * r.lists.min(20) {
        let k = if i > 40 { format!("{}{i}", meta_name(r)) } else { meta_name(r) };
        let v = any_text(r, ALL, 8).replace('\n', " ").trim().to_string();
        if out.iter().all(|p| p.0 != k) {
            out.push((k, v));
        }
    }
    out
}

pub fn pairs(m: &[(String, String)]) -> Value {
    Value::Array(m.iter().map(|(k, v)| json!([text(k), text(v)])).collect())
}

fn random_header(r: &mut Rng) -> Value {
    match r.below(5) {
        0 => json!([]),
        1 => json!([[]]),
        _ => {
            let n = r.range(1, 4) * r.lists;
            let mut lines: Vec<String> = (0..n)
                .map(|_| {
                    let l = if r.chance(20) { String::new() } else { line_text(r, 10) };
                    let lead = if r.chance(10) { "  " } else { "" };
                    format!("{lead}{l}").trim_end().to_string()
                })
                .collect();
            if lines.last().unwrap().is_empty() {
                lines.push("last".to_string());
            }
            json!([text(&lines.join("\n"))])
        }
    }
}

pub fn random_file(r: &mut Rng) -> Value {
    let max = *r.pick(&[2, 6, 12, 25]);
    let n = r.below(5) * r.many;
    let meta = random_meta(r, 6);
    let ents: Vec<Value> = (0..n).map(|_| random_entry(r, max)).collect();
    json!({"hdr": random_header(r), "meta": pairs(&meta), "fuzzy": r.chance(25), "ents": ents})
}

pub fn generate(prop: &str, seed: u64, n: u64, out: &str, scratch: &str) {
    let mut w = Out::create(out);
    for k in 0..n {
        let mut r = Rng::new(seed, k);
        let mut v = random_file(&mut r);
        let mut width = *r.pick(WIDTHS);
        if k % 40 == 17 {
            // all the texts of a message are long, and maybe the width
            width = *r.pick(&[20, 78, 300, 1000, 1500]);
            let mut e = random_entry(&mut r, 3);
            for f in ["str", "pl", "ctx", "pid", "ppl", "pctx"] {
                e[f] = json!([text(&long_text(&mut r))]);
            }
            e["id"] = text(&long_text(&mut r));
            e["strs"] = if r.chance(50) { json!([text(&long_text(&mut r)), text(&long_text(&mut r))]) } else { json!([]) };
            e["str"] = if e["strs"] == json!([]) { e["str"].clone() } else { json!([]) };
            v["ents"].as_array_mut().unwrap().insert(0, e);
        }
        begin_case(&json!({"f": v, "w": width}));
        if prop == "S03" {
            let ents = v["ents"].as_array().unwrap();
            match r.below(6) {
                0 if !ents.is_empty() => w.line(&mo_entry_case(&ents[0], width, r.chance(20))),
                1 => w.line(&mo_file_case(&v, width)),
                2 | 3 if !ents.is_empty() => w.line(&entry_case(&ents[0], width, r.chance(20))),
                _ => w.line(&slim(file_case(&v, width, scratch, k), prop)),
            }
        } else {
            w.line(&slim(file_case(&v, width, scratch, k), prop));
        }
        end_case();
    }
    w.finish();
}

/// The content that is lost by a header that ends in a blank line
pub fn known(out: &str) {
    let mut w = Out::create(out);
    let v = json!({"hdr": [text("a\n")], "meta": [], "fuzzy": false, "ents": []});
    let f = to_po_file(&v, 78);
    let d = f.to_string();
    let back = pofile(d.as_str()).unwrap();
    let lost = back.header.as_deref() == Some("a");
    // text whose header ends in a blank comment
    let t = "# a\n#\nmsgid \"\"\nmsgstr \"\"\n";
    let drift = pofile(t).unwrap().to_string() != t;
    w.line(&json!({"lost": lost, "drift": drift}));
    w.finish();
}

/// Metadata of files after a history of changes, and how it is written
pub fn replay_meta(path: &str) -> i32 {
    let (mut n, mut bad) = (0u64, 0u64);
    for case in read_cases(path) {
        n += 1;
        begin_case(&case);
        let mut f = POFile::new(FileOptions::default());
        let mut m = MOFile::new(FileOptions::default());
        for op in case["h"].as_array().unwrap() {
            let name = to_string(&op[1]);
            if op[0] == json!("set") {
                f.metadata.insert(name.clone(), to_string(&op[2]));
                m.metadata.insert(name, to_string(&op[2]));
            } else {
                f.metadata.remove(&name);
                m.metadata.remove(&name);
            }
        }
        f.metadata_is_fuzzy = case["z"].as_bool().unwrap();
        let obs = guard(|| observe_meta(&f, &m));
        end_case();
        let why = match &obs {
            Err(_) => "panic",
            Ok(o) => {
                let exp = &case["o"];
                let mut sorted = exp.as_array().unwrap().clone();
                sorted.sort_by_key(|p| to_string(&p[0]));
                let sorted = Value::Array(sorted);
                if o["po"] != case["l"] || o["mo"] != case["l"] {
                    "lines of the metadata"
                } else if o["pe"] != case["l"] || o["me"] != case["l"] {
                    "lines of the entry of the metadata"
                } else if o["rpe"] != sorted || o["rme"] != sorted || o["alone"] != json!(true) {
                    "metadata read of the text of its entry"
                } else if o["rpo"] != sorted || o["rmopo"] != sorted {
                    "metadata read of the text"
                } else if o["rmo"] != sorted || o["rbe"] != sorted || o["rpomo"] != sorted {
                    "metadata read of the bytes"
                } else if o["fuzzy"] != case["z"] {
                    "fuzzy mark"
                } else if o["ents"] != json!(0) {
                    "metadata reported as a message"
                } else {
                    ""
                }
            }
        };
        if !why.is_empty() {
            bad += 1;
            if bad <= 20 {
                println!("{}", json!({"bad": why, "case": case, "found": obs.ok()}));
            }
        }
    }
    println!("{}", json!({"judged": n, "bad": bad}));
    (bad > 0) as i32
}

/// Lines of the metadata in a text, after the line with its empty msgstr
fn meta_lines(d: &str) -> Value {
    let mut out = vec![];
    let mut at = false;
    for l in d.split('\n') {
        if at {
            if !l.starts_with('"') {
                break;
            }
            out.push(text(l));
        }
        if l == "msgstr \"\"" {
            at = true;
        }
    }
    Value::Array(out)
}

fn observe_meta(f: &POFile, m: &MOFile) -> Value {
    let d = f.to_string();
    let dm = m.to_string();
    let back = pofile(d.as_str());
    let backm = pofile(dm.as_str());
    // the entries of the metadata, written alone
    let (e, em) = (f.metadata_as_entry(), m.metadata_as_entry());
    let (de, dem) = (po_metadata_entry_to_string(&e, f.metadata_is_fuzzy), mo_metadata_entry_to_string(&em));
    let (backe, backem) = (pofile(de.as_str()), pofile(dem.as_str()));
    let alone = |r: &Result<POFile, rspolib::errors::SyntaxError>, z: bool| {
        r.as_ref().is_ok_and(|x| x.metadata_is_fuzzy == z && x.entries.is_empty())
    };
    let le = mofile(m.as_bytes_le().to_vec());
    let be = mofile(m.as_bytes_be().to_vec());
    let po = mofile(f.as_bytes().to_vec());
    let meta = |r: &Result<MOFile, rspolib::errors::IOError>| match r {
        Ok(x) => metadata(&x.metadata),
        Err(_) => json!("error"),
    };
    let pmeta = |r: &Result<POFile, rspolib::errors::SyntaxError>| match r {
        Ok(x) => metadata(&x.metadata),
        Err(_) => json!("error"),
    };
    let ents = [&back, &backm].iter().map(|r| r.as_ref().map(|x| x.entries.len()).unwrap_or(99)).sum::<usize>()
        + [&le, &be, &po].iter().map(|r| r.as_ref().map(|x| x.entries.len()).unwrap_or(99)).sum::<usize>();
    json!({
        "po": meta_lines(&d), "mo": meta_lines(&dm), "rpo": pmeta(&back), "rmopo": pmeta(&backm),
        "rmo": meta(&le), "rbe": meta(&be), "rpomo": meta(&po), "ents": ents,
        "fuzzy": back.as_ref().map(|x| x.metadata_is_fuzzy).unwrap_or(!f.metadata_is_fuzzy),
        "pe": meta_lines(&de), "me": meta_lines(&dem), "rpe": pmeta(&backe), "rme": pmeta(&backem),
        "alone": alone(&backe, f.metadata_is_fuzzy) && alone(&backem, false),
        "ase": opt(&f.metadata_as_entry().msgstr), "asm": opt(&m.metadata_as_entry().msgstr),
        "asz": f.metadata_as_entry().fuzzy(),
    })
}

/// Random metadata, and documents with header entries
pub fn generate_meta(seed: u64, n: u64, out: &str) {
    let mut w = Out::create(out);
    for k in 0..n {
        let mut r = Rng::new(seed, k);
        if k % 3 == 2 {
            let mut items = vec![];
            header_items(&mut r, &mut items);
            if r.chance(40) {
                // a second header entry
                header_items(&mut r, &mut items);
            }
            if r.chance(30) {
                let sh = Shape { texts: ALL, max_text: 3, max_entries: 1 };
                entry_items(&mut r, &sh, &mut items);
            }
            if items.len() > 1 && r.chance(20) {
                items.rotate_left(1);
            }
            let d = lay_out(&mut r, &items, &Layout::default());
            begin_case(&json!({"d": d}));
            let out = po_outcome(guard(|| pofile(d.as_str())), None);
            end_case();
            w.line(&json!({"t": "doc", "d": text(&d), "r": out}));
            continue;
        }
        let meta = random_meta(&mut r, 14);
        let fuzzy = r.chance(40);
        let case = json!({"meta": pairs(&meta), "fuzzy": fuzzy});
        begin_case(&case);
        let mut f = POFile::new(FileOptions::default());
        let mut m = MOFile::new(FileOptions::default());
        for (k, v) in &meta {
            f.metadata.insert(k.clone(), v.clone());
            m.metadata.insert(k.clone(), v.clone());
        }
        f.metadata_is_fuzzy = fuzzy;
        let o = guard(|| observe_meta(&f, &m));
        end_case();
        w.line(&json!({"t": "meta", "meta": pairs(&meta), "fuzzy": fuzzy, "ok": o.is_ok(), "o": o.unwrap_or(json!({}))}));
    }
    w.finish();
}
