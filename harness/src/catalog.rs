//! Files in memory: searches, changes, merges, status, order and disk
use crate::conv::*;
use crate::mo;
use crate::po;
use crate::render::*;
use crate::util::*;
use rspolib::{
    mofile, pofile, AsBytes, EntryCmpByOptions, FileOptions, MOEntry, MOFile, Merge, POEntry, POFile, Save, SaveAsMOFile,
    SaveAsPOFile, TranslatedEntry,
};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::path::Path;

/// A file of one of the two kinds
#[derive(Clone)]
pub enum Doc {
    Po(POFile),
    Mo(MOFile),
}

fn po_of(ents: &Value) -> POFile {
    let v = json!({
        "hdr": [text("A header\nof two lines")],
        "meta": [[text("Language"), text("es")], [text("X-Other"), text("1")]],
        "fuzzy": true,
        "ents": ents,
    });
    to_po_file(&v, 41)
}

fn mo_of(ents: &Value) -> MOFile {
    let mut f = MOFile::new(("", 41).into());
    f.metadata.insert("Language".into(), "es".into());
    f.entries = ents.as_array().unwrap().iter().map(to_mo_entry).collect();
    f
}

fn doc_of(kind: &str, ents: &Value) -> Doc {
    if kind == "po" {
        Doc::Po(po_of(ents))
    } else {
        Doc::Mo(mo_of(ents))
    }
}

impl Doc {
    pub fn entries(&self) -> Value {
        match self {
            Doc::Po(f) => po_entries(&f.entries),
            Doc::Mo(f) => mo_entries(&f.entries),
        }
    }

    /// What is not messages
    fn rest(&self) -> Value {
        match self {
            Doc::Po(f) => json!([
                opt(&f.header),
                metadata(&f.metadata),
                f.metadata_is_fuzzy,
                f.options.wrapwidth,
                text(&f.options.path_or_content)
            ]),
            Doc::Mo(f) => json!([metadata(&f.metadata), f.options.wrapwidth, format!("{:?} {:?}", f.magic_number, f.version)]),
        }
    }

    fn find(&self, value: &str, by: &str, ctx: Option<&str>, obs: bool) -> Value {
        match self {
            Doc::Po(f) => Value::Array(f.find(value, by, ctx, obs).into_iter().map(po_entry).collect()),
            Doc::Mo(f) => Value::Array(f.find(value, by, ctx).into_iter().map(mo_entry).collect()),
        }
    }

    fn find_id(&self, id: &str) -> Value {
        match self {
            Doc::Po(f) => Value::Array(f.find_by_msgid(id).iter().map(po_entry).collect()),
            Doc::Mo(f) => Value::Array(f.find_by_msgid(id).into_iter().map(mo_entry).collect()),
        }
    }

    fn find_idctx(&self, id: &str, ctx: &str) -> Value {
        match self {
            Doc::Po(f) => Value::Array(f.find_by_msgid_msgctxt(id, ctx).iter().map(po_entry).collect()),
            Doc::Mo(f) => Value::Array(f.find_by_msgid_msgctxt(id, ctx).into_iter().map(mo_entry).collect()),
        }
    }

    /// Runs an operation, returns what it returned
    pub fn run(&mut self, o: &Value) -> Value {
        let at = || o["at"].as_u64().unwrap() as usize - 1;
        match (o["op"].as_str().unwrap(), &mut *self) {
            ("start", _) => {}
            ("append", Doc::Po(f)) => f.entries.push(to_po_entry(&o["e"])),
            ("append", Doc::Mo(f)) => f.entries.push(to_mo_entry(&o["e"])),
            ("put", Doc::Po(f)) => f.entries[at()] = to_po_entry(&o["e"]),
            ("put", Doc::Mo(f)) => f.entries[at()] = to_mo_entry(&o["e"]),
            ("merge_at", Doc::Po(f)) => f.entries[at()].merge(to_po_entry(&o["e"])),
            ("merge_at", Doc::Mo(f)) => f.entries[at()].merge(to_mo_entry(&o["e"])),
            ("remove", Doc::Po(f)) => f.remove(&to_po_entry(&o["e"])),
            ("remove", Doc::Mo(f)) => f.remove(&to_mo_entry(&o["e"])),
            ("remove_id", Doc::Po(f)) => f.remove_by_msgid(&to_string(&o["id"])),
            ("remove_id", Doc::Mo(f)) => f.remove_by_msgid(&to_string(&o["id"])),
            ("remove_idctx", Doc::Po(f)) => f.remove_by_msgid_msgctxt(&to_string(&o["id"]), &to_string(&o["ctx"])),
            ("remove_idctx", Doc::Mo(f)) => f.remove_by_msgid_msgctxt(&to_string(&o["id"]), &to_string(&o["ctx"])),
            ("merge", Doc::Po(f)) => f.merge(reference(&o["ref"])),
            ("find", d) => {
                let ctx = to_opt(&o["ctx"]);
                return d.find(&to_string(&o["value"]), &to_string(&o["by"]), ctx.as_deref(), o["obs"].as_bool().unwrap());
            }
            ("find_id", d) => return d.find_id(&to_string(&o["id"])),
            ("find_idctx", d) => return d.find_idctx(&to_string(&o["id"]), &to_string(&o["ctx"])),
            ("views", _) => {}
            (op, _) => panic!("unknown operation {op}"),
        }
        json!([])
    }
}

/// A reference file, with a header and metadata that are not to be merged
fn reference(ents: &Value) -> POFile {
    let mut f = po_of(ents);
    f.header = Some("Other header".into());
    f.metadata.clear();
    f.metadata.insert("Language".into(), "fr".into());
    f.metadata.insert("X-New".into(), "2".into());
    f.metadata_is_fuzzy = false;
    f.options.wrapwidth = 78;
    f
}

/// Positions of the messages that pass a test, from 1
fn positions<T>(es: &[T], f: impl Fn(&T) -> bool) -> Value {
    json!(es.iter().enumerate().filter(|(_, e)| f(e)).map(|(i, _)| i + 1).collect::<Vec<usize>>())
}

fn add_views(doc: &Doc, o: &mut serde_json::Map<String, Value>) {
    match doc {
        Doc::Mo(f) => {
            let tr: Vec<Value> = f.entries.iter().filter(|e| e.translated()).map(mo_entry).collect();
            o.insert("mo".into(), Value::Array(tr));
        }
        Doc::Po(f) => {
            let list = |es: Vec<&POEntry>| Value::Array(es.into_iter().map(po_entry).collect());
            o.insert("tr".into(), list(f.translated_entries()));
            o.insert("un".into(), list(f.untranslated_entries()));
            o.insert("obsl".into(), list(f.obsolete_entries()));
            o.insert("fz".into(), list(f.fuzzy_entries()));
            o.insert("isf".into(), positions(&f.entries, |e| e.fuzzy()));
            o.insert("ist".into(), positions(&f.entries, |e| e.translated()));
            o.insert("pct".into(), thousandths(f.percent_translated()));
            o.insert("comp".into(), mo_entries(&MOFile::from(f).entries));
        }
    }
}

fn thousandths(p: f32) -> Value {
    if p.is_finite() && (-1000.0..=1000.0).contains(&p) {
        json!((p as f64 * 1000.0).round() as i64)
    } else {
        json!(-1)
    }
}

/// An operation with what came of it
fn step(doc: &mut Doc, op: &Value) -> Value {
    let mut o = op.clone();
    let r = guard(|| {
        let res = doc.run(op);
        let m = o.as_object_mut().unwrap();
        m.insert("res".into(), res);
        if op["op"] == json!("views") {
            add_views(doc, m);
        }
    });
    let m = o.as_object_mut().unwrap();
    m.insert("panic".into(), json!(r.is_err()));
    m.insert("now".into(), doc.entries());
    m.insert("rest".into(), doc.rest());
    o
}

struct Tally {
    n: u64,
    bad: u64,
}

impl Tally {
    fn report(&mut self, why: &str, case: Value) {
        self.bad += 1;
        if self.bad <= 20 {
            println!("{}", json!({"bad": why, "case": case}));
        }
    }
    fn finish(self) -> i32 {
        println!("{}", json!({"judged": self.n, "bad": self.bad}));
        (self.bad > 0) as i32
    }
}

fn at(ents: &Value, ps: &Value) -> Value {
    Value::Array(ps.as_array().unwrap().iter().map(|p| ents[p.as_u64().unwrap() as usize - 1].clone()).collect())
}

/// Searches over files printed by TLC
pub fn replay_search(path: &str) -> i32 {
    let mut t = Tally { n: 0, bad: 0 };
    for case in read_cases(path) {
        begin_case(&case);
        let doc = doc_of(case["k"].as_str().unwrap(), &case["ents"]);
        let rest = doc.rest();
        for q in case["q"].as_array().unwrap() {
            t.n += 1;
            let (got, exp) = match q[0].as_str().unwrap() {
                "find" => {
                    let ctx = to_opt(&q[3]);
                    let (v, by) = (to_string(&q[1]), to_string(&q[2]));
                    (guard(|| doc.find(&v, &by, ctx.as_deref(), q[4].as_bool().unwrap())), &q[5])
                }
                "find_id" => (guard(|| doc.find_id(&to_string(&q[1]))), &q[2]),
                _ => (guard(|| doc.find_idctx(&to_string(&q[1]), &to_string(&q[2]))), &q[3]),
            };
            match got {
                Ok(got) if got == at(&case["ents"], exp) => {}
                Ok(got) => t.report("result of a search", json!({"k": case["k"], "ents": case["ents"], "q": q, "found": got})),
                Err(m) => t.report(&format!("panic: {m}"), json!({"k": case["k"], "ents": case["ents"], "q": q})),
            }
        }
        if doc.entries() != case["ents"] || doc.rest() != rest {
            t.report("file changed by a search", case.clone());
        }
        end_case();
    }
    t.finish()
}

/// Histories of changes printed by TLC
pub fn replay_history(path: &str) -> i32 {
    let mut t = Tally { n: 0, bad: 0 };
    for case in read_cases(path) {
        t.n += 1;
        begin_case(&case);
        let h = case["h"].as_array().unwrap();
        let mut doc = doc_of(case["k"].as_str().unwrap(), &h[0]["now"]);
        let rest = doc.rest();
        for o in h {
            let got = step(&mut doc, o);
            let why = if got["panic"] == json!(true) {
                "panic"
            } else if got["now"] != o["now"] {
                "messages after a change"
            } else if got["rest"] != rest {
                "rest of the file after a change"
            } else {
                ""
            };
            if !why.is_empty() {
                t.report(why, json!({"history": case, "step": got}));
                break;
            }
        }
        end_case();
    }
    t.finish()
}

/// Merges printed by TLC
pub fn replay_merge(path: &str) -> i32 {
    let mut t = Tally { n: 0, bad: 0 };
    for case in read_cases(path) {
        t.n += 1;
        begin_case(&case);
        let mut doc = Doc::Po(po_of(&case["ents"]));
        let rest = doc.rest();
        for round in ["", " the second time"] {
            let got = step(&mut doc, &json!({"op": "merge", "ref": case["ref"]}));
            let why = if got["panic"] == json!(true) {
                "panic in a merge"
            } else if got["now"] != case["now"] {
                "messages after a merge"
            } else if got["rest"] != rest {
                "rest of the file after a merge"
            } else {
                ""
            };
            if !why.is_empty() {
                t.report(&format!("{why}{round}"), json!({"merge": case, "found": got}));
                break;
            }
        }
        if let (Some(a), Some(b)) = (case["ents"].get(0), case["ref"].get(0)) {
            for (a, b) in [(a, b), (b, a)] {
                let mut po = to_po_entry(a);
                po.merge(to_po_entry(b));
                if po_entry(&po) != *b {
                    t.report("merge of a message", json!({"a": a, "b": b, "found": po_entry(&po)}));
                }
                let mut m = to_mo_entry(a);
                m.merge(to_mo_entry(b));
                if mo_entry(&m) != mo::as_mo(b) {
                    t.report("merge of a MO message", json!({"a": a, "b": b, "found": mo_entry(&m)}));
                }
            }
        }
        end_case();
    }
    t.finish()
}

/// Views of the status printed by TLC
pub fn replay_status(path: &str) -> i32 {
    let mut t = Tally { n: 0, bad: 0 };
    for case in read_cases(path) {
        t.n += 1;
        begin_case(&case);
        let ents = &case["ents"];
        let mut doc = Doc::Po(po_of(ents));
        let got = step(&mut doc, &json!({"op": "views"}));
        let v = &case["v"];
        let total = ents.as_array().unwrap().len() as i64;
        let done = v["tr"].as_array().unwrap().len() as i64;
        let off = got["pct"].as_i64().unwrap_or(-1) * total - 100_000 * done;
        let mut why = "";
        if got["panic"] == json!(true) {
            why = "panic";
        } else if total == 0 && got["pct"] != json!(0) || off.abs() > total {
            why = "percentage";
        }
        for (k, e, name) in [
            ("tr", "tr", "translated messages"),
            ("un", "un", "untranslated messages"),
            ("obsl", "obs", "obsolete messages"),
            ("fz", "fz", "fuzzy messages"),
        ] {
            if why.is_empty() && got[k] != at(ents, &v[e]) {
                why = name;
            }
        }
        if why.is_empty() && (got["isf"] != v["isf"] || got["ist"] != v["tr"]) {
            why = "marks of the messages";
        }
        if why.is_empty() && got["comp"] != Value::Array(at(ents, &v["tr"]).as_array().unwrap().iter().map(mo::as_mo).collect()) {
            why = "compiled messages";
        }
        if why.is_empty() && (got["now"] != *ents || got["rest"] != Doc::Po(po_of(ents)).rest()) {
            why = "file changed by a view";
        }
        let ms: Vec<MOEntry> = ents.as_array().unwrap().iter().map(to_mo_entry).collect();
        if why.is_empty() && positions(&ms, |e| e.translated()) != case["mo"] {
            why = "translated MO messages";
        }
        if !why.is_empty() {
            t.report(why, json!({"case": case, "found": got}));
        }
        end_case();
    }
    t.finish()
}

const FIELDS: [&str; 8] = ["obsolete", "occurrences", "flags", "msgctxt", "msgid_plural", "msgstr_plural", "msgid", "msgstr"];

fn build_selection(sel: &[bool], how: usize) -> EntryCmpByOptions {
    let set = |o: EntryCmpByOptions, i: usize, b: bool| match i {
        0 => o.by_obsolete(b),
        1 => o.by_occurrences(b),
        2 => o.by_flags(b),
        3 => o.by_msgctxt(b),
        4 => o.by_msgid_plural(b),
        5 => o.by_msgstr_plural(b),
        6 => o.by_msgid(b),
        _ => o.by_msgstr(b),
    };
    match how % 4 {
        // everything, then those that are not wanted off
        0 => {
            let mut o = EntryCmpByOptions::new();
            for i in 0..8 {
                if !sel[i] {
                    o = set(o, i, false);
                }
            }
            o
        }
        // nothing, then those that are wanted, from the last one
        1 => {
            let mut o = EntryCmpByOptions::default().by_all(false);
            for i in (0..8).rev() {
                if sel[i] {
                    o = set(o, i, true);
                }
            }
            o
        }
        2 => {
            let v: Vec<(String, bool)> =
                (0..8).filter(|i| !sel[*i]).map(|i| (FIELDS[i].to_string(), false)).collect();
            EntryCmpByOptions::from(&v)
        }
        _ => {
            let mut o = EntryCmpByOptions::new().by_all(false).by_all(true);
            for i in 0..8 {
                o = set(o, i, !sel[i]);
                o = set(o, i, sel[i]);
            }
            o
        }
    }
}

fn sign(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

/// Comparisons printed by TLC: a vector with the result of each selection
pub fn replay_order(path: &str) -> i32 {
    let mut t = Tally { n: 0, bad: 0 };
    let sels: Vec<Vec<bool>> = (0..256).map(|n| (0..8).map(|i| n >> i & 1 == 1).collect()).collect();
    // the ways of building a selection are the same
    let built: Vec<Vec<EntryCmpByOptions>> =
        (0..4).map(|how| sels.iter().map(|s| build_selection(s, how)).collect()).collect();
    for (k, case) in read_cases(path).enumerate() {
        begin_case(&case);
        let v = case["v"].as_array().unwrap();
        let kind = case["k"].as_str().unwrap();
        let (a, b) = (&case["a"], &case["b"]);
        let got = guard(|| {
            let mut bad = vec![];
            let cmp: Box<dyn Fn(&EntryCmpByOptions, bool) -> i64> = if kind == "po" {
                let (x, y) = (to_po_entry(a), to_po_entry(b));
                Box::new(move |o, back| sign(if back { y.cmp_by(&x, o) } else { x.cmp_by(&y, o) }))
            } else {
                let (x, y) = (to_mo_entry(a), to_mo_entry(b));
                Box::new(move |o, back| sign(if back { y.cmp_by(&x, o) } else { x.cmp_by(&y, o) }))
            };
            for n in 0..256 {
                let exp = v[n].as_i64().unwrap();
                let o = &built[(n + k) % 4][n];
                if cmp(o, false) != exp || cmp(o, true) != -exp {
                    bad.push(n);
                }
            }
            bad
        });
        t.n += 256;
        match got {
            Ok(bad) => {
                if let Some(n) = bad.first() {
                    t.report("comparison", json!({"k": kind, "a": a, "b": b, "sel": sels[*n], "expected": v[*n], "way": (n + k) % 4}));
                }
            }
            Err(m) => t.report(&format!("panic: {m}"), json!({"k": kind, "a": a, "b": b})),
        }
        end_case();
    }
    t.finish()
}

fn same_lines(mut v: Value) -> Value {
    for e in v.as_array_mut().unwrap() {
        if let Some(o) = e.as_object_mut() {
            o.remove("line");
        }
    }
    v
}

const JUNK: &str = "what was there before, longer than anything else that is written there. ";

/// The same history where a text takes more than 64 KiB: nothing in a
/// history depends on what the text is
fn grown(v: &Value, short: &Value, long: &Value) -> Value {
    match v {
        _ if v == short => long.clone(),
        Value::Array(a) if a.first().is_some_and(|x| x.is_number()) => v.clone(),
        Value::Array(a) => Value::Array(a.iter().map(|x| grown(x, short, long)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), grown(x, short, long))).collect()),
        _ => v.clone(),
    }
}

/// Histories over a disk printed by TLC: what is in each path at the end
pub fn replay_disk(path: &str, scratch: &str) -> i32 {
    let mut t = Tally { n: 0, bad: 0 };
    let meta = json!([[text("Language"), text("es")], [text("Plural-Forms"), text("nplurals=2; plural=n != 1;")]]);
    let new_po = |ents: &Value| to_po_file(&json!({"hdr": [], "meta": meta, "fuzzy": false, "ents": ents}), 24);
    let new_mo = |ents: &Value| {
        let mut f = mo::build(&json!({"meta": meta, "ents": ents}));
        f.options.wrapwidth = 24;
        f
    };
    let foreign = |a: &Value, b: &Value| mo::swapped(&json!({"meta": meta, "ents": [mo::as_mo(a), mo::as_mo(b)]}));
    let names = [format!("{scratch}/a file.po"), format!("{scratch}/ñ.mo"), format!("{scratch}/third")];
    let junk = JUNK.repeat(60);
    let (short, long) = (text("short"), text(&"a short line\n".repeat(5300)));
    let cases = read_cases(path).flat_map(|case| {
        let h = case["h"].as_array().unwrap();
        let loads = h.len() == 2 && h[1][0].as_str().unwrap().starts_with("load");
        let more = if h.len() == 1 || loads { Some(grown(&case, &short, &long)) } else { None };
        std::iter::once(case).chain(more)
    });
    for case in cases {
        t.n += 1;
        begin_case(&case);
        let pool = &case["pool"];
        for (i, p) in names.iter().enumerate() {
            if i % 2 == 0 {
                std::fs::write(p, &junk).unwrap();
            } else {
                let _ = std::fs::remove_file(p);
            }
        }
        let start = json!([pool[0], pool[2]]);
        let got = guard(|| {
            let mut po = new_po(&start);
            let mut mo = new_mo(&json!([pool[0]]));
            for o in case["h"].as_array().unwrap() {
                let n = o[1].as_u64().unwrap() as usize;
                let p = if n > 0 && n <= names.len() { names[n - 1].as_str() } else { "" };
                match o[0].as_str().unwrap() {
                    "save_po" => po.save(p),
                    "save_po_as_po" => po.save_as_pofile(p),
                    "save_po_as_mo" => po.save_as_mofile(p),
                    "save_mo" => mo.save(p),
                    "save_mo_as_mo" => mo.save_as_mofile(p),
                    "save_mo_as_po" => mo.save_as_pofile(p),
                    "load_po" => po = pofile((p, 24)).unwrap(),
                    "load_mo" => mo = mofile((p, 24)).unwrap(),
                    "foreign" => std::fs::write(p, foreign(&pool[1], &pool[0])).unwrap(),
                    "add" => po.entries.push(to_po_entry(&pool[n - 1])),
                    "drop" => {
                        po.entries.remove(0);
                    }
                    "clear" => {
                        mo.entries.remove(0);
                    }
                    op => panic!("unknown operation {op}"),
                }
            }
            (po, mo)
        });
        let why = match got {
            Err(m) => format!("panic: {m}"),
            Ok((po, mo)) => {
                let mut why = String::new();
                if same_lines(po_entries(&po.entries)) != same_lines(case["po"].clone()) {
                    why = "messages of the PO file".into();
                }
                let found: Vec<Value> = mo.entries.iter().map(|e| mo::normal(&mo_entry(e))).collect();
                let asked: Vec<Value> = case["mo"].as_array().unwrap().iter().map(mo::normal).collect();
                if found != asked {
                    why = "messages of the MO file".into();
                }
                if metadata(&po.metadata) != meta || metadata(&mo.metadata) != meta || po.options.wrapwidth != 24 {
                    why = "rest of the files".into();
                }
                for (i, d) in case["disk"].as_array().unwrap().iter().enumerate() {
                    let now = std::fs::read(&names[i]).ok();
                    let exp = match d.get(0).and_then(|f| f.as_str()) {
                        None if i % 2 == 0 => Some(junk.clone().into_bytes()),
                        None => None,
                        Some("potext") => Some(new_po(&d[1]).to_string().into_bytes()),
                        Some("motext") => Some(new_mo(&d[1]).to_string().into_bytes()),
                        Some("foreign") => Some(foreign(&d[1][0], &d[1][1])),
                        Some(_) => Some(new_mo(&d[1]).as_bytes().to_vec()),
                    };
                    if now != exp {
                        why = format!("content of path {}", i + 1);
                    }
                }
                why
            }
        };
        if !why.is_empty() {
            t.report(&why, case.clone());
        }
        end_case();
    }
    t.finish()
}

// ------------------------------------------------------------ random histories

/// One of few texts, or one that is near some of them
fn small_text(r: &mut Rng) -> Value {
    if r.chance(80) {
        text(r.pick(&["", "a", "b", "c", "a", "b", "é"]))
    } else {
        text(r.pick(&["A", "B", "É", "a ", " a", "a\n", "ab", "ba", "aa", "e\u{301}", "\u{ff41}", "\u{feff}a", "a\\", "\"a\"", "zz"]))
    }
}

fn small_opt(r: &mut Rng, absent: usize) -> Value {
    if r.chance(absent) {
        json!([])
    } else {
        json!([small_text(r)])
    }
}

/// A message of few values, so many of them coincide
pub fn small_entry(r: &mut Rng, kind: &str) -> Value {
    let mut e = if r.chance(12) { random_entry(r, 4) } else { po_entry(&POEntry::new(0)) };
    let o = e.as_object_mut().unwrap();
    o.insert("id".into(), small_text(r));
    o.insert("ctx".into(), small_opt(r, 50));
    let plural = r.chance(30);
    o.insert("pl".into(), if plural { small_opt(r, 10) } else { json!([]) });
    if plural {
        let n = r.below(4) * r.lists;
        let strs: Vec<Value> = (0..n).map(|_| small_text(r)).collect();
        o.insert("strs".into(), json!(strs));
        o.insert("str".into(), json!([]));
    } else {
        o.insert("strs".into(), json!([]));
        o.insert("str".into(), small_opt(r, 20));
    }
    o.insert("obs".into(), json!(r.chance(25)));
    if r.chance(40) {
        let n = r.below(3) * r.lists;
        let flags: Vec<Value> =
            (0..n).map(|_| text(r.pick(&["fuzzy", "c-format", "fuzzyx", "Fuzzy", "fuzzy", "no-fuzzy"]))).collect();
        o.insert("flags".into(), json!(flags));
    }
    if r.chance(20) {
        for k in ["pid", "ppl", "pctx"] {
            o.insert(k.into(), small_opt(r, 40));
        }
    }
    o.insert("line".into(), json!(if r.chance(80) { 0 } else { r.below(3) }));
    if kind == "mo" {
        mo::as_mo(&e)
    } else {
        e
    }
}

pub fn small_list(r: &mut Rng, kind: &str, max: usize) -> Value {
    let n = r.below(max + 1) * r.many;
    Value::Array((0..n).map(|_| small_entry(r, kind)).collect())
}

/// Hundreds of messages, the ids of the most of them are different or not
fn big_list(r: &mut Rng, kind: &str) -> Value {
    let several = r.chance(50);
    let n = r.range(30, 400);
    let mut es: Vec<Value> = (0..n).map(|_| small_entry(r, kind)).collect();
    if several {
        for (i, e) in es.iter_mut().enumerate().skip(20) {
            e["id"] = text(&format!("{}{}", to_string(&e["id"]), i / 2));
        }
    }
    Value::Array(es)
}

pub fn random_op(r: &mut Rng, prop: &str, kind: &str, now: &Value) -> Value {
    let n = now.as_array().unwrap().len();
    let any = |r: &mut Rng| if n > 0 && r.chance(70) { now[r.below(n)].clone() } else { small_entry(r, kind) };
    let what = r.below(100);
    if prop == "C03" && what < 45 {
        return json!({"op": "views"});
    }
    if prop == "C02" && what < 45 && kind == "po" {
        let mut refs = if n > 20 && r.chance(60) { big_list(r, kind) } else { small_list(r, kind, 5) };
        if r.chance(50) {
            // some of the messages that are there, changed
            for e in now.as_array().unwrap() {
                if r.chance(50) {
                    let mut x = small_entry(r, kind);
                    x["id"] = e["id"].clone();
                    x["ctx"] = e["ctx"].clone();
                    refs.as_array_mut().unwrap().push(x);
                }
            }
        }
        return json!({"op": "merge", "ref": refs});
    }
    let value = small_text;
    match r.below(12) {
        0 | 1 | 2 => json!({"op": "append", "e": any(r)}),
        3 if n > 0 => json!({"op": "put", "at": r.range(1, n), "e": small_entry(r, kind)}),
        4 if n > 0 => json!({"op": "merge_at", "at": r.range(1, n), "e": any(r)}),
        5 => {
            let mut e = any(r);
            if r.chance(30) && kind == "po" {
                e["line"] = json!(r.below(3));
            }
            json!({"op": "remove", "e": e})
        }
        6 => json!({"op": "remove_id", "id": value(r)}),
        7 => json!({"op": "remove_idctx", "id": value(r), "ctx": value(r)}),
        8 => json!({"op": "find_id", "id": value(r)}),
        9 => json!({"op": "find_idctx", "id": value(r), "ctx": value(r)}),
        _ => {
            let by = r.pick(&[
                "msgid", "msgstr", "msgctxt", "msgid_plural", "previous_msgid", "previous_msgid_plural", "previous_msgctxt",
                "msgid", "tcomment", "",
            ]);
            json!({"op": "find", "value": value(r), "by": text(by), "ctx": small_opt(r, 50), "obs": r.chance(50)})
        }
    }
}

fn history(r: &mut Rng, prop: &str, big: bool) -> Value {
    let kind = if prop == "C02" || r.chance(60) { "po" } else { "mo" };
    let ents = if big { big_list(r, kind) } else { small_list(r, kind, 6) };
    let mut doc = doc_of(kind, &ents);
    let rest = doc.rest();
    let mut ops = vec![];
    for _ in 0..if big { 4 } else { r.range(1, 14) } {
        let op = random_op(r, prop, kind, &doc.entries());
        begin_case(&json!({"k": kind, "ents": doc.entries(), "op": op}));
        let s = step(&mut doc, &op);
        end_case();
        let stop = s["panic"] == json!(true);
        ops.push(s);
        if stop {
            break;
        }
    }
    json!({"t": "history", "k": kind, "ents": ents, "rest": rest, "ops": ops})
}

/// A matrix of comparisons
fn order(r: &mut Rng) -> Value {
    let kind = if r.chance(60) { "po" } else { "mo" };
    let n = r.range(2, 6);
    let mut es: Vec<Value> = (0..n).map(|_| small_entry(r, kind)).collect();
    for i in 1..n {
        // a message near other
        if r.chance(60) {
            let mut e = es[r.below(i)].clone();
            let k = *r.pick(if kind == "po" {
                &["occ", "flags", "ctx", "pl", "strs", "id", "str", "obs", "com", "tcom", "pid"][..]
            } else {
                &["ctx", "pl", "strs", "id", "str"][..]
            });
            let other = if r.chance(60) { es[r.below(i)][k].clone() } else { random_entry(r, 3)[k].clone() };
            e[k] = other;
            if r.chance(30) {
                for k in ["occ", "flags", "strs"] {
                    if let Some(Value::Array(a)) = e.get_mut(k) {
                        a.reverse();
                    }
                }
            }
            es[i] = e;
        }
    }
    if r.chance(8) {
        // lists that begin in the same, so they differ late
        let k = *r.pick(if kind == "po" { &["occ", "flags", "strs"][..] } else { &["strs"][..] });
        let m = r.range(4, 40);
        let same = |i: usize| text(&format!("!{i:03}"));
        let common: Vec<Value> = (0..m).map(|i| if k == "occ" { json!([same(i), text("1")]) } else { same(i) }).collect();
        for e in es.iter_mut() {
            let mut l = common.clone();
            l.extend(e[k].as_array().unwrap().iter().cloned());
            if r.chance(50) {
                l.push(if k == "occ" { json!([text("z"), text(r.pick(&["1", "2"]))]) } else { text(r.pick(&["y", "z"])) });
            }
            e[k] = Value::Array(l);
        }
    }
    // text free of NUL
    for e in es.iter_mut() {
        *e = serde_json::from_str(&e.to_string().replace("[0]", "[1]").replace("[0,", "[1,").replace(",0,", ",1,").replace(",0]", ",1]")).unwrap();
    }
    let all = r.chance(30);
    let sel: Vec<bool> = (0..8).map(|_| all || r.chance(50)).collect();
    let o = build_selection(&sel, r.below(4));
    begin_case(&json!({"k": kind, "ents": es, "sel": sel}));
    let m = guard(|| -> Value {
        if kind == "po" {
            let xs: Vec<POEntry> = es.iter().map(to_po_entry).collect();
            json!(xs.iter().map(|a| xs.iter().map(|b| sign(a.cmp_by(b, &o))).collect::<Vec<i64>>()).collect::<Vec<_>>())
        } else {
            let xs: Vec<MOEntry> = es.iter().map(to_mo_entry).collect();
            json!(xs.iter().map(|a| xs.iter().map(|b| sign(a.cmp_by(b, &o))).collect::<Vec<i64>>()).collect::<Vec<_>>())
        }
    });
    end_case();
    json!({"t": "order", "k": kind, "ents": es, "sel": sel, "panic": m.is_err(), "m": m.unwrap_or(json!([]))})
}

// ------------------------------------------------------- ways of supplying

const NAMES: &[&str] = &["plain.po", "with space.po", "ñandú 中.po", "noext", "msgid \"a\"", "a.mo", "x'y\"z", "#comment"];

fn po_way(way: &str, asked: usize, path: Option<&str>, f: impl FnOnce() -> Result<POFile, rspolib::errors::SyntaxError>) -> Value {
    let r = guard(f);
    let w = match &r {
        Ok(Ok(f)) => f.options.wrapwidth,
        _ => asked,
    };
    // the text of the error without the file
    let msg = match &r {
        Ok(Err(e)) => e.to_string().replace(&format!(" in file {}", path.unwrap_or("-")), ""),
        _ => String::new(),
    };
    let mut o = po_outcome(r, path);
    if let Some(m) = o.as_object_mut() {
        m.insert("msg".into(), text(&msg));
    }
    json!({"way": way, "asked": asked, "w": w, "r": o})
}

/// Every way of supplying a PO content
fn po_ways(b: &[u8], n: usize, scratch: &str) -> Value {
    let name = NAMES[n % NAMES.len()];
    let width = [0, 1, 20, 78, 79, 1000][n / 3 % 6];
    let full = format!("{scratch}/{name}");
    std::fs::write(&full, b).unwrap();
    let p = full.as_str();
    let mut ways = vec![
        po_way("path", 78, Some(p), || pofile(p)),
        po_way("path and width", width, Some(p), || pofile((p, width))),
        po_way("path of std", 78, Some(p), || pofile(Path::new(p))),
        po_way("options with path", width, Some(p), || {
            pofile(FileOptions { path_or_content: p.to_string(), wrapwidth: width, byte_content: None })
        }),
        po_way("relative path", 78, Some(name), || pofile(name)),
        po_way("bytes", 78, None, || pofile(b.to_vec())),
        po_way("bytes and width", width, None, || pofile((b.to_vec(), width))),
        po_way("options with bytes", width, None, || {
            let o = FileOptions { path_or_content: String::new(), wrapwidth: width, byte_content: Some(b.to_vec()) };
            pofile(&o)
        }),
    ];
    if let Ok(s) = std::str::from_utf8(b) {
        if !s.is_empty() && !Path::new(s).exists() {
            ways.push(po_way("text", 78, None, || pofile(s)));
            ways.push(po_way("text and width", width, None, || pofile((s, width))));
            ways.push(po_way("options with text", width, None, || {
                pofile(FileOptions { path_or_content: s.to_string(), wrapwidth: width, ..Default::default() })
            }));
        }
    }
    if ways.iter().all(|w| w["r"]["ok"] == json!(true)) {
        ways.push(po_way("conversion of a path", 78, Some(p), || Ok(POFile::from(Path::new(p)))));
        ways.push(po_way("conversion of text", 78, Some(p), || Ok(POFile::from(p))));
    }
    std::fs::remove_file(&full).unwrap();
    json!({"t": "ways", "b": bytes(b), "ways": ways})
}

fn mo_way(way: &str, asked: usize, b: &[u8], f: impl FnOnce() -> Result<MOFile, rspolib::errors::IOError>) -> Value {
    let r = guard(f);
    let w = match &r {
        Ok(Ok(f)) => f.options.wrapwidth,
        _ => asked,
    };
    let msg = match &r {
        Ok(Err(e)) => e.to_string(),
        _ => String::new(),
    };
    let mut o = guard(|| mo::outcome(r, b)).unwrap_or_else(|m| panicked(&m));
    if let Some(m) = o.as_object_mut() {
        m.insert("msg".into(), text(&msg));
    }
    json!({"way": way, "asked": asked, "w": w, "r": o})
}

fn mo_ways(b: &[u8], n: usize, scratch: &str) -> Value {
    let name = NAMES[n % NAMES.len()];
    let width = [0, 1, 20, 78, 79, 1000][n / 3 % 6];
    let full = format!("{scratch}/{name}");
    std::fs::write(&full, b).unwrap();
    let p = full.as_str();
    let ways = vec![
        mo_way("path", 78, b, || mofile(p)),
        mo_way("path and width", width, b, || mofile((p, width))),
        mo_way("path of std", 78, b, || mofile(Path::new(p))),
        mo_way("options with path", width, b, || {
            mofile(&FileOptions { path_or_content: p.to_string(), wrapwidth: width, byte_content: None })
        }),
        mo_way("relative path", 78, b, || mofile(name)),
        mo_way("bytes", 78, b, || mofile(b.to_vec())),
        mo_way("bytes and width", width, b, || mofile((b.to_vec(), width))),
        mo_way("options with bytes", width, b, || {
            mofile(FileOptions { path_or_content: String::new(), wrapwidth: width, byte_content: Some(b.to_vec()) })
        }),
    ];
    std::fs::remove_file(&full).unwrap();
    json!({"t": "moways", "b": bytes(b), "ways": ways})
}

fn random_po(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0..=4 => po::well_formed(r).into_bytes(),
        5..=7 => po::broken_lines(r).into_bytes(),
        8 => render_file(r),
        _ => po::mutated_bytes(r),
    }
}

fn render_file(r: &mut Rng) -> Vec<u8> {
    to_po_file(&random_file(r), 30).to_string().into_bytes()
}

pub fn random_mo(r: &mut Rng) -> Vec<u8> {
    let n = r.below(6) * r.many;
    let ents: Vec<Value> = mo::messages(r, n, 6, false).iter().map(mo::as_mo).collect();
    let meta = mo::clean_meta(r);
    let (be, rev) = (r.chance(50), r.below(2) as u32);
    let mut b = mo::foreign(r, &json!({"meta": pairs(&meta), "ents": ents}), be, rev);
    if r.chance(30) {
        mo::damage(r, &mut b, be);
    }
    b
}

pub fn generate(prop: &str, seed: u64, n: u64, out: &str, scratch: &str) {
    let mut w = Out::create(out);
    std::env::set_current_dir(scratch).unwrap();
    for k in 0..n {
        let mut r = Rng::new(seed, k);
        let c = match prop {
            "C04" => order(&mut r),
            "C05" => {
                let (po, mut b) = if k % 3 == 0 { (false, random_mo(&mut r)) } else { (true, random_po(&mut r)) };
                if po && k % 600 == 11 {
                    // of more than 64 KiB
                    let line = format!("#. {}\n", "long ".repeat(r.range(8, 30)));
                    let mut before = line.repeat(66000 / line.len() + r.below(20)).into_bytes();
                    before.extend(b);
                    b = before;
                }
                begin_case(&json!({"b": bytes(&b)}));
                let c = if po { po_ways(&b, k as usize, scratch) } else { mo_ways(&b, k as usize, scratch) };
                end_case();
                c
            }
            _ => history(&mut r, prop, k % 200 == 7),
        };
        w.line(&c);
    }
    w.finish();
}

/// Contents printed by TLC (one of each `step`) supplied in every way
pub fn ways(path: &str, step: usize, out: &str, scratch: &str) {
    let mut w = Out::create(out);
    std::env::set_current_dir(scratch).unwrap();
    for (n, case) in read_cases(path).enumerate() {
        if n % step != 0 {
            continue;
        }
        begin_case(&case);
        let c = match case.get("d") {
            Some(d) => po_ways(to_string(d).as_bytes(), n / step, scratch),
            None => mo_ways(&to_bytes(&case["b"]), n / step, scratch),
        };
        end_case();
        w.line(&c);
    }
    w.finish();
}
