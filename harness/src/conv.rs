//! Values of the library as the values of the specification
use crate::util::*;
use rspolib::{errors::SyntaxError, MOEntry, MOFile, POEntry, POFile};
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn po_entry(e: &POEntry) -> Value {
    obj(vec![
        ("id", text(&e.msgid)),
        ("str", opt(&e.msgstr)),
        ("pl", opt(&e.msgid_plural)),
        ("strs", texts(&e.msgstr_plural)),
        ("ctx", opt(&e.msgctxt)),
        ("obs", json!(e.obsolete)),
        ("com", opt(&e.comment)),
        ("tcom", opt(&e.tcomment)),
        (
            "occ",
            Value::Array(
                e.occurrences
                    .iter()
                    .map(|(f, l)| json!([text(f), text(l)]))
                    .collect(),
            ),
        ),
        ("flags", texts(&e.flags)),
        ("pid", opt(&e.previous_msgid)),
        ("ppl", opt(&e.previous_msgid_plural)),
        ("pctx", opt(&e.previous_msgctxt)),
        ("line", json!(e.linenum)),
    ])
}

pub fn to_po_entry(v: &Value) -> POEntry {
    let mut e = POEntry::new(v["line"].as_u64().unwrap_or(0) as usize);
    e.msgid = to_string(&v["id"]);
    e.msgstr = to_opt(&v["str"]);
    e.msgid_plural = to_opt(&v["pl"]);
    e.msgstr_plural = to_strings(&v["strs"]);
    e.msgctxt = to_opt(&v["ctx"]);
    e.obsolete = v["obs"].as_bool().unwrap();
    e.comment = to_opt(&v["com"]);
    e.tcomment = to_opt(&v["tcom"]);
    e.occurrences = v["occ"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| (to_string(&p[0]), to_string(&p[1])))
        .collect();
    e.flags = to_strings(&v["flags"]);
    e.previous_msgid = to_opt(&v["pid"]);
    e.previous_msgid_plural = to_opt(&v["ppl"]);
    e.previous_msgctxt = to_opt(&v["pctx"]);
    e
}

/// Pairs ordered by name
pub fn metadata(m: &HashMap<String, String>) -> Value {
    let mut pairs: Vec<(&String, &String)> = m.iter().collect();
    pairs.sort();
    Value::Array(
        pairs
            .iter()
            .map(|(k, v)| json!([text(k), text(v)]))
            .collect(),
    )
}

pub fn to_metadata(v: &Value) -> Vec<(String, String)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|p| (to_string(&p[0]), to_string(&p[1])))
        .collect()
}

pub fn po_entries(es: &[POEntry]) -> Value {
    Value::Array(es.iter().map(po_entry).collect())
}

pub fn po_file(f: &POFile) -> Value {
    obj(vec![
        ("ok", json!(true)),
        ("hdr", opt(&f.header)),
        ("meta", metadata(&f.metadata)),
        ("fuzzy", json!(f.metadata_is_fuzzy)),
        ("ents", po_entries(&f.entries)),
    ])
}

pub fn to_po_file(v: &Value, wrapwidth: usize) -> POFile {
    let mut f = POFile::new(("", wrapwidth).into());
    f.header = to_opt(&v["hdr"]);
    for (k, val) in to_metadata(&v["meta"]) {
        f.metadata.insert(k, val);
    }
    f.metadata_is_fuzzy = v["fuzzy"].as_bool().unwrap();
    f.entries = v["ents"]
        .as_array()
        .unwrap()
        .iter()
        .map(to_po_entry)
        .collect();
    f
}

/// (kind, line, column) of a syntax error
pub fn syntax_error(e: &SyntaxError, path: Option<&str>) -> Value {
    let (kind, line, col) = match e {
        SyntaxError::UnescapedDoubleQuoteFound {
            line, index, ..
        } => ("quote", *line, *index),
        SyntaxError::Custom { line, index, .. } => {
            ("custom", *line, *index)
        }
        SyntaxError::Generic { line, index, .. } => {
            ("generic", *line, *index)
        }
        SyntaxError::BasicCustom { .. } => ("basic", 0, 0),
        _ => ("other", 0, 0),
    };
    obj(vec![
        ("ok", json!(false)),
        ("kind", json!(kind)),
        ("line", json!(line)),
        ("col", json!(col)),
        (
            "named",
            json!(match path {
                Some(p) => e.to_string().contains(p),
                None => true,
            }),
        ),
    ])
}

/// Outcome of a parse: a file, an error or a panic
pub fn po_outcome(
    r: Result<Result<POFile, SyntaxError>, String>,
    path: Option<&str>,
) -> Value {
    match r {
        Ok(Ok(f)) => po_file(&f),
        Ok(Err(e)) => match guard(|| syntax_error(&e, path)) {
            Ok(v) => v,
            Err(m) => panicked(&m),
        },
        Err(m) => panicked(&m),
    }
}

pub fn panicked(m: &str) -> Value {
    obj(vec![
        ("ok", json!(false)),
        ("kind", json!("panic")),
        ("line", json!(0)),
        ("col", json!(0)),
        ("named", json!(true)),
        ("why", json!(m.chars().filter(|c| c.is_ascii_graphic() || *c == ' ').take(120).collect::<String>())),
    ])
}

pub fn mo_entry(e: &MOEntry) -> Value {
    obj(vec![
        ("id", text(&e.msgid)),
        ("str", opt(&e.msgstr)),
        ("pl", opt(&e.msgid_plural)),
        ("strs", texts(&e.msgstr_plural)),
        ("ctx", opt(&e.msgctxt)),
    ])
}

pub fn to_mo_entry(v: &Value) -> MOEntry {
    MOEntry::new(
        to_string(&v["id"]),
        to_opt(&v["str"]),
        to_opt(&v["pl"]),
        to_strings(&v["strs"]),
        to_opt(&v["ctx"]),
    )
}

pub fn mo_entries(es: &[MOEntry]) -> Value {
    Value::Array(es.iter().map(mo_entry).collect())
}

pub fn mo_file(f: &MOFile) -> Value {
    obj(vec![
        ("ok", json!(true)),
        ("meta", metadata(&f.metadata)),
        ("ents", mo_entries(&f.entries)),
    ])
}
