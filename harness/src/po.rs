//! Reading of PO documents
use crate::conv::*;
use crate::gen::*;
use crate::util::*;
use rspolib::pofile;
use serde_json::{json, Value};

pub fn parse_text(s: &str) -> Value {
    po_outcome(guard(|| pofile(s)), None)
}

pub fn parse_bytes(b: &[u8]) -> Value {
    po_outcome(guard(|| pofile(b.to_vec())), None)
}

fn sorted_meta(v: &Value) -> Value {
    let mut a = v.as_array().unwrap().clone();
    a.sort_by_key(|p| to_string(&p[0]));
    Value::Array(a)
}

/// Difference between the outcome of the specification and the one of the
/// library
pub fn difference(exp: &Value, out: &Value) -> Option<String> {
    let exp_ok = exp["ok"].as_bool().unwrap();
    let out_ok = out["ok"].as_bool().unwrap();
    if out["kind"] == json!("panic") {
        return Some(format!("panic: {}", out["why"]));
    }
    if exp_ok != out_ok {
        return Some(if exp_ok {
            "well-formed document rejected".to_string()
        } else {
            format!("malformed document accepted ({})", exp["kind"])
        });
    }
    if exp_ok {
        for k in ["hdr", "fuzzy", "ents"] {
            if exp[k] != out[k] {
                return Some(format!("{k} differ"));
            }
        }
        if sorted_meta(&exp["meta"]) != sorted_meta(&out["meta"]) {
            return Some("meta differ".to_string());
        }
    } else if exp["kind"] != json!("escape") {
        if exp["line"] != out["line"] {
            return Some(format!(
                "error names line {} instead of {}",
                out["line"], exp["line"]
            ));
        }
        if exp["kind"] == json!("quote")
            && (out["kind"] != json!("quote") || exp["col"] != out["col"])
        {
            return Some(format!(
                "error names column {} instead of {}",
                out["col"], exp["col"]
            ));
        }
    }
    // errors of escapes have no line, but they have a file
    if !exp_ok && out["named"] == json!(false) {
        return Some("error does not name the file".to_string());
    }
    None
}

/// The same about the metadata only
fn header_difference(exp: &Value, out: &Value) -> Option<String> {
    if out["ok"] != exp["ok"] {
        return Some("read or not".to_string());
    }
    let sorted = |v: &Value| {
        let mut l: Vec<String> = v["meta"].as_array().unwrap().iter().map(|p| p.to_string()).collect();
        l.sort();
        l
    };
    if sorted(exp) != sorted(out) {
        Some("metadata".to_string())
    } else if exp["fuzzy"] != out["fuzzy"] {
        Some("whether metadata is fuzzy".to_string())
    } else if exp["ents"].as_array().unwrap().len() != out["ents"].as_array().unwrap().len() {
        Some("the header entry is a message".to_string())
    } else {
        None
    }
}

/// Replays the documents printed by TLC: for P01 the well-formed ones,
/// for P03 the malformed ones, for the other properties all of them
pub fn replay(path: &str, prop: &str, scratch: &str) -> i32 {
    let (mut n, mut bad) = (0u64, 0u64);
    let file = format!("{scratch}/doc.po");
    for case in read_cases(path) {
        let exp = &case["r"];
        let ok = exp["ok"].as_bool().unwrap();
        if (prop == "P01" && !ok) || (prop == "P03" && ok) {
            continue;
        }
        n += 1;
        begin_case(&case);
        // some documents are bytes
        let raw = case.get("b").map(to_bytes);
        let doc = match &raw {
            Some(b) => String::from_utf8_lossy(b).to_string(),
            None => to_string(&case["d"]),
        };
        let mut outs = match &raw {
            Some(b) => {
                let mut v = vec![po_outcome(guard(|| pofile(b.clone())), None)];
                if n % 20 == 0 {
                    std::fs::write(&file, b).unwrap();
                    v.push(po_outcome(guard(|| pofile(file.as_str())), Some(&file)));
                }
                v
            }
            None => vec![parse_text(&doc)],
        };
        if prop == "P03" {
            // later lines do not matter
            outs.push(parse_text(&format!("{doc}\nmsgid \"z\"\nmsgstr \"z\"\n")));
            if n % 50 == 0 {
                std::fs::write(&file, &doc).unwrap();
                outs.push(po_outcome(guard(|| pofile(file.as_str())), Some(&file)));
            }
        }
        end_case();
        for out in outs {
            let d = if prop == "P02" {
                if out["kind"] == json!("panic") {
                    Some(format!("panic: {}", out["why"]))
                } else if exp["kind"] == json!("decode") && out["ok"] == json!(true) {
                    Some("content that can not be decoded accepted".to_string())
                } else {
                    None
                }
            } else if prop == "S04" {
                header_difference(exp, &out)
            } else {
                difference(exp, &out)
            };
            if let Some(d) = d {
                bad += 1;
                if bad <= 20 {
                    println!(
                        "{}",
                        json!({"bad": d, "doc": doc, "expected": exp, "found": out})
                    );
                }
            }
        }
    }
    println!("{}", json!({"judged": n, "bad": bad}));
    (bad > 0) as i32
}

pub fn text_shape(r: &mut Rng) -> Shape {
    Shape {
        texts: match r.below(3) {
            0 => VISIBLE,
            _ => ALL,
        },
        max_text: *r.pick(&[2, 6, 12]),
        max_entries: *r.pick(&[1, 3, 5]),
    }
}

pub fn well_formed(r: &mut Rng) -> String {
    let sh = text_shape(r);
    let items = document(r, &sh);
    let l = if r.chance(50) {
        Layout { split: *r.pick(&[0, 30, 100]), ..Default::default() }
    } else {
        Layout::random(r)
    };
    lay_out(r, &items, &l)
}

pub fn broken_lines(r: &mut Rng) -> String {
    let base = well_formed(r);
    let mut lines: Vec<String> = base.split('\n').map(|s| s.to_string()).collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(lines.len() + 1);
        match r.below(8) {
            0 if i < lines.len() => {
                lines.remove(i);
            }
            1 if i < lines.len() => {
                let j = r.below(lines.len());
                lines.swap(i, j);
            }
            2 if i < lines.len() => {
                let l = lines[i].clone();
                lines.insert(i, l);
            }
            3 if i < lines.len() => {
                // a quote somewhere in the line
                let mut cs: Vec<char> = lines[i].chars().collect();
                let p = r.below(cs.len() + 1);
                cs.insert(p, '"');
                lines[i] = cs.into_iter().collect();
            }
            4 if i < lines.len() => {
                // a character less
                let mut cs: Vec<char> = lines[i].chars().collect();
                if !cs.is_empty() {
                    let p = r.below(cs.len());
                    cs.remove(p);
                }
                lines[i] = cs.into_iter().collect();
            }
            _ => lines.insert(i, r.pick(BAD_LINES).to_string()),
        }
    }
    lines.join("\n")
}

fn soup(r: &mut Rng) -> String {
    let toks: &[&str] = &[
        "msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[", "0", "1", "]", "\"", "\"", "\"\"", "\\", "\\\"", " ", " ",
        "\n", "\n", "\n", "\r\n", "\r", "#", "#.", "#:", "#,", "#|", "#~", "#~|", "##", "a", "é", "中", "😀", "\u{feff}",
        "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{3000}", "\u{85}", "\u{2028}", "\0", "\\n", "\\q", ":", ",", "999999999999",
        "18446744073709551615", "-1", "+1", "msgstr[0] \"", "msgid \"", "#| msgid \"", "#| \"", "é\"", "\"é", "#é",
        "#~ é", "#| é", "#,é", "#:é é", "[", "msgstr[é] \"a\"",
    ];
    let mut s = String::new();
    for _ in 0..r.below(40) {
        s.push_str(r.pick(toks));
    }
    s
}

pub fn mutated_bytes(r: &mut Rng) -> Vec<u8> {
    let mut b = match r.below(3) {
        0 => well_formed(r).into_bytes(),
        1 => soup(r).into_bytes(),
        _ => {
            let n = r.below(60);
            (0..n).map(|_| r.below(256) as u8).collect()
        }
    };
    for _ in 0..r.below(4) {
        if b.is_empty() {
            break;
        }
        let i = r.below(b.len());
        match r.below(5) {
            0 => b.truncate(i),
            1 => {
                b.remove(i);
            }
            2 => b.insert(i, r.below(256) as u8),
            3 => b[i] = *r.pick(&[0u8, 0x80, 0xff, 0xc3, 0xe4, 0xf0, 0xed, b'"', b'\\', b'\n']),
            _ => {
                let j = r.below(b.len());
                let (lo, hi) = (i.min(j), i.max(j));
                let part = b[lo..hi].to_vec();
                b.extend(part);
            }
        }
    }
    b
}

/// Records random documents and their outcomes
pub fn generate(prop: &str, seed: u64, n: u64, out: &str, scratch: &str) {
    let mut w = Out::create(out);
    let path = format!("{scratch}/in.po");
    for k in 0..n {
        let mut r = Rng::new(seed, k);
        match prop {
            "P01" => {
                let d = well_formed(&mut r);
                record_doc(&mut w, &d, None);
            }
            "P03" => {
                let d = if r.chance(80) { broken_lines(&mut r) } else { well_formed(&mut r) };
                let file = r.chance(15);
                record_doc(&mut w, &d, if file { Some(&path) } else { None });
            }
            "P02" => match r.below(4) {
                0 => {
                    let d = soup(&mut r);
                    record_doc(&mut w, &d, None);
                }
                1 => {
                    let d = broken_lines(&mut r);
                    record_doc(&mut w, &d, None);
                }
                _ => {
                    let b = mutated_bytes(&mut r);
                    begin_case(&json!({"b": bytes(&b)}));
                    let o = parse_bytes(&b);
                    end_case();
                    w.line(&json!({"b": bytes(&b), "d": [], "t": "bytes", "r": o}));
                }
            },
            _ => panic!("unknown property {prop}"),
        }
    }
    w.finish();
}

fn record_doc(w: &mut Out, d: &str, path: Option<&str>) {
    begin_case(&json!({"d": text(d)}));
    let o = match path {
        None => parse_text(d),
        Some(p) => {
            std::fs::write(p, d).unwrap();
            po_outcome(guard(|| pofile(p)), Some(p))
        }
    };
    end_case();
    w.line(&json!({"d": text(d), "b": [], "t": "text", "r": o}));
}
