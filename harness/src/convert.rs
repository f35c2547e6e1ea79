//! Messages and files made from others
use crate::conv::*;
use crate::mo::as_mo;
use crate::render::random_entry;
use crate::util::*;
use rspolib::errors::EscapingError;
use rspolib::prelude::*;
use rspolib::{MOEntry, MOFile, POEntry, POFile};
use serde_json::{json, Value};

struct Hand {
    po: POEntry,
    mo: MOEntry,
}

impl Hand {
    fn new() -> Hand {
        Hand { po: POEntry::new(0), mo: MOEntry::from("") }
    }

    /// Does an operation and gives the error of unescaping
    fn apply(&mut self, o: &Value) -> Value {
        match o["op"].as_str().unwrap() {
            "text" => self.po = POEntry::from(to_string(&o["t"]).as_str()),
            "mtext" => self.mo = MOEntry::from(to_string(&o["t"]).as_str()),
            "pair" => self.po = POEntry::from((to_string(&o["t"]).as_str(), to_string(&o["u"]).as_str())),
            "line" => {
                let n = o["n"].as_u64().unwrap() as usize;
                self.po = if n % 2 == 0 { POEntry::from(n) } else { POEntry::new(n) };
            }
            "make" => self.po = to_po_entry(&o["e"]),
            "mmake" => self.mo = to_mo_entry(&o["e"]),
            "tomo" => self.mo = MOEntry::from(&self.po),
            "topo" => self.po = POEntry::from(&self.mo),
            "unesc" => match self.po.unescaped() {
                Ok(e) => self.po = e,
                Err(EscapingError::EscapeAtEndOfString { .. }) => return json!(["end", 0]),
                Err(EscapingError::InvalidEscapedCharacter { character, .. }) => {
                    return json!(["bad", character as u32])
                }
            },
            _ => {}
        }
        json!([])
    }

    fn po_list(&self) -> Value {
        let f = POFile::from(vec![&self.po, &POEntry::new(0), &self.po]);
        let mut v = po_file(&f);
        let o = v.as_object_mut().unwrap();
        o.remove("ok");
        o.insert("w".into(), json!(f.options.wrapwidth));
        v
    }

    fn mo_list(&self) -> Value {
        mo_shown(&MOFile::from(vec![&self.mo, &MOEntry::from(""), &self.mo]))
    }

    fn compiled(&self, w: usize) -> Value {
        let mut f = POFile::new(("", w).into());
        f.entries.push(self.po.clone());
        mo_shown(&MOFile::from(&f))
    }

    /// The text of a message is the one of the usual width, and that of a MO
    /// message is the one of the PO message made from it
    fn shown(&self) -> bool {
        self.po.to_string() == self.po.to_string_with_wrapwidth(78)
            && self.mo.to_string() == self.mo.to_string_with_wrapwidth(78)
            && self.mo.to_string() == POEntry::from(&self.mo).to_string()
    }
}

fn mo_shown(f: &MOFile) -> Value {
    json!({"meta": metadata(&f.metadata), "ents": mo_entries(&f.entries), "w": f.options.wrapwidth})
}

/// Histories printed by TLC
pub fn replay(path: &str) -> i32 {
    let (mut n, mut bad) = (0u64, 0u64);
    for case in read_cases(path) {
        n += 1;
        begin_case(&case);
        let ops = case["ops"].as_array().unwrap();
        let got = guard(|| {
            let mut h = Hand::new();
            for o in ops {
                h.apply(o);
            }
            let width = 5 * ops.len();
            let mut why = "";
            for (what, a, b) in [
                ("PO message", po_entry(&h.po), &case["po"]),
                ("MO message", mo_entry(&h.mo), &case["mo"]),
                ("key of the PO message", text(&h.po.msgid_eot_msgctxt()), &case["pkey"]),
                ("key of the MO message", text(&h.mo.msgid_eot_msgctxt()), &case["mkey"]),
                ("PO file of messages", h.po_list(), &case["pf"]),
                ("MO file of messages", h.mo_list(), &case["mf"]),
                ("compiled file", h.compiled(width), &case["cf"]),
            ] {
                if why.is_empty() && a != *b {
                    why = what;
                }
            }
            if why.is_empty() && !h.shown() {
                why = "text of the messages";
            }
            let e = h.apply(&json!({"op": "unesc"}));
            let errs = case["errs"].as_array().unwrap();
            if why.is_empty() && errs.is_empty() != (e == json!([])) {
                why = "whether a message can be unescaped";
            }
            if why.is_empty() && !errs.is_empty() && !errs.iter().any(|x| json!([x["kind"], x["char"]]) == e) {
                why = "error of unescaping";
            }
            why
        });
        let why = match &got {
            Ok(w) => w.to_string(),
            Err(m) => format!("panic: {m}"),
        };
        end_case();
        if !why.is_empty() {
            bad += 1;
            if bad <= 20 {
                println!("{}", json!({"bad": why, "case": case}));
            }
        }
    }
    println!("{}", json!({"judged": n, "bad": bad}));
    (bad > 0) as i32
}

/// Texts with right and wrong escapes
fn raw(r: &mut Rng, s: &Value) -> Value {
    let mut t = to_string(s);
    if r.chance(60) {
        t = rspolib::escaping::escape(&t).into_owned();
    }
    if r.chance(3) {
        t.push_str(r.pick(&["\\", "\\q", "\\é", "\\\\"]));
    }
    text(&t)
}

pub fn generate(seed: u64, n: u64, out: &str) {
    let mut w = Out::create(out);
    for k in 0..n {
        let mut r = Rng::new(seed, k);
        let mut h = Hand::new();
        let mut ops = vec![];
        for _ in 0..r.range(1, 8) {
            let max = *r.pick(&[1, 3, 10, 40]);
            let mut e = random_entry(&mut r, max);
            let o = e.as_object_mut().unwrap();
            o.insert("line".into(), json!(r.below(100000)));
            if r.chance(60) {
                for f in ["str", "pl", "strs", "ctx", "pid", "ppl", "pctx"] {
                    let v = o[f].as_array().unwrap().clone();
                    let v = v.iter().map(|s| raw(&mut r, s)).collect();
                    o.insert(f.into(), Value::Array(v));
                }
                let id = raw(&mut r, &o["id"].clone());
                o.insert("id".into(), id);
            }
            let str = e["str"].as_array().unwrap().first().cloned().unwrap_or(json!([]));
            let mut op = match r.below(14) {
                0 => json!({"op": "text", "t": e["id"]}),
                1 => json!({"op": "mtext", "t": e["id"]}),
                2 => json!({"op": "pair", "t": e["id"], "u": str}),
                3 => json!({"op": "line", "n": e["line"]}),
                4..=6 => json!({"op": "make", "e": e}),
                7 => json!({"op": "mmake", "e": as_mo(&e)}),
                8 | 9 => json!({"op": "tomo"}),
                10 => json!({"op": "topo"}),
                11 | 12 => json!({"op": "unesc"}),
                _ => json!({"op": "list", "n": r.below(100)}),
            };
            begin_case(&op);
            let got = guard(|| {
                let err = h.apply(&op);
                let mut v = json!({"panic": false, "err": err, "po": po_entry(&h.po), "mo": mo_entry(&h.mo),
                    "pkey": text(&h.po.msgid_eot_msgctxt()), "mkey": text(&h.mo.msgid_eot_msgctxt()),
                    "shown": h.shown()});
                if op["op"] == json!("list") {
                    let o = v.as_object_mut().unwrap();
                    o.insert("pf".into(), h.po_list());
                    o.insert("mf".into(), h.mo_list());
                    o.insert("cf".into(), h.compiled(op["n"].as_u64().unwrap() as usize));
                }
                v
            });
            end_case();
            let panicked = got.is_err();
            let got = got.unwrap_or_else(|_| json!({"panic": true}));
            op.as_object_mut().unwrap().extend(got.as_object().unwrap().clone());
            ops.push(op);
            if panicked {
                break;
            }
        }
        w.line(&json!({"ops": ops}));
    }
    w.finish();
}
