//! Random texts and PO documents
use crate::util::Rng;

pub const PLAIN: &[&str] = &[
    "a", "b", "c", "e", "i", "n", "o", "r", "s", "t", "x", "A", "Z", "0", "1", "9", " ", " ", " ", ".", ",", ":",
    ";", "-", "_", "%s", "%d", "(", ")", "/", "=", "<", ">", "'", "!", "?", "&", "foo", "bar", "word", "msgid",
    "msgstr", "fuzzy",
];
pub const MARKS: &[&str] = &["#", "~", "|", "[", "]", "{", "}", "*", "@", "$", "^", "`", "+", "#,", "#:", "#~", "#|"];
pub const UNI: &[&str] = &[
    "é", "ñ", "ß", "Ж", "中", "文", "字", "한", "ア", "😀", "e\u{301}", "\u{200b}", "\u{200d}", "ا", "ש", "\u{ff21}",
    "“", "…", "\u{ad}", "€", "\u{10ffff}", "\u{feff}", "—",
];
pub const CTRL: &[&str] = &[
    "\t", "\n", "\r", "\u{8}", "\u{11}", "\u{12}", "\\", "\"", "\\\\", "\\\"", "\\n", "\n\n", "\"\"", "\u{7}",
    "\u{b}", "\u{c}", "\u{1b}", "\u{7f}",
];

/// What characters a text can have
#[derive(Clone, Copy)]
pub struct Pools {
    pub marks: bool,
    pub uni: bool,
    pub ctrl: bool,
}
pub const ALL: Pools = Pools { marks: true, uni: true, ctrl: true };
pub const VISIBLE: Pools = Pools { marks: true, uni: true, ctrl: false };

/// Text of up to `max` pieces
pub fn any_text(r: &mut Rng, p: Pools, max: usize) -> String {
    let n = if r.chance(15) { r.below(2) } else { r.below(max + 1) * r.texts };
    let mut s = String::new();
    let (pm, pu, pc) = match r.below(4) {
        0 => (0, 0, 0),
        1 => (5, 25, 5),
        2 => (10, 10, 30),
        _ => (5, 5, 8),
    };
    for _ in 0..n {
        let k = r.below(100);
        if p.marks && k < pm {
            s.push_str(r.pick(MARKS));
        } else if p.uni && k < pm + pu {
            s.push_str(r.pick(UNI));
        } else if p.ctrl && k < pm + pu + pc {
            s.push_str(r.pick(CTRL));
        } else {
            s.push_str(r.pick(PLAIN));
        }
    }
    s
}

pub fn nonempty(r: &mut Rng, p: Pools, max: usize) -> String {
    let s = any_text(r, p, max);
    if s.is_empty() {
        "q".to_string()
    } else {
        s
    }
}

/// One visible line without white space at its ends
pub fn line_text(r: &mut Rng, max: usize) -> String {
    any_text(r, VISIBLE, max).trim().to_string()
}

pub fn word(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        s.push_str(r.pick(&[
            "a", "b", "z", "/", ".", "_", "-", "é", "中", "Q", "0", "7", "src", "py", "(", "+",
        ]));
    }
    s
}

/// Escaped form, own implementation. Characters that can be written raw
/// inside of quotes are sometimes written so.
pub fn escaped(r: &mut Rng, s: &str) -> Vec<String> {
    s.chars()
        .map(|c| match c {
            '"' => "\\\"".to_string(),
            '\\' => "\\\\".to_string(),
            '\n' => "\\n".to_string(),
            '\r' => "\\r".to_string(),
            '\t' if r.chance(70) => "\\t".to_string(),
            '\u{8}' if r.chance(70) => "\\b".to_string(),
            '\u{11}' if r.chance(70) => "\\v".to_string(),
            '\u{12}' if r.chance(70) => "\\f".to_string(),
            c => c.to_string(),
        })
        .collect()
}

/// An item of a document: a keyword or comment line and its layout-free
/// content
#[derive(Clone, Debug)]
pub enum Item {
    /// comment, complete line
    Comment(String),
    /// references or flags: marker and words
    Marked(&'static str, Vec<String>, &'static str),
    /// prefix ("", "#~", "#|"), keyword and units of the escaped string
    Keyword(&'static str, String, Vec<String>),
    /// any other complete line
    Raw(String),
}

pub struct Shape {
    pub texts: Pools,
    pub max_text: usize,
    pub max_entries: usize,
}

fn reference(r: &mut Rng) -> String {
    match r.below(6) {
        0 => word(r),
        1 => format!("{}:", word(r)),
        2 => format!("{}:{}:{}", word(r), r.below(9), r.below(99)),
        3 => format!("{}:x{}", word(r), r.below(9)),
        _ => format!("{}:{}", word(r), r.below(100000)),
    }
}

pub fn entry_items(r: &mut Rng, sh: &Shape, out: &mut Vec<Item>) {
    let obsolete = r.chance(20);
    let prefix = if obsolete { "#~" } else { "" };
    let mut before: Vec<Item> = vec![];
    let rich = r.chance(60);
    let pct = if rich { 45 } else { 10 };
    for _ in 0..r.below(3) * r.lists {
        if r.chance(pct) {
            before.push(Item::Comment(match r.below(6) {
                0 => "#".to_string(),
                1 => format!("##{}", line_text(r, 5)),
                2 => format!("#   {}", line_text(r, 5)).trim_end().to_string(),
                _ => format!("# {}", line_text(r, 8)).trim_end().to_string(),
            }));
        }
    }
    for _ in 0..r.below(3) * r.lists {
        if r.chance(pct) {
            before.push(Item::Comment(
                format!("#. {}", line_text(r, 8)).trim_end().to_string(),
            ));
        }
    }
    for _ in 0..r.below(3) {
        if r.chance(pct) {
            let n = r.below(4) * r.lists;
            let w = (0..n).map(|_| reference(r)).collect();
            before.push(Item::Marked("#:", w, " "));
        }
    }
    for _ in 0..r.below(3) {
        if r.chance(pct) {
            let n = r.range(1, 3) * r.lists;
            let w = (0..n)
                .map(|_| {
                    if r.chance(50) {
                        "fuzzy".to_string()
                    } else {
                        r.pick(&["c-format", "python-format", "no-wrap", "x y", "Fuzzy", "fuzzyx", "ñ", " x ", "fuzzy ", "\ty\t", ""])
                            .to_string()
                    }
                })
                .collect();
            before.push(Item::Marked("#,", w, ","));
        }
    }
    if !obsolete {
        for kw in ["msgctxt", "msgid", "msgid_plural"] {
            if r.chance(pct / 2) {
                let t = any_text(r, sh.texts, sh.max_text);
                before.push(Item::Keyword("#|", kw.to_string(), escaped(r, &t)));
            }
        }
    } else if r.chance(20) {
        before.push(Item::Raw("#~| msgid \"old\"".to_string()));
    }
    // usual order or any other
    if r.chance(40) {
        for i in (1..before.len()).rev() {
            before.swap(i, r.below(i + 1));
        }
    }
    out.extend(before);
    if r.chance(40) {
        let t = any_text(r, sh.texts, sh.max_text);
        out.push(Item::Keyword(prefix, "msgctxt".into(), escaped(r, &t)));
        if r.chance(5) {
            out.push(Item::Comment(format!("#. {}", word(r))));
        }
    }
    let t = nonempty(r, sh.texts, sh.max_text);
    out.push(Item::Keyword(prefix, "msgid".into(), escaped(r, &t)));
    let plural = r.chance(35);
    if plural {
        let t = any_text(r, sh.texts, sh.max_text);
        out.push(Item::Keyword(prefix, "msgid_plural".into(), escaped(r, &t)));
    }
    if r.chance(8) {
        out.push(Item::Comment(format!("# {}", line_text(r, 4)).trim_end().to_string()));
    }
    if plural || r.chance(5) {
        let n = r.range(1, 4) * r.lists;
        let mut idx: Vec<usize> = (0..n).collect();
        if r.chance(15) {
            idx.push(r.below(20));
        }
        if r.chance(15) {
            for i in (1..idx.len()).rev() {
                idx.swap(i, r.below(i + 1));
            }
        }
        for i in idx {
            let t = any_text(r, sh.texts, sh.max_text);
            out.push(Item::Keyword(prefix, format!("msgstr[{i}]"), escaped(r, &t)));
        }
    } else {
        let t = any_text(r, sh.texts, sh.max_text);
        out.push(Item::Keyword(prefix, "msgstr".into(), escaped(r, &t)));
    }
}

pub const META_NAMES: &[&str] = &[
    "Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator",
    "Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms",
    "X-Generator", "X-Poedit-Basepath", "x-a", "X-A", "X-2", "X-10", "X-02", "B", "ñ", "Custom",
];

pub fn header_items(r: &mut Rng, out: &mut Vec<Item>) {
    if r.chance(70) {
        for _ in 0..r.range(1, 4) * r.lists {
            out.push(Item::Comment(match r.below(5) {
                0 => "#".to_string(),
                1 => format!("#  {}", line_text(r, 6)).trim_end().to_string(),
                _ => format!("# {}", line_text(r, 6)).trim_end().to_string(),
            }));
        }
    }
    if r.chance(70) {
        if r.chance(30) {
            let mut w = vec![r.pick(&["fuzzy", "c-format", "fuzzy"]).to_string()];
            if r.chance(30) {
                w.push("no-wrap".to_string());
            }
            out.push(Item::Marked("#,", w, ","));
        }
        out.push(Item::Keyword("", "msgid".into(), vec![]));
        let mut u: Vec<String> = vec![];
        for _ in 0..r.below(7) * r.lists {
            let name = r.pick(META_NAMES).to_string();
            let value = any_text(r, VISIBLE, 6);
            let l = match r.below(12) {
                0 => name,
                1 => format!("{name}:{value}"),
                2 => format!("{name}:   {value}  "),
                3 => format!("{name}: {value}: {value}"),
                _ => format!("{name}: {value}"),
            };
            u.extend(escaped(r, &l));
            u.push("\\n".to_string());
        }
        if r.chance(20) {
            u.pop();
        }
        out.push(Item::Keyword("", "msgstr".into(), u));
    }
}

pub fn document(r: &mut Rng, sh: &Shape) -> Vec<Item> {
    let mut items = vec![];
    header_items(r, &mut items);
    for _ in 0..r.below(sh.max_entries + 1) * r.many {
        entry_items(r, sh, &mut items);
    }
    if r.chance(15) {
        items.push(Item::Comment("# the end".to_string()));
    }
    items
}

/// How items are laid out
#[derive(Clone, Copy, Default)]
pub struct Layout {
    pub bom: bool,
    pub crlf: usize,
    pub indent: usize,
    pub trail: usize,
    pub blank: usize,
    pub spaces: usize,
    pub split: usize,
    pub no_final_newline: bool,
}

impl Layout {
    pub fn random(r: &mut Rng) -> Layout {
        let mut p = |a: usize| match r.below(4) {
            0 | 1 => 0,
            2 => a,
            _ => 100,
        };
        let (crlf, indent, trail, blank, spaces, split) =
            (p(50), p(30), p(30), p(30), p(40), p(50));
        Layout {
            bom: r.chance(30),
            crlf,
            indent,
            trail,
            blank: blank.min(60),
            spaces,
            split,
            no_final_newline: r.chance(30),
        }
    }
}

fn blanks(r: &mut Rng) -> String {
    r.pick(&[" ", "  ", "\t", " \t ", "    "]).to_string()
}

/// The document as text
pub fn lay_out(r: &mut Rng, items: &[Item], l: &Layout) -> String {
    let mut lines: Vec<String> = vec![];
    for it in items {
        let sp = |r: &mut Rng| {
            if r.chance(l.spaces) {
                blanks(r)
            } else {
                " ".to_string()
            }
        };
        match it {
            Item::Comment(s) | Item::Raw(s) => lines.push(s.clone()),
            Item::Marked(m, words, sep) => {
                let mut s = m.to_string();
                for (i, w) in words.iter().enumerate() {
                    if i > 0 {
                        if *sep == "," {
                            s.push(',');
                        }
                        s.push_str(&sp(r));
                    } else {
                        s.push_str(&sp(r));
                    }
                    s.push_str(w);
                }
                lines.push(s);
            }
            Item::Keyword(prefix, kw, units) => {
                // pieces of the string
                let mut pieces: Vec<String> = vec![String::new()];
                if r.chance(l.split) {
                    pieces.push(String::new());
                }
                for u in units {
                    if l.split > 0 && r.chance(l.split.min(12)) {
                        pieces.push(String::new());
                    }
                    pieces.last_mut().unwrap().push_str(u);
                }
                for (i, p) in pieces.iter().enumerate() {
                    let mut s = String::new();
                    if !prefix.is_empty() {
                        s.push_str(prefix);
                        s.push_str(&sp(r));
                    }
                    if i == 0 {
                        s.push_str(kw);
                        s.push_str(&sp(r));
                    }
                    s.push('"');
                    s.push_str(p);
                    s.push('"');
                    lines.push(s);
                }
            }
        }
    }
    let mut text = String::new();
    if l.bom {
        text.push('\u{feff}');
    }
    let n = lines.len();
    for (i, s) in lines.iter().enumerate() {
        while l.blank > 0 && r.chance(l.blank) {
            if r.chance(30) {
                text.push_str(&blanks(r));
            }
            text.push_str(if r.chance(l.crlf) { "\r\n" } else { "\n" });
        }
        if r.chance(l.indent) {
            text.push_str(&blanks(r));
        }
        text.push_str(s);
        if r.chance(l.trail) {
            text.push_str(&blanks(r));
        }
        if i + 1 < n || !l.no_final_newline {
            text.push_str(if r.chance(l.crlf) { "\r\n" } else { "\n" });
        }
    }
    text
}

pub const BAD_LINES: &[&str] = &[
    "garbage", "msgid", "msgstr", "msgid foo", "msgid \"a\"b\"", "msgid \"unterminated", "msgstr unquoted\"",
    "msgstr \"\"\"", "msgstr[x] \"a\"", "msgstr[] \"a\"", "msgstr[1 \"a\"", "msgstr[99999999999999999999] \"a\"",
    "msgstr[256] \"a\"", "msgstr[0] \"a", "msgstr[0] a\"", "msgstr[0]", "msgstr[-1] \"a\"", "#|", "#| msgid",
    "#| msgid \"a\"b\"", "#| msgid a", "#| foo \"a\"", "#| \"a\"b\"", "#| \"a", "#| \"", "\"", "\"a", "\"a\"b\"",
    "\"a\\\"", "#~", "#~ foo", "#~ msgid \"", "#~ msgid \"a\"b\"", "#!", "#comment", "#,fuzzy", "msgfoo \"a\"",
    "msgid_plural \"x", "msgctxt \"a\\\"", "msgid \"\\q\"", "msgid \"é\"é\"", "msgctxt \"中\" \"", "msgid \"a\\\\\"b\"",
    "domain \"foo\"", "\"cont\"", "msgid_plural \"p\"", "msgstr \"s\"", "msgid \"i\"", "msgctxt \"c\"", "msgstr[0] \"x\"",
    "#~ \"cont\"", "#| \"cont\"", "#| msgid \"prev\"", "#. gen", "# tr", "#: f:1", "#, fuzzy",
];
