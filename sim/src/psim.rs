//! Simulation of reading and of saving to storage: generated documents, deliveries and faults.

use crate::json::{n, s, J};
use crate::model::Ty;
use crate::rng::{Fnv, Rng};
use crate::runner::{dom_json, dom_of, dom_trial, in_fresh_thread, Dom, Report};
use crate::seams::*;
use crate::world::*;
use crate::xmlread::{self, Decl, Item};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, ErrorKind};
use xml_dom::level2::convert::*;
use xml_dom::level2::*;
use xml_dom::parser::{read_reader, read_xml};

// -------------------------------------------------------------------------------------- documents

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// version, encoding, standalone
    Decl(String, Option<String>, Option<bool>),
    Open(String, Vec<(String, String)>),
    Close,
    Text(String),
    Comment(String),
    CData(String),
    Pi(String, Option<String>),
    Space,
    /// Content of a kind that ends `off` bytes before or behind the next multiple of `unit`, and
    /// the characters it is made of.
    Fill { kind: u32, unit: u32, off: i32, of: u32 },
}

/// What a text says, in a form that both sides can be brought to.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum C {
    Open(String, BTreeMap<String, String>),
    Close,
    Text(String),
    Comment(String),
    CData(String),
    Pi(String, String),
}


#[derive(Clone, Debug, Default)]
pub struct Rendered {
    pub bytes: Vec<u8>,
    pub says: Vec<C>,
    pub decl: Decl,
    /// Where the root element ends.
    pub root_end: usize,
    /// Where the text may end without being cut inside markup, and how much has been said there.
    pub cuts: Vec<(usize, usize)>,
    /// Ends of the tokens.
    pub bounds: Vec<usize>,
    pub spots: Vec<Spot>,
}

/// Places in the text of a document.
#[derive(Clone, Debug, PartialEq)]
pub enum Spot {
    /// Between the markup outside of the root element.
    Outside(usize),
    /// Between the markup inside of it.
    Inside(usize),
    Decl(usize, usize),
    /// Start, end, is it empty, where an attribute can be added.
    Start(usize, usize, bool, usize),
    End(usize, usize),
    Attribute(usize, usize),
}

impl Spot {
    fn shift(&mut self, k: usize) {
        match self {
            Spot::Outside(a) | Spot::Inside(a) => *a += k,
            Spot::Decl(a, b) | Spot::End(a, b) | Spot::Attribute(a, b) => {
                *a += k;
                *b += k;
            }
            Spot::Start(a, b, _, c) => {
                *a += k;
                *b += k;
                *c += k;
            }
        }
    }
}

const NAMES: &[&str] = &["a", "b", "c", "x:a", "élan", "名前", "a-b.c", "_u", "A1", "x:y", "ns:名"];
const ATTRS: &[&str] =
    &["k", "m", "x:k", "y:k", "é", "_z", "a.b", "xml:lang", "xmlns", "xmlns:x", "xml:space", "id", "K", "x:名"];
const TEXTS: &[&str] = &[
    "t", "hello world", "a<b", "x & y", "\"q\" 'r'", "é", "日本語", "😀", "1 > 0", "a\tb", "l1\nl2", "&amp;", "&#65;",
    "l1\r\nl2", "a\rb\r", "e\u{301}", "\u{fffd}", "]]", "x]]>y", "%", "50%;", "%e;", "-", "--", "?>", "\u{a0}n", "\u{7f}", "𝄞𝄞", "longer text with several words in it",
];
const VALS: &[&str] = &[
    "", "v", "v w", "<", ">", "&", "\"", "'", "\"'", "é", "日本", "😀", "a\tb", "l\nm", "&lt;", "&#38;", "%d", "a&b;c",
    "http://example.org/?a=1&b=2", "\u{a0}", "  in  ner", "l\r\nm", "𝄞", "%e;", "&amp;amp;",
];
const COMMENTS: &[&str] = &["c", " c ", "a - b", "<a>", "é日", "x\ny", "]]>", "?>", "\"'", "", "a=b", "<!ELEMENT x>", "AT&T", "a & b", "&none; x", "&", "r&#;", "x\r\ny"];
const CDATAS: &[&str] = &["d", "<a>", "&amp;", "]]", "é<&>", " s ", "x\ny", "<!-- no -->", "😀", "]]&gt;", "?>", "", "x\r\ny", "&none;"];
const PIS: &[&str] = &["d", "d ", "e \n\t", "a=\"b\"", "é & <", "x  y", ">", "a?b", "日"];
const TARGETS: &[&str] = &["pi", "xsl-style", "名", "p.q", "_t"];

fn maybe<'a>(r: &mut Rng, pool: &[&'a str]) -> &'a str {
    pool[r.below(pool.len() as u64) as usize]
}

/// One of a list of contents, or one put together from what could be taken for markup there.
fn content(r: &mut Rng, pool: &'static [&'static str]) -> String {
    if !r.chance(1, 5) {
        return maybe(r, pool).to_string();
    }
    let pieces: &[&str] = &[
        "a", "é", "😀", " ", "\n", "<", ">", "&", "]", "]]", "\"", "'", "-", "?", "!", "=", "%", ";", "#", "/", "[", "日",
        "x1", "  ", "\t", "CDATA[", "\u{7ff}", "\u{800}", "\u{ffff0}",
        "\u{feff}", "\u{200b}", "\u{2003}", "\u{3000}", "\u{301}", "\u{fffd}", "\u{e000}", "\u{7f}", "ß", "İ",
    ];
    let mut o = String::new();
    for _ in 0..1 + r.below(7) {
        let k = o.len();
        o.push_str(maybe(r, pieces));
        let ends = ["--", "]]>", "?>"];
        // the library writes comments escaped, and reads what looks like a reference as one
        let refers = o.find('&').is_some_and(|i| o[i..].contains(';'));
        if pool == COMMENTS && (o.contains(ends[0]) || refers) || pool == CDATAS && o.contains(ends[1]) || pool == PIS && o.contains(ends[2]) {
            o.truncate(k);
        }
    }
    if pool == COMMENTS && o.ends_with('-') {
        o.push('x');
    }
    if pool == PIS {
        o = o.trim_start_matches(is_ws).to_string();
        if o.is_empty() {
            o.push('?');
        }
    }
    o
}

const STARTS: &[char] = &[
    'a', 'b', 'Z', '_', 'À', 'ÿ', 'Ͱ', '\u{37f}', '\u{200c}', '⁰', 'Ⰰ', '、', '豈', 'ﷰ', '名', 'Ω', '𐀀', '\u{efff0}',
];
const PARTS: &[char] = &['-', '.', '0', '9', '·', '\u{300}', '‿', 'x', 'Q', '_', 'é', '人'];

/// A name without a prefix.
fn some_part(r: &mut Rng) -> String {
    let mut o = String::new();
    o.push(STARTS[r.below(STARTS.len() as u64) as usize]);
    for _ in 0..r.below(4) {
        o.push(PARTS[r.below(PARTS.len() as u64) as usize]);
    }
    o
}

fn some_name(r: &mut Rng, pool: &[&str], prefixes: &[&str]) -> String {
    if !r.chance(1, 6) {
        return maybe(r, pool).to_string();
    }
    let local = some_part(r);
    match r.below(4) {
        0 => format!("{}:{}", maybe(r, prefixes), local),
        1 => format!("{}:{}", some_part(r), local),
        _ => local,
    }
}

fn gen_doc(r: &mut Rng, thorough: bool) -> Vec<Tok> {
    let mut t = vec![];
    if r.chance(1, 3) {
        let enc = match r.below(6) {
            0 => Some("UTF-8"),
            1 => Some("utf-8"),
            2 => Some("Utf-8"),
            _ => None,
        };
        let sa = match r.below(4) {
            0 => Some(true),
            1 => Some(false),
            _ => None,
        };
        let version = if r.chance(1, 4) { "1.1" } else { "1.0" };
        t.push(Tok::Decl(version.to_string(), enc.map(String::from), sa));
    }
    let misc = |r: &mut Rng, t: &mut Vec<Tok>| {
        for _ in 0..if r.chance(1, 100) { 10 + r.below(60) } else { r.below(3) } {
            t.push(match r.below(3) {
                0 => Tok::Comment(content(r, COMMENTS)),
                1 => some_pi(r),
                _ => Tok::Space,
            });
        }
    };
    misc(r, &mut t);
    let fill = r.chance(1, 30);
    let bulk = if r.chance(1, 400) { 200 + r.below(if thorough { 6000 } else { 2500 }) } else { 0 };
    let mut bulk_at = if bulk > 0 { r.below(10) } else { u64::MAX };
    let len = match r.below(8) {
        0 => 0,
        1..=5 => r.below(14),
        6 => r.below(40),
        _ => r.below(if thorough { 300 } else { 80 }),
    };
    let mut ids = 0;
    t.push(some_open(r, &mut ids));
    let mut depth = 1;
    let deep = r.chance(1, 12);
    for i in 0..len {
        if fill && r.chance(1, 4) {
            t.push(some_fill(r));
        }
        if i >= bulk_at {
            bulk_at = u64::MAX;
            // a long list or a deep nesting
            match r.below(4) {
                0 => {
                    for _ in 0..bulk {
                        t.push(some_open(r, &mut ids));
                    }
                    depth += bulk;
                    if r.chance(1, 2) {
                        for _ in 0..bulk / 2 {
                            t.push(Tok::Close);
                        }
                        depth -= bulk / 2;
                    }
                }
                1 => {
                    for _ in 0..bulk {
                        t.push(some_open(r, &mut ids));
                        t.push(Tok::Close);
                    }
                }
                2 => {
                    for _ in 0..bulk / 2 {
                        t.push(Tok::Text(content(r, TEXTS)));
                        t.push(Tok::Comment(content(r, COMMENTS)));
                    }
                }
                _ => {
                    let declares = r.chance(1, 3);
                    let attrs = (0..bulk / 4).map(|k| {
                        let at = if declares && k % 3 == 0 { "xmlns:" } else { "" };
                        (format!("{}{}.{}", at, some_part(r), k), maybe(r, VALS).to_string())
                    });
                    t.push(Tok::Open("many".into(), attrs.collect()));
                    t.push(Tok::Close);
                }
            }
        }
        match r.below(if deep { 6 } else { 12 }) {
            0..=2 => {
                t.push(some_open(r, &mut ids));
                depth += 1;
            }
            3 | 4 => t.push(Tok::Text(content(r, TEXTS))),
            5 => t.push(Tok::Comment(content(r, COMMENTS))),
            6 => t.push(Tok::CData(content(r, CDATAS))),
            7 => t.push(some_pi(r)),
            8 => t.push(Tok::Space),
            _ if depth > 1 => {
                t.push(Tok::Close);
                depth -= 1;
            }
            _ => t.push(Tok::Text(content(r, TEXTS))),
        }
    }
    for _ in 0..depth {
        t.push(Tok::Close);
    }
    misc(r, &mut t);
    t
}

fn some_fill(r: &mut Rng) -> Tok {
    let unit = match r.below(16) {
        0..=2 => 64,
        3 | 4 => 512,
        5..=7 => 1024,
        8..=10 => 4096,
        11..=14 => 8192,
        _ => 65536,
    };
    let off = if r.chance(1, 2) { 0 } else { r.below(9) as i32 - 4 };
    Tok::Fill { kind: r.below(6) as u32, unit, off, of: r.below(6) as u32 }
}

fn some_pi(r: &mut Rng) -> Tok {
    let data = if r.chance(1, 4) { None } else { Some(content(r, PIS)) };
    Tok::Pi(some_name(r, TARGETS, &["p"]).to_string(), data)
}

/// So many bytes of characters of a kind, without white space at the ends.
fn filling(len: usize, of: u32) -> String {
    let unit = match of {
        0 => "x",
        1 => "é",
        2 => "日本",
        3 => "😀",
        4 => "ab cd é ",
        _ => "a-b ",
    };
    let mut o = String::with_capacity(len);
    while o.len() + unit.len() < len {
        o.push_str(unit);
    }
    while o.len() < len {
        o.push('x');
    }
    o
}

fn some_open(r: &mut Rng, ids: &mut u32) -> Tok {
    let mut attrs: Vec<(String, String)> = vec![];
    let many = r.chance(1, 200);
    for k in 0..if many { 6 + r.below(60) } else { r.below(5) } {
        let mut name = some_name(r, ATTRS, &["x", "xmlns", "xmlns", "xml"]);
        if many && attrs.iter().any(|a| a.0 == name) && name != "xmlns" {
            name = format!("{}.{}", name, k);
        }
        let mut value = content(r, VALS);
        if r.chance(1, 8) {
            name = "xml:id".into();
            value = format!("i{}", ids);
            *ids += 1;
        }
        if attrs.iter().all(|a| a.0 != name) {
            attrs.push((name, value));
        }
    }
    Tok::Open(some_name(r, NAMES, &["x", "y"]), attrs)
}

fn ws(r: &mut Rng, least: u64) -> String {
    let mut o = String::new();
    let k = least + if r.chance(1, 3) { r.below(3) } else { 0 };
    for _ in 0..k {
        o.push(['\n', ' ', '\t', ' '][r.below(4) as usize]);
    }
    o
}

/// Write a character out, as it is or as a reference.
fn put(r: &mut Rng, c: char, quote: Option<char>, plain: bool, after_brackets: bool, o: &mut String) {
    let must = match c {
        '<' | '&' => true,
        '>' => after_brackets,
        '"' | '\'' => quote == Some(c),
        // white space at the ends of data is not told apart from indentation, and in values not from
        // a space
        '\t' | '\n' | '\r' => false,
        c => c < ' ',
    };
    // the two characters of a line end belong together
    let joined = c == '\r' || (c == '\n' && o.ends_with('\r'));
    if must || (!joined && !plain && r.chance(1, 12)) {
        let named = match c {
            '<' => Some("lt"),
            '>' => Some("gt"),
            '&' => Some("amp"),
            '"' => Some("quot"),
            '\'' => Some("apos"),
            _ => None,
        };
        match (named, r.below(3)) {
            (Some(name), 0) => o.push_str(&format!("&{};", name)),
            (_, 1) => o.push_str(&format!("&#x{:X};", c as u32)),
            (_, 2) => o.push_str(&format!("&#{};", c as u32)),
            (None, _) => o.push_str(&format!("&#x{:x};", c as u32)),
            _ => unreachable!(),
        }
    } else {
        o.push(c);
    }
}

/// Canonical form of character data: it is trimmed when it is read.
fn push_text(out: &mut Vec<C>, t: &str) {
    if let Some(C::Text(last)) = out.last_mut() {
        last.push_str(t);
    } else {
        out.push(C::Text(t.to_string()));
    }
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

/// Line ends as a reader may report them.
fn line_ends(t: &str) -> String {
    t.replace("\r\n", "\n").replace('\r', "\n")
}

fn tidy(items: Vec<C>) -> Vec<C> {
    let mut out: Vec<C> = vec![];
    for i in items {
        match i {
            C::Text(t) => push_text(&mut out, &t),
            C::Comment(t) => out.push(C::Comment(line_ends(&t))),
            C::CData(t) => out.push(C::CData(line_ends(&t))),
            C::Pi(n, t) => out.push(C::Pi(n, line_ends(&t))),
            x => out.push(x),
        }
    }
    out.into_iter()
        .filter_map(|i| match i {
            C::Text(t) => {
                let t = line_ends(&t);
                let t = t.trim_matches(is_ws);
                if t.is_empty() {
                    None
                } else {
                    Some(C::Text(t.to_string()))
                }
            }
            x => Some(x),
        })
        .collect()
}

fn canon_value(v: &str) -> String {
    let v: String = line_ends(v).chars().map(|c| if is_ws(c) { ' ' } else { c }).collect();
    v.trim_matches(' ').to_string()
}

/// The text of a document in one of its many forms.
pub fn render(toks: &[Tok], style: u64) -> Rendered {
    let mut r = Rng::new(style);
    let plain = style == 0;
    let mut o = Rendered::default();
    let mut b = String::new();
    let mut stack: Vec<String> = vec![];
    let mut root = false;
    let mut i = 0;
    let mut toks: Vec<Tok> = toks.to_vec();
    let mark = !plain && r.chance(1, 10);
    if !toks.iter().any(|t| matches!(t, Tok::Open(..))) {
        toks.push(Tok::Open("r".into(), vec![]));
    }
    let opens = toks.iter().filter(|t| matches!(t, Tok::Open(..))).count() + 1;
    toks.extend(std::iter::repeat_n(Tok::Close, opens));
    while i < toks.len() {
        let outside = stack.is_empty();
        match &toks[i] {
            Tok::Decl(v, e, s) => {
                if b.is_empty() {
                    let q = if !plain && r.chance(1, 2) { '\'' } else { '"' };
                    b.push_str("<?xml");
                    let gap = if plain { " ".to_string() } else { ws(&mut r, 1) };
                    let eq = |r: &mut Rng| match r.below(12) {
                        0 if !plain => " = ",
                        1 if !plain => "=\n",
                        _ => "=",
                    };
                    b.push_str(&format!("{}version{}{q}{}{q}", gap, eq(&mut r), v));
                    if let Some(e) = e {
                        let gap = if plain { " ".to_string() } else { ws(&mut r, 1) };
                        b.push_str(&format!("{}encoding{}{q}{}{q}", gap, eq(&mut r), e));
                    }
                    if let Some(s) = s {
                        let gap = if plain { " ".to_string() } else { ws(&mut r, 1) };
                        b.push_str(&format!("{}standalone{}{q}{}{q}", gap, eq(&mut r), if *s { "yes" } else { "no" }));
                    }
                    if !plain && r.chance(1, 4) {
                        b.push(' ');
                    }
                    b.push_str("?>");
                    o.spots.push(Spot::Decl(0, b.len()));
                    o.decl = Some((v.clone(), e.clone(), *s));
                }
            }
            Tok::Open(name, attrs) => {
                if !(outside && root) {
                    root = true;
                    let from = b.len();
                    b.push('<');
                    b.push_str(name);
                    let mut says = BTreeMap::new();
                    let mut order: Vec<&(String, String)> = attrs.iter().collect();
                    if !plain && r.chance(1, 2) {
                        order.reverse();
                    }
                    for (an, av) in order {
                        if says.contains_key(an) {
                            continue;
                        }
                        b.push_str(&if plain { " ".to_string() } else { ws(&mut r, 1) });
                        let q = if !plain && r.chance(1, 2) { '\'' } else { '"' };
                        let attr = b.len();
                        b.push_str(an);
                        if !plain && r.chance(1, 8) {
                            b.push(' ');
                        }
                        b.push('=');
                        if !plain && r.chance(1, 8) {
                            b.push('\n');
                        }
                        b.push(q);
                        for c in av.chars() {
                            put(&mut r, c, Some(q), plain, false, &mut b);
                        }
                        b.push(q);
                        o.spots.push(Spot::Attribute(attr, b.len()));
                        says.insert(an.clone(), canon_value(av));
                    }
                    let more = b.len();
                    if !plain {
                        b.push_str(&ws(&mut r, 0));
                    }
                    o.says.push(C::Open(name.clone(), says));
                    let empty = toks.get(i + 1) == Some(&Tok::Close) && (plain || r.chance(1, 2));
                    if empty {
                        b.push_str("/>");
                        o.says.push(C::Close);
                        i += 1;
                        if outside {
                            o.root_end = b.len();
                        }
                    } else {
                        b.push('>');
                        stack.push(name.clone());
                    }
                    o.spots.push(Spot::Start(from, b.len(), empty, more));
                }
            }
            Tok::Close => {
                if let Some(name) = stack.pop() {
                    let from = b.len();
                    b.push_str("</");
                    b.push_str(&name);
                    if !plain {
                        b.push_str(&ws(&mut r, 0));
                    }
                    b.push('>');
                    o.spots.push(Spot::End(from, b.len()));
                    o.says.push(C::Close);
                    if stack.is_empty() {
                        o.root_end = b.len();
                    }
                }
            }
            Tok::Text(t) => {
                if !outside {
                    for c in t.chars() {
                        let after_brackets = b.ends_with("]]");
                        put(&mut r, c, None, plain, after_brackets, &mut b);
                    }
                    o.says.push(C::Text(t.clone()));
                }
            }
            Tok::Comment(t) => {
                b.push_str(&format!("<!--{}-->", t));
                o.says.push(C::Comment(t.clone()));
            }
            Tok::CData(t) => {
                if !outside {
                    b.push_str(&format!("<![CDATA[{}]]>", t));
                    o.says.push(C::CData(t.clone()));
                }
            }
            Tok::Pi(t, d) => {
                b.push_str("<?");
                b.push_str(t);
                if let Some(d) = d {
                    b.push_str(&if plain { " ".to_string() } else { ws(&mut r, 1) });
                    b.push_str(d);
                }
                b.push_str("?>");
                o.says.push(C::Pi(t.clone(), d.clone().unwrap_or_default()));
            }
            Tok::Fill { kind, unit, off, of } => {
                let (open, close) = match kind {
                    1 => ("<!--", "-->"),
                    2 => ("<![CDATA[", "]]>"),
                    3 => ("<?fill ", "?>"),
                    4 => ("<f k=\"", "\"/>"),
                    _ => ("", ""),
                };
                if !outside || matches!(kind, 1 | 3) {
                    // the content ends there, or the markup around it
                    let tail = if of % 2 == 0 { close.len() } else { 0 };
                    let now = if mark { b.len() + 3 } else { b.len() };
                    let least = now + open.len() + tail + 5;
                    let end = (least / *unit as usize + 1) * *unit as usize;
                    let end = (end as i64 + *off as i64) as usize;
                    let len = end - now - open.len() - tail;
                    b.push_str(open);
                    if *kind == 5 {
                        // indentation
                        let t = " ".repeat(len - 1) + "\n";
                        b.push_str(&t);
                        o.says.push(C::Text(t));
                    } else {
                        let t = filling(len, *of);
                        b.push_str(&t);
                        match kind {
                            0 => o.says.push(C::Text(t)),
                            1 => o.says.push(C::Comment(t)),
                            2 => o.says.push(C::CData(t)),
                            3 => o.says.push(C::Pi("fill".into(), t)),
                            _ => {
                                o.says.push(C::Open("f".into(), [("k".to_string(), canon_value(&t))].into()));
                                o.says.push(C::Close);
                            }
                        }
                    }
                    b.push_str(close);
                }
            }
            Tok::Space => {
                if !b.is_empty() {
                    // next to text it is part of it
                    let solid = |t: &&Tok| **t != Tok::Space;
                    let near = [toks[..i].iter().rev().find(solid), toks[i + 1..].iter().find(solid)];
                    let in_text = near.iter().any(|t| matches!(t, Some(Tok::Text(_))));
                    let w = if plain || in_text { "\n ".to_string() } else { ws(&mut r, 1) };
                    for c in w.chars() {
                        b.push(c);
                        if root && outside {
                            o.cuts.push((b.len(), o.says.len()));
                        }
                    }
                    o.says.push(C::Text(w));
                }
            }
        }
        if root && stack.is_empty() && o.root_end > 0 {
            o.cuts.push((b.len(), o.says.len()));
        }
        o.bounds.push(b.len());
        o.spots.push(if stack.is_empty() { Spot::Outside(b.len()) } else { Spot::Inside(b.len()) });
        i += 1;
    }
    o.spots.push(Spot::Outside(0));
    o.bytes = b.into_bytes();
    if mark {
        o.bytes.splice(0..0, *b"\xef\xbb\xbf");
        o.root_end += 3;
        o.bounds.iter_mut().for_each(|x| *x += 3);
        o.cuts.iter_mut().for_each(|x| x.0 += 3);
        o.spots.iter_mut().for_each(|x| x.shift(3));
    }
    o
}

// ------------------------------------------------------------------------------------ what is read

pub fn unescape(v: &str) -> String {
    v.replace("&#60;", "<").replace("&#62;", ">").replace("&#34;", "\"").replace("&#39;", "'").replace("&#38;", "&")
}

fn canon_real(r: &RefNode, out: &mut Vec<C>) {
    match r.node_type() {
        NodeType::Element => {
            let attrs = r
                .attributes()
                .values()
                .map(|a| (a.node_name().to_string(), canon_value(&unescape(&a.value().unwrap_or_default()))))
                .collect();
            out.push(C::Open(r.node_name().to_string(), attrs));
            for c in r.child_nodes() {
                canon_real(&c, out);
            }
            out.push(C::Close);
        }
        NodeType::Document => {
            for c in r.child_nodes() {
                canon_real(&c, out);
            }
        }
        NodeType::Text => out.push(C::Text(r.node_value().unwrap_or_default())),
        NodeType::CData => out.push(C::CData(r.node_value().unwrap_or_default())),
        NodeType::Comment => out.push(C::Comment(r.node_value().unwrap_or_default())),
        NodeType::ProcessingInstruction => {
            out.push(C::Pi(r.node_name().to_string(), r.node_value().unwrap_or_default()))
        }
        t => out.push(C::Pi(format!("{:?}", t), "unexpected".into())),
    }
}

fn canon_items(items: &[Item]) -> Vec<C> {
    items
        .iter()
        .map(|i| match i {
            Item::Open(q, a) => {
                C::Open(q.clone(), a.iter().map(|(k, v)| (k.clone(), canon_value(&unescape(v)))).collect())
            }
            Item::Close(_) => C::Close,
            Item::Text(t) => C::Text(unescape(t)),
            Item::Comment(t) => C::Comment(unescape(t)),
            Item::CData(t) => C::CData(t.clone()),
            Item::Pi(q, d) => C::Pi(q.clone(), d.clone().unwrap_or_default()),
            Item::EntityRef(q) => C::Pi(q.clone(), "reference".into()),
        })
        .collect()
}

/// After a save, padding of CDATA sections and in front of the data of instructions cannot be told
/// apart, and neither can sections that follow each other.
fn loosely(v: Vec<C>) -> Vec<C> {
    let mut out: Vec<C> = vec![];
    for c in v {
        let c = match c {
            C::CData(t) => C::CData(t.trim_matches(is_ws).to_string()),
            C::Pi(t, d) => C::Pi(t, d.trim_start_matches(is_ws).to_string()),
            c => c,
        };
        match (out.last_mut(), &c) {
            (Some(C::CData(last)), C::CData(t)) => last.push_str(t),
            _ => out.push(c),
        }
    }
    out
}

/// What cannot be found in a document, although the text has it.
fn unfound(d: &RefNode, want: &[C]) -> Option<String> {
    let mut ids: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    let mut elements = 0;
    for c in want {
        if let C::Open(name, attrs) = c {
            elements += 1;
            if let Some(id) = attrs.get("xml:id") {
                ids.entry(id).or_default().push(name);
            }
        }
    }
    for (id, names) in ids {
        let found = d.get_element_by_id(id).map(|e| (e.node_name().to_string(), e.get_attribute("xml:id")));
        match found {
            Some((n, Some(_))) if names.contains(&n.as_str()) => (),
            f => return Some(format!("looking for the id {:?} gave {:?}, expected one of {:?}", id, f, names)),
        }
    }
    // each block of text is in one node
    let mut todo = vec![d.clone()];
    while let Some(p) = todo.pop() {
        let list = p.child_nodes();
        let text = |n: &RefNode| n.node_type() == NodeType::Text;
        if list.windows(2).any(|w| text(&w[0]) && text(&w[1])) || list.iter().any(|n| text(n) && n.node_value().unwrap_or_default().is_empty()) {
            return Some(format!("the text below {} is in pieces", p.node_name()));
        }
        todo.extend(list);
    }
    let all = Document::get_elements_by_tag_name(d, "*").len();
    (all != elements).then(|| format!("{} elements are found, expected {}", all, elements))
}

/// Everything that can be wrong with a tree that was read, judged by the tree alone.
fn defect(d: &RefNode) -> Option<String> {
    if !is_document(d) {
        return Some("the result is not a document".into());
    }
    let roots = d.child_nodes().iter().filter(|c| is_element(c)).count();
    if roots != 1 {
        return Some(format!("{} root elements", roots));
    }
    if d.document_element().as_ref() != d.child_nodes().iter().find(|c| is_element(c)) {
        return Some("document_element is not the root".into());
    }
    if d.parent_node().is_some() || d.owner_document().is_some() {
        return Some("the document has a parent or owner".into());
    }
    let mut todo = vec![d.clone()];
    while let Some(p) = todo.pop() {
        let list = p.child_nodes();
        for (i, c) in list.iter().enumerate() {
            if c.parent_node().as_ref() != Some(&p) || c.owner_document().as_ref() != Some(d) {
                return Some("parent or owner document of a node".into());
            }
            if c.previous_sibling().as_ref() != i.checked_sub(1).map(|j| &list[j])
                || c.next_sibling().as_ref() != list.get(i + 1)
            {
                return Some("siblings of a node".into());
            }
            let legal = match c.node_type() {
                NodeType::Element | NodeType::Comment | NodeType::ProcessingInstruction => true,
                NodeType::Text | NodeType::CData => !is_document(&p),
                _ => false,
            };
            if !legal || !(is_element(&p) || is_document(&p)) {
                return Some(format!("{:?} below {:?}", c.node_type(), p.node_type()));
            }
            todo.push(c.clone());
        }
        if p.first_child().as_ref() != list.first() || p.last_child().as_ref() != list.last() {
            return Some("first or last child".into());
        }
        let attrs = p.attributes();
        let names: BTreeSet<String> = attrs.values().map(|a| a.node_name().to_string()).collect();
        if names.len() != attrs.len() {
            return Some("two attributes of one name".into());
        }
        for a in attrs.values() {
            if a.owner_element().as_ref() != Some(&p) || a.owner_document().as_ref() != Some(d) {
                return Some("owner of an attribute".into());
            }
            let q = a.node_name().to_string();
            if p.get_attribute_node(&q).as_ref() != Some(a) || p.get_attribute(&q) != a.value() || a.node_value() != a.value() {
                return Some(format!("attribute {} is not found", q));
            }
            for t in a.child_nodes() {
                if t.node_type() != NodeType::Text || t.parent_node().as_ref() != Some(a) {
                    return Some("text of an attribute".into());
                }
            }
        }
    }
    None
}

// -------------------------------------------------------------------------------------- deliveries

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    /// Sizes of the pieces that arrive, used in turn; none is everything at once.
    pub sizes: Vec<u32>,
    /// Before every so many-th piece the source is interrupted this often.
    pub interrupts: Vec<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Failure {
    None,
    Error(ErrorKind),
    Unwind,
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::Other,
    ErrorKind::NotConnected,
    ErrorKind::OutOfMemory,
    ErrorKind::WriteZero,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::ConnectionAborted,
    ErrorKind::AlreadyExists,
];

#[derive(Default, Clone)]
struct Seen {
    calls: u64,
    consumed: usize,
    interrupted: u64,
    pieces: u64,
    failed: bool,
    after: u64,
    overrun: bool,
}

struct SimReader<'a> {
    data: &'a [u8],
    plan: &'a Plan,
    fail_at: usize,
    failure: Failure,
    sticky: bool,
    pos: usize,
    end: usize,
    piece: usize,
    pending: u32,
    seen: &'a std::cell::RefCell<Seen>,
}

impl<'a> SimReader<'a> {
    fn new(data: &'a [u8], plan: &'a Plan, fail_at: usize, failure: Failure, sticky: bool, seen: &'a std::cell::RefCell<Seen>) -> Self {
        let pending = plan.interrupts.first().copied().unwrap_or(0);
        SimReader { data, plan, fail_at, failure, sticky, pos: 0, end: 0, piece: 0, pending, seen }
    }
}

impl std::io::Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let k = {
            let b = self.fill_buf()?;
            let k = b.len().min(buf.len());
            buf[..k].copy_from_slice(&b[..k]);
            k
        };
        self.consume(k);
        Ok(k)
    }
}

impl BufRead for SimReader<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let mut seen = self.seen.borrow_mut();
        seen.calls += 1;
        if seen.failed {
            seen.after += 1;
        }
        if self.pos < self.end {
            return Ok(&self.data[self.pos..self.end]);
        }
        if self.pending > 0 {
            self.pending -= 1;
            seen.interrupted += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.failure != Failure::None && self.pos >= self.fail_at && (!seen.failed || self.sticky) {
            seen.failed = true;
            match self.failure {
                Failure::Error(k) => return Err(k.into()),
                _ => {
                    drop(seen);
                    std::panic::panic_any(SimUnwind)
                }
            }
        }
        let limit = if self.failure != Failure::None && !seen.failed { self.fail_at } else { self.data.len() };
        let size = if self.plan.sizes.is_empty() {
            usize::MAX
        } else {
            self.plan.sizes[self.piece % self.plan.sizes.len()].max(1) as usize
        };
        self.end = self.pos.saturating_add(size).min(limit).min(self.data.len());
        if self.pos < self.end {
            seen.pieces += 1;
            self.piece += 1;
            if !self.plan.interrupts.is_empty() {
                self.pending = self.plan.interrupts[self.piece % self.plan.interrupts.len()];
            }
        }
        Ok(&self.data[self.pos..self.end])
    }
    fn consume(&mut self, amt: usize) {
        let mut seen = self.seen.borrow_mut();
        if self.pos + amt > self.end {
            seen.overrun = true;
        }
        self.pos = (self.pos + amt).min(self.end);
        seen.consumed = self.pos;
    }
}

// ------------------------------------------------------------------------------------------- cases

#[derive(Clone, Debug, PartialEq)]
pub struct Damage {
    pub kind: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

const FRAGMENTS: &[&[u8]] = &[
    b"<", b">", b"&", b"\"", b"'", b"/", b"=", b"</a>", b"<a>", b"<a/>", b"<!--", b"-->", b"--", b"<![CDATA[", b"]]>",
    b"<?", b"?>", b"<?xml version=\"1.0\"?>", b"<?xml version='9'?>", b"<?xml?>", b"<?xml version=\"1.0\" encoding=\"a b\"?>",
    b"<!DOCTYPE a>", b"<!DOCTYPE a [<!ENTITY e \"x\">]>", b"<!", b"<!>", b"&#0;", b"&#x110000;", b"&#xD800;", b"&#99999999999;",
    b"&e;", b"&#;", b"&#x;", b"&;", b"&amp", b"%e;", b"\0", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xef\xbf\xbe",
    b"\r\n", b"\r", b" k=\"v\"", b" k=v", b" k", b" k=\"", b" =\"v\"", b" k=\"a\" k=\"b\"", b" xml:id=\"i0\"", b"<:a/>", b"<a:/>",
    b"<a:b:c/>", b"<1/>", b"< a/>", b"</", b"</ a>", b"<a", b"<?xml", b"<?XML x?>", b"<??>", b"<? ?>", b"<!-->", b"<!--->",
    b"text", b"   ", b"<b>t</b>", b" xmlns=\"\"", b" xmlns:=\"u\"", b" k='&lt;'", b" k=\"<\"", b" k=\"&\"", b" k=\"&#0;\"",
    b" k=\"&nope;\"", b" \xe5=\"1\"", b"<\xe5\x90\x8d/>", b"standalone=\"maybe\"", b"encoding=\"\"", b"version=\"\"",
];

fn harm(bytes: &mut Vec<u8>, damage: &[Damage], names: &mut Vec<&'static str>) {
    for d in damage {
        let len = bytes.len();
        if len == 0 {
            return;
        }
        let (x, y) = (d.a as usize % len, d.b as usize % len);
        let (lo, hi) = (x.min(y), x.max(y));
        match d.kind % 9 {
            0 => {
                bytes[x] ^= 1 << (d.c % 8);
                names.push("bit_flip");
            }
            1 => {
                bytes[x] = d.c as u8;
                names.push("byte_overwritten");
            }
            2 => {
                let hi = (lo + 1 + d.c as usize % 16).min(len);
                bytes.drain(lo..hi);
                names.push("block_lost");
            }
            3 => {
                let hi = (lo + 1 + d.c as usize % 24).min(len);
                let block = bytes[lo..hi].to_vec();
                let at = y;
                bytes.splice(at..at, block);
                names.push("block_duplicated");
            }
            4 => {
                let w = 1 + d.c as usize % 12;
                if hi + w <= len && lo + w <= hi {
                    for i in 0..w {
                        bytes.swap(lo + i, hi + i);
                    }
                }
                names.push("blocks_swapped");
            }
            5 | 6 => {
                let f = FRAGMENTS[d.c as usize % FRAGMENTS.len()];
                bytes.splice(x..x, f.iter().copied());
                names.push("bytes_inserted");
            }
            7 => {
                let f = FRAGMENTS[d.c as usize % FRAGMENTS.len()];
                let hi = (x + f.len()).min(len);
                bytes.splice(x..hi, f.iter().copied());
                names.push("block_overwritten");
            }
            _ => {
                bytes.truncate(x);
                names.push("truncated");
            }
        }
    }
}

const OUTSIDE: &[(&str, &str)] = &[
    ("text_outside_root", "t"),
    ("text_outside_root", "]]>"),
    ("text_outside_root", "é"),
    ("text_outside_root", "&#65;"),
    ("text_outside_root", "&amp;"),
    ("text_outside_root", "> "),
    ("cdata_outside_root", "<![CDATA[t]]>"),
    ("cdata_outside_root", "<![CDATA[]]>"),
    ("second_root", "<z/>"),
    ("second_root", "<z></z>"),
    ("second_root", "<z k=\"v\">t</z>"),
    ("end_without_start", "</z>"),
];
const ANYWHERE: &[(&str, &str)] = &[
    ("late_declaration", "<?xml version=\"1.0\"?>"),
    ("late_declaration", "<?xml version='1.0' encoding='UTF-8'?>"),
    ("late_declaration", "<?xml version='1.1' standalone='yes'?>"),
    ("hyphens_in_comment", "<!-- a -- b -->"),
    ("hyphens_in_comment", "<!-- a --->"),
    ("hyphens_in_comment", "<!------>"),
    ("hyphens_in_comment", "<!--a----b-->"),
    ("bad_instruction", "<?XML x?>"),
    ("bad_instruction", "<?Xml?>"),
    ("bad_instruction", "<?xml x?>"),
    ("bad_instruction", "<??>"),
    ("bad_instruction", "<? ?>"),
    ("bad_instruction", "<? pi?>"),
    ("bad_instruction", "<?1 x?>"),
    ("bad_instruction", "<?-a?>"),
    ("bad_declaration_markup", "<!x>"),
    ("bad_declaration_markup", "<!>"),
    ("bad_declaration_markup", "<!ELEMENT a ANY>"),
    ("bad_declaration_markup", "<!ENTITY e 'x'>"),
    ("bad_declaration_markup", "<!-x-->"),
    ("bad_declaration_markup", "<![CDAT[x]]>"),
    ("illegal_name", "</>"),
    ("illegal_name", "<>"),
    ("illegal_name", "</ >"),
    ("end_without_start", "</z9z>"),
];
const INSIDE: &[(&str, &str)] = &[
    ("illegal_name", "<1/>"),
    ("illegal_name", "< a/>"),
    ("illegal_name", "<-a></-a>"),
    ("illegal_name", "<a:b:c/>"),
    ("illegal_name", "<:a/>"),
    ("illegal_name", "<a:/>"),
    ("illegal_name", "<a!/>"),
    ("illegal_name", "<×/>"),
    ("illegal_name", "<a&b/>"),
    ("cdata_end_in_text", "]]>"),
    ("cdata_end_in_text", "a]]]>b"),
    ("cdata_end_in_text", "<a/>]]><a/>"),
    ("cdata_end_in_text", "]]>]]&gt;"),
    ("bad_reference", "&nope;"),
    ("bad_reference", "&AMP;"),
    ("bad_reference", "& "),
    ("bad_reference", "&;"),
    ("bad_reference", "&#;"),
    ("bad_reference", "&#x;"),
    ("bad_reference", "&#0;"),
    ("bad_reference", "&#x0;"),
    ("bad_reference", "&#xD800;"),
    ("bad_reference", "&#57343;"),
    ("bad_reference", "&#x110000;"),
    ("bad_reference", "&#99999999999;"),
    ("bad_reference", "&#12a;"),
    ("bad_reference", "&#xg;"),
    ("bad_reference", "&#X41;"),
    ("bad_reference", "&lt "),
    ("start_without_end", "<z9z>"),
    ("start_without_end", "<z9z k='v'>"),
    ("bad_attribute", "<z9z k/>"),
];
const ATTRIBUTES: &[(&str, &str)] = &[
    ("attribute_twice", " q9z='1' q9z='1'"),
    ("attribute_twice", " x:q9z='1' k9z='' x:q9z=\"2\""),
    ("bad_attribute", " q9z"),
    ("bad_attribute", " q9z=v"),
    ("bad_attribute", " q9z="),
    ("bad_attribute", " q9z=/"),
    ("bad_attribute", " q9z\"v\""),
    ("bad_attribute", " \"v\""),
    ("bad_attribute", " ='v'"),
    ("bad_attribute", " q9z='a<b'"),
    ("bad_attribute", " q9z=\"<\""),
    ("bad_attribute", " q9z=''r9z=''"),
    ("bad_attribute", " q9z='v'r9z=\"w\""),
    ("bad_attribute", " q9z='v'/r9z='w'"),
    ("bad_attribute", " q9z='v' , r9z='w'"),
    ("bad_attribute", " /"),
    ("bad_attribute", " q9z=='v'"),
    ("illegal_name", " 1='v'"),
    ("illegal_name", " -q='v'"),
    ("illegal_name", " a:b:c='v'"),
    ("illegal_name", " :q='v'"),
    ("illegal_name", " q:='v'"),
    ("illegal_name", " q&z='v'"),
    ("bad_reference", " q9z='&nope;'"),
    ("bad_reference", " q9z='a&b'"),
    ("bad_reference", " q9z='&'"),
    ("bad_reference", " q9z=\"&#0;\""),
    ("bad_reference", " q9z=\"&#xDFFF;\""),
    ("bad_reference", " q9z=\"&amp\""),
    ("bad_reference", " q9z=\"&#;\""),
];
const DECLS: &[&str] = &[
    "<?xml?>",
    "<?xml ?>",
    "<?xml version?>",
    "<?xml version=1.0?>",
    "<?xml version=\"1.0?>",
    "<?xml version='1.0\"?>",
    "<?xml version='2.0'?>",
    "<?xml version='1'?>",
    "<?xml version='1.00'?>",
    "<?xml version=' 1.0'?>",
    "<?xml version=''?>",
    "<?xml encoding='UTF-8'?>",
    "<?xml standalone='yes'?>",
    "<?xml version='1.0' encoding=''?>",
    "<?xml version='1.0' encoding='a b'?>",
    "<?xml version='1.0' encoding='1x'?>",
    "<?xml version='1.0' encoding='é'?>",
    "<?xml version='1.0' standalone='maybe'?>",
    "<?xml version='1.0' standalone=''?>",
    "<?xml version='1.0' standalone='YES'?>",
    "<?XML version='1.0'?>",
    "<?xml version='1.0 '?>",
    "<?xml version='1.1\n'?>",
    "<?xml version='v1.0'?>",
    "<?xml version='1,0'?>",
    "<?xml version=\"'1.0'\"?>",
    "<?xml version='1.0' encoding=' UTF-8'?>",
    "<?xml version='1.0' encoding='UTF-8 '?>",
    "<?xml version='1.0' encoding='UTF:8'?>",
    "<?xml version='1.0' encoding='_x'?>",
    "<?xml version='1.0' encoding='.x'?>",
    "<?xml version='1.0' encoding='-x'?>",
    "<?xml version='1.1' encoding='a/b'?>",
    "<?xml version='1.0' encoding='UTF-8' standalone='No'?>",
    "<?xml version='1.0' standalone=' yes'?>",
    "<?xml version='1.0' standalone='no '?>",
    "<?xml version='1.0' standalone='true'?>",
    "<?xml version='1.0' standalone='1'?>",
    "<?xml version='1.0' version='1.0'?>",
    "<?xml version='1.0' standalone='yes' standalone='yes'?>",
    "<?xml version='1.0' encoding='x' encoding='x'?>",
    "<?xml version='1.0' standalone='yes' encoding='UTF-8'?>",
    "<?xml encoding='UTF-8' version='1.0'?>",
    "<?xml version='1.0' foo='1'?>",
    "<?xml Version='1.0'?>",
    "<?xml version='1.0' Encoding='UTF-8'?>",
    "<?xml version='1.0'encoding='UTF-8'?>",
    "<?xml version='1.0' encoding='UTF-8'standalone='yes'?>",
    "<?xml version='1.0' encoding=UTF-8?>",
    "<?xml version='1.0' yes?>",
    "<?xml version='1.0'/?>",
    "<?xml version='1.0'??>",
];
const ENDS: &[&str] = &["<!--", "<!-- x", "<!-- x --", "<![CDATA[x", "<?pi x", "<?pi x?", "<a", "</a", "<", "<a k='v'", "<a k='v", "<!"];

/// Damage after which the text is not well-formed, whatever else it says.
fn break_up(d: &Rendered, x: &Damage) -> Option<(&'static str, Vec<u8>)> {
    let mut b = d.bytes.clone();
    let mut put = |at: usize, to: usize, what: &[u8]| {
        b.splice(at..to, what.iter().copied());
    };
    fn pick<'a, T>(v: &'a [T], k: u32) -> Option<&'a T> {
        v.get(k as usize % v.len().max(1))
    }
    let start = d.spots.iter().map(|s| matches!(s, Spot::Outside(0))).any(|b| b);
    let first = if start { 0 } else { 3 };
    let outside: Vec<usize> = d.spots.iter().filter_map(|s| if let Spot::Outside(a) = s { Some(*a) } else { None }).collect();
    let inside: Vec<usize> = d.spots.iter().filter_map(|s| if let Spot::Inside(a) = s { Some(*a) } else { None }).collect();
    let starts: Vec<&Spot> = d.spots.iter().filter(|s| matches!(s, Spot::Start(..))).collect();
    let ends: Vec<(usize, usize)> = d.spots.iter().filter_map(|s| if let Spot::End(a, b) = s { Some((*a, *b)) } else { None }).collect();
    let attrs: Vec<(usize, usize)> =
        d.spots.iter().filter_map(|s| if let Spot::Attribute(a, b) = s { Some((*a, *b)) } else { None }).collect();
    let decl = d.spots.iter().find_map(|s| if let Spot::Decl(a, b) = s { Some((*a, *b)) } else { None });
    let name = match x.kind % 16 {
        0 | 1 => {
            let at = *pick(&outside, x.a)?;
            let (name, what) = pick(OUTSIDE, x.b)?;
            put(at, at, what.as_bytes());
            name
        }
        2 | 3 => {
            let at = *pick(&inside, x.a)?;
            let (name, what) = pick(INSIDE, x.b)?;
            put(at, at, what.as_bytes());
            name
        }
        4 | 5 => {
            let at = *pick(if x.c % 2 == 0 { &inside } else { &outside }, x.a)?;
            let (name, what) = pick(ANYWHERE, x.b)?;
            if *name == "late_declaration" && at == first && decl.is_none() {
                // that is where it belongs
                return None;
            }
            put(at, at, what.as_bytes());
            name
        }
        6 | 7 => match pick(&starts, x.a)? {
            Spot::Start(_, _, _, more) => {
                let (name, what) = pick(ATTRIBUTES, x.b)?;
                put(*more, *more, what.as_bytes());
                name
            }
            _ => return None,
        },
        8 => {
            let (from, to) = *pick(&ends, x.a)?;
            put(from, to, b"");
            "end_tag_lost"
        }
        9 => match pick(&starts, x.a)? {
            Spot::Start(from, to, false, _) => {
                put(*from, *to, b"");
                "start_tag_lost"
            }
            _ => return None,
        },
        10 => {
            let (from, to) = *pick(&ends, x.a)?;
            if x.b % 3 == 0 {
                put(to, to, &d.bytes[from..to]);
                "end_tag_doubled"
            } else if x.b % 3 == 1 {
                let mut tag = d.bytes[from..to].to_vec();
                let c = tag.iter_mut().find(|c| c.is_ascii_alphabetic())?;
                *c ^= 0x20;
                put(from, to, &tag);
                "end_tag_of_another"
            } else {
                put(from + 2, from + 2, b"z");
                "end_tag_of_another"
            }
        }
        11 => {
            let (a, b) = (*pick(&ends, x.a)?, *pick(&ends, x.b)?);
            let text = |x: (usize, usize)| String::from_utf8_lossy(&d.bytes[x.0 + 2..x.1 - 1]).trim().to_string();
            if text(a) == text(b) {
                return None;
            }
            put(a.0, a.1, &d.bytes[b.0..b.1]);
            "end_tag_of_another"
        }
        12 => {
            let (from, to) = *pick(&attrs, x.a)?;
            let again = [b" ", &d.bytes[from..to]].concat();
            put(to, to, &again);
            "attribute_twice"
        }
        13 => {
            let what = pick(DECLS, x.b)?;
            let (from, to) = decl.unwrap_or((first, first));
            put(from, to, what.as_bytes());
            "bad_declaration"
        }
        14 => {
            let end = d.bytes.len();
            put(end, end, pick(ENDS, x.b)?.as_bytes());
            "markup_cut_short"
        }
        _ => {
            let from = match starts.iter().map(|s| if let Spot::Start(a, ..) = s { *a } else { 0 }).min() {
                Some(a) => a,
                None => return None,
            };
            put(from, d.root_end, b"");
            "no_root"
        }
    };
    Some((name, b))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub hash_seed: u64,
    pub log: u32,
    pub toks: Vec<Tok>,
    pub style: u64,
    pub plans: Vec<Plan>,
    pub damage: Vec<Damage>,
    /// Where the input or the storage ends, or fails.
    pub cut: u32,
    pub at_bound: bool,
    pub failure: u32,
    pub sticky: bool,
    pub dom: Option<Dom>,
}

fn some_plan(r: &mut Rng) -> Plan {
    let sizes = match r.below(7) {
        6 => vec![[512, 1024, 4096, 8192][r.below(4) as usize]],
        0 => vec![],
        1 => vec![1],
        2 => vec![1 + r.below(4) as u32],
        3 => (0..1 + r.below(5)).map(|_| 1 + r.below(7) as u32).collect(),
        4 => (0..1 + r.below(6)).map(|_| 1 + r.below(40) as u32).collect(),
        _ => vec![1 + r.below(600) as u32, 1],
    };
    let interrupts = if r.chance(1, 2) { vec![] } else { (0..1 + r.below(5)).map(|_| r.below(3) as u32).collect() };
    Plan { sizes, interrupts }
}

pub fn generate(prop: &str, r: &mut Rng, thorough: bool) -> Case {
    let dom = if prop == "P05" { Some(dom_trial(prop, r, thorough)) } else { None };
    let toks = if dom.is_some() { vec![] } else { gen_doc(r, thorough) };
    let harmed = prop == "P04" || prop == "P07" || (matches!(prop, "P01" | "P02") && r.chance(1, 3));
    let damage = if harmed {
        let k = 1 + if prop == "P07" || r.chance(1, 2) { 0 } else { r.below(5) };
        (0..k).map(|_| Damage { kind: r.u32(), a: r.u32(), b: r.u32(), c: r.u32() }).collect()
    } else {
        vec![]
    };
    let plans = (0..if prop == "P01" { 4 } else { 2 }).map(|_| some_plan(r)).collect();
    Case {
        prop: prop.to_string(),
        hash_seed: r.next(),
        log: r.below(5) as u32,
        toks,
        style: if r.chance(1, 4) { 0 } else { r.next() },
        plans,
        damage,
        cut: r.u32(),
        at_bound: r.chance(1, 2),
        failure: r.u32(),
        sticky: r.chance(1, 2),
        dom,
    }
}

// --------------------------------------------------------------------------------------- execution

enum Got {
    Doc(RefNode),
    Err(String),
    Unwound,
    Panicked(String),
}

impl Got {
    fn short(&self) -> String {
        match self {
            Got::Doc(_) => "a document".into(),
            Got::Err(e) => format!("an error ({})", e),
            Got::Unwound => "an unwind".into(),
            Got::Panicked(p) => format!("a panic ({})", p),
        }
    }
}

struct Sim {
    report: Report,
    trace: Fnv,
    step: usize,
}

impl Sim {
    fn fail(&mut self, tags: &[&'static str], msg: String) {
        if self.report.viol.is_none() {
            self.report.viol = Some(Violation { tags: tags.iter().copied().collect(), step: self.step, msg });
        }
    }
    fn fault(&mut self, name: &'static str, k: u64) {
        if k > 0 {
            *self.report.stats.faults.entry(name).or_insert(0) += k;
        }
    }
    fn probe(&mut self, name: &'static str) {
        *self.report.stats.probes.entry(name).or_insert(0) += 1;
    }
    fn read(&mut self, data: &[u8], plan: &Plan, fail_at: usize, failure: Failure, sticky: bool) -> (Got, Seen) {
        self.step += 1;
        let seen = std::cell::RefCell::new(Seen::default());
        let out = catch(|| read_reader(SimReader::new(data, plan, fail_at, failure, sticky, &seen)));
        let seen = seen.into_inner();
        let got = match out {
            Outcome::Done(Ok(d)) => Got::Doc(d),
            Outcome::Done(Err(e)) => Got::Err(e.to_string()),
            Outcome::Unwound => Got::Unwound,
            Outcome::Panicked(p) => Got::Panicked(p),
        };
        self.report.stats.steps += seen.calls;
        self.fault("delivery_interrupted", seen.interrupted);
        self.fault("delivered_in_pieces", (seen.pieces > 1) as u64);
        self.trace.u(seen.calls);
        self.trace.u(seen.consumed as u64);
        self.trace.s(&got.short());
        (got, seen)
    }
    /// A state of the input: what has arrived when something happens to it.
    fn state(&mut self, data: &[u8], x: u64) {
        let mut f = Fnv::new();
        data.iter().for_each(|b| f.u(*b as u64));
        f.u(x);
        self.report.stats.states.insert(f.0);
    }
    fn whole(&mut self, data: &[u8]) -> Got {
        self.read(data, &Plan::default(), 0, Failure::None, false).0
    }
    fn dump(&mut self, d: &RefNode) -> Result2<String> {
        match catch(|| (dump(d), declared(d))) {
            Outcome::Done((x, y)) => {
                let t = format!("{} {:?}", x, y);
                self.trace.s(&t);
                let mut f = Fnv::new();
                f.s(&t);
                self.report.stats.states.insert(f.0);
                Ok(t)
            }
            _ => Err(format!("observing the document panicked: {}", last_panic())),
        }
    }
    /// What the document that was read says.
    fn says(&mut self, d: &RefNode) -> Result2<Vec<C>> {
        self.dump(d)?;
        match catch(|| {
            let mut v = vec![];
            canon_real(d, &mut v);
            v
        }) {
            Outcome::Done(v) => Ok(tidy(v)),
            _ => Err(format!("observing the document panicked: {}", last_panic())),
        }
    }
    /// Later reads are not affected by this one.
    fn read_another(&mut self, tag: &'static str) {
        let text = "<a k='1'>t<b/><!--c--></a>";
        let says = match self.whole(text.as_bytes()) {
            Got::Doc(d) => self.says(&d),
            g => Err(g.short()),
        };
        let want = render(
            &[
                Tok::Open("a".into(), vec![("k".into(), "1".into())]),
                Tok::Text("t".into()),
                Tok::Open("b".into(), vec![]),
                Tok::Close,
                Tok::Comment("c".into()),
            ],
            0,
        );
        if says != Ok(want.says) {
            self.fail(&[tag], format!("the next read of another source gave {:?}", says));
        }
    }
}

type Result2<T> = std::result::Result<T, String>;

fn differ(got: &[C], want: &[C]) -> String {
    let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
    format!("item {} is {:?}, expected {:?}", i, got.get(i), want.get(i))
}

pub fn run(case: &Case) -> Report {
    let c = case.clone();
    in_fresh_thread(case.hash_seed, move || {
        let mode = match c.log {
            0 => LogMode::Render,
            1 => LogMode::Document,
            _ => LogMode::Off,
        };
        set_log_mode(mode);
        let mut sim = Sim { report: Report::default(), trace: Fnv::new(), step: 0 };
        if c.dom.is_some() {
            save_and_read(&mut sim, &c);
        } else {
            read_case(&mut sim, &c);
        }
        if sim.report.viol.is_none() {
            if let Some(e) = check_log_doc() {
                sim.fail(&["P04", "P02"], e);
            }
        }
        set_log_mode(LogMode::Off);
        sim.report.stats.checks = sim.step as u64;
        sim.report.trace = sim.trace.0;
        sim.report
    })
}

fn read_case(sim: &mut Sim, c: &Case) {
    let doc = render(&c.toks, c.style);
    let (bytes, names) = match c.arrives(&doc) {
        Some(x) => x,
        None => return sim.probe("no_place_for_the_damage"),
    };
    for k in &names {
        sim.fault(*k, 1);
    }
    let mut f = Fnv::new();
    bytes.iter().for_each(|b| f.u(*b as u64));
    sim.trace.u(f.0);
    let plan0 = c.plans.first().cloned().unwrap_or_default();
    match c.prop.as_str() {
        "P01" => {
            let base = sim.whole(&bytes);
            let base_dump = match &base {
                Got::Doc(d) => sim.dump(d).map(Some),
                Got::Err(_) => Ok(None),
                g => Err(g.short()),
            };
            if let Err(e) = &base_dump {
                return sim.fail(&["P04"], e.clone());
            }
            let mut all: Vec<(String, Got)> = vec![];
            for p in &c.plans {
                let (g, _) = sim.read(&bytes, p, 0, Failure::None, false);
                all.push((format!("in pieces {:?}", p), g));
            }
            if let Ok(t) = std::str::from_utf8(&bytes) {
                let g = match catch(|| read_xml(t)) {
                    Outcome::Done(Ok(d)) => Got::Doc(d),
                    Outcome::Done(Err(e)) => Got::Err(e.to_string()),
                    Outcome::Unwound => Got::Unwound,
                    Outcome::Panicked(p) => Got::Panicked(p),
                };
                sim.probe("read_from_memory");
                all.push(("from memory".into(), g));
            }
            for (how, g) in all {
                let d = match &g {
                    Got::Doc(d) => sim.dump(d).map(Some),
                    Got::Err(_) => Ok(None),
                    g => Err(g.short()),
                };
                if d != base_dump {
                    return sim.fail(&["P01"], format!("read {} this is {:?} ({}), in one piece {:?} ({})", how, d, g.short(), base_dump, base.short()));
                }
            }
            sim.probe(if matches!(base, Got::Doc(_)) { "document" } else { "error" });
        }
        "P02" => {
            let at = if c.at_bound && !doc.bounds.is_empty() {
                doc.bounds[c.cut as usize % doc.bounds.len()].min(bytes.len())
            } else {
                c.cut as usize % (bytes.len() + 1)
            };
            let failure = if c.failure % 8 == 0 {
                Failure::Unwind
            } else {
                Failure::Error(KINDS[(c.failure / 8) as usize % KINDS.len()])
            };
            sim.state(&bytes[..at], c.failure as u64);
            let (g, seen) = sim.read(&bytes, &plan0, at, failure, c.sticky);
            if seen.failed {
                sim.fault(if failure == Failure::Unwind { "source_unwinds" } else { "input_error" }, 1);
            } else if at == bytes.len() {
                sim.probe("not_asked_at_the_end");
            }
            match (&g, failure) {
                (Got::Unwound, Failure::Unwind) => (),
                (Got::Err(_), _) => (),
                (Got::Doc(_), _) if !seen.failed => {
                    sim.fail(&["P02", "P03"], format!("a document was returned before the end of the input, at {} of {}", at, bytes.len()))
                }
                _ => sim.fail(&["P02"], format!("after {:?} at byte {} of {} reading gave {}", failure, at, bytes.len(), g.short())),
            }
            if seen.after > 0 {
                sim.fail(&["P02"], format!("the source was asked {} more times after {:?}", seen.after, failure));
            }
            sim.read_another("P02");
        }
        "P03" => {
            let mut spots: Vec<usize> = doc.bounds.clone();
            spots.extend(doc.cuts.iter().map(|x| x.0));
            let len = bytes.len();
            for k in 0..6u64 {
                let sel = Rng::mix(c.cut as u64, k);
                let at = match sel % 4 {
                    0 => spots[(sel / 4) as usize % spots.len()],
                    1 => doc.root_end.saturating_sub((sel / 4) as usize % 4),
                    2 if doc.root_end < len => doc.root_end + (sel / 4) as usize % (len - doc.root_end),
                    _ => (sel / 4) as usize % len,
                }
                .min(len);
                sim.state(&bytes[..at], 0);
                let (g, _) = sim.read(&bytes[..at], &plan0, 0, Failure::None, false);
                sim.fault("input_truncated", (at < len) as u64);
                let safe = doc.cuts.iter().filter(|x| x.0 == at).next_back();
                match (&g, safe) {
                    (Got::Err(_), None) => sim.probe("truncation_noticed"),
                    (Got::Doc(d), Some((_, said))) => {
                        sim.probe("complete_after_the_root");
                        let want = tidy(doc.says[..*said].to_vec());
                        match sim.says(d) {
                            Ok(got) if got == want => (),
                            Ok(got) => sim.fail(&["P03"], format!("cut at {} of {}: {}", at, len, differ(&got, &want))),
                            Err(e) => sim.fail(&["P03"], e),
                        }
                    }
                    (Got::Panicked(_), _) => sim.fail(&["P03", "P04"], format!("cut at {} of {}: {}", at, len, g.short())),
                    _ => sim.fail(
                        &["P03"],
                        format!("cut at {} of {}, the root ends at {}: reading gave {}", at, len, doc.root_end, g.short()),
                    ),
                }
            }
        }
        "P04" => {
            let mut first = None;
            for round in 0..2 {
                let (g, seen) = sim.read(&bytes, &plan0, 0, Failure::None, false);
                let limit = seen.interrupted + 4 * (bytes.len() as u64 + 4) + 4 * seen.pieces + 64;
                if seen.overrun || seen.consumed > bytes.len() || seen.calls > limit {
                    return sim.fail(&["P04"], format!("{} calls, {} of {} bytes consumed", seen.calls, seen.consumed, bytes.len()));
                }
                let d = match &g {
                    Got::Doc(d) => {
                        sim.probe("damaged_document_accepted");
                        match catch(|| defect(d)) {
                            Outcome::Done(None) => (),
                            Outcome::Done(Some(e)) => return sim.fail(&["P04"], format!("the document is not sound: {}", e)),
                            _ => return sim.fail(&["P04"], format!("observing the document panicked: {}", last_panic())),
                        }
                        let text = match catch(|| d.to_string()) {
                            Outcome::Done(t) => t,
                            _ => return sim.fail(&["P04"], format!("writing the document panicked: {}", last_panic())),
                        };
                        if seen.consumed != bytes.len() {
                            return sim.fail(&["P04"], format!("a document after {} of {} bytes", seen.consumed, bytes.len()));
                        }
                        match sim.dump(d) {
                            Ok(x) => (Some(x), text.len()),
                            Err(e) => return sim.fail(&["P04"], e),
                        }
                    }
                    Got::Err(_) => {
                        sim.probe("damage_noticed");
                        (None, 0)
                    }
                    _ => return sim.fail(&["P04"], format!("reading {:?} gave {}", String::from_utf8_lossy(&bytes), g.short())),
                };
                if round == 0 {
                    first = Some(d);
                } else if first != Some(d) {
                    return sim.fail(&["P04"], "reading the same bytes again gives something else".into());
                }
            }
        }
        "P07" => {
            let memory = std::str::from_utf8(&bytes).ok().map(|t| match catch(|| read_xml(t)) {
                Outcome::Done(Ok(d)) => Got::Doc(d),
                Outcome::Done(Err(e)) => Got::Err(e.to_string()),
                Outcome::Unwound => Got::Unwound,
                Outcome::Panicked(p) => Got::Panicked(p),
            });
            let (pieces, _) = sim.read(&bytes, &plan0, 0, Failure::None, false);
            sim.state(&bytes, 0);
            for (how, g) in [("in pieces", Some(pieces)), ("from memory", memory)] {
                match g {
                    Some(Got::Err(_)) => sim.probe("refused"),
                    Some(g @ Got::Panicked(_)) => {
                        return sim.fail(&["P07", "P04"], format!("reading {:?} {} gave {}", String::from_utf8_lossy(&bytes), how, g.short()))
                    }
                    Some(g) => {
                        return sim.fail(&["P07"], format!("{}: reading {:?} {} gave {}", names[0], String::from_utf8_lossy(&bytes), how, g.short()))
                    }
                    None => (),
                }
            }
        }
        _ => {
            let want = tidy(doc.says.clone());
            let other = render(&c.toks, Rng::mix(c.style, 7));
            let filled = c.toks.iter().any(|t| matches!(t, Tok::Fill { .. }));
            let last = c.plans.last().cloned().unwrap_or_default();
            for (d, p) in [(&doc, &plan0), (&other, &last)] {
                // how much has to be filled in depends on the spelling
                let want = if filled { tidy(d.says.clone()) } else { want.clone() };
                let (g, _) = sim.read(&d.bytes, p, 0, Failure::None, false);
                let text = || String::from_utf8_lossy(&d.bytes).to_string();
                match &g {
                    Got::Doc(r) => {
                        match sim.says(r) {
                            Ok(got) if got == want => (),
                            Ok(got) => return sim.fail(&["P06"], format!("{:?}: {}", text(), differ(&got, &want))),
                            Err(e) => return sim.fail(&["P06", "P04"], e),
                        }
                        let decl = catch(|| declared(r));
                        match decl {
                            Outcome::Done(x) if x == d.decl => (),
                            Outcome::Done(x) => {
                                return sim.fail(&["P06"], format!("{:?}: declaration is {:?}, expected {:?}", text(), x, d.decl))
                            }
                            _ => return sim.fail(&["P06", "P04"], last_panic()),
                        }
                        match catch(|| unfound(r, &want)) {
                            Outcome::Done(None) => (),
                            Outcome::Done(Some(e)) => return sim.fail(&["P06"], format!("{:?}: {}", text(), e)),
                            _ => return sim.fail(&["P06", "P04"], last_panic()),
                        }
                        match catch(|| defect(r)) {
                            Outcome::Done(None) => (),
                            Outcome::Done(Some(e)) => return sim.fail(&["P04", "P06"], format!("the document is not sound: {}", e)),
                            _ => return sim.fail(&["P04", "P06"], last_panic()),
                        }
                    }
                    g => return sim.fail(&["P06"], format!("{:?} gave {}", text(), g.short())),
                }
            }
        }
    }
}

/// A history of edits, a save that may be cut short by a crash or a full disk, and a reader.
fn save_and_read(sim: &mut Sim, c: &Case) {
    let dom = c.dom.as_ref().unwrap();
    let mut w = World::new(dom.clients, dom.cfg);
    w.unwatched = true;
    for (i, st) in dom.steps.iter().enumerate() {
        w.exec(st, i);
        if w.viol.is_some() {
            // other properties are at stake, but these trees can be saved all the same
            break;
        }
    }
    sim.report.stats.steps += w.stats.steps;
    sim.report.stats.states.append(&mut w.stats.states.clone());
    sim.trace.u(w.trace.0);
    let docs: Vec<usize> = (0..w.m.nodes.len())
        .filter(|n| {
            let x = w.m.n(*n);
            !x.dead && x.ty == Ty::Document
        })
        .collect();
    for d in docs {
        let r = match w.try_real(d) {
            Some(r) => r,
            None => continue,
        };
        let said = catch(|| {
            quiet(|| {
                let plain = as_document(&r).ok()?.doc_type().is_none() && r.child_nodes().iter().any(is_element);
                let mut items = vec![];
                plain.then(|| real_items(&r, &mut items))??;
                Some((items, declared(&r)))
            })
        });
        let (items, decl) = match said {
            Outcome::Done(Some(x)) => x,
            Outcome::Done(None) => continue,
            _ => {
                w.viol.get_or_insert(crate::world::Violation { tags: ["L01"].into(), step: 0, msg: last_panic() });
                break;
            }
        };
        let mut ids = BTreeSet::new();
        let readable = items.iter().all(|i| match i {
            Item::EntityRef(_) => false,
            Item::Open(_, a) => a.get("xml:id").map_or(true, |v| ids.insert(canon_value(&unescape(v)))),
            _ => true,
        });
        if !readable {
            continue;
        }
        let want = loosely(tidy(canon_items(&items)));
        let text = match catch(|| quiet(|| r.to_string())) {
            Outcome::Done(t) => t,
            _ => return sim.fail(&["S03", "P05"], format!("saving panicked: {}", last_panic())),
        };
        sim.probe("saved");
        let plan = c.plans.first().cloned().unwrap_or_default();
        let (g, _) = sim.read(text.as_bytes(), &plan, 0, Failure::None, false);
        match &g {
            Got::Doc(back) => match sim.says(back) {
                Ok(got) => {
                    let got = loosely(got);
                    if got != want {
                        return sim.fail(&["P05"], format!("{:?} read back: {}", text, differ(&got, &want)));
                    }
                    if declared(back) != decl {
                        let msg = format!("{:?} read back: the declaration is {:?}", text, declared(back));
                        return sim.fail(&["P05"], msg);
                    }
                    // and the document that was read can be saved in its turn
                    let again = match catch(|| quiet(|| back.to_string())) {
                        Outcome::Done(t) => t,
                        _ => return sim.fail(&["P05"], format!("saving again panicked: {}", last_panic())),
                    };
                    let (g, _) = sim.read(again.as_bytes(), &plan, 0, Failure::None, false);
                    let twice = match &g {
                        Got::Doc(b) => sim.says(b).map(|v| (loosely(v), declared(b))),
                        g => Err(g.short()),
                    };
                    if twice != Ok((want.clone(), decl.clone())) {
                        let msg = format!("{:?} saved and read a second time: {:?}, expected {:?}", text, twice, want);
                        return sim.fail(&["P05"], msg);
                    }
                    sim.probe("saved_again");
                }
                Err(e) => return sim.fail(&["P05"], e),
            },
            g => return sim.fail(&["P05"], format!("{:?} read back gave {}", text, g.short())),
        }
        for k in 0..4u64 {
            let sel = Rng::mix(c.cut as u64, k);
            let len = text.len();
            let at = if sel % 3 == 0 { len.saturating_sub((sel / 3) as usize % 30) } else { (sel / 3) as usize % len };
            sim.fault("save_torn", 1);
            let part = &text.as_bytes()[..at];
            // what a strict reader makes of the part
            let complete = std::str::from_utf8(part)
                .ok()
                .and_then(|t| xmlread::declaration(t).ok())
                .and_then(|(_, t)| xmlread::read(t).ok())
                .filter(|i| i.iter().any(|x| matches!(x, Item::Open(..))));
            let (g, _) = sim.read(part, &plan, 0, Failure::None, false);
            match (&g, complete) {
                (Got::Err(_), None) => sim.probe("torn_save_noticed"),
                (Got::Doc(back), Some(items)) => {
                    sim.probe("torn_after_the_root");
                    let want = loosely(tidy(canon_items(&items)));
                    match sim.says(back) {
                        Ok(got) if loosely(got.clone()) == want && declared(back) == decl => (),
                        Ok(got) => return sim.fail(&["P05"], format!("torn at {} {:?}: {}", at, text, differ(&loosely(got), &want))),
                        Err(e) => return sim.fail(&["P05"], e),
                    }
                }
                _ => return sim.fail(&["P05", "P03"], format!("torn at {} of {:?}: reading gave {}", at, text, g.short())),
            }
        }
    }
    if w.viol.is_none() {
        w.finish();
    }
    if let Some(v) = w.viol.take() {
        sim.report.viol.get_or_insert(v);
        // the trees may be damaged
        std::mem::forget(w);
    }
}

// --------------------------------------------------------------------------------- reduction, JSON

impl Case {
    /// The text as it arrives, and what happened to it on the way.
    fn arrives(&self, doc: &Rendered) -> Option<(Vec<u8>, Vec<&'static str>)> {
        if self.prop == "P07" {
            let (name, bytes) = break_up(doc, self.damage.first()?)?;
            return Some((bytes, vec![name]));
        }
        let mut bytes = doc.bytes.clone();
        let mut names = vec![];
        harm(&mut bytes, &self.damage, &mut names);
        Some((bytes, names))
    }
    pub fn size(&self) -> usize {
        self.toks.len() + self.damage.len() + self.dom.as_ref().map_or(0, |d| d.steps.len())
    }
    pub fn without(&self, from: usize, to: usize) -> Case {
        let mut c = self.clone();
        let mut k = 0;
        let mut keep = || {
            k += 1;
            !(from < k && k <= to)
        };
        c.toks.retain(|_| keep());
        c.damage.retain(|_| keep());
        if let Some(d) = &mut c.dom {
            d.steps.retain(|_| keep());
        }
        c
    }
    pub fn simpler(&self) -> Vec<Case> {
        let mut out = vec![];
        let mut add = |f: &dyn Fn(&mut Case)| {
            let mut c = self.clone();
            f(&mut c);
            if c != *self {
                out.push(c);
            }
        };
        add(&|c| c.plans = vec![]);
        add(&|c| {
            c.plans.pop();
        });
        add(&|c| {
            if c.plans.len() > 1 {
                c.plans.remove(0);
            }
        });
        add(&|c| c.plans.iter_mut().for_each(|p| p.interrupts.clear()));
        add(&|c| c.plans.iter_mut().for_each(|p| p.sizes = vec![1]));
        add(&|c| c.style = 0);
        add(&|c| c.log = 2);
        add(&|c| c.sticky = false);
        for i in 0..self.toks.len() {
            match &self.toks[i] {
                Tok::Open(name, attrs) => {
                    for k in 0..attrs.len() {
                        add(&|c| {
                            if let Tok::Open(_, a) = &mut c.toks[i] {
                                a.remove(k);
                            }
                        });
                        add(&|c| {
                            if let Tok::Open(_, a) = &mut c.toks[i] {
                                a[k].1 = "v".into();
                            }
                        });
                    }
                    if name != "a" {
                        add(&|c| {
                            if let Tok::Open(n, _) = &mut c.toks[i] {
                                *n = "a".into();
                            }
                        });
                    }
                }
                Tok::Text(t) | Tok::Comment(t) | Tok::CData(t) if t != "t" => add(&|c| {
                    if let Tok::Text(t) | Tok::Comment(t) | Tok::CData(t) = &mut c.toks[i] {
                        *t = "t".into();
                    }
                }),
                Tok::Fill { unit, .. } if *unit > 64 => add(&|c| {
                    if let Tok::Fill { unit, .. } = &mut c.toks[i] {
                        *unit /= 2;
                    }
                }),
                _ => (),
            }
        }
        if let Some(d) = &self.dom {
            for i in 0..d.steps.len() {
                for k in 0..5 {
                    add(&|c| c.dom.as_mut().unwrap().steps[i].a[k] = 0);
                }
            }
        }
        out
    }
    pub fn json(&self) -> J {
        let opt = |v: &Option<String>| v.as_ref().map_or(J::Null, |x| s(x.clone()));
        let toks = self
            .toks
            .iter()
            .map(|t| {
                J::Arr(match t {
                    Tok::Decl(v, e, sa) => vec![s("decl"), s(v.clone()), opt(e), sa.map_or(J::Null, J::Bool)],
                    Tok::Open(q, a) => vec![
                        s("open"),
                        s(q.clone()),
                        J::Arr(a.iter().map(|(k, v)| J::Arr(vec![s(k.clone()), s(v.clone())])).collect()),
                    ],
                    Tok::Close => vec![s("close")],
                    Tok::Text(t) => vec![s("text"), s(t.clone())],
                    Tok::Comment(t) => vec![s("comment"), s(t.clone())],
                    Tok::CData(t) => vec![s("cdata"), s(t.clone())],
                    Tok::Pi(t, d) => vec![s("pi"), s(t.clone()), opt(d)],
                    Tok::Space => vec![s("space")],
                    Tok::Fill { kind, unit, off, of } => {
                        vec![s("fill"), n(*kind as u64), n(*unit as u64), n((*off + 1000) as u64), n(*of as u64)]
                    }
                })
            })
            .collect();
        let nums = |v: &[u32]| J::Arr(v.iter().map(|x| n(*x as u64)).collect());
        let mut fields = vec![
            ("property", s(self.prop.clone())),
            ("hash_seed", s(self.hash_seed.to_string())),
            ("log", n(self.log as u64)),
            ("document", J::Arr(toks)),
            ("style", s(self.style.to_string())),
            ("deliveries", J::Arr(self.plans.iter().map(|p| J::Arr(vec![nums(&p.sizes), nums(&p.interrupts)])).collect())),
            ("damage", J::Arr(self.damage.iter().map(|d| nums(&[d.kind, d.a, d.b, d.c])).collect())),
            ("cut", n(self.cut as u64)),
            ("at_bound", J::Bool(self.at_bound)),
            ("failure", n(self.failure as u64)),
            ("sticky", J::Bool(self.sticky)),
            // for the reader of this file only
            (
                "text",
                s(String::from_utf8_lossy(&self.arrives(&render(&self.toks, self.style)).map_or(vec![], |x| x.0)).to_string()),
            ),
        ];
        if let Some(d) = &self.dom {
            fields.push(("dom", dom_json(d)));
        }
        crate::json::obj(fields)
    }
    pub fn of(j: &J) -> Option<Case> {
        let opt = |v: Option<&J>| match v {
            Some(J::Str(x)) => Some(x.clone()),
            _ => None,
        };
        let mut toks = vec![];
        for t in j.get("document").arr() {
            let a = t.arr();
            let text = |i: usize| a.get(i).map_or(String::new(), |x| x.str().to_string());
            toks.push(match a.first()?.str() {
                "decl" => Tok::Decl(text(1), opt(a.get(2)), match a.get(3) {
                    Some(J::Bool(b)) => Some(*b),
                    _ => None,
                }),
                "open" => Tok::Open(
                    text(1),
                    a.get(2)?.arr().iter().map(|x| (x.arr()[0].str().to_string(), x.arr()[1].str().to_string())).collect(),
                ),
                "close" => Tok::Close,
                "text" => Tok::Text(text(1)),
                "comment" => Tok::Comment(text(1)),
                "cdata" => Tok::CData(text(1)),
                "pi" => Tok::Pi(text(1), opt(a.get(2))),
                "fill" => Tok::Fill {
                    kind: a.get(1)?.int() as u32,
                    unit: (a.get(2)?.int() as u32).max(16),
                    off: a.get(3)?.int() as i32 - 1000,
                    of: a.get(4)?.int() as u32,
                },
                _ => Tok::Space,
            });
        }
        let nums = |j: &J| -> Vec<u32> { j.arr().iter().map(|x| x.int() as u32).collect() };
        Some(Case {
            prop: j.get("property").str().to_string(),
            hash_seed: j.get("hash_seed").u64(),
            log: j.get("log").int() as u32,
            toks,
            style: j.get("style").u64(),
            plans: j
                .get("deliveries")
                .arr()
                .iter()
                .map(|p| Plan { sizes: nums(&p.arr()[0]), interrupts: nums(&p.arr()[1]) })
                .collect(),
            damage: j
                .get("damage")
                .arr()
                .iter()
                .map(|d| {
                    let v = nums(d);
                    Damage { kind: v[0], a: v[1], b: v[2], c: v[3] }
                })
                .collect(),
            cut: j.get("cut").int() as u32,
            at_bound: j.get("at_bound").bool(),
            failure: j.get("failure").int() as u32,
            sticky: j.get("sticky").bool(),
            dom: match j.get("dom") {
                J::Null => None,
                d => Some(dom_of(d)?),
            },
        })
    }
}
