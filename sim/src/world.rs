//! One simulated world: clients that share documents, the real nodes they hold, and the reference
//! model that runs along. Executes one step at a time and compares everything after each.

use crate::model::*;
use crate::rng::{Fnv, Rng};
use crate::seams::*;
use crate::xmlread::{self, Item};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::{as_document_decl, as_document_decl_mut, as_element_namespaced, RefNamespaced};
use xml_dom::level2::ext::decl::{XmlDecl, XmlVersion};
use xml_dom::level2::ext::dom_impl::{create_entity, create_internal_entity, create_notation, get_implementation_ext};
use xml_dom::level2::ext::namespaced::NamespacePrefix;
use xml_dom::level2::ext::options::ProcessingOptions;
use xml_dom::level2::*;

macro_rules! ops {
    ($($name:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        pub enum Op { $($name),* }
        pub const OPS: &[(Op, &str)] = &[$((Op::$name, stringify!($name))),*];
    };
}

ops!(
    NewDoc, NewDocType, CreateElement, CreateText, CreateData, CreateRef, CreateFragment,
    CreateAttr, Insert, Append, Replace, Remove, SetAttr, SetAttrNs, RemoveAttr, RemoveAttrNs,
    SetAttrNode, RemoveAttrNode, AttrSetValue, AttrUnsetValue, AttrQuery, DataAppend, DataInsert,
    DataDelete, DataReplace, DataSubstring, DataSet, DataUnset, Split, Normalize, Clone, Drop,
    Crash, DropDoc, Share, Navigate, GetById, GetByTag, GetByTagNs, NsQuery, Save, SaveFault,
    SaveNested, Bulk, SetDecl, CreateDecl, NodeValue, BadName, Tree, Declare, Kind,
);

pub fn op_name(op: Op) -> &'static str {
    OPS.iter().find(|(o, _)| *o == op).unwrap().1
}

pub fn op_of(name: &str) -> Option<Op> {
    OPS.iter().find(|(_, n)| *n == name).map(|(o, _)| *o)
}

/// One atomic step of one client. Every sub-sequence of a schedule is a schedule: arguments choose
/// among the nodes there are by rendezvous hashing, so that the choice stays the same as long as the
/// chosen node is there.
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    /// Tells the step apart from the others of its schedule, whichever of them are left out.
    pub uid: u32,
    pub client: u32,
    pub op: Op,
    pub a: [u32; 5],
    /// Unwind out of the operation at this diagnostic, 0 is never.
    pub lp: u32,
    /// Steps taken from inside the operation, when it hands over its nth piece of output.
    pub cb: Vec<(u32, Step)>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Cfg {
    /// Names and data contain the number of their node.
    pub unique: bool,
    /// Look at all namespace mappings after every step.
    pub ns: bool,
    /// Markup in data.
    pub markup: bool,
    /// Only content that every XML text can express.
    pub plain: bool,
    /// Room for many nodes and long data.
    pub wide: bool,
    /// Which names are in use besides the usual ones, 0 is none.
    pub names: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub tags: BTreeSet<&'static str>,
    pub step: usize,
    pub msg: String,
}

/// The ranges of characters that names are made of, from the recommendation.
const NAME_FIRST: &[(u32, u32)] = &[
    (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff), (0x370, 0x37d),
    (0x37f, 0x1fff), (0x200c, 0x200d), (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff), (0xf900, 0xfdcf),
    (0xfdf0, 0xfffd), (0x10000, 0xeffff),
];
const NAME_REST: &[(u32, u32)] = &[(0x2d, 0x2e), (0x30, 0x39), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)];

/// Names that are refused, and the kinds of error that say so.
const BAD_NAMES: &[(Option<&str>, &str, &[Ek])] = {
    const FORM: &[Ek] = &[Ek::Syntax, Ek::InvalidChar, Ek::Namespace];
    const CHAR: &[Ek] = &[Ek::InvalidChar, Ek::Syntax];
    const NS: &[Ek] = &[Ek::Namespace];
    &[
        (None, "", FORM),
        (None, "a:", FORM),
        (None, ":a", FORM),
        (None, "a:b:c", FORM),
        (None, "1a", CHAR),
        (None, "a b", CHAR),
        (None, " a", CHAR),
        (None, "a ", CHAR),
        (None, "<a", CHAR),
        (None, "a>", CHAR),
        (None, "-a", CHAR),
        (None, ".a", CHAR),
        (None, "·a", CHAR),
        (None, "a\0", CHAR),
        (None, "a\u{d7}", CHAR),
        (None, "a&", CHAR),
        (None, "a=\"b\"", CHAR),
        (None, "x:1", CHAR),
        (None, "1:x", CHAR),
        (None, "a/", CHAR),
        (None, "\u{300}a", CHAR),
        (Some("urn:1"), "", FORM),
        (Some("urn:1"), "x:", FORM),
        (Some("urn:1"), ":x", FORM),
        (Some("urn:1"), "x:y:z", FORM),
        (Some("urn:1"), "x:1", CHAR),
        (Some("urn:1"), "x:a b", CHAR),
        (Some("urn:1"), "x y:a", CHAR),
        (Some("urn:1"), "é<", CHAR),
        (Some("urn:1"), "xml:q", NS),
        (Some("urn:1"), "xml:id", NS),
        (Some(XMLNS), "xml:q", NS),
        (Some("urn:1"), "xmlns:q", NS),
        (Some("urn:1"), "xmlns", NS),
        (Some(XMLURI), "xmlns", NS),
        (Some(XMLURI), "xmlns:x", NS),
    ]
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum How {
    Ok,
    Err,
    Unwound,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Aspect {
    Identity,
    Value,
    Links,
    AttrList,
    AttrValue,
    Owner,
    Doc,
    Root,
    Ids,
    Ns,
    Alive,
    Freed,
}

type Up = Box<dyn Fn() -> Option<RefNode>>;

fn weak(r: &RefNode) -> Up {
    let w = r.clone().downgrade();
    Box::new(move || w.clone().upgrade())
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub skipped: u64,
    pub nested: u64,
    /// operation and outcome
    pub ops: BTreeMap<String, u64>,
    /// fault kinds that happened
    pub faults: BTreeMap<&'static str, u64>,
    /// situations reached
    pub probes: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub checks: u64,
}

struct Watch {
    root: Nid,
    nodes: Vec<Nid>,
    vals: BTreeMap<Nid, BTreeSet<Option<String>>>,
}

pub struct World {
    pub m: Model,
    up: Vec<Option<Up>>,
    kin: Vec<u32>,
    labels: Vec<u64>,
    next_kin: u32,
    pub clients: Vec<Vec<(Nid, RefNode)>>,
    pins: Vec<Nid>,
    pub cfg: Cfg,
    pub viol: Option<Violation>,
    pub known: BTreeMap<&'static str, String>,
    pub log: Vec<String>,
    pub keep_log: bool,
    pub trace: Fnv,
    pub stats: Stats,
    depth: u32,
    watch: Option<Watch>,
    cur: usize,
    area: &'static [&'static str],
    args: Vec<Nid>,
    how: How,
    /// Was the last call cut short at a diagnostic.
    cut: bool,
    /// A node that was taken for two.
    clash: Option<(Nid, Nid)>,
    rotate: usize,
    /// Only the real trees count, the state of the model is not compared with them.
    pub unwatched: bool,
}

pub const SLOTS: usize = 14;
pub const MAX_NODES: usize = 90;
pub const MAX_NODES_WIDE: usize = 500;

pub const ENAMES: &[(Option<&str>, &str)] = &[
    (None, "a"),
    (None, "b"),
    (None, "c"),
    (None, "x:a"),
    (Some("urn:1"), "a"),
    (Some("urn:1"), "x:a"),
    (Some("urn:2"), "x:a"),
    (Some("urn:1"), "y:b"),
    (Some("urn:2"), "x:b"),
    (Some("urn:2"), "b"),
    (None, "élan"),
    (Some("urn:é"), "名:b"),
    (None, "a.b-c_d"),
    // from here on rarely
    (None, "A"),
    (None, "xml:a"),
    (Some("URN:1"), "a"),
    (Some("urn:1"), "X:a"),
    (Some("http://w3/x#y"), "x:élan"),
    (None, "aa"),
    (None, "𐀀·b"),
];
const ODD_QUERIES: &[&str] =
    &["x:*", "y:*", "*:a", "a*", "*a", "**", "", " a", "a ", ":", ":a", "a:", "#text", "#document", "x", "?", ".", "x:"];
const ENAMES_OFTEN: usize = 13;
pub const ANAMES: &[(Option<&str>, &str)] = &[
    (None, "k"),
    (None, "m"),
    (None, "x:k"),
    (None, "y:k"),
    (Some("urn:1"), "x:k"),
    (Some("urn:1"), "y:k"),
    (Some("urn:2"), "x:k"),
    (Some("urn:1"), "k"),
    (None, "id"),
    (None, "xml:id"),
    (Some(XMLURI), "xml:id"),
    (Some("urn:1"), "x:id"),
    (Some(XMLNS), "xmlns"),
    (Some(XMLNS), "xmlns:p"),
    (Some(XMLNS), "xmlns:q"),
    (Some(XMLNS), "xmlns:x"),
    (None, "xmlns:p"),
    (None, "xmlns"),
    (None, "é"),
    (Some("urn:é"), "名:k"),
    (None, "k.1-_"),
    // from here on rarely
    (None, "K"),
    (None, "xml:lang"),
    (None, "xml:space"),
    (None, "ID"),
    (None, "x:id"),
    (None, "ids"),
    (Some(XMLURI), "y:id"),
    (None, "XML:id"),
    (None, "xml:Id"),
    (Some(XMLURI), "x:k"),
    (Some("URN:1"), "k"),
    (Some("urn:1"), "X:k"),
    (Some(XMLNS), "xmlns:é"),
    (Some(XMLNS), "xmlns:P"),
    (Some(XMLNS), "xmlns:a.b-c"),
    (None, "xmlns:名"),
];
pub const ANAMES_OFTEN: usize = 21;

struct Dialect {
    elements: Vec<(Option<String>, String)>,
    attributes: Vec<(Option<String>, String)>,
    uris: Vec<String>,
    ids: Vec<String>,
}
pub const DIALECTS: u32 = 1500;

/// Names, namespaces and identifiers put together from all that they may contain.
fn dialect(i: u32) -> &'static Dialect {
    static ALL: std::sync::OnceLock<Vec<Dialect>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| {
        (0..u64::from(DIALECTS))
            .map(|i| {
                let mut r = Rng::new(0xd1a1 ^ i << 20);
                let mut ncname = |long: bool| -> String {
                    const FIRST: &str = "abnxyzAXLM_éαЖ名𐀀";
                    const REST: &str = "abmlnsid019X-._·é\u{300}日";
                    let one = |s: &str, r: &mut Rng| s.chars().nth(r.below(s.chars().count() as u64) as usize).unwrap();
                    let start = ["", "", "", "", "xml", "x", "id", "Xml"][r.below(8) as usize];
                    let mut o = start.to_string();
                    if o.is_empty() {
                        o.push(one(FIRST, &mut r));
                    }
                    for _ in 0..1 + r.below(if long { 40 } else { 5 }) {
                        o.push(one(REST, &mut r));
                    }
                    if o.to_lowercase().starts_with("xml") && o.len() < 7 {
                        o.push('q');
                    }
                    o
                };
                let prefixes: Vec<String> = (0..3).map(|_| ncname(false)).collect();
                let locals: Vec<String> = (0..5).map(|k| ncname(k == 4)).collect();
                let ids = (0..3).map(|_| ncname(false)).collect();
                let mut r = Rng::new(0xd1a2 ^ i << 20);
                let uris: Vec<String> = (0..3)
                    .map(|_| {
                        const URI: &str = "aBé019/:#?=&;%~.-_+'\"<>*{}";
                        let start = ["urn:1", "urn:", "http://", "http://w3.org/", ""][r.below(5) as usize];
                        let mut o = start.to_string();
                        for _ in 0..1 + r.below(6) {
                            o.push(URI.chars().nth(r.below(URI.chars().count() as u64) as usize).unwrap());
                        }
                        // what looks like a reference to an entity has no value
                        match attr_normal(&o) {
                            Some(_) => o,
                            None => o.replace(';', "!"),
                        }
                    })
                    .collect();
                let mut name = |declares: bool| {
                    let local = &locals[r.below(5) as usize];
                    match r.below(if declares { 8 } else { 6 }) {
                        0 => (None, local.clone()),
                        1 => (None, format!("{}:{}", prefixes[r.below(3) as usize], local)),
                        2 => (Some(uris[r.below(3) as usize].clone()), local.clone()),
                        3..=5 => (
                            Some(uris[r.below(3) as usize].clone()),
                            format!("{}:{}", prefixes[r.below(3) as usize], local),
                        ),
                        _ => (Some(XMLNS.to_string()), format!("xmlns:{}", prefixes[r.below(3) as usize])),
                    }
                };
                Dialect {
                    elements: (0..7).map(|_| name(false)).collect(),
                    attributes: (0..7).map(|_| name(true)).collect(),
                    uris: uris.clone(),
                    ids,
                }
            })
            .collect()
    });
    &all[i as usize % all.len()]
}

/// One of a list whose first entries are the usual ones.
fn of_pool<T: Copy>(pool: &[T], often: usize, sel: u32) -> T {
    if sel % 5 == 4 {
        pool[(sel / 5) as usize % pool.len()]
    } else {
        pool[(sel / 5) as usize % often]
    }
}
/// XML has no way to write the end of an instruction in its data.
fn instruction(data: String) -> String {
    let mut data = data;
    while data.contains("?>") {
        data = data.replace("?>", "?");
    }
    data
}

/// Any data that can be part of a text, a comment, an instruction or a CDATA section.
fn composed(sel: u32, markup: bool) -> String {
    const PLAIN: &str = "aAbBmMxXyY0019;:,.!*+=()[]]/|--??\\^~`@$%_{} é日😀\u{a0}\u{feff}\u{200b}e\u{301}\u{fffd}\u{e000}\u{10ffff}\u{7f}\u{2003}\u{3000}\u{ad}ßİſǅ\u{1}";
    const MARKED: &str = "&&&<<>>\"\"''#;;";
    let mut r = Rng::new(u64::from(sel));
    let mut all: Vec<char> = PLAIN.chars().collect();
    if markup {
        all.extend(MARKED.chars());
    }
    let few: Vec<char> = (0..1 + r.below(4)).map(|_| all[r.below(all.len() as u64) as usize]).collect();
    (0..1 + r.below(9)).map(|_| if r.chance(1, 2) { few[r.below(few.len() as u64) as usize] } else { all[r.below(all.len() as u64) as usize] }).collect()
}
pub const TARGETS: &[&str] = &["pi", "x:pi", "xml-stylesheet", "名"];
pub const IDS: &[&str] = &["i1", "i2", "i3", "I1", "é1"];
const IDS_OFTEN: usize = 3;
const IDFORMS: &[&str] = &[" i1", "i2 ", "\ti1", "&#105;1", "i&#x32;", "i1\r\n", "i1 i2", "&amp;"];
pub const URIS: &[&str] = &["urn:1", "urn:2", "urn:3", "URN:1", "urn:é", "http://w3/x#y"];
const URIS_OFTEN: usize = 3;
pub const PREFIXES: &[Option<&str>] = &[None, Some("p"), Some("q"), Some("x"), Some("z"), Some("é"), Some("P"), Some("a.b-c"), Some("名")];
const PLAIN: &[&str] = &["t", "uv", "wxy z", "b2", "é", "日本", "", " ", "😀k"];
const MARKUP: &[&str] =
    &["<", "&", "\"", "'", ">", "a<b>c", "x&y", "<a k=\"v\">", "&amp;", "&#65;", "\t", "\n", "é<", "𝄞&", "\r", "a\r\nb", "\u{85}", "\u{2028}z", "%d {}",
    "]]>", "x]]>y]]>", "]]", "--", "a--b-", "-", "->", "?x>", "]>"];
const VALUES: &[&str] = &["", "v1", "v2", "i1", "i2", "é", "a b", " s ", "日本語"];
const VMARKUP: &[&str] = &["<", "&", ">", "\"", "'", "a\tb", "l\nm", "&#65;", "&lt;", "&amp;amp;", "&#x1F600;", "50%", "a&b", "c\rd", "\r\n e", "\u{85}f", "&#13;", "{}", "&quot;x&apos;", "&gt;&lt;", "a&#xD800;b", "&#4294967361;", "\u{2028}g", "&#x;", "&;", "&#;x"];

pub fn kind_of(e: &Error) -> Ek {
    match e {
        Error::IndexSize => Ek::IndexSize,
        Error::HierarchyRequest => Ek::Hierarchy,
        Error::WrongDocument => Ek::WrongDocument,
        Error::NotFound => Ek::NotFound,
        Error::InUseAttribute => Ek::InUse,
        Error::Syntax => Ek::Syntax,
        Error::InvalidState => Ek::InvalidState,
        Error::Namespace => Ek::Namespace,
        Error::InvalidCharacter => Ek::InvalidChar,
        _ => Ek::Other,
    }
}

fn type_of(r: &RefNode) -> Option<Ty> {
    Some(match r.node_type() {
        NodeType::Element => Ty::Element,
        NodeType::Attribute => Ty::Attribute,
        NodeType::Text => Ty::Text,
        NodeType::CData => Ty::CData,
        NodeType::EntityReference => Ty::EntityRef,
        NodeType::ProcessingInstruction => Ty::Pi,
        NodeType::Comment => Ty::Comment,
        NodeType::Document => Ty::Document,
        NodeType::DocumentType => Ty::DocType,
        NodeType::DocumentFragment => Ty::Fragment,
        NodeType::Entity => Ty::Entity,
        NodeType::Notation => Ty::Notation,
    })
}

pub fn name_of(r: &RefNode) -> MName {
    let n = r.node_name();
    MName { ns: n.namespace_uri().clone(), prefix: n.prefix().clone(), local: n.local_name().clone() }
}

const CONTAINERS: &[Ty] = &[Ty::Element, Ty::Element, Ty::Fragment, Ty::Document, Ty::EntityRef, Ty::Attribute];

fn is_container(t: Ty) -> bool {
    CONTAINERS.contains(&t)
}

fn is_data(t: Ty) -> bool {
    matches!(t, Ty::Text | Ty::Comment | Ty::CData)
}

// ------------------------------------------------------------------------------------------ sinks

/// A destination that accepts a number of bytes.
struct FaultSink {
    data: String,
    room: usize,
    torn: bool,
    unwind: bool,
    failed: bool,
    after: u32,
}

impl Write for FaultSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(std::fmt::Error);
        }
        if s.len() <= self.room {
            self.room -= s.len();
            self.data.push_str(s);
            return Ok(());
        }
        if self.torn {
            let mut cut = self.room;
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            self.data.push_str(&s[..cut]);
        }
        self.failed = true;
        if self.unwind {
            std::panic::panic_any(SimUnwind);
        }
        Err(std::fmt::Error)
    }
}

struct CountSink(u32);

impl Write for CountSink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        self.0 += 1;
        Ok(())
    }
}

/// A destination that lets other clients run before it accepts a piece.
struct NestSink<'a> {
    world: *mut World,
    steps: &'a [(u32, Step)],
    total: u32,
    count: u32,
    data: String,
}

impl Write for NestSink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for (at, step) in self.steps {
            if at % self.total == self.count {
                // The world is not touched by the operation that is under way.
                let world = unsafe { &mut *self.world };
                if world.viol.is_none() {
                    world.exec_nested(step);
                }
            }
        }
        self.count += 1;
        self.data.push_str(s);
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------ world

impl World {
    pub fn new(clients: usize, cfg: Cfg) -> Self {
        World {
            m: Model::default(),
            up: vec![],
            kin: vec![],
            labels: vec![],
            next_kin: 1,
            clients: (0..clients.max(1)).map(|_| vec![]).collect(),
            pins: vec![],
            cfg,
            viol: None,
            known: BTreeMap::new(),
            log: vec![],
            keep_log: false,
            trace: Fnv::new(),
            stats: Stats::default(),
            depth: 0,
            watch: None,
            cur: 0,
            area: &[],
            args: vec![],
            how: How::Ok,
            cut: false,
            clash: None,
            rotate: 0,
            unwatched: false,
        }
    }

    pub fn real(&self, n: Nid) -> RefNode {
        self.up[n].as_ref().and_then(|u| u()).expect("simulator: node is gone")
    }
    pub fn try_real(&self, n: Nid) -> Option<RefNode> {
        self.up.get(n).and_then(|u| u.as_ref()).and_then(|u| u())
    }
    fn probe(&mut self, name: &'static str) {
        *self.stats.probes.entry(name).or_insert(0) += 1;
    }
    fn fault(&mut self, name: &'static str) {
        *self.stats.faults.entry(name).or_insert(0) += 1;
    }

    // ------------------------------------------------------------------------------- violations

    fn fail(&mut self, tags: impl IntoIterator<Item = &'static str>, msg: String) {
        if self.viol.is_none() {
            let mut tags: BTreeSet<&'static str> = tags.into_iter().collect();
            if self.depth > 0 {
                tags.insert("S02");
            }
            self.viol = Some(Violation { tags, step: self.cur, msg });
        }
    }

    /// Once something is wrong: which properties does the tree itself, whatever it should be, break?
    pub fn second_opinion(&mut self) {
        let mut tags = vec![];
        let roots: Vec<Nid> = (0..self.m.nodes.len())
            .filter(|n| {
                let x = self.m.n(*n);
                !x.dead && matches!(x.ty, Ty::Element | Ty::Document) && self.m.container(*n).is_none()
            })
            .collect();
        for n in roots {
            let r = match self.try_real(n) {
                Some(r) => r,
                None => continue,
            };
            let opinion = catch(|| {
                quiet(|| {
                    let mut tags = vec![];
                    let mut said = vec![];
                    if real_items(&r, &mut said).is_none() {
                        return tags;
                    }
                    if self.m.n(n).mdoc.doctype.is_none() {
                        let text = r.to_string();
                        let body = if is_document(&r) { xmlread::declaration(&text).map(|x| x.1) } else { Ok(&text[..]) };
                        if body.and_then(|t| same_items(&said, t)).is_err() {
                            tags.push("S03");
                        }
                    }
                    let found = if is_document(&r) {
                        as_document(&r).map(|d| d.get_elements_by_tag_name("*"))
                    } else {
                        as_element(&r).map(|e| e.get_elements_by_tag_name("*"))
                    };
                    let names: Vec<String> = found.unwrap_or_default().iter().map(|e| e.node_name().to_string()).collect();
                    let want: Vec<String> = said
                        .iter()
                        .filter_map(|i| if let Item::Open(q, _) = i { Some(q.clone()) } else { None })
                        .skip(usize::from(is_element(&r)))
                        .collect();
                    if names != want {
                        tags.push("Q01");
                    }
                    tags
                })
            });
            if let Outcome::Done(more) = opinion {
                tags.extend(more);
            }
        }
        if let Some(v) = &mut self.viol {
            v.tags.extend(tags);
        }
    }
    fn orphan(&self, n: Nid) -> bool {
        let x = self.m.n(n);
        [x.doc, x.parent, x.owner].into_iter().flatten().any(|o| self.m.n(o).dead)
    }
    fn fail_state(&mut self, n: Nid, aspect: Aspect, msg: String) {
        let mut tags: BTreeSet<&'static str> = BTreeSet::new();
        match aspect {
            Aspect::Ids => {
                tags.insert("I01");
            }
            Aspect::Ns => {
                tags.insert("N01");
            }
            Aspect::Root => {
                tags.insert("Q01");
            }
            Aspect::Freed => {
                tags.insert("L02");
            }
            Aspect::Alive if self.how == How::Ok => {
                tags.insert("L01");
            }
            Aspect::Alive => (),
            Aspect::Owner => {
                tags.insert("A02");
            }
            Aspect::AttrValue | Aspect::AttrList => {
                tags.insert("A01");
            }
            Aspect::Identity => {
                tags.insert("R01");
            }
            Aspect::Value | Aspect::Links | Aspect::Doc => (),
        }
        if self.how != How::Ok && aspect != Aspect::Freed {
            tags.insert("T04");
        }
        if !matches!(aspect, Aspect::Ids | Aspect::Ns | Aspect::Root | Aspect::Freed) {
            if self.how == How::Ok {
                tags.extend(self.area);
            } else {
                tags.extend(self.area.iter().filter(|t| ["C01", "C02", "S01", "A02"].contains(t)));
            }
        }
        if aspect != Aspect::Freed {
            if self.kin[n] != 0 && self.args.iter().any(|x| *x != n && self.kin[*x] == self.kin[n]) {
                tags.insert("K01");
            }
            if self.orphan(n) {
                tags.insert("L01");
            }
            let home = self.m.home(n);
            if !self.args.is_empty()
                && home.is_some()
                && self.args.iter().all(|x| self.m.home(*x).is_some() && self.m.home(*x) != home)
            {
                tags.insert("X01");
            }
        }
        let broken = catch(|| quiet(|| self.broken_links()));
        match broken {
            Outcome::Done(Some(what)) => {
                tags.insert("T01");
                return self.fail(tags, format!("{} (links disagree: {})", msg, what));
            }
            Outcome::Done(None) => (),
            _ => {
                tags.insert("T01");
            }
        }
        self.fail(tags, msg);
    }
    fn show(&self, n: Nid) -> String {
        let x = self.m.n(n);
        format!("#{}:{:?} {}", n, x.ty, x.name.qname())
    }

    /// What is known about the links from the real nodes alone.
    fn broken_links(&self) -> Option<String> {
        for n in 0..self.m.nodes.len() {
            if self.m.n(n).dead || self.m.limbo.contains(&n) {
                continue;
            }
            let r = match self.try_real(n) {
                Some(r) => r,
                None => continue,
            };
            let list = r.child_nodes();
            for (i, c) in list.iter().enumerate() {
                if c.parent_node().as_ref() != Some(&r) && !is_attribute(&r) {
                    return Some(format!("a child of {} has another parent", self.show(n)));
                }
                if list[..i].contains(c) {
                    return Some(format!("{} has a child twice", self.show(n)));
                }
                if c.previous_sibling().as_ref() != i.checked_sub(1).map(|j| &list[j])
                    || c.next_sibling().as_ref() != list.get(i + 1)
                {
                    return Some(format!("siblings of the children of {}", self.show(n)));
                }
                let home = if is_document(&r) { Some(r.clone()) } else { r.owner_document() };
                if c.owner_document() != home {
                    return Some(format!("owner document of a child of {}", self.show(n)));
                }
            }
            if r.first_child().as_ref() != list.first() || r.last_child().as_ref() != list.last() {
                return Some(format!("first or last child of {}", self.show(n)));
            }
            if let Some(p) = r.parent_node() {
                if !p.child_nodes().contains(&r) {
                    return Some(format!("{} is not a child of its parent", self.show(n)));
                }
            }
            if is_attribute(&r)
                && (r.parent_node().is_some()
                    || r.previous_sibling().is_some()
                    || r.next_sibling().is_some())
            {
                return Some(format!("attribute {} has a parent or siblings", self.show(n)));
            }
            for a in r.attributes().values() {
                if a.owner_element().as_ref() != Some(&r) {
                    return Some(format!("an attribute of {} has another owner", self.show(n)));
                }
            }
            let mut up = r.parent_node();
            let mut count = 0;
            while let Some(p) = up {
                count += 1;
                if p == r || count > 10_000 {
                    return Some(format!("{} is its own ancestor", self.show(n)));
                }
                up = p.parent_node();
            }
        }
        None
    }

    // ------------------------------------------------------------------------ comparison of state

    fn amb(&self, x: Option<Nid>) -> bool {
        x.is_some_and(|x| self.m.limbo.contains(&x))
    }

    /// Does a link of the real node agree with the model.
    fn same(&self, r: &Option<RefNode>, m: Option<Nid>) -> bool {
        match (r, m) {
            (None, None) => true,
            (None, Some(m)) => self.m.limbo.contains(&m),
            (Some(_), None) => false,
            (Some(r), Some(m)) => self.try_real(m).as_ref() == Some(r),
        }
    }

    fn same_list(&self, r: &[RefNode], m: &[Nid]) -> bool {
        r.len() == m.len() && r.iter().zip(m).all(|(r, m)| self.try_real(*m).as_ref() == Some(r))
    }

    fn ns_clear(&self, e: Nid) -> bool {
        let mut cur = Some(e);
        while let Some(c) = cur {
            if self.m.n(c).ty == Ty::Element && self.m.ns_unclear(c) {
                return false;
            }
            if self.m.limbo.contains(&c) || self.amb(self.m.n(c).doc) {
                return false;
            }
            cur = self.m.parent(c);
        }
        true
    }

    fn check_ns(&self, e: Nid, r: &RefNode) -> Option<(Aspect, String)> {
        if !self.ns_clear(e) {
            return None;
        }
        let ns: RefNamespaced<'_> = match as_element_namespaced(r) {
            Ok(x) => x,
            Err(_) => return Some((Aspect::Identity, "is not an element any more".into())),
        };
        let on = self.m.doc(e).is_some_and(|d| self.m.n(d).mdoc.namespaces);
        let own = &self.m.n(e).nsmap;
        let mut prefixes: BTreeSet<Option<&str>> = PREFIXES.iter().copied().collect();
        let mut uris: BTreeSet<&str> = URIS.iter().copied().chain(["", "urn:", "urn:11", " urn:1"]).collect();
        let mut cur = Some(e);
        while let Some(c) = cur {
            prefixes.extend(self.m.n(c).nsmap.keys().map(|k| k.as_deref()));
            uris.extend(self.m.n(c).nsmap.values().map(|v| &**v));
            cur = self.m.parent(c);
        }
        for p in &prefixes {
            let key = p.map(String::from);
            let want = own.get(&key).filter(|_| on).cloned();
            if ns.contains_mapping(*p) != want.is_some() {
                return Some((Aspect::Ns, format!("contains_mapping({:?}), expected {:?}", p, want)));
            }
            let got = ns.get_namespace(*p);
            if got != want {
                return Some((Aspect::Ns, format!("get_namespace({:?}) is {:?}, expected {:?}", p, got, want)));
            }
            let want = self.m.resolve_ns(e, &key).filter(|_| on);
            let got = ns.resolve_namespace(*p);
            if got != want {
                return Some((Aspect::Ns, format!("resolve_namespace({:?}) is {:?}, expected {:?}", p, got, want)));
            }
        }
        for u in &uris {
            let keys: Vec<&Option<String>> =
                own.iter().filter(|(_, v)| on && v == u).map(|(k, _)| k).collect();
            if ns.contains_mapped_namespace(u) == keys.is_empty() {
                return Some((Aspect::Ns, format!("contains_mapped_namespace({}), mapped by {:?}", u, keys)));
            }
            let ok = |got: &NamespacePrefix, keys: &[&Option<String>]| match got {
                NamespacePrefix::None => keys.is_empty(),
                NamespacePrefix::Default => keys.contains(&&None),
                NamespacePrefix::Some(p) => keys.contains(&&Some(p.clone())),
            };
            let got = ns.get_prefix(u);
            if !ok(&got, &keys) {
                return Some((Aspect::Ns, format!("get_prefix({}) is {:?}, mapped by {:?}", u, got, keys)));
            }
            let all = if on { self.m.prefixes_for(e, u) } else { vec![] };
            let got = ns.resolve_prefix(u);
            if !ok(&got, &all.iter().collect::<Vec<_>>()) {
                return Some((Aspect::Ns, format!("resolve_prefix({}) is {:?}, in scope are {:?}", u, got, all)));
            }
        }
        None
    }

    fn check_node(&self, n: Nid, with_ns: bool) -> Option<(Aspect, String)> {
        let x = self.m.n(n);
        let r = match self.try_real(n) {
            Some(r) => r,
            None => return Some((Aspect::Alive, "has been freed".into())),
        };
        if type_of(&r) != Some(x.ty) || name_of(&r) != x.name {
            return Some((Aspect::Identity, format!("became {:?} {}", r.node_type(), r.node_name())));
        }
        if r.namespace_uri() != x.name.ns
            || Node::local_name(&r) != x.name.local
            || Node::prefix(&r) != x.name.prefix
            || r.node_name().to_string() != x.name.qname()
        {
            return Some((Aspect::Identity, format!("has another name than {}", x.name.qname())));
        }
        if x.ty != Ty::Attribute && r.node_value() != x.value {
            return Some((Aspect::Value, format!("has value {:?}, expected {:?}", r.node_value(), x.value)));
        }
        let owner_document = r.owner_document();
        if !self.same(&owner_document, self.m.doc(n)) {
            return Some((Aspect::Doc, format!("has another owner document (present {})", owner_document.is_some())));
        }
        let children = r.child_nodes();
        if !self.same_list(&children, &x.children) {
            let got: Vec<String> = children.iter().map(|c| self.describe(c)).collect();
            return Some((Aspect::Links, format!("has children {:?}, expected {:?}", got, x.children)));
        }
        if !self.same(&r.first_child(), x.children.first().copied())
            || !self.same(&r.last_child(), x.children.last().copied())
            || r.has_child_nodes() == x.children.is_empty()
        {
            return Some((Aspect::Links, "has another first or last child".into()));
        }
        let p = if x.ty == Ty::Attribute { None } else { self.m.parent(n) };
        if !self.same(&r.parent_node(), p) {
            return Some((Aspect::Links, format!("has another parent (present {}), expected {:?}", r.parent_node().is_some(), p)));
        }
        if !self.amb(p) {
            let (mut prev, mut next) = (None, None);
            if let Some(p) = p {
                let list = &self.m.n(p).children;
                let at = list.iter().position(|c| *c == n).expect("model");
                prev = at.checked_sub(1).map(|i| list[i]);
                next = list.get(at + 1).copied();
            }
            if !self.same(&r.previous_sibling(), prev) || !self.same(&r.next_sibling(), next) {
                return Some((Aspect::Links, "has other siblings".into()));
            }
        }
        match x.ty {
            Ty::Element => {
                let map = r.attributes();
                if map.len() != x.attrs.len() || r.has_attributes() == x.attrs.is_empty() {
                    let mut got: Vec<String> = map.values().map(|c| self.describe(c)).collect();
                    got.sort();
                    return Some((Aspect::AttrList, format!("has attributes {:?}, expected {:?}", got, x.attrs)));
                }
                let e = match as_element(&r) {
                    Ok(e) => e,
                    Err(_) => return Some((Aspect::Identity, "is not an element any more".into())),
                };
                if e.tag_name() != x.name.qname() {
                    return Some((Aspect::Identity, "has another tag name".into()));
                }
                for a in &x.attrs {
                    let name = &self.m.n(*a).name;
                    let q = name.qname();
                    let ra = self.try_real(*a);
                    if ra.is_none() || map.get(&ra.as_ref().unwrap().node_name()) != ra.as_ref() {
                        return Some((Aspect::AttrList, format!("does not list attribute {}", q)));
                    }
                    if e.get_attribute_node(&q) != ra || !e.has_attribute(&q) {
                        return Some((Aspect::AttrList, format!("does not find attribute {}", q)));
                    }
                    if let Some(ns) = &name.ns {
                        if e.get_attribute_node_ns(ns, &name.local) != ra || !e.has_attribute_ns(ns, &name.local) {
                            return Some((Aspect::AttrList, format!("does not find attribute {{{}}}{}", ns, name.local)));
                        }
                    }
                    match self.m.attr_value(*a) {
                        Val::Unknown => (),
                        v => {
                            let want = if let Val::Some(v) = v { Some(v) } else { None };
                            let got = e.get_attribute(&q);
                            if got != want {
                                return Some((Aspect::AttrValue, format!("attribute {} is {:?}, expected {:?}", q, got, want)));
                            }
                            if let Some(ns) = &name.ns {
                                let got = e.get_attribute_ns(ns, &name.local);
                                if got != want {
                                    return Some((Aspect::AttrValue, format!("attribute {{{}}}{} is {:?}, expected {:?}", ns, name.local, got, want)));
                                }
                            }
                        }
                    }
                }
                if with_ns {
                    return self.check_ns(n, &r);
                }
            }
            Ty::Attribute => {
                if !self.same(&r.owner_element(), self.m.owner(n)) {
                    return Some((Aspect::Owner, format!("has another owner (present {}), expected {:?}", r.owner_element().is_some(), self.m.owner(n))));
                }
                match self.m.attr_value(n) {
                    Val::Unknown => (),
                    v => {
                        let want = if let Val::Some(v) = v { Some(v) } else { None };
                        let got = r.value();
                        if got != want {
                            return Some((Aspect::AttrValue, format!("has value {:?}, expected {:?}", got, want)));
                        }
                        let got = r.node_value();
                        if got != want {
                            return Some((Aspect::AttrValue, format!("has node value {:?}, expected {:?}", got, want)));
                        }
                    }
                }
            }
            Ty::Text | Ty::Comment | Ty::CData => {
                let c = match as_character_data(&r) {
                    Ok(c) => c,
                    Err(_) => return Some((Aspect::Identity, "is not character data any more".into())),
                };
                let want =
                    x.value.as_ref().map(|v| if x.ty == Ty::CData { v.clone() } else { escape(v) });
                if c.data() != want || c.length() != want.as_ref().map_or(0, |w| w.len()) {
                    return Some((Aspect::Value, format!("has data {:?}, expected {:?}", c.data(), want)));
                }
            }
            Ty::Document => {
                let d = match as_document(&r) {
                    Ok(d) => d,
                    Err(_) => return Some((Aspect::Identity, "is not a document any more".into())),
                };
                if !self.same(&d.document_element(), self.m.root_of(n)) {
                    return Some((Aspect::Root, "has another document element".into()));
                }
                if !self.same(&d.doc_type(), x.mdoc.doctype) {
                    return Some((Aspect::Links, "has another document type".into()));
                }
                let got = declared(&r);
                if got != x.mdoc.decl {
                    return Some((Aspect::Value, format!("has declaration {:?}, expected {:?}", got, x.mdoc.decl)));
                }
                if !self.m.limbo.contains(&n) {
                    let mut ids: BTreeSet<String> = IDS.iter().chain(&["v1", "r0", "", "i", " i1", "i11"]).map(|s| s.to_string()).collect();
                    for (a, x) in self.m.nodes.iter().enumerate() {
                        if x.ty == Ty::Attribute && !x.dead && x.doc == Some(n) && self.m.is_id_attr(a) {
                            if let Val::Some(v) = self.m.attr_value(a) {
                                ids.insert(v);
                            }
                        }
                    }
                    for id in &ids {
                        if let Some(e) = self.check_id(n, &d.get_element_by_id(id), id) {
                            return Some((Aspect::Ids, e));
                        }
                    }
                }
            }
            Ty::Pi => {
                let p = match as_processing_instruction(&r) {
                    Ok(p) => p,
                    Err(_) => return Some((Aspect::Identity, "is not an instruction any more".into())),
                };
                let len = x.value.as_ref().map_or(0, |v| v.len());
                if p.target() != x.name.qname() || p.data() != x.value || p.length() != len {
                    return Some((Aspect::Value, format!("has target {:?} and data {:?}", p.target(), p.data())));
                }
            }
            Ty::DocType | Ty::Entity | Ty::Notation => {
                let got = match x.ty {
                    Ty::DocType => as_document_type(&r).map(|t| (t.public_id(), t.system_id())),
                    Ty::Entity => as_entity(&r).map(|t| (t.public_id(), t.system_id())),
                    _ => as_notation(&r).map(|t| (t.public_id(), t.system_id())),
                };
                if got.as_ref().ok() != Some(&x.mdoc.ids) {
                    return Some((Aspect::Value, format!("has identifiers {:?}, expected {:?}", got, x.mdoc.ids)));
                }
                if x.ty == Ty::DocType {
                    let t = as_document_type(&r).unwrap();
                    if !t.entities().is_empty() || !t.notations().is_empty() || t.internal_subset().is_some() {
                        return Some((Aspect::Value, "has declarations nobody made".into()));
                    }
                }
                if x.ty == Ty::Entity && as_entity(&r).unwrap().notation_name().is_some() {
                    return Some((Aspect::Value, "has a notation nobody set".into()));
                }
            }
            Ty::EntityRef | Ty::Fragment => {
                if x.ty == Ty::Fragment && as_document_fragment(&r).is_err()
                    || x.ty == Ty::EntityRef && as_entity_reference(&r).is_err()
                {
                    return Some((Aspect::Identity, "is of another kind".into()));
                }
            }
        }
        None
    }

    fn check_id(&self, d: Nid, got: &Option<RefNode>, id: &str) -> Option<String> {
        let (all, firm) = self.m.id_carriers(d, id);
        let ok = match got {
            None => firm.is_empty() || firm.iter().all(|f| self.m.limbo.contains(f)),
            Some(g) => {
                let pool = if firm.is_empty() { &all } else { &firm };
                pool.iter().any(|e| self.try_real(*e).as_ref() == Some(g))
            }
        };
        if ok {
            None
        } else {
            let got = got.as_ref().map(|g| self.describe(g));
            Some(format!("id {} is found at {:?}, expected {:?}", id, got, firm))
        }
    }

    fn describe(&self, r: &RefNode) -> String {
        for n in (0..self.up.len()).rev() {
            if self.m.n(n).dead {
                continue;
            }
            if self.try_real(n).as_ref() == Some(r) {
                return format!("#{}", n);
            }
        }
        format!("unknown {:?} {}", r.node_type(), r.node_name())
    }
    fn find_nid(&self, r: &RefNode) -> Option<Nid> {
        (0..self.up.len()).find(|n| !self.m.n(*n).dead && self.try_real(*n).as_ref() == Some(r))
    }

    fn reachable(&self) -> BTreeSet<Nid> {
        let mut set = BTreeSet::new();
        for c in &self.clients {
            for (n, _) in c {
                self.m.below(*n, &mut set);
            }
        }
        for n in &self.pins {
            self.m.below(*n, &mut set);
        }
        set
    }

    /// Decide what must be alive and what must have been freed by now.
    fn collect(&mut self) {
        let reach = self.reachable();
        if self.depth > 0 {
            self.m.limbo =
                (0..self.m.nodes.len()).filter(|n| !self.m.n(*n).dead && !reach.contains(n)).collect();
            return;
        }
        self.m.limbo.clear();
        for n in 0..self.m.nodes.len() {
            if self.m.n(n).dead || reach.contains(&n) {
                continue;
            }
            self.m.nodes[n].dead = true;
            if self.try_real(n).is_none() {
                self.up[n] = None;
            } else if self.viol.is_none() {
                let msg = format!("{} is still alive, though nobody can reach it", self.show(n));
                self.fail_state(n, Aspect::Freed, msg);
            }
        }
    }

    fn check_all(&mut self) {
        if self.unwatched {
            return;
        }
        self.rotate += 1;
        self.stats.checks += 1;
        let alive: Vec<Nid> = (0..self.m.nodes.len())
            .filter(|n| !self.m.n(*n).dead && !self.m.limbo.contains(n))
            .collect();
        for (i, n) in alive.iter().enumerate() {
            let with_ns = self.cfg.ns || i == self.rotate % alive.len();
            match catch(|| quiet(|| self.check_node(*n, with_ns))) {
                Outcome::Done(None) => (),
                Outcome::Done(Some((aspect, what))) => {
                    let msg = format!("{} {}", self.show(*n), what);
                    return self.fail_state(*n, aspect, msg);
                }
                Outcome::Unwound => return self.fail(["L01"], "unwound while observing".into()),
                Outcome::Panicked(p) => {
                    let mut tags: Vec<&'static str> = self.area.to_vec();
                    tags.push("L01");
                    if self.how != How::Ok {
                        tags.push("T04");
                    }
                    let msg = format!("observing {} panicked: {}", self.show(*n), p);
                    return self.fail(tags, msg);
                }
            }
        }
        if let Some(what) = check_log_doc() {
            self.fail(["X01"], what);
        }
        if self.rotate % 2 == 0 && !alive.is_empty() {
            let n = alive[self.rotate / 2 % alive.len()];
            if let Outcome::Done(Some(what)) = catch(|| quiet(|| self.check_query(n))) {
                self.fail(["Q01"], what);
            }
        }
    }

    /// Look for elements of a name that is there.
    fn check_query(&self, n: Nid) -> Option<String> {
        let start = match self.m.n(n).ty {
            Ty::Document => self.m.root_of(n)?,
            Ty::Element => n,
            _ => return None,
        };
        let mut all = vec![];
        let below = self.m.n(n).ty == Ty::Element;
        self.m.by_tag(start, &|_| true, &mut all);
        let name = &self.m.n(all[self.rotate / 3 % all.len()]).name;
        let (ns, q) = (name.ns.as_deref().unwrap_or("*"), name.qname());
        let (mut want, mut want_ns) = (vec![], vec![]);
        self.m.by_tag(start, &|m| m.qname() == q, &mut want);
        self.m.by_tag(start, &|m| m.local == name.local && (ns == "*" || m.ns == name.ns), &mut want_ns);
        if below {
            // an element is searched for its descendants
            want.retain(|k| *k != n);
            want_ns.retain(|k| *k != n);
        }
        let r = self.try_real(n)?;
        let (got, got_ns) = match self.m.n(n).ty {
            Ty::Document => {
                let d = as_document(&r).ok()?;
                (d.get_elements_by_tag_name(&q), d.get_elements_by_tag_name_ns(ns, &name.local))
            }
            _ => {
                let e = as_element(&r).ok()?;
                (e.get_elements_by_tag_name(&q), e.get_elements_by_tag_name_ns(ns, &name.local))
            }
        };
        for (got, want) in [(got, want), (got_ns, want_ns)] {
            if !self.same_list(&got, &want) {
                let g: Vec<String> = got.iter().map(|r| self.describe(r)).collect();
                return Some(format!("the elements {} {} of {} are {:?}, expected {:?}", ns, q, self.show(n), g, want));
            }
        }
        None
    }

    // --------------------------------------------------------------------------------- book-keeping

    fn hold(&mut self, client: usize, n: Nid, r: RefNode) {
        self.clients[client].push((n, r));
        if self.depth == 0 && self.clients[client].len() > SLOTS {
            // documents are kept longer than other nodes
            let at = self.clients[client].iter().position(|s| self.m.n(s.0).ty != Ty::Document);
            let _dropped = self.clients[client].remove(at.unwrap_or(0));
        }
    }

    fn enrol(&mut self, r: &RefNode, n: Nid) {
        while self.up.len() <= n {
            self.up.push(None);
        }
        while self.kin.len() <= n {
            self.kin.push(0);
        }
        self.up[n] = Some(weak(r));
    }

    /// Tie nodes the model expects to the real nodes found in their places.
    fn bind(&mut self, n: Nid, r: &RefNode) -> std::result::Result<(), String> {
        if let Some(other) = self.find_nid(r) {
            if other != n {
                self.clash = Some((n, other));
                return Err(format!("{} is the same node as {}", self.show(n), self.show(other)));
            }
        }
        self.enrol(r, n);
        let kids = r.child_nodes();
        let want = self.m.n(n).children.clone();
        if kids.len() != want.len() {
            return Err(format!("{} has {} children, expected {}", self.show(n), kids.len(), want.len()));
        }
        for (c, k) in want.iter().zip(&kids) {
            self.bind(*c, k)?;
        }
        let attrs = r.attributes();
        let want = self.m.n(n).attrs.clone();
        if attrs.len() != want.len() {
            return Err(format!("{} has {} attributes, expected {}", self.show(n), attrs.len(), want.len()));
        }
        for a in want {
            match attrs.values().find(|x| name_of(x) == self.m.n(a).name) {
                Some(k) => self.bind(a, k)?,
                None => return Err(format!("{} lacks attribute {}", self.show(n), self.m.n(a).name.qname())),
            }
        }
        match self.m.n(n).mdoc.doctype {
            Some(dt) if self.up.get(dt).is_none_or(|u| u.is_none()) => {
                match as_document(r).ok().and_then(|d| d.doc_type()) {
                    Some(t) => self.bind(dt, &t)?,
                    None => return Err(format!("{} lacks its document type", self.show(n))),
                }
            }
            _ => (),
        }
        Ok(())
    }
    fn bind_or_fail(&mut self, n: Nid, r: &RefNode) -> bool {
        while self.up.len() < self.m.nodes.len() {
            self.up.push(None);
            self.kin.push(0);
        }
        let res = quiet(|| self.bind(n, r));
        while self.kin.len() < self.m.nodes.len() {
            self.kin.push(0);
            self.up.push(None);
        }
        match res {
            Ok(()) => true,
            Err(e) => {
                let mut tags: Vec<&'static str> = self.area.to_vec();
                if let Some((n, other)) = self.clash.take() {
                    let home = self.m.home(other);
                    if home.is_some() && home != self.m.home(n) {
                        tags.push("X01");
                    }
                }
                self.fail(tags, e);
                false
            }
        }
    }
    fn new_node(&mut self, client: usize, n: Nid, r: RefNode) {
        if self.bind_or_fail(n, &r) {
            self.args.push(n);
            self.hold(client, n, r);
        }
    }

    /// Everything a client can navigate to.
    fn visible(&self, client: usize) -> BTreeSet<Nid> {
        let mut set = BTreeSet::new();
        let mut todo: Vec<Nid> = self.clients[client].iter().map(|s| s.0).collect();
        while let Some(n) = todo.pop() {
            if self.m.n(n).dead || self.m.limbo.contains(&n) || self.amb(self.m.n(n).doc) || !set.insert(n) {
                continue;
            }
            let x = self.m.n(n);
            todo.extend(x.children.iter().chain(&x.attrs));
            todo.extend(self.m.parent(n));
            todo.extend(self.m.owner(n));
            todo.extend(self.m.doc(n));
            todo.extend(x.mdoc.doctype);
        }
        set
    }
    fn choose(&self, all: &[Nid], sel: u32) -> Option<Nid> {
        all.iter().copied().max_by_key(|n| Rng::mix(self.labels[*n], sel as u64))
    }
    /// Nodes are told apart by the step that made them.
    fn label(&mut self, uid: u32) {
        let mut k = 0;
        while self.labels.len() < self.m.nodes.len() {
            self.labels.push(Rng::mix(uid as u64, k));
            k += 1;
        }
    }
    fn pick(&mut self, client: usize, sel: u32, pred: impl Fn(&World, Nid) -> bool) -> Option<Nid> {
        let all: Vec<Nid> = self.visible(client).into_iter().filter(|n| pred(self, *n)).collect();
        let n = self.choose(&all, sel)?;
        self.args.push(n);
        Some(n)
    }

    fn text(&self, sel: u32, sel2: u32) -> String {
        if sel % 6 == 5 && !self.cfg.unique {
            return composed(sel / 6, self.cfg.markup);
        }
        let mut t = if self.cfg.markup && sel % 3 == 0 {
            MARKUP[(sel / 3) as usize % MARKUP.len()].to_string()
        } else {
            PLAIN[(sel / 3) as usize % PLAIN.len()].to_string()
        };
        if self.cfg.wide && sel2 % 5 == 1 && !self.cfg.unique {
            t = t.repeat([33, 130, 1000, 5000][(sel2 / 5) as usize % 4]);
        }
        if sel2 % 4 == 0 && !self.cfg.unique {
            t.push_str(PLAIN[(sel2 / 4) as usize % PLAIN.len()]);
        }
        t
    }
    fn marked(&self, t: String, n: Nid) -> String {
        if self.cfg.unique {
            format!("{}n{}z", t, n)
        } else {
            t
        }
    }
    fn value(&self, name: &MName, sel: u32) -> String {
        if sel % 12 == 7 && !name.is_ns_decl() && name.local != "id" {
            let v = composed(sel / 12, self.cfg.markup);
            if attr_normal(&v).is_some() {
                return v;
            }
        }
        let pool: &[&str] = if name.is_ns_decl() {
            return match self.special(sel) {
                Some(k) => dialect(self.cfg.names).uris[k % 3].clone(),
                None => of_pool(URIS, URIS_OFTEN, sel).to_string(),
            };
        } else if name.local == "id" && sel % 5 != 0 {
            if let Some(k) = self.special(sel) {
                return dialect(self.cfg.names).ids[k % 3].clone();
            }
            // the same identifier can be written in several ways
            return match sel % 11 {
                1 if self.cfg.wide => return format!("w{}", sel / 11 % 70),
                0 => IDFORMS[(sel / 11) as usize % IDFORMS.len()],
                _ => of_pool(IDS, IDS_OFTEN, sel / 5),
            }
            .to_string();
        } else if self.cfg.markup && sel % 2 == 0 {
            VMARKUP
        } else {
            VALUES
        };
        pool[(sel / 10) as usize % pool.len()].to_string()
    }
    /// A name the run has besides the usual ones.
    fn special(&self, sel: u32) -> Option<usize> {
        if self.cfg.names != 0 && sel / 3 % 5 == 2 {
            Some((sel / 15) as usize)
        } else {
            None
        }
    }
    fn ename(&self, sel: u32) -> (Option<&'static str>, &'static str) {
        if let Some(k) = self.special(sel) {
            let all = &dialect(self.cfg.names).elements;
            let (ns, q) = &all[k % all.len()];
            return (ns.as_deref(), q);
        }
        of_pool(ENAMES, ENAMES_OFTEN, sel)
    }
    fn aname(&self, sel: u32) -> (Option<&'static str>, &'static str) {
        if let Some(k) = self.special(sel) {
            let all = &dialect(self.cfg.names).attributes;
            let (ns, q) = &all[k % all.len()];
            return (ns.as_deref(), q);
        }
        of_pool(ANAMES, ANAMES_OFTEN, sel)
    }

    /// The name of something that is in no namespace.
    fn tname(&self, usual: &[&'static str], sel: u32) -> &'static str {
        match self.special(sel) {
            Some(k) => {
                let all = &dialect(self.cfg.names).elements;
                &all[k % all.len()].1
            }
            None => usual[sel as usize % usual.len()],
        }
    }

    /// Would an attribute contain a reference nobody has declared after this.
    fn turns_unknown(&self, f: impl FnOnce(&mut Model)) -> bool {
        let mut m = self.m.clone();
        f(&mut m);
        (0..m.nodes.len()).any(|n| {
            m.n(n).ty == Ty::Attribute && !m.n(n).dead && m.attr_value(n) == Val::Unknown
        })
    }

    // ---------------------------------------------------------------------------------- execution

    fn say(&mut self, what: String) {
        self.trace.s(&what);
        if self.keep_log {
            self.log.push(format!("{}: {}", self.cur, what));
        }
    }

    fn count(&mut self, op: Op, how: &str) {
        *self.stats.ops.entry(format!("{}/{}", op_name(op), how)).or_insert(0) += 1;
    }

    /// Call into the real code.
    fn call<T>(&mut self, st: &Step, f: impl FnOnce() -> T) -> Outcome<T> {
        if self.depth == 0 {
            set_panic_at(st.lp);
        }
        let out = catch(f);
        self.cut = false;
        if self.depth == 0 {
            let fired = st.lp > 0 && panic_pending() == 0;
            set_panic_at(0);
            self.cut = fired;
            if fired {
                self.fault("unwind_in_diagnostic");
            }
        }
        out
    }

    fn panicked(&mut self, exp: &Expect, p: &str) {
        let mut tags: Vec<&'static str> = self.area.to_vec();
        if !exp.must.is_empty() {
            tags.push("T03");
        }
        if self.args.iter().any(|n| self.orphan(*n)) {
            tags.push("L01");
        }
        if p.contains("seams.rs") || p.contains("log ") {
            tags.push("X01");
        }
        self.reason_tags(&exp.must, &mut tags);
        self.fail(tags, format!("panicked: {}", p));
    }

    fn reason_tags(&self, must: &[Ek], tags: &mut Vec<&'static str>) {
        for e in must {
            match e {
                Ek::InUse => tags.push("A02"),
                Ek::Syntax if !must.contains(&Ek::InvalidChar) => tags.push("I01"),
                Ek::WrongDocument => tags.push("X01"),
                _ => (),
            }
        }
    }

    /// Compare the result of an edit with what was expected; the value of a success is returned.
    fn verdict<T>(&mut self, st: &Step, exp: &Expect, out: Outcome<xml_dom::level2::Result<T>>) -> Option<T> {
        match out {
            Outcome::Done(Ok(v)) => {
                self.count(st.op, "ok");
                self.say(format!("{} ok", op_name(st.op)));
                self.how = How::Ok;
                if !exp.must.is_empty() {
                    let mut tags: Vec<&'static str> = self.area.to_vec();
                    tags.push("T03");
                    self.reason_tags(&exp.must, &mut tags);
                    if exp.must.contains(&Ek::Hierarchy) {
                        tags.push("T01");
                    }
                    let msg = format!("{} of {:?} was accepted, expected {:?}", op_name(st.op), self.args, exp.must);
                    self.fail(tags, msg);
                    return None;
                }
                Some(v)
            }
            Outcome::Done(Err(e)) => {
                let k = kind_of(&e);
                self.count(st.op, &format!("{:?}", k));
                self.say(format!("{} {:?}", op_name(st.op), k));
                self.how = How::Err;
                if exp.must.contains(&k) || exp.may.contains(&k) {
                    if exp.must.contains(&k) {
                        self.fault("refused_edit");
                    }
                    return None;
                }
                let mut tags: Vec<&'static str> = self.area.to_vec();
                tags.push("T03");
                let mut reasons = exp.must.clone();
                if exp.must.is_empty() {
                    reasons.push(k);
                }
                self.reason_tags(&reasons, &mut tags);
                if self.args.iter().any(|n| self.orphan(*n)) {
                    tags.push("L01");
                }
                let msg = format!("{} of {:?} gave {:?}, expected {:?}", op_name(st.op), self.args, e, exp);
                self.fail(tags, msg);
                None
            }
            Outcome::Unwound => {
                self.count(st.op, "unwound");
                self.say(format!("{} unwound", op_name(st.op)));
                self.how = How::Unwound;
                None
            }
            Outcome::Panicked(p) => {
                self.count(st.op, "panicked");
                self.panicked(exp, &p);
                None
            }
        }
    }

    /// For calls that cannot be refused.
    fn done<T>(&mut self, st: &Step, out: Outcome<T>) -> Option<T> {
        let out = match out {
            Outcome::Done(v) => Outcome::Done(Ok(v)),
            Outcome::Unwound => Outcome::Unwound,
            Outcome::Panicked(p) => Outcome::Panicked(p),
        };
        self.verdict(st, &Expect::ok(), out)
    }

    fn returned(&mut self, r: &RefNode, n: Nid) {
        if self.try_real(n).as_ref() != Some(r) {
            let mut tags: Vec<&'static str> = self.area.to_vec();
            let msg = format!("returned {} instead of {}", self.describe(r), self.show(n));
            if tags.is_empty() {
                tags.push("T02");
            }
            self.fail(tags, msg);
        }
    }

    fn area_of(op: Op) -> &'static [&'static str] {
        match op {
            Op::NewDoc | Op::NewDocType => &["X01"],
            Op::CreateElement | Op::CreateText | Op::CreateData | Op::CreateRef | Op::CreateFragment => &["X01", "T01"],
            Op::CreateAttr => &["A01"],
            Op::Insert | Op::Append | Op::Replace | Op::Remove => &["T02"],
            Op::SetAttr | Op::SetAttrNs | Op::RemoveAttr | Op::RemoveAttrNs => &["A01"],
            Op::SetAttrNode | Op::RemoveAttrNode => &["A01", "A02"],
            Op::AttrSetValue | Op::AttrUnsetValue | Op::AttrQuery => &["A01"],
            Op::DataAppend | Op::DataInsert | Op::DataDelete | Op::DataReplace | Op::DataSubstring
            | Op::DataSet | Op::DataUnset => &["C01"],
            Op::Split => &["C02"],
            Op::Normalize => &["C03"],
            Op::Clone => &["K01"],
            Op::Drop | Op::Crash | Op::DropDoc | Op::Share => &["L01"],
            Op::Navigate => &["T01"],
            Op::GetById => &["I01"],
            Op::GetByTag | Op::GetByTagNs => &["Q01"],
            Op::NsQuery => &["N01"],
            Op::Save => &["S03"],
            Op::SaveFault => &["S01"],
            Op::SaveNested => &["S02"],
            Op::Bulk => &["T02"],
            Op::SetDecl => &["S03"],
            Op::CreateDecl => &["X01", "T01"],
            Op::NodeValue => &["C01"],
            Op::BadName => &["T03"],
            Op::Kind => &["R01"],
            Op::Tree => &["T02"],
            Op::Declare => &["A01"],
        }
    }

    pub fn exec(&mut self, st: &Step, at: usize) {
        self.cur = at;
        self.stats.steps += 1;
        self.area = Self::area_of(st.op);
        self.args.clear();
        self.how = How::Ok;
        self.m.touched.clear();
        let c = st.client as usize % self.clients.len();
        self.trace.u(st.op as u64);
        self.trace.u(c as u64);
        let applied = self.apply(c, st);
        self.label(st.uid);
        if !applied {
            self.stats.skipped += 1;
            self.trace.u(0xdead);
            return;
        }
        if self.viol.is_none() {
            self.collect();
            let leak = self.viol.take();
            self.check_all();
            if let Some(mut leak) = leak {
                leak.tags.extend(self.viol.take().iter().flat_map(|v| &v.tags));
                self.viol = Some(leak);
            }
        }
        let d = self.m.state_digest();
        self.stats.states.insert(d);
        self.trace.u(d);
        if self.keep_log {
            self.log_answers();
        }
    }

    fn exec_nested(&mut self, st: &Step) {
        let (area, args, how) = (self.area, std::mem::take(&mut self.args), self.how);
        self.depth += 1;
        self.collect();
        self.area = Self::area_of(st.op);
        self.how = How::Ok;
        let c = st.client as usize % self.clients.len();
        let applied = self.apply(c, st);
        self.label(st.uid);
        if applied {
            self.stats.nested += 1;
            self.fault("edit_during_output");
            if self.viol.is_none() {
                self.collect();
                self.check_all();
            }
            self.note_values();
        }
        self.depth -= 1;
        self.area = area;
        self.args = args;
        self.how = how;
    }

    fn log_answers(&mut self) {
        let alive: Vec<Nid> = (0..self.m.nodes.len()).filter(|n| !self.m.n(*n).dead).collect();
        let mut lines = vec![];
        let _ = catch(|| {
            quiet(|| {
                for n in &alive {
                    let r = match self.try_real(*n) {
                        Some(r) => r,
                        None => continue,
                    };
                    if self.m.n(*n).ty == Ty::Document {
                        if let Ok(d) = as_document(&r) {
                            for id in IDS.iter().chain(VALUES) {
                                if let Some(e) = d.get_element_by_id(id) {
                                    lines.push(format!("#{} id {} at {}", n, id, self.describe(&e)));
                                }
                            }
                        }
                    }
                    if let Ok(e) = as_element_namespaced(&r) {
                        for u in URIS {
                            if e.get_prefix(u) != NamespacePrefix::None || e.resolve_prefix(u) != NamespacePrefix::None {
                                lines.push(format!("#{} prefix {} {:?} {:?}", n, u, e.get_prefix(u), e.resolve_prefix(u)));
                            }
                        }
                        for (_, q) in ANAMES {
                            if let Some(a) = e.get_attribute_node(q) {
                                lines.push(format!("#{} attribute {} at {}", n, q, self.describe(&a)));
                            }
                        }
                        for u in URIS {
                            for l in ["k", "id"] {
                                if let Some(a) = e.get_attribute_node_ns(u, l) {
                                    lines.push(format!("#{} attribute {} {} at {}", n, u, l, self.describe(&a)));
                                }
                            }
                        }
                    }
                    if self.m.container(*n).is_none() {
                        lines.push(format!("#{} {}", n, dump(&r)));
                    }
                }
            })
        });
        self.log.extend(lines);
    }

    /// Carry out one step; false if there is nothing to apply it to.
    fn apply(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        match st.op {
            Op::NewDoc => self.new_doc(c, st),
            Op::NewDocType => {
                if self.m.nodes.iter().filter(|n| !n.dead && n.ty == Ty::DocType).count() > 3 {
                    return false;
                }
                let (public, system) = Self::external_id(a[0]);
                let q = ["a", "x:a", "名"][a[1] as usize % 3];
                let out = self.call(st, || get_implementation().create_document_type(q, public, system));
                if let Some(r) = self.verdict(st, &Expect::ok(), out) {
                    let n = self.m.add(MNode::new(Ty::DocType, MName::new(None, q), None, None));
                    self.m.nodes[n].mdoc.ids = (public.map(String::from), system.map(String::from));
                    self.new_node(c, n, r);
                }
                true
            }
            Op::CreateElement | Op::CreateText | Op::CreateData | Op::CreateRef | Op::CreateFragment
            | Op::CreateAttr => self.create(c, st),
            Op::Insert | Op::Append | Op::Replace | Op::Remove => self.structural(c, st),
            Op::SetAttr | Op::SetAttrNs | Op::RemoveAttr | Op::RemoveAttrNs | Op::SetAttrNode
            | Op::RemoveAttrNode | Op::AttrSetValue | Op::AttrUnsetValue | Op::AttrQuery => {
                self.attributes(c, st)
            }
            Op::DataAppend | Op::DataInsert | Op::DataDelete | Op::DataReplace | Op::DataSubstring
            | Op::DataSet | Op::DataUnset => self.data(c, st),
            Op::Split => self.split(c, st),
            Op::Normalize => self.normalize(c, st),
            Op::Clone => self.clone_op(c, st),
            Op::Drop => {
                if self.clients[c].is_empty() {
                    return false;
                }
                let i = self.slot(c, a[0]);
                let (n, r) = self.clients[c].remove(i);
                self.args.push(n);
                self.say(format!("drop #{}", n));
                self.fault("handle_dropped");
                let out = self.call(st, move || drop(r));
                self.done(st, out);
                true
            }
            Op::Crash => {
                if self.clients[c].is_empty() {
                    return false;
                }
                let slots = std::mem::take(&mut self.clients[c]);
                self.fault("client_crash");
                self.say(format!("client {} crashes", c));
                let rev = a[0] % 2 == 0;
                let out = self.call(st, move || {
                    if rev {
                        slots.into_iter().rev().for_each(drop)
                    } else {
                        drop(slots)
                    }
                });
                self.done(st, out);
                true
            }
            Op::DropDoc => {
                let d = match self.pick(c, a[0], |w, n| w.m.n(n).ty == Ty::Document) {
                    Some(d) => d,
                    None => return false,
                };
                self.fault("document_dropped");
                self.say(format!("document #{} dropped", d));
                // every node a client holds besides the document keeps being held
                let mut gone = vec![];
                for slots in self.clients.iter_mut() {
                    let mut i = 0;
                    while i < slots.len() {
                        if slots[i].0 == d {
                            gone.push(slots.remove(i));
                        } else {
                            i += 1;
                        }
                    }
                }
                let out = self.call(st, move || drop(gone));
                self.done(st, out);
                true
            }
            Op::Share => {
                if self.clients.len() < 2 || self.clients[c].is_empty() {
                    return false;
                }
                let (n, r) = self.clients[c][self.slot(c, a[0])].clone();
                let to = (c + 1 + a[1] as usize % (self.clients.len() - 1)) % self.clients.len();
                self.args.push(n);
                self.hold(to, n, r);
                self.count(st.op, "ok");
                true
            }
            Op::Navigate => self.navigate(c, st),
            Op::GetById | Op::GetByTag | Op::GetByTagNs | Op::NsQuery => self.query(c, st),
            Op::Save => self.save(c, st),
            Op::SaveFault => self.save_fault(c, st),
            Op::SaveNested => self.save_nested(c, st),
            Op::Bulk => self.bulk(c, st),
            Op::SetDecl => self.set_decl(c, st),
            Op::CreateDecl => self.create_decl(c, st),
            Op::NodeValue => self.node_value(c, st),
            Op::BadName => self.bad_name(c, st),
            Op::Kind => self.kind(c, st),
            Op::Tree => self.tree(c, st),
            Op::Declare => self.declare(c, st),
        }
    }

    fn slot(&self, c: usize, sel: u32) -> usize {
        let held: Vec<Nid> = self.clients[c].iter().map(|s| s.0).collect();
        let n = self.choose(&held, sel).expect("slots");
        held.iter().position(|x| *x == n).expect("slot")
    }

    fn new_doc(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        if self.m.nodes.iter().filter(|n| !n.dead && n.ty == Ty::Document).count() >= 4 {
            return false;
        }
        let lax = a[0] % 2 == 1;
        let namespaces = (a[0] / 2) % 4 != 0;
        let mut options = ProcessingOptions::new();
        if lax {
            options.set_assume_ids();
        }
        if namespaces {
            options.set_add_namespaces();
        }
        let mut exp = Expect::ok();
        let root_n = self.m.nodes.len() + 1;
        let (ns, qname): (Option<&str>, Option<String>) = match a[1] % 16 {
            0 => (None, None),
            1 => {
                exp.add(Ek::Namespace);
                (Some("urn:1"), None)
            }
            k => {
                let (ns, q) = if k % 4 == 3 { self.ename(a[4]) } else { ENAMES[k as usize % ENAMES.len()] };
                (ns, Some(if self.cfg.unique { format!("e{}", root_n) } else { q.to_string() }))
            }
        };
        let dt = if a[2] % 3 == 0 { self.pick(c, a[3], |w, n| w.m.n(n).ty == Ty::DocType) } else { None };
        if let Some(dt) = dt {
            if self.m.n(dt).doc.is_some() {
                exp.add(Ek::WrongDocument);
            }
        }
        let rdt = dt.map(|d| self.real(d));
        let plain = a[4] % 2 == 0 && !lax && namespaces;
        let out = self.call(st, || {
            if plain {
                get_implementation().create_document(ns, qname.as_deref(), rdt)
            } else {
                get_implementation_ext().create_document_with_options(ns, qname.as_deref(), rdt, options)
            }
        });
        if let Some(r) = self.verdict(st, &exp, out) {
            let d = self.m.add(MNode::new(Ty::Document, MName::plain("#document"), None, None));
            self.m.nodes[d].mdoc = MDoc { lax_ids: lax, namespaces, doctype: dt, ..MDoc::default() };
            if let Some(q) = &qname {
                let e = self.m.add(MNode::new(Ty::Element, MName::new(ns, q), None, Some(d)));
                self.m.nodes[e].parent = Some(d);
                self.m.nodes[d].children.push(e);
            }
            if let Some(dt) = dt {
                self.m.nodes[dt].doc = Some(d);
            }
            self.new_node(c, d, r);
        }
        true
    }

    fn full(&self) -> bool {
        self.room() == 0
    }
    fn room(&self) -> usize {
        let max = if self.cfg.wide { MAX_NODES_WIDE } else { MAX_NODES };
        max.saturating_sub(self.m.nodes.iter().filter(|n| !n.dead).count())
    }

    fn external_id(sel: u32) -> (Option<&'static str>, Option<&'static str>) {
        let public = ["-//P//1", "é public", "two  spaces", " pub ", "-//W3C//DTD X 1.0//EN"][(sel / 4) as usize % 5];
        let system = ["sys", "http://example.org/?a=1", "a  b", " sys ", "it's", "d&e;<f>"][(sel / 20) as usize % 6];
        match sel % 4 {
            0 => (None, Some(system)),
            1 => (Some(public), Some(system)),
            2 => (Some(public), None),
            _ => (None, None),
        }
    }

    /// Many nodes at once: children, a chain, or attributes.
    fn bulk(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        let count = (8 + a[1] as usize % 90).min(self.room());
        if !self.cfg.wide || count < 8 {
            return false;
        }
        let e = match self.pick_element(c, a[0]) {
            Some(e) if self.m.doc(e).is_some() => e,
            _ => return false,
        };
        let mut re = self.real(e);
        let d = self.m.doc(e).unwrap();
        let rd = self.real(d);
        // what is declared or identified comes after the nodes it is for
        let (kind, then) = match a[2] % 10 {
            5 => (0, 5),
            6 => (9, 6),
            7 => (2, 7),
            8 => return self.clear(st, e, re),
            9 => (9, 8),
            k => (k, 0),
        };
        let count = match then {
            5 => count * 2 / 3,
            7 => count / 2,
            _ => count,
        };
        if kind == 9 {
            // declared anew by an element inside
            let mut elements = vec![e; count.min(if then == 8 { 24 } else { 40 })];
            if then == 8 {
                match self.m.n(e).children.iter().copied().find(|x| self.m.n(*x).ty == Ty::Element) {
                    Some(x) => elements.extend(vec![x; elements.len() - a[3] as usize % 4]),
                    None => return false,
                }
            }
            return self.bulk_attributes(st, &elements, then);
        }
        // all of them of the same name as the element
        let twins = a[3] % 4 == 1 && !self.cfg.unique && kind < 3;
        let (twin_ns, twin) = (self.m.n(e).name.ns.clone(), self.m.n(e).name.qname());
        let long = if a[3] % 4 == 0 { "w".repeat(60) } else { String::new() };
        let (top, first) = match kind {
            4 => (d, self.m.n(d).children.first().copied()),
            _ => (e, None),
        };
        let mut rtop = self.real(top);
        let rfirst = first.map(|n| self.real(n));
        let name = |i: usize| format!("w{}{}", long, i);
        let base = self.m.nodes.len();
        let unique = self.cfg.unique;
        if kind == 3 && (0..count).any(|i| self.m.find_attr(e, &name(i)).is_some()) {
            return false;
        }
        let out = self.call(st, || -> xml_dom::level2::Result<Vec<RefNode>> {
            let mut made = vec![];
            let mut at = re.clone();
            for i in 0..count {
                let q = if unique { format!("e{}", base + i) } else { name(i % 7) };
                let element = || match &twin_ns {
                    _ if !twins => rd.create_element(&q),
                    None => rd.create_element(&twin),
                    Some(ns) => rd.create_element_ns(ns, &twin),
                };
                match kind {
                    0 => made.push(re.append_child(element()?)?),
                    1 if i % 2 == 0 => made.push(re.append_child(element()?)?),
                    1 => made.push(re.append_child(rd.create_text_node(&q))?),
                    2 => {
                        at = at.append_child(element()?)?;
                        made.push(at.clone());
                    }
                    4 => made.push(rtop.insert_before(rd.create_comment(&q), rfirst.clone())?),
                    _ => {
                        let el = as_element_mut(&mut re)?;
                        el.set_attribute(&name(i), &q)?;
                        made.extend(el.get_attribute_node(&name(i)));
                    }
                }
            }
            Ok(made)
        });
        drop(rd);
        if let Some(made) = self.verdict(st, &Expect::ok(), out) {
            self.probe("many_nodes_at_once");
            let mut at = e;
            let mut nids = vec![];
            for i in 0..count {
                let q = if unique { format!("e{}", base + i) } else { name(i % 7) };
                let named = if twins { self.m.n(e).name.clone() } else { MName::plain(&q) };
                let element = MNode::new(Ty::Element, named, None, Some(d));
                let text = MNode::new(Ty::Text, MName::plain("#text"), Some(q.clone()), Some(d));
                nids.push(match kind {
                    0 => {
                        let n = self.m.add(element);
                        self.m.insert(e, n, None);
                        n
                    }
                    1 => {
                        let n = self.m.add(if i % 2 == 0 { element } else { text });
                        self.m.insert(e, n, None);
                        n
                    }
                    2 => {
                        let n = self.m.add(element);
                        self.m.insert(at, n, None);
                        at = n;
                        n
                    }
                    4 => {
                        let n = self.m.add(MNode::new(Ty::Comment, MName::plain("#comment"), Some(q.clone()), Some(d)));
                        self.m.insert(d, n, first);
                        n
                    }
                    _ => {
                        let n = self.m.new_attr(MName::plain(&name(i)), Some(&q), Some(d));
                        self.m.set_attr(e, n);
                        n
                    }
                });
            }
            if made.len() != count {
                self.fail(["A01"], format!("only {} of {} attributes are found", made.len(), count));
                return true;
            }
            if kind == 2 {
                self.bind_or_fail(nids[0], &made[0]);
            } else {
                for (n, r) in nids.iter().zip(&made) {
                    if !self.bind_or_fail(*n, r) {
                        break;
                    }
                }
            }
            drop(made);
            if then != 0 && self.viol.is_none() {
                self.bulk_attributes(st, &nids, then);
            }
        }
        true
    }

    /// Remove all children, one after the other.
    fn clear(&mut self, st: &Step, e: Nid, mut re: RefNode) -> bool {
        let children = self.m.n(e).children.clone();
        if children.is_empty() {
            return false;
        }
        let last = st.a[4] % 2 == 1;
        let out = self.call(st, || -> xml_dom::level2::Result<usize> {
            for i in 0..=children.len() {
                match if last { re.last_child() } else { re.first_child() } {
                    Some(c) => drop(re.remove_child(c)?),
                    None => return Ok(i),
                }
            }
            Ok(usize::MAX)
        });
        if let Some(removed) = self.verdict(st, &Expect::ok(), out) {
            if removed != children.len() {
                self.fail(["T02"], format!("there were {} children, not {}", removed, children.len()));
            }
            for x in children {
                self.m.detach(x);
            }
            self.probe("all_children_removed");
        }
        true
    }

    /// Identifiers for all of these elements, or namespace declarations on them.
    fn bulk_attributes(&mut self, st: &Step, elements: &[Nid], kind: u32) -> bool {
        let some = st.a[4] as usize % 7;
        for (i, e) in elements.iter().enumerate() {
            let (ns, q, v) = match kind {
                5 => (None, "xml:id".to_string(), format!("w{}", some + i)),
                6 => (Some(XMLNS), format!("xmlns:w{}", some + i), format!("urn:w{}", i % (3 + some * 5))),
                8 if *e == elements[0] => (Some(XMLNS), format!("xmlns:w{}", i), format!("urn:w{}", i % 2)),
                8 => {
                    let outer = elements.iter().filter(|x| **x == elements[0]).count();
                    (Some(XMLNS), format!("xmlns:w{}", i - outer), format!("urn:v{}", some))
                }
                _ if i % 3 == some => (Some(XMLNS), "xmlns".to_string(), format!("urn:w{}", i)),
                _ => (Some(XMLNS), format!("xmlns:w{}", i % (1 + some * 3)), format!("urn:w{}", i)),
            };
            let inner = Step { lp: if i + 1 == elements.len() { st.lp } else { 0 }, cb: vec![], ..st.clone() };
            let mut re = match self.try_real(*e) {
                Some(re) if self.viol.is_none() && !self.full() => re,
                _ => return true,
            };
            if !self.set_attribute(&inner, *e, &mut re, ns, &q, &v) {
                return true;
            }
        }
        self.probe(if kind == 5 { "many_identifiers" } else { "many_declarations" });
        true
    }

    /// Several namespace declarations on one element.
    fn declare(&mut self, c: usize, st: &Step) -> bool {
        let e = match self.pick_element(c, st.a[0]) {
            Some(e) => e,
            None => return false,
        };
        let count = 2 + st.a[1] % 5;
        if self.room() < 2 * count as usize {
            return false;
        }
        let mut r = Rng::new(u64::from(st.a[2]) << 32 | u64::from(st.a[3]));
        let mut re = self.real(e);
        for i in 0..count {
            let q = ["xmlns", "xmlns:p", "xmlns:q", "xmlns:x", "xmlns:y", "xmlns:é"][r.below(6) as usize];
            let inner = Step { lp: if i + 1 == count { st.lp } else { 0 }, cb: vec![], ..st.clone() };
            let sel = r.u32();
            let v = match self.special(sel) {
                Some(k) => &dialect(self.cfg.names).uris[k % 3],
                None => of_pool(URIS, URIS_OFTEN, sel),
            };
            if self.viol.is_some() || !self.set_attribute(&inner, e, &mut re, Some(XMLNS), q, v) {
                break;
            }
        }
        true
    }

    /// A few nodes below each other and side by side.
    fn tree(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        let count = 2 + a[1] as usize % 7;
        let p = match self.pick(c, a[0], |w, n| {
            matches!(w.m.n(n).ty, Ty::Element | Ty::EntityRef) && w.m.doc(n).is_some()
        }) {
            Some(p) if self.room() >= count => p,
            _ => return false,
        };
        let d = self.m.doc(p).unwrap();
        let base = self.m.nodes.len();
        let mut r = Rng::new(u64::from(a[2]) << 32 | u64::from(a[3]));
        // some trees are deep, some are flat
        let deep = r.below(4);
        // where (index + 1 into the plan, 0 is the node picked), and what
        let mut plan: Vec<(usize, MNode)> = vec![];
        for i in 0..count {
            let inner: Vec<usize> = (0..i).filter(|k| matches!(plan[*k].1.ty, Ty::Element | Ty::EntityRef)).map(|k| k + 1).collect();
            let at = match inner.last() {
                Some(_) if r.below(4) >= deep.max(1) => 0,
                Some(last) if r.chance(1, 2) => *last,
                Some(_) => inner[r.below(inner.len() as u64) as usize],
                None => 0,
            };
            let n = base + i;
            let v = self.marked(self.text(r.u32(), r.u32()), n);
            let (ty, name, v) = match r.below(10) {
                0..=3 => {
                    let (ns, q) = self.ename(r.u32());
                    let (ns, q) = if self.cfg.unique { (None, format!("e{}", n)) } else { (ns, q.to_string()) };
                    (Ty::Element, MName::new(ns, &q), None)
                }
                4 | 5 => {
                    let q = if self.cfg.unique { format!("e{}", n) } else { self.tname(&["ent"], r.u32()).to_string() };
                    (Ty::EntityRef, MName::new(None, &q), None)
                }
                6 | 7 => (Ty::Text, MName::plain("#text"), Some(v)),
                8 => (Ty::Comment, MName::plain("#comment"), Some(v)),
                _ => (Ty::CData, MName::plain("#cdata-section"), Some(v)),
            };
            plan.push((at, MNode::new(ty, name, v, Some(d))));
        }
        let rp = self.real(p);
        let rd = self.real(d);
        let out = self.call(st, || -> xml_dom::level2::Result<Vec<RefNode>> {
            let mut made = vec![];
            let all = {
                let mut all = vec![rp];
                for (at, x) in &plan {
                    let v = x.value.clone().unwrap_or_default();
                    let q = x.name.qname();
                    let new = match x.ty {
                        Ty::Element => match &x.name.ns {
                            None => rd.create_element(&q)?,
                            Some(ns) => rd.create_element_ns(ns, &q)?,
                        },
                        Ty::EntityRef => rd.create_entity_reference(&q)?,
                        Ty::Text => rd.create_text_node(&v),
                        Ty::Comment => rd.create_comment(&v),
                        _ => rd.create_cdata_section(&v)?,
                    };
                    let mut parent: RefNode = all[*at].clone();
                    made.push(parent.append_child(new.clone())?);
                    all.push(new);
                }
                all
            };
            drop(all);
            Ok(made)
        });
        drop(rd);
        if let Some(made) = self.verdict(st, &Expect::ok(), out) {
            self.probe("tree_at_once");
            for (at, x) in plan {
                let n = self.m.add(x);
                let parent = if at == 0 { p } else { base + at - 1 };
                self.m.insert(parent, n, None);
            }
            for (i, r) in made.iter().enumerate() {
                if self.m.parent(base + i) == Some(p) && !self.bind_or_fail(base + i, r) {
                    break;
                }
            }
            self.args.push(p);
        }
        true
    }

    fn set_decl(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        let d = match self.pick(c, a[0], |w, n| w.m.n(n).ty == Ty::Document) {
            Some(d) => d,
            None => return false,
        };
        let encoding = [None, Some("UTF-8"), Some("utf-8")][a[1] as usize % 3].map(String::from);
        let standalone = [None, Some(true), Some(false)][a[2] as usize % 3];
        let version = if a[3] % 2 == 0 { XmlVersion::V10 } else { XmlVersion::V11 };
        let text = if a[3] % 2 == 0 { "1.0" } else { "1.1" }.to_string();
        let mut r = self.real(d);
        let decl = XmlDecl::new(version, encoding.clone(), standalone);
        let out = self.call(st, || as_document_decl_mut(&mut r).unwrap().set_xml_declaration(decl));
        if self.verdict(st, &Expect::ok(), out).is_some() {
            self.m.nodes[d].mdoc.decl = Some((text, encoding, standalone));
        }
        true
    }

    /// Entities and notations, which cannot be put anywhere.
    fn create_decl(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        if self.full() {
            return false;
        }
        let d = match self.pick(c, a[0], |w, n| w.m.n(n).ty == Ty::Document) {
            Some(d) => d,
            None => return false,
        };
        let rd = self.real(d);
        let q = self.tname(&["ent", "x:ent"], a[1]);
        let (public, system) = Self::external_id(a[2]);
        let v = PLAIN[a[4] as usize % PLAIN.len()];
        let out = self.call(st, || match a[3] % 3 {
            0 => create_entity(rd, q, public, system),
            1 => create_notation(rd, q, public, system),
            _ => create_internal_entity(rd, q, v),
        });
        if let Some(r) = self.verdict(st, &Expect::ok(), out) {
            let ty = if a[3] % 3 == 1 { Ty::Notation } else { Ty::Entity };
            let mut x = MNode::new(ty, MName::new(None, q), None, Some(d));
            if a[3] % 3 == 2 {
                x.value = Some(v.to_string());
            } else {
                x.mdoc.ids = (public.map(String::from), system.map(String::from));
            }
            let n = self.m.add(x);
            self.new_node(c, n, r);
        }
        true
    }

    /// Names that no node can have.
    fn bad_name(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        if a[3] % 3 == 0 {
            return self.some_name(c, st);
        }
        let (ns, q, why) = BAD_NAMES[a[1] as usize % BAD_NAMES.len()];
        let mut exp = Expect::ok();
        why.iter().for_each(|k| exp.add(*k));
        exp.may = vec![Ek::InvalidState];
        self.say(format!("bad name {:?} {:?}", ns, q));
        let v = PLAIN[a[4] as usize % PLAIN.len()];
        let kind = a[2] % 12;
        if kind < 5 {
            let e = match self.pick_element(c, a[0]) {
                Some(e) => e,
                None => return false,
            };
            let mut re = self.real(e);
            let e = as_element_mut(&mut re).unwrap();
            if kind == 0 && ns.is_none() {
                // nothing has such a name, so that asking or removing is without effect
                let out = self.call(st, || {
                    let found = e.has_attribute(q) || e.get_attribute(q).is_some() || e.get_attribute_node(q).is_some();
                    Ok((found, e.remove_attribute(q).is_ok()))
                });
                if let Some((true, _)) = self.verdict(st, &Expect::ok(), out) {
                    self.fail(vec!["A01"], format!("an attribute is called {:?}", q));
                }
                return true;
            }
            let out = self.call(st, || match ns {
                None => e.set_attribute(q, v),
                Some(ns) => e.set_attribute_ns(ns, q, v),
            });
            self.verdict(st, &exp, out);
            return true;
        }
        let d = match self.pick(c, a[0], |w, n| w.m.n(n).ty == Ty::Document) {
            Some(d) => d,
            None => return false,
        };
        let rd = self.real(d);
        let out = self.call(st, || match (kind, ns) {
            (5, _) => get_implementation().create_document(ns.or(Some("urn:1")), Some(q), None),
            (6, None) => get_implementation().create_document_type(q, None, Some("sys")),
            (7, None) => rd.create_processing_instruction(q, Some(v)),
            (8, None) => rd.create_entity_reference(q),
            (9, None) => rd.create_attribute_with(q, v),
            (10, None) => rd.create_attribute(q),
            (9 | 10, Some(ns)) => rd.create_attribute_ns(ns, q),
            (_, None) => rd.create_element(q),
            (_, Some(ns)) => rd.create_element_ns(ns, q),
        });
        drop(rd);
        if let Some(r) = self.verdict(st, &exp, out) {
            drop(r);
        }
        true
    }

    /// A name of letters from the ends of the ranges of letters.
    fn some_name(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        let d = match self.pick(c, a[0], |w, n| w.m.n(n).ty == Ty::Document) {
            Some(d) => d,
            None => return false,
        };
        let mut r = Rng::new(u64::from(a[1]) << 32 | u64::from(a[4]));
        let mut part = |first: &[(u32, u32)]| -> (String, bool) {
            let mut s = String::new();
            let mut legal = true;
            for i in 0..1 + r.below(3) {
                let all: Vec<(u32, u32)> = first.iter().chain(if i == 0 { &[] } else { NAME_REST }).copied().collect();
                let (lo, hi) = all[r.below(all.len() as u64) as usize];
                let around = [lo, lo, hi, hi, lo.wrapping_sub(1), hi + 1, lo + (hi - lo) / 2];
                let mut ch = around[r.below(7) as usize];
                if i > 0 && r.chance(1, 8) {
                    ch = [0x20, 0x09, 0x2f, 0x26, 0x3c, 0x7f, 0x80, 0xa0, 0x3000, 0xfffe][r.below(10) as usize];
                }
                let ch = char::from_u32(ch).filter(|ch| *ch != ':').unwrap_or('a');
                legal &= all.iter().any(|(lo, hi)| (*lo..=*hi).contains(&(ch as u32)));
                s.push(ch);
            }
            (s, legal)
        };
        let (mut q, mut legal) = part(NAME_FIRST);
        if a[1] % 4 == 0 {
            let (local, ok) = part(NAME_FIRST);
            q = format!("{}:{}", q, local);
            legal &= ok;
        }
        let mut exp = Expect::ok();
        if !legal {
            exp.add(Ek::InvalidChar);
            exp.add(Ek::Syntax);
        }
        self.say(format!("name {:?}", q));
        let rd = self.real(d);
        let out = self.call(st, || match a[2] % 5 {
            0 => get_implementation().create_document_type(&q, None, None),
            1 => rd.create_entity_reference(&q),
            2 => rd.create_processing_instruction(&q, None),
            3 => rd.create_attribute(&q),
            _ => rd.create_element(&q),
        });
        drop(rd);
        if let Some(r) = self.verdict(st, &exp, out) {
            let name = catch(|| quiet(|| r.node_name().to_string()));
            drop(r);
            if !matches!(&name, Outcome::Done(name) if *name == q) {
                self.fail(vec!["T03", "S03"], format!("a node created as {:?} has another name", q));
            }
        }
        true
    }

    /// The value of a node through the interface all nodes have.
    fn node_value(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        let n = match self.pick(c, a[0], |w, n| !matches!(w.m.n(n).ty, Ty::Attribute | Ty::Entity)) {
            Some(n) => n,
            None => return false,
        };
        let holds = is_data(self.m.n(n).ty) || self.m.n(n).ty == Ty::Pi;
        let v = self.marked(self.text(a[1], a[2]), n);
        let v = if self.m.n(n).ty == Ty::Pi { instruction(v) } else { v };
        let new = if a[3] % 4 == 0 { None } else { Some(v) };
        if self.m.parent(n).is_some_and(|p| self.m.n(p).ty == Ty::Attribute)
            && self.turns_unknown(|m| m.nodes[n].value = new.clone())
        {
            return false;
        }
        let mut r = self.real(n);
        let out = self.call(st, || match &new {
            Some(v) => r.set_node_value(v),
            None => r.unset_node_value(),
        });
        let mut exp = Expect::ok();
        if !holds {
            // without effect, whether that is reported or not
            exp.may = vec![Ek::InvalidState, Ek::Other];
        }
        if self.verdict(st, &exp, out).is_some() && holds {
            if self.m.n(n).value != new {
                self.m.touch(n);
            }
            self.m.nodes[n].value = new;
        }
        true
    }

    fn create(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        if self.full() {
            return false;
        }
        let d = match self.pick(c, a[0], |w, n| w.m.n(n).ty == Ty::Document) {
            Some(d) => d,
            None => return false,
        };
        let rd = self.real(d);
        let n = self.m.nodes.len();
        let ok = Expect::ok();
        let mut value = None;
        let (ty, name, out);
        match st.op {
            Op::CreateElement => {
                let (mut ns, q) = self.ename(a[1]);
                let q = if self.cfg.unique { format!("e{}", n) } else { q.to_string() };
                if self.cfg.unique {
                    ns = None;
                }
                ty = Ty::Element;
                name = MName::new(ns, &q);
                out = self.call(st, || match ns {
                    None => rd.create_element(&q),
                    Some(ns) => rd.create_element_ns(ns, &q),
                });
            }
            Op::CreateText => {
                let v = self.marked(self.text(a[1], a[2]), n);
                ty = Ty::Text;
                name = MName::plain("#text");
                value = Some(v.clone());
                out = self.call(st, || Ok(rd.create_text_node(&v)));
            }
            Op::CreateData => {
                let v = self.marked(self.text(a[1], a[2]), n);
                match a[3] % 3 {
                    0 => {
                        ty = Ty::Comment;
                        name = MName::plain("#comment");
                        value = Some(v.clone());
                        out = self.call(st, || Ok(rd.create_comment(&v)));
                    }
                    1 => {
                        ty = Ty::CData;
                        name = MName::plain("#cdata-section");
                        value = Some(v.clone());
                        out = self.call(st, || rd.create_cdata_section(&v));
                    }
                    _ => {
                        ty = Ty::Pi;
                        let target = self.tname(TARGETS, a[4] / 3);
                        name = MName::new(None, target);
                        let v = instruction(v);
                        let v = if a[4] % 3 == 0 && !self.cfg.unique { None } else { Some(v) };
                        value = v.clone();
                        out = self.call(st, || rd.create_processing_instruction(target, v.as_deref()));
                    }
                }
            }
            Op::CreateRef => {
                ty = Ty::EntityRef;
                let q = if self.cfg.unique { format!("e{}", n) } else { self.tname(&["ent"], a[4]).to_string() };
                name = MName::new(None, &q);
                out = self.call(st, || rd.create_entity_reference(&q));
            }
            Op::CreateFragment => {
                ty = Ty::Fragment;
                name = MName::plain("#document-fragment");
                out = self.call(st, || rd.create_document_fragment());
            }
            _ => {
                let (ns, q) = self.aname(a[1]);
                ty = Ty::Attribute;
                name = MName::new(ns, q);
                let v = self.value(&name, a[2]);
                match (ns, a[3] % 3) {
                    (Some(ns), _) => out = self.call(st, || rd.create_attribute_ns(ns, q)),
                    (None, 0) => out = self.call(st, || rd.create_attribute(q)),
                    (None, _) => {
                        value = Some(v.clone());
                        out = self.call(st, || rd.create_attribute_with(q, &v));
                    }
                }
            }
        }
        drop(rd);
        if let Some(r) = self.verdict(st, &ok, out) {
            let n = if ty == Ty::Attribute {
                self.m.new_attr(name, value.as_deref(), Some(d))
            } else {
                self.m.add(MNode::new(ty, name, value, Some(d)))
            };
            self.new_node(c, n, r);
        }
        true
    }

    fn structural(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        let parent = if a[0] % 16 == 0 {
            self.pick(c, a[0] / 16, |_, _| true)
        } else {
            let want = CONTAINERS[(a[0] / 16) as usize % CONTAINERS.len()];
            self.pick(c, a[0] / 128, |w, n| w.m.n(n).ty == want)
                .or_else(|| self.pick(c, a[0] / 128, |w, n| w.m.n(n).ty == Ty::Element))
        };
        let parent = match parent {
            Some(p) => p,
            None => return false,
        };
        let pt = self.m.n(parent).ty;
        let child = if st.op == Op::Remove {
            if a[1] % 12 == 0 {
                self.pick(c, a[1] / 12, |_, _| true)
            } else {
                self.pick(c, a[1] / 12, |w, n| w.m.n(parent).children.contains(&n))
            }
        } else if a[1] % 10 == 0 {
            self.pick(c, a[1] / 10, |_, _| true)
        } else if a[1] % 10 < 3 {
            // among the children already there
            self.pick(c, a[1] / 10, |w, n| w.m.n(parent).children.contains(&n))
                .or_else(|| self.pick(c, a[1] / 10, |w, n| allowed_child(pt, w.m.n(n).ty)))
        } else if a[1] % 10 == 3 {
            // what contains the parent
            self.pick(c, a[1] / 10, |w, n| w.m.is_self_or_above(n, parent))
        } else {
            let home = self.m.home(parent);
            self.pick(c, a[1] / 10, |w, n| allowed_child(pt, w.m.n(n).ty) && w.m.n(n).doc == home)
        };
        let child = match child {
            Some(x) => x,
            None => return false,
        };
        let pick_sibling = |w: &mut World, sel: u32| {
            if sel % 12 == 0 {
                w.pick(c, sel / 12, |_, _| true)
            } else {
                w.pick(c, sel / 12, |w, n| w.m.n(parent).children.contains(&n))
            }
        };
        let other = match st.op {
            Op::Insert | Op::Replace => {
                let o = pick_sibling(self, a[2]);
                if o.is_none() && st.op == Op::Replace {
                    return false;
                }
                o
            }
            _ => None,
        };
        let rp = self.real(parent);
        let rc = self.real(child);
        let ro = other.map(|o| self.real(o));
        let was_in = self.m.parent(child);
        match st.op {
            Op::Remove => {
                if self.turns_unknown_near(&[Some(parent)], |m| {
                    if m.n(child).parent == Some(parent) {
                        m.detach(child)
                    }
                }) {
                    return false;
                }
                let mut exp = Expect::ok();
                if !self.m.n(parent).children.contains(&child) {
                    exp.add(Ek::NotFound);
                }
                let mut p = rp;
                let out = self.call(st, move || p.remove_child(rc));
                if let Some(r) = self.verdict(st, &exp, out) {
                    self.m.detach(child);
                    self.returned(&r, child);
                    self.hold(c, child, r);
                }
            }
            _ => {
                let (before, replaced) = match st.op {
                    Op::Insert => (other, None),
                    Op::Replace => (None, other),
                    _ => (None, None),
                };
                let exp = self.m.expect_insert(parent, child, before, replaced);
                if exp.must.is_empty()
                    && self.turns_unknown_near(&[Some(parent), was_in], |m| match replaced {
                        Some(o) => m.replace(parent, child, o),
                        None => m.insert(parent, child, before),
                    })
                {
                    return false;
                }
                let fragment = self.m.n(child).ty == Ty::Fragment
                    && !self.m.n(child).children.is_empty()
                    && is_container(pt)
                    && pt != Ty::Document
                    && self.m.n(parent).doc == self.m.n(child).doc
                    && child != parent;
                if was_in == Some(parent) {
                    self.probe("move_within_parent");
                }
                let mut p = rp;
                let op = st.op;
                let out = self.call(st, move || match op {
                    Op::Append => p.append_child(rc),
                    Op::Insert => p.insert_before(rc, ro),
                    _ => p.replace_child(rc, ro.unwrap()),
                });
                if fragment && matches!(out, Outcome::Done(Err(Error::HierarchyRequest))) {
                    self.known.insert(
                        "T02",
                        "inserting a document fragment with children is refused with HierarchyRequest".into(),
                    );
                }
                if let Some(r) = self.verdict(st, &exp, out) {
                    match (st.op, other) {
                        (Op::Replace, Some(o)) => {
                            self.m.replace(parent, child, o);
                            self.returned(&r, o);
                            self.hold(c, o, r);
                        }
                        _ => {
                            self.m.insert(parent, child, before);
                            self.returned(&r, child);
                        }
                    }
                }
            }
        }
        true
    }

    fn turns_unknown_near(&self, parents: &[Option<Nid>], f: impl FnOnce(&mut Model)) -> bool {
        parents.iter().flatten().any(|p| self.m.n(*p).ty == Ty::Attribute) && self.turns_unknown(f)
    }

    fn pick_element(&mut self, c: usize, sel: u32) -> Option<Nid> {
        self.pick(c, sel, |w, n| w.m.n(n).ty == Ty::Element)
    }

    /// True if the attribute has been set.
    fn set_attribute(&mut self, st: &Step, e: Nid, re: &mut RefNode, ns: Option<&str>, q: &str, v: &str) -> bool {
        let name = MName::new(ns, q);
        // what setting a fresh node of this name would do
        let mut m = self.m.clone();
        let probe = m.new_attr(name.clone(), Some(v), m.n(e).doc);
        let exp = m.expect_set_attr(e, probe);
        let out = self.call(st, || match ns {
            None => as_element_mut(re).unwrap().set_attribute(q, v),
            Some(ns) => as_element_mut(re).unwrap().set_attribute_ns(ns, q, v),
        });
        if self.verdict(st, &exp, out).is_none() {
            return false;
        }
        let n = self.m.new_attr(name.clone(), Some(v), self.m.n(e).doc);
        self.m.set_attr(e, n);
        let found = quiet(|| re.attributes().values().find(|x| name_of(x) == name).cloned());
        match found {
            Some(r) => {
                self.bind_or_fail(n, &r);
            }
            None => {
                let msg = format!("{} does not list attribute {} just set", self.show(e), q);
                self.fail(["A01"], msg);
            }
        }
        true
    }

    fn attributes(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        if self.full() {
            return false;
        }
        match st.op {
            Op::AttrSetValue | Op::AttrUnsetValue => {
                let n = match self.pick(c, a[0], |w, n| w.m.n(n).ty == Ty::Attribute) {
                    Some(n) => n,
                    None => return false,
                };
                let mut r = self.real(n);
                if st.op == Op::AttrUnsetValue {
                    let out = self.call(st, || if a[3] % 3 == 0 { r.unset_node_value() } else { r.unset_value() });
                    if self.verdict(st, &Expect::ok(), out).is_some() {
                        self.m.unset_attr_value(n);
                    }
                    return true;
                }
                let v = self.value(&self.m.n(n).name, a[1]);
                let mut exp = Expect::ok();
                if let (Some(e), true) = (self.m.owner(n), self.m.is_id_attr(n)) {
                    let id = escape(&attr_normal(&v).unwrap_or_default());
                    self.m.expect_unique_id(e, &id, &mut exp);
                }
                let out = self.call(st, || if a[3] % 3 == 0 { r.set_node_value(&v) } else { r.set_value(&v) });
                if self.verdict(st, &exp, out).is_some() {
                    self.m.set_attr_value(n, &v);
                    self.bind_or_fail(n, &r);
                }
                return true;
            }
            _ => (),
        }
        let e = match self.pick_element(c, a[0]) {
            Some(e) => e,
            None => return false,
        };
        let mut re = self.real(e);
        let (ns, q) = self.aname(a[1]);
        let name = MName::new(ns, q);
        match st.op {
            Op::SetAttr | Op::SetAttrNs => {
                let ns = if st.op == Op::SetAttr { None } else { ns.or(Some("urn:2")) };
                // reserved names have reserved namespaces
                let ns = match (st.op, q) {
                    (Op::SetAttrNs, q) if q.starts_with("xml:") => Some(XMLURI),
                    (Op::SetAttrNs, q) if q.starts_with("xmlns") => Some(XMLNS),
                    _ => ns,
                };
                let v = self.value(&MName::new(ns, q), a[2]);
                self.set_attribute(st, e, &mut re, ns, q, &v);
            }
            Op::RemoveAttr => {
                let q = self.some_attr(e, a[2]).map(|n| self.m.n(n).name.qname()).unwrap_or(q.to_string());
                let out = self.call(st, || as_element_mut(&mut re).unwrap().remove_attribute(&q));
                if self.verdict(st, &Expect::ok(), out).is_some() {
                    if let Some(n) = self.m.find_attr(e, &q) {
                        self.m.remove_attr(e, n);
                    }
                }
            }
            Op::RemoveAttrNs => {
                let ns = ns.unwrap_or("urn:1");
                let out =
                    self.call(st, || as_element_mut(&mut re).unwrap().remove_attribute_ns(ns, &name.local));
                if self.verdict(st, &Expect::ok(), out).is_some() {
                    if let Some(n) = self.m.find_attr_ns(e, ns, &name.local) {
                        self.m.remove_attr(e, n);
                    }
                }
            }
            Op::SetAttrNode => {
                let n = if a[2] % 16 == 0 {
                    self.pick(c, a[3], |_, _| true)
                } else if a[2] % 16 < 5 {
                    self.pick(c, a[3], |w, n| w.m.n(n).ty == Ty::Attribute && w.m.owner(n).is_some())
                } else {
                    let doc = self.m.n(e).doc;
                    self.pick(c, a[3], |w, n| {
                        w.m.n(n).ty == Ty::Attribute && w.m.owner(n).is_none() && w.m.n(n).doc == doc
                    })
                };
                let n = match n {
                    Some(n) => n,
                    None => return false,
                };
                let ra = self.real(n);
                let mut exp = self.m.expect_set_attr(e, n);
                if exp.must == [Ek::InvalidState] {
                    exp.may = vec![Ek::Hierarchy, Ek::Other];
                }
                let out = self.call(st, || {
                    let el = as_element_mut(&mut re).unwrap();
                    if a[4] % 2 == 0 {
                        el.set_attribute_node(ra)
                    } else {
                        el.set_attribute_node_ns(ra)
                    }
                });
                if let Some(r) = self.verdict(st, &exp, out) {
                    self.m.set_attr(e, n);
                    self.returned(&r, n);
                }
            }
            Op::RemoveAttrNode => {
                let n = if a[2] % 4 == 0 {
                    self.pick(c, a[3], |w, n| w.m.n(n).ty == Ty::Attribute)
                } else {
                    self.pick(c, a[3], |w, n| w.m.n(e).attrs.contains(&n))
                };
                let n = match n {
                    Some(n) => n,
                    None => return false,
                };
                let ra = self.real(n);
                let mut exp = Expect::ok();
                if self.m.owner(n) != Some(e) {
                    exp.add(Ek::NotFound);
                }
                let out = self.call(st, || as_element_mut(&mut re).unwrap().remove_attribute_node(ra));
                if let Some(r) = self.verdict(st, &exp, out) {
                    self.m.remove_attr(e, n);
                    self.returned(&r, n);
                    self.hold(c, n, r);
                }
            }
            _ => {
                let by_ns = a[2] % 2 == 0;
                let ns = ns.unwrap_or("urn:1");
                let found =
                    if by_ns { self.m.find_attr_ns(e, ns, &name.local) } else { self.m.find_attr(e, q) };
                let unknown = found.is_some_and(|n| self.m.attr_value(n) == Val::Unknown);
                if unknown {
                    return false;
                }
                let out = self.call(st, || {
                    let el = as_element(&re).unwrap();
                    if by_ns {
                        (
                            el.get_attribute_ns(ns, &name.local),
                            el.get_attribute_node_ns(ns, &name.local),
                            el.has_attribute_ns(ns, &name.local),
                        )
                    } else {
                        (el.get_attribute(q), el.get_attribute_node(q), el.has_attribute(q))
                    }
                });
                if let Some((value, node, has)) = self.done(st, out) {
                    let want = found.and_then(|n| match self.m.attr_value(n) {
                        Val::Some(v) => Some(v),
                        _ => None,
                    });
                    if value != want || !self.same(&node, found) || has != found.is_some() {
                        let got = node.as_ref().map(|r| self.describe(r));
                        let msg = format!(
                            "{} attribute {} (by namespace {}): value {:?}, node {:?}, present {}; expected {:?} {:?}",
                            self.show(e), q, by_ns, value, got, has, want, found
                        );
                        self.fail(["A01"], msg);
                    }
                    if let (Some(n), Some(r)) = (found, node) {
                        self.hold(c, n, r);
                    }
                }
            }
        }
        true
    }

    fn some_attr(&self, e: Nid, sel: u32) -> Option<Nid> {
        let l = &self.m.n(e).attrs;
        if sel % 4 == 0 || l.is_empty() {
            None
        } else {
            self.choose(l, sel / 4)
        }
    }

    fn offset(&self, len: usize, sel: u32) -> usize {
        match sel % 16 {
            0 => len,
            1 => len + 1,
            2 => usize::MAX,
            3 => usize::MAX - (sel / 16) as usize % 8,
            4 => len + 1 + (sel / 16) as usize % 5,
            5 => 0,
            _ => (sel / 16) as usize % (len + 1),
        }
    }

    fn data(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        let n = match st.op {
            Op::DataSet | Op::DataUnset => {
                self.pick(c, a[0], |w, n| is_data(w.m.n(n).ty) || w.m.n(n).ty == Ty::Pi)
            }
            _ => self.pick(c, a[0], |w, n| is_data(w.m.n(n).ty)),
        };
        let n = match n {
            Some(n) => n,
            None => return false,
        };
        let r = self.real(n);
        let old = self.m.n(n).value.clone();
        let len = old.as_ref().map_or(0, |v| v.len());
        if len > if self.cfg.wide { 40_000 } else { 60 } && matches!(st.op, Op::DataAppend | Op::DataInsert) {
            return false;
        }
        let offset = self.offset(len, a[1]);
        let count = self.offset(len, a[2]);
        let with = self.text(a[3], a[4]);
        let with = if self.m.n(n).ty == Ty::Pi { instruction(with) } else { with };
        let (exp, new) = match st.op {
            Op::DataAppend => {
                (Expect::ok(), if with.is_empty() { old.clone() } else { Some(format!("{}{}", old.clone().unwrap_or_default(), with)) })
            }
            Op::DataInsert => self.m.replace_data(n, offset, 0, &with),
            Op::DataDelete => self.m.replace_data(n, offset, count, ""),
            Op::DataReplace => self.m.replace_data(n, offset, count, &with),
            Op::DataSet => (Expect::ok(), Some(with.clone())),
            Op::DataUnset => (Expect::ok(), None),
            _ => (Expect::ok(), old.clone()),
        };
        let mut exp = exp;
        let mut new = new;
        // editing nothing may be left to succeed whatever the offset is
        let nothing = match st.op {
            Op::DataInsert => with.is_empty(),
            Op::DataDelete => count == 0,
            _ => false,
        };
        if nothing {
            exp.may.append(&mut exp.must);
            new = old.clone();
        }
        if self.m.parent(n).is_some_and(|p| self.m.n(p).ty == Ty::Attribute)
            && self.turns_unknown(|m| m.nodes[n].value = new.clone())
        {
            return false;
        }
        if st.op == Op::DataSubstring {
            let range = old.as_ref().map(|v| Model::range(v, offset, count).map(|(x, y)| v[x..y].to_string()));
            let mut want = String::new();
            match range {
                _ if count == 0 => exp.may.push(Ek::IndexSize),
                None => exp.add(Ek::IndexSize),
                Some(None) => exp.add(Ek::IndexSize),
                Some(Some(v)) => want = v,
            }
            if old.is_none() && offset == 0 {
                exp.may.append(&mut exp.must);
            }
            let out = self.call(st, || as_character_data(&r).unwrap().substring_data(offset, count));
            if let Some(got) = self.verdict(st, &exp, out) {
                if got != want {
                    self.fail(["C01"], format!("substring_data({}, {}) of {:?} is {:?}", offset, count, old, got));
                }
            }
            return true;
        }
        let op = st.op;
        let pi = self.m.n(n).ty == Ty::Pi;
        let out = {
            let mut r = r;
            self.call(st, move || {
                if pi {
                    let p = as_processing_instruction_mut(&mut r).unwrap();
                    return if op == Op::DataSet { p.set_data(&with) } else { p.unset_data() };
                }
                let d = as_character_data_mut(&mut r).unwrap();
                match op {
                    Op::DataAppend => d.append_data(&with),
                    Op::DataInsert => d.insert_data(offset, &with),
                    Op::DataDelete => d.delete_data(offset, count),
                    Op::DataReplace => d.replace_data(offset, count, &with),
                    Op::DataSet => d.set_data(&with),
                    _ => d.unset_data(),
                }
            })
        };
        if self.verdict(st, &exp, out).is_some() {
            // an absent value and an empty one cannot be told apart by an edit of nothing
            let mut new = new;
            if new.as_deref().unwrap_or("").is_empty() && matches!(op, Op::DataAppend | Op::DataInsert | Op::DataDelete | Op::DataReplace) {
                let got = quiet(|| self.real(n).node_value());
                if got.as_deref().unwrap_or("").is_empty() && (old.is_none() || got.is_some()) {
                    new = got;
                }
            }
            if new != old {
                self.m.touch(n);
            }
            self.m.nodes[n].value = new;
        }
        true
    }

    fn split(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        if self.full() {
            return false;
        }
        let n = match self.pick(c, a[0], |w, n| matches!(w.m.n(n).ty, Ty::Text | Ty::CData)) {
            Some(n) => n,
            None => return false,
        };
        let r = self.real(n);
        let old = self.m.n(n).value.clone();
        let v = old.clone().unwrap_or_default();
        let offset = self.offset(v.len(), a[1]);
        let at = offset.min(v.len());
        let mut exp = Expect::ok();
        if !v.is_char_boundary(at) {
            exp.add(Ek::IndexSize);
        }
        if old.is_none() {
            exp.may.push(Ek::IndexSize);
        }
        let out = {
            let mut r = r.clone();
            self.call(st, move || as_text_or_cdata(&mut r, offset))
        };
        if let Some(new) = self.verdict(st, &exp, out) {
            let x = self.m.n(n).clone();
            if offset > v.len() {
                self.probe("split_past_the_end");
            }
            if x.value.is_some() {
                self.m.nodes[n].value = Some(v[..at].to_string());
            }
            let t = self.m.add(MNode::new(x.ty, x.name, Some(v[at..].to_string()), x.doc));
            if let Some(p) = self.m.parent(n) {
                let list = &self.m.n(p).children;
                let next = list.get(list.iter().position(|k| *k == n).unwrap() + 1).copied();
                self.m.insert(p, t, next);
            }
            self.new_node(c, t, new);
        }
        true
    }

    fn normalize(&mut self, c: usize, st: &Step) -> bool {
        let n = if st.a[0] % 5 == 0 {
            self.pick(c, st.a[0] / 5, |_, _| true)
        } else {
            self.pick(c, st.a[0] / 5, |w, n| is_container(w.m.n(n).ty))
        };
        let n = match n {
            Some(n) => n,
            None => return false,
        };
        let mut r = self.real(n);
        let out = self.call(st, || r.normalize());
        if self.done(st, out).is_some() {
            self.m.normalize(n);
        }
        true
    }

    fn clone_op(&mut self, c: usize, st: &Step) -> bool {
        let deep = st.a[1] % 4 != 0;
        let n = match self.pick(c, st.a[0], |w, n| {
            deep || w.m.n(n).ty != Ty::Attribute
        }) {
            Some(n) => n,
            None => return false,
        };
        let alike = self.m.nodes.iter().filter(|x| !x.dead && x.ty == self.m.n(n).ty).count();
        if match self.m.n(n).ty {
            Ty::Document => alike >= 4,
            Ty::DocType => alike > 3,
            _ => false,
        } {
            return false;
        }
        let mut below = BTreeSet::new();
        self.m.below(n, &mut below);
        if below.len() > if self.cfg.wide { 120 } else { 25 } || below.len() > self.room().max(1) + 25 || self.full() {
            return false;
        }
        let r = self.real(n);
        let out = self.call(st, || r.clone_node(deep));
        match self.done(st, out) {
            Some(Some(copy)) => {
                let first = self.m.nodes.len();
                let k = self.m.clone_node(n, deep);
                self.new_node(c, k, copy);
                if self.viol.is_none() {
                    self.pair_kin(n, k, deep);
                }
                debug_assert!(k >= first);
            }
            Some(None) => self.fail(["K01"], format!("{} was not cloned", self.show(n))),
            None => (),
        }
        true
    }
    fn pair_kin(&mut self, n: Nid, k: Nid, deep: bool) {
        if self.kin[n] == 0 {
            self.kin[n] = self.next_kin;
            self.next_kin += 1;
        }
        self.kin[k] = self.kin[n];
        if deep {
            for (a, b) in self.m.n(n).children.clone().into_iter().zip(self.m.n(k).children.clone()) {
                self.pair_kin(a, b, true);
            }
        }
        for (a, b) in self.m.n(n).attrs.clone().into_iter().zip(self.m.n(k).attrs.clone()) {
            self.pair_kin(a, b, true);
        }
    }

    fn navigate(&mut self, c: usize, st: &Step) -> bool {
        let n = match self.pick(c, st.a[0], |_, _| true) {
            Some(n) => n,
            None => return false,
        };
        let r = self.real(n);
        let x = self.m.n(n).clone();
        let p = if x.ty == Ty::Attribute { None } else { self.m.parent(n) };
        let list: Vec<Nid> = p.map(|p| self.m.n(p).children.clone()).unwrap_or_default();
        let at = list.iter().position(|k| *k == n);
        let (want, out) = match st.a[1] % 8 {
            0 => (p, self.call(st, || r.parent_node())),
            1 => (x.children.first().copied(), self.call(st, || r.first_child())),
            2 => (x.children.last().copied(), self.call(st, || r.last_child())),
            3 => (at.and_then(|i| i.checked_sub(1)).map(|i| list[i]), self.call(st, || r.previous_sibling())),
            4 => (at.and_then(|i| list.get(i + 1).copied()), self.call(st, || r.next_sibling())),
            5 => (self.m.doc(n), self.call(st, || r.owner_document())),
            6 if x.ty == Ty::Attribute => (self.m.owner(n), self.call(st, || r.owner_element())),
            6 if x.ty == Ty::Document => (self.m.root_of(n), self.call(st, || r.document_element())),
            _ => {
                let i = st.a[2] as usize % x.children.len().max(1);
                (x.children.get(i).copied(), self.call(st, || r.child_nodes().get(i).cloned()))
            }
        };
        if let Some(got) = self.done(st, out) {
            if !self.same(&got, want) && !self.amb(p) {
                let g = got.as_ref().map(|r| self.describe(r));
                let msg = format!("{} leads to {:?}, expected {:?}", self.show(n), g, want);
                self.fail(["T01"], msg);
            }
            if let (Some(w), Some(g)) = (want, got) {
                if !self.m.limbo.contains(&w) {
                    self.hold(c, w, g);
                }
            }
        }
        true
    }

    /// A node can be used as what its type says, and as nothing else.
    fn kind(&mut self, c: usize, st: &Step) -> bool {
        let n = match self.pick(c, st.a[0], |_, _| true) {
            Some(n) => n,
            None => return false,
        };
        let ty = self.m.n(n).ty;
        let mut r = self.real(n);
        let out = self.call(st, || converts(&mut r, ty));
        if let Some(wrong) = self.done(st, out) {
            self.probe("conversions");
            if let Some(wrong) = wrong {
                let msg = format!("{} {}", self.show(n), wrong);
                self.fail(["R01"], msg);
            }
        }
        true
    }

    fn query(&mut self, c: usize, st: &Step) -> bool {
        let a = st.a;
        match st.op {
            Op::GetById => {
                let d = match self.pick(c, a[0], |w, n| w.m.n(n).ty == Ty::Document) {
                    Some(d) => d,
                    None => return false,
                };
                let many = format!("w{}", a[2] / 4 % 70);
                let id = if let Some(k) = self.special(a[1]) {
                    &*dialect(self.cfg.names).ids[k % 3]
                } else if self.cfg.wide && a[2] % 4 == 0 {
                    &*many
                } else { of_pool(IDS, IDS_OFTEN, a[1]) };
                let r = self.real(d);
                let out = self.call(st, || r.get_element_by_id(id));
                if let Some(got) = self.done(st, out) {
                    if let Some(e) = self.check_id(d, &got, id) {
                        self.fail(["I01"], e);
                    } else if let Some(g) = got {
                        let n = self.find_nid(&g).unwrap();
                        self.say(format!("id {} at #{}", id, n));
                        if !self.m.limbo.contains(&n) {
                            self.hold(c, n, g);
                        }
                    }
                }
            }
            Op::GetByTag | Op::GetByTagNs => {
                let n = match self.pick(c, a[0], |w, n| matches!(w.m.n(n).ty, Ty::Element | Ty::Document)) {
                    Some(n) => n,
                    None => return false,
                };
                let r = self.real(n);
                let doc = self.m.n(n).ty == Ty::Document;
                let start = if doc { self.m.root_of(n) } else { Some(n) };
                let (mut ns, mut q) = self.ename(a[1]);
                if a[2] % 3 == 0 {
                    q = "*";
                }
                if a[3] % 3 == 0 {
                    ns = Some("*");
                }
                // what is there
                let mut inside = vec![];
                if let (0, Some(s)) = (a[4] % 3, start) {
                    self.m.by_tag(s, &|_| true, &mut inside);
                }
                let inside = inside.get((a[4] / 3) as usize % inside.len().max(1)).map(|e| self.m.n(*e).name.clone());
                let inside_q = inside.as_ref().map(|m| m.qname());
                if let (Some(m), Some(mq)) = (&inside, &inside_q) {
                    q = mq;
                    ns = m.ns.as_deref().or(ns);
                }
                // nothing but a name is matched
                if st.op == Op::GetByTag && a[3] % 8 == 7 {
                    q = ODD_QUERIES[(a[3] / 8) as usize % ODD_QUERIES.len()];
                }
                let mut want = vec![];
                let by_ns = st.op == Op::GetByTagNs;
                let local = q.rsplit(':').next().unwrap();
                let ns = ns.unwrap_or("urn:3");
                let odd = |s: &str, k: u32| match k % 5 {
                    0 => format!(" {}", s),
                    1 => format!("{} ", s),
                    2 => s.to_uppercase(),
                    3 => format!("{}*", s),
                    _ => String::new(),
                };
                let (ns, local) = match a[3] / 8 % 16 {
                    _ if !by_ns => (ns.to_string(), local.to_string()),
                    0 => (odd(ns, a[3] / 128), local.to_string()),
                    1 => (ns.to_string(), odd(local, a[3] / 128)),
                    _ => (ns.to_string(), local.to_string()),
                };
                let (ns, local) = (&*ns, &*local);
                if let Some(s) = start {
                    if by_ns {
                        self.m.by_tag(
                            s,
                            &|m| (ns == "*" || m.ns.as_deref() == Some(ns)) && (local == "*" || m.local == local),
                            &mut want,
                        );
                    } else {
                        self.m.by_tag(s, &|m| q == "*" || m.qname() == q, &mut want);
                    }
                    if !doc {
                        want.retain(|k| *k != s);
                    }
                }
                let out = self.call(st, || match (doc, by_ns) {
                    (true, false) => as_document(&r).unwrap().get_elements_by_tag_name(q),
                    (true, true) => as_document(&r).unwrap().get_elements_by_tag_name_ns(ns, local),
                    (false, false) => as_element(&r).unwrap().get_elements_by_tag_name(q),
                    (false, true) => as_element(&r).unwrap().get_elements_by_tag_name_ns(ns, local),
                });
                if let Some(got) = self.done(st, out) {
                    if want.len() > 1 {
                        self.probe("query_with_many_matches");
                    }
                    if !self.same_list(&got, &want) {
                        let g: Vec<String> = got.iter().map(|r| self.describe(r)).collect();
                        let msg = format!("{} {} {} from {} gives {:?}, expected {:?}", op_name(st.op), ns, q, self.show(n), g, want);
                        self.fail(["Q01"], msg);
                    }
                }
            }
            _ => {
                let e = match self.pick_element(c, a[0]) {
                    Some(e) => e,
                    None => return false,
                };
                let r = self.real(e);
                let out = self.call(st, || self_check_ns_dry(&r));
                if self.done(st, out).is_some() {
                    if let Some((_, msg)) = quiet(|| self.check_ns(e, &r)) {
                        let msg = format!("{} {}", self.show(e), msg);
                        self.fail(["N01"], msg);
                    }
                }
            }
        }
        true
    }

    // ------------------------------------------------------------------------------------- saving

    pub fn items(&self, n: Nid, out: &mut Vec<Item>) {
        let x = self.m.n(n);
        match x.ty {
            Ty::Element => {
                let attrs = x
                    .attrs
                    .iter()
                    .map(|a| {
                        let v = match self.m.attr_value(*a) {
                            Val::Some(v) => v,
                            _ => String::new(),
                        };
                        (self.m.n(*a).name.qname(), v)
                    })
                    .collect();
                out.push(Item::Open(x.name.qname(), attrs));
                for c in &x.children {
                    self.items(*c, out);
                }
                out.push(Item::Close(x.name.qname()));
            }
            Ty::Document => {
                for c in &x.children {
                    self.items(*c, out);
                }
            }
            Ty::Text => xmlread::push_text(out, &escape(x.value.as_deref().unwrap_or(""))),
            Ty::Comment => {
                if let Some(v) = &x.value {
                    out.push(Item::Comment(escape(v)));
                }
            }
            Ty::CData => {
                if let Some(v) = &x.value {
                    out.push(Item::CData(v.clone()));
                }
            }
            Ty::Pi => out.push(Item::Pi(x.name.qname(), x.value.clone())),
            Ty::EntityRef => out.push(Item::EntityRef(x.name.qname())),
            _ => (),
        }
    }

    /// Is this the declaration of a document type, entity or notation; returns what follows.
    fn same_declaration<'t>(&self, n: Nid, text: &'t str) -> std::result::Result<&'t str, String> {
        let x = self.m.n(n);
        let (words, rest) = xmlread::markup(text)?;
        let start = match x.ty {
            Ty::DocType => "DOCTYPE",
            Ty::Entity => "ENTITY",
            _ => "NOTATION",
        };
        let mut want = vec![start.to_string(), x.name.qname()];
        let quoted = |s: &str| format!("\"{}\"", s);
        match &x.mdoc.ids {
            (None, None) => want.extend((x.ty == Ty::Entity).then(|| quoted(x.value.as_deref().unwrap_or("")))),
            (None, Some(s)) => want.extend(["SYSTEM".to_string(), quoted(s)]),
            (Some(p), None) => want.extend(["PUBLIC".to_string(), quoted(p)]),
            (Some(p), Some(s)) => {
                want.extend(["PUBLIC".to_string(), quoted(p), quoted(s)]);
                if x.ty == Ty::DocType && words.len() == 6 {
                    // as the tests of the repository have it
                    want.insert(4, "SYSTEM".to_string());
                }
            }
        }
        if words == want {
            Ok(rest)
        } else {
            Err(format!("{:?} is written, expected {:?}", words, want))
        }
    }

    /// Does the text say what the model says.
    fn same_text(&self, n: Nid, text: &str) -> std::result::Result<(), String> {
        let x = self.m.n(n);
        let mut text = text;
        match x.ty {
            Ty::Fragment => return Ok(()),
            Ty::DocType | Ty::Entity | Ty::Notation => {
                let rest = self.same_declaration(n, text)?;
                return if rest.is_empty() { Ok(()) } else { Err(format!("{:?} is written after it", rest)) };
            }
            Ty::Attribute => {
                let (name, value, rest) = xmlread::attribute(text)?;
                let want = match self.m.attr_value(n) {
                    Val::Some(v) => v,
                    _ => String::new(),
                };
                return if name == x.name.qname() && value == want && rest.is_empty() {
                    Ok(())
                } else {
                    Err(format!("attribute is written as {:?}, expected {:?}", text, want))
                };
            }
            Ty::Document => {
                let (decl, rest) = xmlread::declaration(text)?;
                if decl != x.mdoc.decl {
                    return Err(format!("declaration {:?} is written, expected {:?}", decl, x.mdoc.decl));
                }
                text = rest;
                if let Some(dt) = x.mdoc.doctype {
                    text = self.same_declaration(dt, text)?;
                }
            }
            _ => (),
        }
        let mut want = vec![];
        self.items(n, &mut want);
        same_items(&want, text)
    }

    fn pick_saved(&mut self, c: usize, sel: u32) -> Option<Nid> {
        if sel % 3 == 0 {
            self.pick(c, sel / 3, |_, _| true)
        } else {
            self.pick(c, sel / 3, |w, n| matches!(w.m.n(n).ty, Ty::Element | Ty::Document))
        }
    }

    fn save(&mut self, c: usize, st: &Step) -> bool {
        let n = match self.pick_saved(c, st.a[0]) {
            Some(n) => n,
            None => return false,
        };
        let r = self.real(n);
        let out = self.call(st, || r.to_string());
        if let Some(text) = self.done(st, out) {
            self.probe("saved");
            if let Err(e) = self.same_text(n, &text) {
                let msg = format!("{}: {}", self.show(n), e);
                self.fail(["S03"], msg);
            }
        }
        true
    }

    fn save_fault(&mut self, c: usize, st: &Step) -> bool {
        let n = match self.pick_saved(c, st.a[0]) {
            Some(n) => n,
            None => return false,
        };
        let r = self.real(n);
        let full = match catch(|| quiet(|| r.to_string())) {
            Outcome::Done(t) => t,
            _ => {
                self.fail(["S01", "S03"], format!("saving {} panicked: {}", self.show(n), last_panic()));
                return true;
            }
        };
        if full.is_empty() {
            return false;
        }
        let mut sink = FaultSink {
            data: String::new(),
            room: st.a[1] as usize % full.len(),
            torn: st.a[2] % 2 == 0,
            unwind: st.a[2] % 5 == 4,
            failed: false,
            after: 0,
        };
        let kind = if sink.unwind {
            "output_unwinds"
        } else if sink.torn {
            "output_full_torn_write"
        } else {
            "output_error"
        };
        let out = self.call(st, || write!(sink, "{}", r));
        self.fault(kind);
        self.count(st.op, kind);
        let again = catch(|| quiet(|| r.to_string()));
        let bad = match out {
            Outcome::Done(Ok(())) => Some("the failure was not reported".to_string()),
            Outcome::Panicked(p) => Some(format!("panicked: {}", p)),
            Outcome::Unwound if !sink.unwind && !self.cut => Some("unwound".to_string()),
            _ if !sink.failed && !self.cut => Some("gave up before the destination failed".to_string()),
            _ if sink.after > 0 => Some(format!("{} more writes after the failure", sink.after)),
            _ if !full.starts_with(&sink.data) => {
                Some(format!("{:?} is not a prefix of {:?}", sink.data, full))
            }
            _ => match again {
                Outcome::Done(t) if t == full => None,
                Outcome::Done(t) => Some(format!("the next output is {:?} instead of {:?}", t, full)),
                _ => Some(format!("the next output panicked: {}", last_panic())),
            },
        };
        self.how = How::Err;
        if let Some(b) = bad {
            let msg = format!("saving {} to a failing destination ({}): {}", self.show(n), kind, b);
            self.fail(["S01"], msg);
        }
        true
    }

    fn note_values(&mut self) {
        if let Some(mut w) = self.watch.take() {
            for n in &w.nodes {
                let v = match self.m.n(*n).ty {
                    Ty::Attribute => match self.m.attr_value(*n) {
                        Val::Some(v) => Some(v),
                        _ => Some(String::new()),
                    },
                    _ => self.m.n(*n).value.clone(),
                };
                w.vals.entry(*n).or_default().insert(v);
            }
            self.watch = Some(w);
        }
    }

    fn save_nested(&mut self, c: usize, st: &Step) -> bool {
        if self.depth > 0 || st.cb.is_empty() {
            return self.save(c, st);
        }
        let n = match self.pick_saved(c, st.a[0]) {
            Some(n) if !matches!(self.m.n(n).ty, Ty::Fragment | Ty::DocType | Ty::Entity | Ty::Notation) => n,
            _ => return false,
        };
        let r = self.real(n);
        let mut counter = CountSink(0);
        if !matches!(catch(|| quiet(|| write!(counter, "{}", r))), Outcome::Done(Ok(()))) {
            self.fail(["S02", "S03"], format!("saving {} failed: {}", self.show(n), last_panic()));
            return true;
        }
        let mut nodes = BTreeSet::new();
        self.m.below(n, &mut nodes);
        let before = self.m.clone();
        self.watch = Some(Watch { root: n, nodes: nodes.into_iter().collect(), vals: BTreeMap::new() });
        self.note_values();
        self.m.touched.clear();
        self.pins.push(n);
        let world: *mut World = self;
        let mut sink =
            NestSink { world, steps: &st.cb, total: counter.0.max(1), count: 0, data: String::new() };
        let out = catch(|| write!(sink, "{}", r));
        let text = std::mem::take(&mut sink.data);
        self.pins.pop();
        self.m.limbo.clear();
        self.count(st.op, "ok");
        let watch = self.watch.take().unwrap();
        if self.viol.is_some() {
            return true;
        }
        let bad = match out {
            Outcome::Done(Ok(())) => self.same_nested(&before, &watch, &text).err(),
            Outcome::Done(Err(_)) => Some("an error was reported".to_string()),
            Outcome::Unwound => Some("unwound".to_string()),
            Outcome::Panicked(p) => Some(format!("panicked: {}", p)),
        };
        if let Some(b) = bad {
            let msg = format!("saving {} while it is edited: {}", self.show(n), b);
            self.fail(["S02"], msg);
        }
        self.m.touched.clear();
        true
    }

    fn same_nested(&mut self, before: &Model, w: &Watch, text: &str) -> std::result::Result<(), String> {
        if !self.cfg.unique {
            return Ok(());
        }
        let touched: BTreeSet<Nid> = self.m.touched.iter().copied().collect();
        let mut text = text;
        if before.n(w.root).ty == Ty::Attribute {
            let (name, value, rest) = xmlread::attribute(text)?;
            let ok = name == before.n(w.root).name.qname()
                && rest.is_empty()
                && w.vals[&w.root].contains(&Some(value));
            return if ok { Ok(()) } else { Err(format!("attribute is written as {:?}", text)) };
        }
        if before.n(w.root).ty == Ty::Document {
            text = xmlread::declaration(text)?.1;
            if text.starts_with("<!DOCTYPE ") {
                text = xmlread::markup(text)?.1;
            }
        }
        let got = xmlread::read(text)?;
        // the elements as they were written
        struct Seen {
            name: String,
            inside: Option<String>,
            attrs: BTreeMap<String, String>,
        }
        let mut stack: Vec<String> = vec![];
        let mut seen: Vec<Seen> = vec![];
        let mut texts: Vec<(String, Option<String>)> = vec![];
        for i in &got {
            let inside = stack.last().cloned();
            match i {
                Item::Open(name, attrs) => {
                    seen.push(Seen { name: name.clone(), inside, attrs: attrs.clone() });
                    stack.push(name.clone());
                }
                Item::Close(_) => {
                    stack.pop();
                }
                Item::Text(t) | Item::Comment(t) | Item::CData(t) => texts.push((t.clone(), inside)),
                Item::Pi(_, t) => texts.push((t.clone().unwrap_or_default(), inside)),
                Item::EntityRef(t) => seen.push(Seen { name: t.clone(), inside, attrs: BTreeMap::new() }),
            }
        }
        // the node itself may have come to be somewhere below itself in time
        if touched.contains(&w.root) {
            return Ok(());
        }
        let fixed = |mut n: Nid| loop {
            if n == w.root {
                return true;
            }
            if touched.contains(&n) {
                return false;
            }
            match before.parent(n) {
                Some(p) => n = p,
                None => return false,
            }
        };
        let mut last_at: BTreeMap<Nid, usize> = BTreeMap::new();
        let mut order: Vec<Nid> = vec![];
        fn preorder(m: &Model, n: Nid, out: &mut Vec<Nid>) {
            out.push(n);
            for c in &m.n(n).children {
                preorder(m, *c, out);
            }
        }
        preorder(before, w.root, &mut order);
        let mut compared = 0;
        for n in order {
            let x = before.n(n);
            // what is below a reference is not written
            let hidden = {
                let mut p = before.parent(n);
                let mut hidden = false;
                while let Some(q) = p {
                    if n == w.root {
                        break;
                    }
                    hidden |= before.n(q).ty == Ty::EntityRef;
                    if q == w.root {
                        break;
                    }
                    p = before.parent(q);
                }
                hidden
            };
            if hidden || !fixed(n) {
                continue;
            }
            let parent = if n == w.root { None } else { before.parent(n) };
            let inside = parent.filter(|p| before.n(*p).ty == Ty::Element).map(|p| before.n(p).name.qname());
            match x.ty {
                Ty::Element | Ty::EntityRef => {
                    let q = x.name.qname();
                    let hits: Vec<usize> =
                        seen.iter().enumerate().filter(|(_, s)| s.name == q).map(|(i, _)| i).collect();
                    if hits.len() != 1 {
                        return Err(format!("{} is written {} times: {}", q, hits.len(), text));
                    }
                    if seen[hits[0]].inside != inside {
                        return Err(format!("{} is written inside {:?}, expected {:?}", q, seen[hits[0]].inside, inside));
                    }
                    if let Some(p) = parent {
                        if last_at.get(&p).is_some_and(|l| *l > hits[0]) {
                            return Err(format!("{} is written out of order: {}", q, text));
                        }
                        last_at.insert(p, hits[0]);
                    }
                    for a in &x.attrs {
                        if touched.contains(a) {
                            continue;
                        }
                        let aq = before.n(*a).name.qname();
                        match seen[hits[0]].attrs.get(&aq) {
                            Some(v) if w.vals[a].contains(&Some(v.clone())) => (),
                            other => {
                                return Err(format!("attribute {} of {} is written as {:?}, it was {:?}", aq, q, other, w.vals[a]))
                            }
                        }
                    }
                    compared += 1;
                }
                Ty::Text | Ty::Comment | Ty::CData | Ty::Pi => {
                    if w.vals[&n].len() > 1 {
                        continue;
                    }
                    let mark = format!("n{}z", n);
                    let v = x.value.clone().unwrap_or_default();
                    // text that was merged is in several nodes
                    let several = |m: &Model| {
                        let holds = |y: &MNode| y.value.as_deref().is_some_and(|y| y.contains(&mark));
                        m.nodes.iter().enumerate().any(|(i, y)| i != n && holds(y))
                    };
                    let several = several(before) || several(&self.m);
                    if several || !v.contains(&mark) {
                        continue;
                    }
                    let count: usize = texts.iter().map(|(t, _)| t.matches(&mark).count()).sum();
                    let at = texts.iter().position(|(t, _)| t.contains(&mark));
                    if count != 1 {
                        return Err(format!("data {:?} is written {} times: {}", v, count, text));
                    }
                    let t = &texts[at.unwrap()];
                    let want = if matches!(x.ty, Ty::Text | Ty::Comment) { escape(&v) } else { v.clone() };
                    if t.1 != inside || !t.0.contains(&want) {
                        return Err(format!("data {:?} is written as {:?} inside {:?}", v, t.0, t.1));
                    }
                    compared += 1;
                }
                _ => (),
            }
        }
        *self.stats.probes.entry("nodes_found_in_nested_output").or_insert(0) += compared;
        Ok(())
    }

    /// Let everybody go; every node must be freed then.
    pub fn finish(&mut self) {
        if self.viol.is_some() {
            // leave nodes that may be broken to themselves
            return;
        }
        self.cur += 1;
        self.args.clear();
        self.area = &["L01"];
        self.how = How::Ok;
        let slots = std::mem::take(&mut self.clients);
        match catch(move || drop(slots)) {
            Outcome::Done(()) => (),
            _ => return self.fail(["L01"], format!("dropping everything panicked: {}", last_panic())),
        }
        self.clients = vec![vec![]];
        self.collect();
        self.stats.probes.entry("all_freed_at_end").and_modify(|x| *x += 1).or_insert(1);
    }
}

/// The same look-ups as `check_ns`, as the call under test: with diagnostics, able to unwind.
fn self_check_ns_dry(r: &RefNode) {
    if let Ok(ns) = as_element_namespaced(r) {
        for p in PREFIXES {
            let _ = ns.resolve_namespace(*p);
        }
        for u in URIS {
            let _ = ns.resolve_prefix(u);
        }
    }
}

fn as_text_or_cdata(r: &mut RefNode, offset: usize) -> xml_dom::level2::Result<RefNode> {
    if is_cdata_section(r) {
        as_cdata_section_mut(r).unwrap().split(offset)
    } else {
        as_text_mut(r).unwrap().split(offset)
    }
}

/// version, encoding, standalone
/// Does the text say this.
fn same_items(want: &[Item], text: &str) -> std::result::Result<(), String> {
    let got = xmlread::read(text)?;
    if got.len() != want.len() {
        return Err(format!("{} items are written, expected {}: {:?}", got.len(), want.len(), text));
    }
    for (g, w) in got.iter().zip(want) {
        let ok = match (g, w) {
            (Item::CData(g), Item::CData(w)) => g == w || *g == format!(" {} ", w),
            (Item::Pi(g, d), Item::Pi(w, e)) => g == w && d.as_deref().unwrap_or("") == e.as_deref().unwrap_or(""),
            _ => g == w,
        };
        if !ok {
            return Err(format!("{:?} is written, expected {:?}", g, w));
        }
    }
    Ok(())
}

/// What a real tree says, by its raw content; `None` where an attribute must not be read.
pub fn real_items(r: &RefNode, out: &mut Vec<Item>) -> Option<()> {
    let name = || r.node_name().to_string();
    match r.node_type() {
        NodeType::Element => {
            let mut attrs = BTreeMap::new();
            for a in r.attributes().values() {
                let mut raw = String::new();
                for c in a.child_nodes() {
                    match c.node_type() {
                        NodeType::Text => raw.push_str(&c.node_value().unwrap_or_default()),
                        _ => {
                            let _ = write!(raw, "&{};", c.node_name());
                        }
                    }
                }
                attrs.insert(a.node_name().to_string(), escape(&attr_normal(&raw)?));
            }
            out.push(Item::Open(name(), attrs));
            for c in r.child_nodes() {
                real_items(&c, out)?;
            }
            out.push(Item::Close(name()));
        }
        NodeType::Document => {
            for c in r.child_nodes() {
                real_items(&c, out)?;
            }
        }
        NodeType::Text => xmlread::push_text(out, &escape(&r.node_value().unwrap_or_default())),
        NodeType::Comment => out.extend(r.node_value().map(|v| Item::Comment(escape(&v)))),
        NodeType::CData => out.extend(r.node_value().map(Item::CData)),
        NodeType::ProcessingInstruction => out.push(Item::Pi(name(), r.node_value())),
        NodeType::EntityReference => out.push(Item::EntityRef(name())),
        _ => (),
    }
    Some(())
}

pub fn declared(d: &RefNode) -> xmlread::Decl {
    as_document_decl(d)
        .ok()
        .and_then(|d| d.xml_declaration())
        .map(|x| (x.version().to_string(), x.encoding(), x.standalone()))
}

/// Canonical form of a real tree, attributes sorted.
pub fn dump(r: &RefNode) -> String {
    let mut s = format!("({:?} {}", r.node_type(), r.node_name());
    // the value of an attribute is in its children
    if r.node_type() != NodeType::Attribute {
        if let Some(v) = r.node_value() {
            let _ = write!(s, " {:?}", v);
        }
    }
    let mut attrs: Vec<String> = r.attributes().values().map(dump).collect();
    attrs.sort();
    for a in attrs {
        let _ = write!(s, " @{}", a);
    }
    for c in r.child_nodes() {
        let _ = write!(s, " {}", dump(&c));
    }
    s.push(')');
    s
}

/// Every conversion there is, of a node that is a `ty`.
fn converts(r: &mut RefNode, ty: Ty) -> Option<String> {
    use xml_dom::level2::ext::convert::{is_document_decl, is_element_namespaced};
    fn kind<T>(res: xml_dom::level2::Result<T>) -> Option<Error> {
        res.err()
    }
    let mut wrong = None;
    macro_rules! check {
        ($what:expr, $want:expr, $is:expr, $($as:expr),*) => {
            if $is != $want {
                wrong = Some(format!("is {}a {}", if $want { "not " } else { "" }, $what));
            }
            $(match kind($as) {
                None if !$want => wrong = Some(format!("can be used as a {}", $what)),
                Some(e) if $want => wrong = Some(format!("cannot be used as a {}: {:?}", $what, e)),
                Some(e) if !matches!(e, Error::InvalidState | Error::NotSupported) => {
                    wrong = Some(format!("as a {} is refused with {:?}", $what, e))
                }
                _ => (),
            })*
        };
    }
    check!("Attribute", ty == Ty::Attribute, is_attribute(r), as_attribute(r), as_attribute_mut(r));
    check!("Element", ty == Ty::Element, is_element(r), as_element(r), as_element_mut(r));
    let data = matches!(ty, Ty::Text | Ty::CData | Ty::Comment);
    check!("CharacterData", data, is_character_data(r), as_character_data(r), as_character_data_mut(r));
    check!("Text", ty == Ty::Text, is_text(r), as_text(r), as_text_mut(r));
    check!("CDataSection", ty == Ty::CData, is_cdata_section(r), as_cdata_section(r), as_cdata_section_mut(r));
    check!("EntityReference", ty == Ty::EntityRef, is_entity_reference(r), as_entity_reference(r), as_entity_reference_mut(r));
    check!("Entity", ty == Ty::Entity, is_entity_(r), as_entity(r), as_entity_mut(r));
    check!(
        "ProcessingInstruction",
        ty == Ty::Pi,
        is_processing_instruction(r),
        as_processing_instruction(r),
        as_processing_instruction_mut(r)
    );
    check!("Comment", ty == Ty::Comment, is_comment(r), as_comment(r), as_comment_mut(r));
    check!("Document", ty == Ty::Document, is_document(r), as_document(r), as_document_mut(r));
    check!("DocumentType", ty == Ty::DocType, is_document_type(r), as_document_type(r), as_document_type_mut(r));
    check!(
        "DocumentFragment",
        ty == Ty::Fragment,
        is_document_fragment(r),
        as_document_fragment(r),
        as_document_fragment_mut(r)
    );
    check!("Notation", ty == Ty::Notation, is_notation(r), as_notation(r), as_notation_mut(r));
    check!("DocumentDecl", ty == Ty::Document, is_document_decl(r), as_document_decl(r), as_document_decl_mut(r));
    check!("Namespaced", ty == Ty::Element, is_element_namespaced(r), as_element_namespaced(r));
    if ty != Ty::Element && (r.has_attributes() || !r.attributes().is_empty()) {
        wrong = Some("has attributes".to_string());
    }
    if matches!(ty, Ty::Text | Ty::CData | Ty::Comment | Ty::Pi | Ty::DocType | Ty::Notation)
        && (r.has_child_nodes() || r.first_child().is_some() || r.last_child().is_some())
    {
        wrong = Some("has children".to_string());
    }
    if !matches!(ty, Ty::Attribute | Ty::Text | Ty::CData | Ty::Comment | Ty::Pi | Ty::Entity) && r.node_value().is_some() {
        wrong = Some("has a value".to_string());
    }
    if ty == Ty::Pi && ProcessingInstruction::target(r) != r.node_name().to_string() {
        wrong = Some("has another target than its name".to_string());
    }
    wrong
}
