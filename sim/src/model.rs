//! The reference model: a table of nodes with plain links, and the effect of every operation on it.

use crate::rng::Fnv;
use std::collections::{BTreeMap, BTreeSet};

pub type Nid = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Ty {
    Element,
    Attribute,
    Text,
    CData,
    EntityRef,
    Pi,
    Comment,
    Document,
    DocType,
    Fragment,
    Entity,
    Notation,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Ek {
    IndexSize,
    Hierarchy,
    WrongDocument,
    NotFound,
    InUse,
    Syntax,
    InvalidState,
    Namespace,
    InvalidChar,
    Other,
}

pub const XMLNS: &str = "http://www.w3.org/2000/xmlns/";
pub const XMLURI: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct MName {
    pub ns: Option<String>,
    pub prefix: Option<String>,
    pub local: String,
}

impl MName {
    pub fn new(ns: Option<&str>, qname: &str) -> Self {
        let (prefix, local) = match qname.split_once(':') {
            Some((p, l)) => (Some(p.to_string()), l.to_string()),
            None => (None, qname.to_string()),
        };
        MName { ns: ns.map(String::from), prefix, local }
    }
    pub fn plain(local: &str) -> Self {
        MName { ns: None, prefix: None, local: local.to_string() }
    }
    pub fn qname(&self) -> String {
        match &self.prefix {
            Some(p) => format!("{}:{}", p, self.local),
            None => self.local.clone(),
        }
    }
    pub fn is_ns_decl(&self) -> bool {
        self.ns.as_deref() == Some(XMLNS)
            && ((self.local == "xmlns" && self.prefix.is_none()) || self.prefix.as_deref() == Some("xmlns"))
    }
    pub fn is_id(&self, lax: bool) -> bool {
        self.local == "id"
            && (lax || self.ns.as_deref() == Some(XMLURI) || self.prefix.as_deref() == Some("xml"))
    }
    pub fn same_attr(&self, o: &MName) -> bool {
        (self.prefix == o.prefix && self.local == o.local)
            || (self.ns.is_some() && self.ns == o.ns && self.local == o.local)
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MDoc {
    pub lax_ids: bool,
    pub namespaces: bool,
    pub doctype: Option<Nid>,
    /// version, encoding, standalone
    pub decl: Option<(String, Option<String>, Option<bool>)>,
    /// Document type, entity and notation: public and system identifier.
    pub ids: (Option<String>, Option<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MNode {
    pub ty: Ty,
    pub name: MName,
    pub value: Option<String>,
    pub parent: Option<Nid>,
    pub children: Vec<Nid>,
    pub attrs: Vec<Nid>,
    pub owner: Option<Nid>,
    pub doc: Option<Nid>,
    pub mdoc: MDoc,
    /// Element: the declarations in force, prefix to namespace.
    pub nsmap: BTreeMap<Option<String>, String>,
    /// Attribute: it was set on its element, or given its value, through the element or attribute
    /// interfaces while the document was alive.
    pub registered: bool,
    /// Attribute: the nodes below it were edited directly since.
    pub dirty: bool,
    /// No client can reach it any more; it is expected to have been freed.
    pub dead: bool,
}

impl MNode {
    pub fn new(ty: Ty, name: MName, value: Option<String>, doc: Option<Nid>) -> Self {
        MNode {
            ty,
            name,
            value,
            parent: None,
            children: vec![],
            attrs: vec![],
            owner: None,
            doc,
            mdoc: MDoc::default(),
            nsmap: BTreeMap::new(),
            registered: false,
            dirty: false,
            dead: false,
        }
    }
}

#[derive(Clone, Default)]
pub struct Model {
    pub nodes: Vec<MNode>,
    /// Nodes that were inserted or detached, for watching a period.
    pub touched: Vec<Nid>,
    /// Nodes nobody can reach any more that may have been freed or not.
    pub limbo: BTreeSet<Nid>,
}

/// What is known in advance about the result of an edit.
#[derive(Clone, Default, Debug)]
pub struct Expect {
    /// Reasons for which the edit has to be refused; if there is any, the result is one of these.
    pub must: Vec<Ek>,
    /// Reasons for which the edit may be refused.
    pub may: Vec<Ek>,
}

impl Expect {
    pub fn ok() -> Self {
        Self::default()
    }
    pub fn add(&mut self, e: Ek) {
        if !self.must.contains(&e) {
            self.must.push(e);
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    None,
    Some(String),
    /// The value contains a reference to an entity nobody declared, which must not be read.
    Unknown,
}

pub fn allowed_child(parent: Ty, child: Ty) -> bool {
    use Ty::*;
    match parent {
        Element | EntityRef | Entity | Fragment => {
            matches!(child, Element | Text | Comment | Pi | CData | EntityRef)
        }
        Attribute => matches!(child, Text | EntityRef),
        Document => matches!(child, Element | Comment | Pi),
        _ => false,
    }
}

pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&#38;"),
            '\'' => o.push_str("&#39;"),
            '>' => o.push_str("&#62;"),
            '<' => o.push_str("&#60;"),
            '"' => o.push_str("&#34;"),
            c => o.push(c),
        }
    }
    o
}

/// Line ends, references, white space and trimming, as XML prescribes for attribute values of a
/// type other than CDATA but without collapsing inner spaces. None if an unknown entity is used.
pub fn attr_normal(raw: &str) -> Option<String> {
    let chars: Vec<char> = raw.chars().collect();
    // line ends
    let mut s: Vec<char> = Vec::new();
    let mut i = 0;
    while i < chars.len() {
        match chars[i] {
            '\r' => {
                if matches!(chars.get(i + 1), Some('\n') | Some('\u{85}')) {
                    i += 1;
                }
                s.push('\n');
            }
            '\u{85}' | '\u{2028}' => s.push('\n'),
            c => s.push(c),
        }
        i += 1;
    }
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == '&' {
            // where would the reference end
            let mut j = i + 1;
            if s.get(j) == Some(&'#') {
                j += 1;
                let hex = s.get(j) == Some(&'x');
                if hex {
                    j += 1;
                }
                let start = j;
                while j < s.len()
                    && (if hex { s[j].is_ascii_hexdigit() } else { s[j].is_ascii_digit() })
                {
                    j += 1;
                }
                if j > start && s.get(j) == Some(&';') {
                    let digits: String = s[start..j].iter().collect();
                    let code = u32::from_str_radix(&digits, if hex { 16 } else { 10 }).ok();
                    match code.and_then(char::from_u32) {
                        Some(c) => out.push(c),
                        None => out.extend(&s[i..=j]),
                    }
                    i = j + 1;
                    continue;
                }
            } else if s.get(j).is_some_and(|c| c.is_alphabetic() || *c == '_') {
                while j < s.len() && (s[j].is_alphanumeric() || matches!(s[j], '.' | '_' | '-')) {
                    j += 1;
                }
                if s.get(j) == Some(&';') {
                    let name: String = s[i + 1..j].iter().collect();
                    out.push(match name.as_str() {
                        "amp" => '&',
                        "lt" => '<',
                        "gt" => '>',
                        "apos" => '\'',
                        "quot" => '"',
                        _ => return None,
                    });
                    i = j + 1;
                    continue;
                }
            }
            out.push(c);
        } else if matches!(c, '\t' | '\n' | '\r') {
            out.push(' ');
        } else {
            out.push(c);
        }
        i += 1;
    }
    Some(out.trim_matches(' ').to_string())
}

impl Model {
    pub fn n(&self, i: Nid) -> &MNode {
        &self.nodes[i]
    }
    pub fn add(&mut self, node: MNode) -> Nid {
        self.nodes.push(node);
        self.nodes.len() - 1
    }
    fn alive(&self, i: Option<Nid>) -> Option<Nid> {
        i.filter(|x| !self.nodes[*x].dead)
    }
    pub fn parent(&self, i: Nid) -> Option<Nid> {
        self.alive(self.nodes[i].parent)
    }
    pub fn owner(&self, i: Nid) -> Option<Nid> {
        self.alive(self.nodes[i].owner)
    }
    pub fn doc(&self, i: Nid) -> Option<Nid> {
        self.alive(self.nodes[i].doc)
    }
    /// The container of a node: its parent, or for an attribute its element.
    pub fn container(&self, i: Nid) -> Option<Nid> {
        if self.nodes[i].ty == Ty::Attribute {
            self.owner(i)
        } else {
            self.parent(i)
        }
    }
    pub fn is_self_or_above(&self, candidate: Nid, node: Nid) -> bool {
        let mut cur = Some(node);
        while let Some(c) = cur {
            if c == candidate {
                return true;
            }
            cur = self.container(c);
        }
        false
    }
    /// The document a node counts as being of, a document itself included.
    pub fn home(&self, i: Nid) -> Option<Nid> {
        if self.nodes[i].ty == Ty::Document {
            Some(i)
        } else {
            self.nodes[i].doc
        }
    }
    pub fn below(&self, i: Nid, out: &mut BTreeSet<Nid>) {
        if out.insert(i) {
            for c in self.nodes[i].children.iter().chain(&self.nodes[i].attrs) {
                self.below(*c, out);
            }
            if let Some(d) = self.nodes[i].mdoc.doctype {
                self.below(d, out);
            }
        }
    }

    // ---------------------------------------------------------------- values, ids and namespaces

    pub fn raw_attr(&self, a: Nid) -> Option<String> {
        if self.nodes[a].children.is_empty() {
            return None;
        }
        let mut s = String::new();
        for c in &self.nodes[a].children {
            if self.nodes[*c].ty == Ty::Text {
                s.push_str(self.nodes[*c].value.as_deref().unwrap_or(""));
            }
        }
        Some(s)
    }
    pub fn attr_value(&self, a: Nid) -> Val {
        match self.raw_attr(a) {
            None => Val::None,
            Some(raw) => match attr_normal(&raw) {
                None => Val::Unknown,
                Some(v) => Val::Some(escape(&v)),
            },
        }
    }
    pub fn is_id_attr(&self, a: Nid) -> bool {
        match self.doc(a) {
            Some(d) => self.nodes[a].name.is_id(self.nodes[d].mdoc.lax_ids),
            None => false,
        }
    }
    /// Elements that carry this ID at the moment: all of them, and those that must be found.
    pub fn id_carriers(&self, doc: Nid, id: &str) -> (Vec<Nid>, Vec<Nid>) {
        let mut all = vec![];
        let mut firm = vec![];
        for (e, n) in self.nodes.iter().enumerate() {
            if n.dead || n.ty != Ty::Element || n.doc != Some(doc) {
                continue;
            }
            for a in &n.attrs {
                if self.is_id_attr(*a) && self.attr_value(*a) == Val::Some(id.to_string()) {
                    if !all.contains(&e) {
                        all.push(e);
                    }
                    if self.nodes[*a].registered && !self.nodes[*a].dirty && !firm.contains(&e) && !self.limbo.contains(&e) {
                        firm.push(e);
                    }
                }
            }
        }
        (all, firm)
    }
    pub fn expect_unique_id(&self, element: Nid, id: &str, exp: &mut Expect) {
        if let Some(d) = self.doc(element) {
            let (all, firm) = self.id_carriers(d, id);
            if firm.iter().any(|e| *e != element) {
                exp.add(Ek::Syntax);
            } else if all.iter().any(|e| *e != element) {
                exp.may.push(Ek::Syntax);
            }
        }
    }
    fn namespaces_on(&self, e: Nid) -> bool {
        self.doc(e).is_some_and(|d| self.nodes[d].mdoc.namespaces)
    }
    fn decl_key(&self, a: Nid) -> Option<String> {
        let name = &self.nodes[a].name;
        name.prefix.as_ref().map(|_| name.local.clone())
    }
    fn index(&mut self, e: Nid, a: Nid) {
        self.nodes[a].dirty = false;
        self.nodes[a].registered = self.doc(e).is_some();
        if self.nodes[a].name.is_ns_decl() && self.namespaces_on(e) {
            // the name itself, not escaped
            if let Some(v) = self.raw_attr(a).and_then(|raw| attr_normal(&raw)) {
                let key = self.decl_key(a);
                self.nodes[e].nsmap.insert(key, v);
            }
        }
    }
    fn unindex(&mut self, e: Nid, a: Nid) {
        if self.nodes[a].name.is_ns_decl() && self.namespaces_on(e) {
            let key = self.decl_key(a);
            self.nodes[e].nsmap.remove(&key);
        }
        self.nodes[a].registered = false;
        self.nodes[a].dirty = false;
    }
    pub fn touch(&mut self, i: Nid) {
        if let Some(p) = self.parent(i) {
            if self.nodes[p].ty == Ty::Attribute {
                self.nodes[p].dirty = true;
            }
        }
    }
    /// Is any declaration on this element out of step with the text below it.
    pub fn ns_unclear(&self, e: Nid) -> bool {
        self.nodes[e].attrs.iter().any(|a| self.nodes[*a].name.is_ns_decl() && self.nodes[*a].dirty)
    }
    pub fn resolve_ns(&self, e: Nid, prefix: &Option<String>) -> Option<String> {
        let mut cur = Some(e);
        while let Some(c) = cur {
            if let Some(v) = self.nodes[c].nsmap.get(prefix) {
                return Some(v.clone());
            }
            cur = self.parent(c);
        }
        None
    }
    /// All prefixes which resolve to this namespace from this element.
    pub fn prefixes_for(&self, e: Nid, uri: &str) -> Vec<Option<String>> {
        let mut keys: BTreeSet<Option<String>> = BTreeSet::new();
        let mut cur = Some(e);
        while let Some(c) = cur {
            keys.extend(self.nodes[c].nsmap.keys().cloned());
            cur = self.parent(c);
        }
        keys.into_iter().filter(|k| self.resolve_ns(e, k).as_deref() == Some(uri)).collect()
    }

    // -------------------------------------------------------------------------------- edits: tree

    pub fn expect_insert(&self, parent: Nid, child: Nid, before: Option<Nid>, replaced: Option<Nid>) -> Expect {
        let mut e = Expect::ok();
        let (p, c) = (&self.nodes[parent], &self.nodes[child]);
        if !allowed_child(p.ty, c.ty) {
            e.add(Ek::Hierarchy);
        }
        if self.is_self_or_above(child, parent) {
            e.add(Ek::Hierarchy);
        }
        if p.ty == Ty::Document
            && c.ty == Ty::Element
            && p.children.iter().any(|x| self.nodes[*x].ty == Ty::Element && *x != child && Some(*x) != replaced)
        {
            e.add(Ek::Hierarchy);
        }
        for r in [before, replaced].into_iter().flatten() {
            if !p.children.contains(&r) {
                e.add(Ek::NotFound);
            }
        }
        let same = match p.ty {
            Ty::Document => c.doc.is_none() || c.doc == Some(parent),
            _ => match (p.doc, c.doc) {
                (_, None) => true,
                (a, b) => a == b,
            },
        };
        if !same {
            e.add(Ek::WrongDocument);
        }
        e
    }
    pub fn detach(&mut self, child: Nid) {
        self.touched.push(child);
        if let Some(p) = self.nodes[child].parent {
            self.touch(child);
            self.nodes[p].children.retain(|x| *x != child);
        }
        self.nodes[child].parent = None;
    }
    pub fn insert(&mut self, parent: Nid, child: Nid, before: Option<Nid>) {
        if before == Some(child) {
            return;
        }
        self.detach(child);
        let at = match before {
            Some(b) => self.nodes[parent].children.iter().position(|x| *x == b).unwrap(),
            None => self.nodes[parent].children.len(),
        };
        self.nodes[parent].children.insert(at, child);
        self.nodes[child].parent = Some(parent);
        self.nodes[child].doc = if self.nodes[parent].ty == Ty::Document {
            Some(parent)
        } else {
            self.nodes[parent].doc
        };
        self.touch(child);
    }
    pub fn replace(&mut self, parent: Nid, child: Nid, old: Nid) {
        if child == old {
            return;
        }
        let list = self.nodes[parent].children.clone();
        let at = list.iter().position(|x| *x == old).unwrap();
        let next = list[at + 1..].iter().copied().find(|x| *x != child);
        self.detach(old);
        self.insert(parent, child, next);
    }

    // -------------------------------------------------------------------------- edits: attributes

    pub fn find_attr(&self, e: Nid, qname: &str) -> Option<Nid> {
        self.nodes[e].attrs.iter().copied().find(|a| self.nodes[*a].name.qname() == qname)
    }
    pub fn find_attr_ns(&self, e: Nid, ns: &str, local: &str) -> Option<Nid> {
        self.nodes[e].attrs.iter().copied().find(|a| {
            self.nodes[*a].name.ns.as_deref() == Some(ns) && self.nodes[*a].name.local == local
        })
    }
    pub fn expect_set_attr(&self, e: Nid, a: Nid) -> Expect {
        let mut x = Expect::ok();
        if self.nodes[e].ty != Ty::Element || self.nodes[a].ty != Ty::Attribute {
            x.add(Ek::InvalidState);
            return x;
        }
        if self.nodes[e].doc != self.nodes[a].doc {
            x.add(Ek::WrongDocument);
        }
        if self.is_self_or_above(a, e) {
            x.add(Ek::Hierarchy);
        }
        match self.owner(a) {
            Some(o) if o == e => return x,
            Some(o) if self.limbo.contains(&o) => x.may.push(Ek::InUse),
            Some(_) => x.add(Ek::InUse),
            None => (),
        }
        if self.is_id_attr(a) {
            if let Val::Some(v) = self.attr_value(a) {
                self.expect_unique_id(e, &v, &mut x);
            }
        }
        x
    }
    pub fn set_attr(&mut self, e: Nid, a: Nid) {
        if self.owner(a) == Some(e) {
            return;
        }
        let name = self.nodes[a].name.clone();
        for old in self.nodes[e].attrs.clone() {
            if self.nodes[old].name.same_attr(&name) {
                self.remove_attr(e, old);
            }
        }
        self.touched.push(a);
        self.nodes[a].owner = Some(e);
        self.nodes[e].attrs.push(a);
        self.index(e, a);
    }
    pub fn remove_attr(&mut self, e: Nid, a: Nid) {
        self.touched.push(a);
        self.nodes[e].attrs.retain(|x| *x != a);
        self.nodes[a].owner = None;
        self.unindex(e, a);
    }
    pub fn new_attr(&mut self, name: MName, value: Option<&str>, doc: Option<Nid>) -> Nid {
        let a = self.add(MNode::new(Ty::Attribute, name, None, doc));
        if let Some(v) = value {
            self.attr_text(a, v);
        }
        a
    }
    fn attr_text(&mut self, a: Nid, v: &str) -> Nid {
        let doc = self.nodes[a].doc;
        let t = self.add(MNode::new(Ty::Text, MName::plain("#text"), Some(v.to_string()), doc));
        self.nodes[t].parent = Some(a);
        self.nodes[a].children.push(t);
        t
    }
    pub fn unset_attr_value(&mut self, a: Nid) {
        for c in std::mem::take(&mut self.nodes[a].children) {
            self.nodes[c].parent = None;
        }
        if let Some(e) = self.owner(a) {
            self.unindex(e, a);
        }
    }
    pub fn set_attr_value(&mut self, a: Nid, v: &str) {
        self.unset_attr_value(a);
        self.attr_text(a, v);
        if let Some(e) = self.owner(a) {
            self.index(e, a);
        }
    }

    // ---------------------------------------------------------------------- edits: character data

    /// The byte range an offset and count select, or None if the offset is not valid.
    pub fn range(data: &str, offset: usize, count: usize) -> Option<(usize, usize)> {
        let end = offset.saturating_add(count).min(data.len());
        (offset <= data.len() && data.is_char_boundary(offset) && data.is_char_boundary(end))
            .then_some((offset, end))
    }
    /// The outcome of replacing a range: the expectation, and the new value if it is done.
    pub fn replace_data(&self, t: Nid, offset: usize, count: usize, with: &str) -> (Expect, Option<String>) {
        let mut x = Expect::ok();
        match &self.nodes[t].value {
            None => {
                if offset > 0 {
                    x.add(Ek::IndexSize);
                } else if count > 0 {
                    x.may.push(Ek::IndexSize);
                }
                (x, Some(with.to_string()))
            }
            Some(v) => match Self::range(v, offset, count) {
                None => {
                    x.add(Ek::IndexSize);
                    (x, None)
                }
                Some((a, b)) => (x, Some(format!("{}{}{}", &v[..a], with, &v[b..]))),
            },
        }
    }
    pub fn normalize(&mut self, n: Nid) {
        for c in self.nodes[n].children.clone() {
            if self.nodes[c].ty == Ty::Text {
                let value = self.nodes[c].value.clone().unwrap_or_default();
                let list = &self.nodes[n].children;
                let at = list.iter().position(|x| *x == c).unwrap();
                let prev = if at > 0 { Some(list[at - 1]) } else { None };
                match prev.filter(|p| self.nodes[*p].ty == Ty::Text) {
                    _ if value.is_empty() => self.detach(c),
                    Some(p) => {
                        let mut v = self.nodes[p].value.clone().unwrap_or_default();
                        v.push_str(&value);
                        self.nodes[p].value = Some(v);
                        self.detach(c);
                    }
                    None => (),
                }
            } else {
                self.normalize(c);
            }
        }
        for a in self.nodes[n].attrs.clone() {
            self.normalize(a);
        }
    }

    // ------------------------------------------------------------------------------------- clones

    pub fn clone_node(&mut self, n: Nid, deep: bool) -> Nid {
        let c = self.copy_node(n, deep);
        if self.nodes[c].ty == Ty::Document {
            if let Some(t) = self.nodes[n].mdoc.doctype {
                let t = self.copy_node(t, true);
                self.nodes[c].mdoc.doctype = Some(t);
            }
            self.adopt(c, n, c);
        }
        c
    }
    /// The nodes of the copy of a document are nodes of this copy, which knows their IDs as far as they
    /// are unambiguous.
    fn adopt(&mut self, document: Nid, n: Nid, c: Nid) {
        let mut pairs = vec![(n, c)];
        let mut at = 0;
        while let Some((n, c)) = pairs.get(at).copied() {
            at += 1;
            let (x, y) = (&self.nodes[n], &self.nodes[c]);
            pairs.extend(x.children.iter().copied().zip(y.children.iter().copied()));
            pairs.extend(x.attrs.iter().copied().zip(y.attrs.iter().copied()));
            pairs.extend(x.mdoc.doctype.zip(y.mdoc.doctype));
            if c != document {
                self.nodes[c].doc = Some(document);
            }
        }
        let known = pairs.iter().copied().filter(|(n, _)| self.nodes[*n].registered && !self.nodes[*n].dirty);
        for (_, c) in known.collect::<Vec<_>>() {
            let alone = match self.attr_value(c) {
                Val::Some(id) => self.id_carriers(document, &id).0.len() < 2,
                _ => true,
            };
            self.nodes[c].registered = alone;
        }
    }
    fn copy_node(&mut self, n: Nid, deep: bool) -> Nid {
        let mut copy = self.nodes[n].clone();
        copy.parent = None;
        copy.owner = None;
        copy.children.clear();
        copy.attrs.clear();
        copy.registered = false;
        let c = self.add(copy);
        for a in self.nodes[n].attrs.clone() {
            let ca = self.copy_node(a, true);
            self.nodes[ca].owner = Some(c);
            self.nodes[c].attrs.push(ca);
        }
        if deep {
            for ch in self.nodes[n].children.clone() {
                let cc = self.copy_node(ch, true);
                self.nodes[cc].parent = Some(c);
                self.nodes[c].children.push(cc);
            }
        }
        c
    }

    // ------------------------------------------------------------------------------------ queries

    pub fn by_tag(&self, n: Nid, pred: &dyn Fn(&MName) -> bool, out: &mut Vec<Nid>) {
        if matches!(self.nodes[n].ty, Ty::Element | Ty::EntityRef) {
            if self.nodes[n].ty == Ty::Element && pred(&self.nodes[n].name) {
                out.push(n);
            }
            for c in &self.nodes[n].children {
                self.by_tag(*c, pred, out);
            }
        }
    }
    pub fn root_of(&self, doc: Nid) -> Option<Nid> {
        self.nodes[doc].children.iter().copied().find(|c| self.nodes[*c].ty == Ty::Element)
    }

    // -------------------------------------------------------------------------------- state digest

    fn digest(&self, n: Nid, h: &mut Fnv) {
        let x = &self.nodes[n];
        h.u(x.ty as u64 + 1);
        h.s(&x.name.qname());
        h.u(x.value.as_ref().map_or(99, |v| v.len().min(8) as u64));
        let mut attrs: Vec<(String, u64)> = x
            .attrs
            .iter()
            .map(|a| (self.nodes[*a].name.qname(), self.nodes[*a].children.len() as u64))
            .collect();
        attrs.sort();
        for (a, k) in attrs {
            h.s(&a);
            h.u(k);
        }
        h.u(1000);
        for c in &x.children {
            self.digest(*c, h);
        }
        h.u(1001);
    }
    /// A digest of the shape of everything that is alive, independent of node numbers.
    pub fn state_digest(&self) -> u64 {
        let mut roots: Vec<u64> = vec![];
        for (i, x) in self.nodes.iter().enumerate() {
            if !x.dead && self.container(i).is_none() {
                let mut h = Fnv::new();
                h.u(self.doc(i).is_some() as u64);
                self.digest(i, &mut h);
                roots.push(h.0);
            }
        }
        roots.sort();
        let mut h = Fnv::new();
        for r in roots {
            h.u(r);
        }
        h.0
    }
}
