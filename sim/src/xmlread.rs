//! An independent reader for the text the crate writes. It shares no code with the crate, and is
//! strict about nesting, quoting and escaping.

use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Item {
    Open(String, BTreeMap<String, String>),
    Close(String),
    /// Still escaped; adjacent pieces are one item.
    Text(String),
    EntityRef(String),
    /// Still escaped, but for hyphens.
    Comment(String),
    CData(String),
    Pi(String, Option<String>),
}

pub fn push_text(items: &mut Vec<Item>, t: &str) {
    if t.is_empty() {
        return;
    }
    if let Some(Item::Text(last)) = items.last_mut() {
        last.push_str(t);
    } else {
        items.push(Item::Text(t.to_string()));
    }
}

pub type Decl = Option<(String, Option<String>, Option<bool>)>;

/// The XML declaration at the start of a text, and what follows it.
pub fn declaration(text: &str) -> Result<(Decl, &str), String> {
    let mut s = match text.strip_prefix("<?xml") {
        Some(s) if s.starts_with(' ') => s,
        _ => return Ok((None, text)),
    };
    let mut parts = vec![];
    while let Some(r) = s.strip_prefix(' ') {
        let (n, v, r) = attribute(r)?;
        parts.push((n, v));
        s = r;
    }
    let rest = s.strip_prefix("?>").ok_or("declaration is not closed")?;
    let mut parts = parts.into_iter().peekable();
    let mut next = |name: &str| parts.next_if(|p| p.0 == name).map(|p| p.1);
    let version = next("version").ok_or("declaration without version")?;
    let encoding = next("encoding");
    let standalone = match next("standalone").as_deref() {
        None => None,
        Some("yes") => Some(true),
        Some("no") => Some(false),
        Some(x) => return Err(format!("standalone {}", x)),
    };
    match parts.next() {
        None => Ok((Some((version, encoding, standalone)), rest)),
        Some(p) => Err(format!("{} in a declaration", p.0)),
    }
}

/// The words and quoted strings of a markup declaration, and what follows it.
pub fn markup(text: &str) -> Result<(Vec<String>, &str), String> {
    let mut s = text.strip_prefix("<!").ok_or_else(|| format!("declaration expected at {:?}", text))?;
    let mut words = vec![];
    loop {
        s = s.trim_start_matches(' ');
        if let Some(r) = s.strip_prefix('>') {
            return Ok((words, r));
        }
        let e = match s.strip_prefix('"') {
            Some(r) => r.find('"').ok_or("string is not closed")? + 2,
            None => s.find([' ', '>', '"']).ok_or("declaration is not closed")?,
        };
        if e == 0 {
            return Err("declaration".into());
        }
        words.push(s[..e].to_string());
        s = &s[e..];
    }
}

fn name_end(s: &str) -> usize {
    s.find(|c: char| !(c.is_alphanumeric() || matches!(c, '_' | ':' | '-' | '.' | '·' | '\u{300}'..='\u{36f}' | '‿' | '⁀'))).unwrap_or(s.len())
}

/// One `name="value"`, returns the rest.
pub fn attribute(s: &str) -> Result<(String, String, &str), String> {
    let e = name_end(s);
    if e == 0 {
        return Err(format!("attribute name expected at {:?}", &s.chars().take(20).collect::<String>()));
    }
    let name = s[..e].to_string();
    let s = s[e..].strip_prefix("=\"").ok_or_else(|| format!("=\" expected after attribute {}", name))?;
    let q = s.find('"').ok_or_else(|| format!("value of {} is not closed", name))?;
    let value = &s[..q];
    if value.contains('<') {
        return Err(format!("unescaped < in the value of {}", name));
    }
    refs_ok(value)?;
    Ok((name, value.to_string(), &s[q + 1..]))
}

/// Every & starts a reference.
fn refs_ok(s: &str) -> Result<(), String> {
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        rest = &rest[i + 1..];
        let body = rest.strip_prefix('#').unwrap_or(rest);
        let e = name_end(body);
        if e == 0 || !body[e..].starts_with(';') {
            return Err(format!("unescaped & in {:?}", s));
        }
    }
    Ok(())
}

pub fn read(text: &str) -> Result<Vec<Item>, String> {
    let mut items = Vec::new();
    let mut stack: Vec<String> = Vec::new();
    let mut s = text;
    while !s.is_empty() {
        if let Some(r) = s.strip_prefix("<![CDATA[") {
            let e = r.find("]]>").ok_or("CDATA section is not closed")?;
            s = &r[e + 3..];
            // the end of a section can be divided between two
            let data = &r[..e];
            match items.last_mut() {
                Some(Item::CData(last))
                    if text[..text.len() - r.len()].ends_with("]]><![CDATA[")
                        && ((last.ends_with("]]") && data.starts_with('>')) || (last.ends_with(']') && data.starts_with("]>"))) =>
                {
                    last.push_str(data)
                }
                _ => items.push(Item::CData(data.to_string())),
            }
        } else if let Some(r) = s.strip_prefix("<!--") {
            let e = r.find("-->").ok_or("comment is not closed")?;
            if r[..e].contains("--") || r[..e].ends_with('-') {
                return Err(format!("comment {:?}", &r[..e]));
            }
            items.push(Item::Comment(r[..e].replace("&#45;", "-")));
            s = &r[e + 3..];
        } else if let Some(r) = s.strip_prefix("<?") {
            let e = r.find("?>").ok_or("instruction is not closed")?;
            let body = &r[..e];
            let t = name_end(body);
            let data = match body[t..].strip_prefix(' ') {
                Some(d) => Some(d.to_string()),
                None if t == body.len() => None,
                None => return Err(format!("instruction {:?}", body)),
            };
            items.push(Item::Pi(body[..t].to_string(), data));
            s = &r[e + 2..];
        } else if let Some(r) = s.strip_prefix("</") {
            let e = name_end(r);
            let name = &r[..e];
            if stack.pop().as_deref() != Some(name) {
                return Err(format!("end tag {} does not match", name));
            }
            items.push(Item::Close(name.to_string()));
            s = r[e..].strip_prefix('>').ok_or("end tag is not closed")?;
        } else if let Some(r) = s.strip_prefix('<') {
            let e = name_end(r);
            if e == 0 {
                return Err(format!("start tag expected at {:?}", &s.chars().take(20).collect::<String>()));
            }
            let name = r[..e].to_string();
            let mut r = &r[e..];
            let mut attrs = BTreeMap::new();
            loop {
                if let Some(q) = r.strip_prefix("/>") {
                    items.push(Item::Open(name.clone(), attrs));
                    items.push(Item::Close(name));
                    s = q;
                    break;
                } else if let Some(q) = r.strip_prefix('>') {
                    items.push(Item::Open(name.clone(), attrs));
                    stack.push(name);
                    s = q;
                    break;
                } else if let Some(q) = r.strip_prefix(' ') {
                    let (n, v, q) = attribute(q)?;
                    if attrs.insert(n.clone(), v).is_some() {
                        return Err(format!("attribute {} is there twice", n));
                    }
                    r = q;
                } else {
                    return Err(format!("start tag {} is not closed", name));
                }
            }
        } else {
            let e = s.find('<').unwrap_or(s.len());
            let mut t = &s[..e];
            refs_ok(t)?;
            // named references are items of their own
            while let Some(i) = t.find('&') {
                if t[i + 1..].starts_with('#') {
                    let k = i + t[i..].find(';').unwrap() + 1;
                    push_text(&mut items, &t[..k]);
                    t = &t[k..];
                } else {
                    push_text(&mut items, &t[..i]);
                    let k = i + t[i..].find(';').unwrap();
                    items.push(Item::EntityRef(t[i + 1..k].to_string()));
                    t = &t[k + 1..];
                }
            }
            push_text(&mut items, t);
            s = &s[e..];
        }
    }
    if let Some(open) = stack.last() {
        return Err(format!("element {} is not closed", open));
    }
    Ok(items)
}
