//! A small JSON value with a printer and a parser, enough for replay files and evidence.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

pub fn obj(fields: Vec<(&str, J)>) -> J {
    J::Obj(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn s(v: impl Into<String>) -> J {
    J::Str(v.into())
}

pub fn n(v: u64) -> J {
    J::Int(v as i64)
}

impl J {
    pub fn get(&self, key: &str) -> &J {
        match self {
            J::Obj(m) => m.get(key).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Num(f) => *f as i64,
            _ => 0,
        }
    }
    pub fn u64(&self) -> u64 {
        // 64 bit values are written as strings
        match self {
            J::Str(s) => s.parse().unwrap_or(0),
            _ => self.int() as u64,
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn print(&self) -> String {
        let mut out = String::new();
        self.write(&mut out, 0, true);
        out.push('\n');
        out
    }
    pub fn compact(&self) -> String {
        let mut out = String::new();
        self.write(&mut out, 0, false);
        out
    }
    fn write(&self, out: &mut String, ind: usize, pretty: bool) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Num(f) => out.push_str(&format!("{:.3}", f)),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                            out.push_str(&format!("\\u{:04x}", c as u32))
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(a) => {
                // arrays of plain values stay on one line
                let flat = !pretty || a.iter().all(|x| !matches!(x, J::Obj(_)));
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    }
                    x.write(out, ind + 1, pretty && !matches!(x, J::Obj(_)) || false);
                }
                out.push(']');
            }
            J::Obj(m) => {
                out.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if pretty {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    }
                    J::Str(k.clone()).write(out, 0, false);
                    out.push_str(": ");
                    v.write(out, ind + 1, pretty);
                }
                out.push('}');
            }
        }
    }
    pub fn parse(text: &str) -> Result<J, String> {
        let b = text.as_bytes();
        let mut i = 0;
        let v = Self::value(b, &mut i)?;
        Self::ws(b, &mut i);
        if i != b.len() {
            return Err(format!("trailing data at {}", i));
        }
        Ok(v)
    }
    fn ws(b: &[u8], i: &mut usize) {
        while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
            *i += 1;
        }
    }
    fn value(b: &[u8], i: &mut usize) -> Result<J, String> {
        Self::ws(b, i);
        if *i >= b.len() {
            return Err("end of text".into());
        }
        match b[*i] {
            b'{' => {
                *i += 1;
                let mut m = BTreeMap::new();
                loop {
                    Self::ws(b, i);
                    match b.get(*i) {
                        Some(b'}') => {
                            *i += 1;
                            return Ok(J::Obj(m));
                        }
                        Some(b',') => *i += 1,
                        Some(_) => {
                            let k = Self::value(b, i)?;
                            Self::ws(b, i);
                            if b.get(*i) != Some(&b':') {
                                return Err(format!("expected : at {}", i));
                            }
                            *i += 1;
                            let v = Self::value(b, i)?;
                            m.insert(k.str().to_string(), v);
                        }
                        None => return Err("end of text".into()),
                    }
                }
            }
            b'[' => {
                *i += 1;
                let mut a = Vec::new();
                loop {
                    Self::ws(b, i);
                    match b.get(*i) {
                        Some(b']') => {
                            *i += 1;
                            return Ok(J::Arr(a));
                        }
                        Some(b',') => *i += 1,
                        Some(_) => a.push(Self::value(b, i)?),
                        None => return Err("end of text".into()),
                    }
                }
            }
            b'"' => {
                *i += 1;
                let mut out: Vec<u8> = Vec::new();
                while *i < b.len() {
                    match b[*i] {
                        b'"' => {
                            *i += 1;
                            return String::from_utf8(out).map(J::Str).map_err(|e| e.to_string());
                        }
                        b'\\' => {
                            *i += 1;
                            match b.get(*i) {
                                Some(b'n') => out.push(b'\n'),
                                Some(b't') => out.push(b'\t'),
                                Some(b'u') => {
                                    let h = std::str::from_utf8(&b[*i + 1..*i + 5])
                                        .map_err(|e| e.to_string())?;
                                    let c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                    let c = char::from_u32(c).unwrap_or('?');
                                    out.extend(c.to_string().bytes());
                                    *i += 4;
                                }
                                Some(c) => out.push(*c),
                                None => return Err("end of text".into()),
                            }
                            *i += 1;
                        }
                        c => {
                            out.push(c);
                            *i += 1;
                        }
                    }
                }
                Err("end of text".into())
            }
            b't' if b[*i..].starts_with(b"true") => {
                *i += 4;
                Ok(J::Bool(true))
            }
            b'f' if b[*i..].starts_with(b"false") => {
                *i += 5;
                Ok(J::Bool(false))
            }
            b'n' if b[*i..].starts_with(b"null") => {
                *i += 4;
                Ok(J::Null)
            }
            _ => {
                let start = *i;
                while *i < b.len() && matches!(b[*i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9')
                {
                    *i += 1;
                }
                let t = std::str::from_utf8(&b[start..*i]).map_err(|e| e.to_string())?;
                if let Ok(v) = t.parse::<i64>() {
                    Ok(J::Int(v))
                } else {
                    t.parse::<f64>().map(J::Num).map_err(|e| format!("{} at {}", e, start))
                }
            }
        }
    }
}
