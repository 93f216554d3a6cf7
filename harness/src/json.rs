//! A small JSON reader and writer (objects, arrays, strings, integers, booleans).
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self, k: &str) -> &str {
        match self.get(k) {
            Some(J::Str(s)) => s,
            _ => "",
        }
    }
    pub fn int(&self, k: &str) -> i64 {
        match self.get(k) {
            Some(J::Int(i)) => *i,
            _ => 0,
        }
    }
    pub fn ints(&self, k: &str) -> Vec<i64> {
        match self.get(k) {
            Some(J::Arr(a)) => a.iter().map(|x| if let J::Int(i) = x { *i } else { 0 }).collect(),
            _ => vec![],
        }
    }
    pub fn bytes(&self, k: &str) -> Vec<u8> {
        self.ints(k).into_iter().map(|x| x as u8).collect()
    }
    pub fn arrs(&self, k: &str) -> Vec<Vec<u8>> {
        match self.get(k) {
            Some(J::Arr(a)) => a
                .iter()
                .map(|x| match x {
                    J::Arr(b) => b.iter().map(|x| if let J::Int(i) = x { *i as u8 } else { 0 }).collect(),
                    _ => vec![],
                })
                .collect(),
            _ => vec![],
        }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Int(i) => write!(o, "{i}").unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut s = String::new();
        self.write(&mut s);
        f.write_str(&s)
    }
}

pub fn bytes(b: &[u8]) -> J {
    J::Arr(b.iter().map(|&x| J::Int(x as i64)).collect())
}
pub fn ints(b: &[i64]) -> J {
    J::Arr(b.iter().map(|&x| J::Int(x)).collect())
}
pub fn obj(f: Vec<(&str, J)>) -> J {
    J::Obj(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}

pub fn parse(t: &str) -> J {
    let b = t.as_bytes();
    let mut p = 0;
    value(b, &mut p)
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}
fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::Obj(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = string(b, p);
                ws(b, p);
                assert_eq!(b[*p], b':');
                *p += 1;
                v.push((k, value(b, p)));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::Arr(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                v.push(value(b, p));
            }
        }
        b'"' => J::Str(string(b, p)),
        b't' => {
            *p += 4;
            J::Int(1)
        }
        b'f' => {
            *p += 5;
            J::Int(0)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::Int(std::str::from_utf8(&b[st..*p]).unwrap().parse().unwrap())
        }
    }
}
fn string(b: &[u8], p: &mut usize) -> String {
    assert_eq!(b[*p], b'"');
    *p += 1;
    let mut o: Vec<u8> = vec![];
    loop {
        match b[*p] {
            b'"' => {
                *p += 1;
                return String::from_utf8(o).unwrap();
            }
            b'\\' => {
                *p += 1;
                match b[*p] {
                    b'n' => o.push(b'\n'),
                    b't' => o.push(b'\t'),
                    b'r' => o.push(b'\r'),
                    b'u' => {
                        let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                        let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                        let mut buf = [0; 4];
                        o.extend(c.encode_utf8(&mut buf).as_bytes());
                        *p += 4;
                    }
                    c => o.push(c),
                }
                *p += 1;
            }
            c => {
                o.push(c);
                *p += 1;
            }
        }
    }
}
