//! A minimal JSON writer, and a reader for the scripts TLC writes.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
    /// Pre-rendered text.
    Raw(String),
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                let _ = write!(o, "\\u{:04x}", u);
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
            J::Raw(s) => o.push_str(s),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn get(&self, k: &str) -> &J {
        static NONE: J = J::I(i64::MIN);
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x).unwrap_or(&NONE),
            _ => &NONE,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        *self.get(k) != J::I(i64::MIN)
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(i) => *i,
            _ => panic!("not an integer: {}", self.text()),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("not a string: {}", self.text()),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("not an array: {}", self.text()),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.int() as u8).collect()
    }
}

/// A byte string as an array of numbers.
pub fn jb(b: &[u8]) -> J {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", x);
    }
    s.push(']');
    J::Raw(s)
}
pub fn ji(i: usize) -> J {
    J::I(i as i64)
}
pub fn jbool(b: bool) -> J {
    J::I(b as i64)
}
pub fn js(s: &str) -> J {
    J::S(s.to_string())
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let r = val(b, &mut i);
    ws(b, &mut i);
    assert!(i == b.len(), "trailing text in JSON");
    r
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'[' => {
            *i += 1;
            let mut v = Vec::new();
            ws(b, i);
            if b[*i] == b']' {
                *i += 1;
                return J::A(v);
            }
            loop {
                v.push(val(b, i));
                ws(b, i);
                *i += 1;
                if b[*i - 1] == b']' {
                    return J::A(v);
                }
            }
        }
        b'{' => {
            *i += 1;
            let mut v = Vec::new();
            ws(b, i);
            if b[*i] == b'}' {
                *i += 1;
                return J::O(v);
            }
            loop {
                ws(b, i);
                let k = match val(b, i) {
                    J::S(s) => s,
                    _ => panic!("bad key"),
                };
                ws(b, i);
                assert!(b[*i] == b':');
                *i += 1;
                let x = val(b, i);
                v.push((k, x));
                ws(b, i);
                *i += 1;
                if b[*i - 1] == b'}' {
                    return J::O(v);
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut s = Vec::new();
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                    match b[*i] {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        b'u' => {
                            let h = std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap();
                            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                            let mut t = [0; 4];
                            s.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            *i += 4;
                        }
                        c => s.push(c),
                    }
                } else {
                    s.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            J::S(String::from_utf8(s).unwrap())
        }
        b't' => {
            *i += 4;
            J::I(1)
        }
        b'f' => {
            *i += 5;
            J::I(0)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::I(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
        }
    }
}
