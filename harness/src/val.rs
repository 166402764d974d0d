//! The harness' own picture of D-Bus values.  A `V` may be ill-formed on purpose
//! (payloads are raw bytes); the bridge to the library keeps values bit for bit.
use crate::js::{jb, J};
use dbus_message_parser::value::*;
use std::convert::TryFrom;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Y(u8),
    B(bool),
    N(i16),
    Q(u16),
    I(i32),
    U(u32),
    X(i64),
    T(u64),
    D(u64),
    S(Vec<u8>),
    O(Vec<u8>),
    G(Vec<u8>),
    H(i32),
    /// element signature, elements
    A(Vec<u8>, Vec<V>),
    R(Vec<V>),
    E(Box<(V, V)>),
    W(Box<V>),
    /// variant with an arbitrary signature text in front of the value
    WRaw(Vec<u8>, Box<V>),
}

impl V {
    pub fn sig(&self) -> Vec<u8> {
        let mut s = Vec::new();
        self.sig_to(&mut s);
        s
    }
    fn sig_to(&self, s: &mut Vec<u8>) {
        match self {
            V::Y(_) => s.push(b'y'),
            V::B(_) => s.push(b'b'),
            V::N(_) => s.push(b'n'),
            V::Q(_) => s.push(b'q'),
            V::I(_) => s.push(b'i'),
            V::U(_) => s.push(b'u'),
            V::X(_) => s.push(b'x'),
            V::T(_) => s.push(b't'),
            V::D(_) => s.push(b'd'),
            V::S(_) => s.push(b's'),
            V::O(_) => s.push(b'o'),
            V::G(_) => s.push(b'g'),
            V::H(_) => s.push(b'h'),
            V::A(e, _) => {
                s.push(b'a');
                s.extend_from_slice(e);
            }
            V::R(v) => {
                s.push(b'(');
                v.iter().for_each(|x| x.sig_to(s));
                s.push(b')');
            }
            V::E(b) => {
                s.push(b'{');
                b.0.sig_to(s);
                b.1.sig_to(s);
                s.push(b'}');
            }
            V::W(_) | V::WRaw(..) => s.push(b'v'),
        }
    }
    pub fn has_fd(&self) -> bool {
        match self {
            V::H(_) => true,
            V::A(_, v) | V::R(v) => v.iter().any(V::has_fd),
            V::E(b) => b.0.has_fd() || b.1.has_fd(),
            V::W(b) | V::WRaw(_, b) => b.has_fd(),
            _ => false,
        }
    }
    pub fn vdepth(&self) -> usize {
        match self {
            V::A(_, v) | V::R(v) => v.iter().map(V::vdepth).max().unwrap_or(0),
            V::E(b) => b.0.vdepth().max(b.1.vdepth()),
            V::W(b) | V::WRaw(_, b) => 1 + b.vdepth(),
            _ => 0,
        }
    }
    /// Token list, see spec/Wire.tla.
    pub fn toks(&self, o: &mut Vec<Vec<u8>>) {
        fn t(c: u8, b: &[u8]) -> Vec<u8> {
            let mut v = vec![c];
            v.extend_from_slice(b);
            v
        }
        match self {
            V::Y(x) => o.push(t(b'y', &[*x])),
            V::B(x) => o.push(t(b'b', &[*x as u8])),
            V::N(x) => o.push(t(b'n', &x.to_le_bytes())),
            V::Q(x) => o.push(t(b'q', &x.to_le_bytes())),
            V::I(x) => o.push(t(b'i', &x.to_le_bytes())),
            V::U(x) => o.push(t(b'u', &x.to_le_bytes())),
            V::X(x) => o.push(t(b'x', &x.to_le_bytes())),
            V::T(x) => o.push(t(b't', &x.to_le_bytes())),
            V::D(x) => o.push(t(b'd', &x.to_le_bytes())),
            V::S(x) => o.push(t(b's', x)),
            V::O(x) => o.push(t(b'o', x)),
            V::G(x) => o.push(t(b'g', x)),
            V::H(x) => o.push(t(b'h', &x.to_le_bytes())),
            V::A(e, v) => {
                o.push(t(b'a', e));
                v.iter().for_each(|x| x.toks(o));
                o.push(vec![b']']);
            }
            V::R(v) => {
                o.push(vec![b'(']);
                v.iter().for_each(|x| x.toks(o));
                o.push(vec![b')']);
            }
            V::E(b) => {
                o.push(vec![b'{']);
                b.0.toks(o);
                b.1.toks(o);
                o.push(vec![b'}']);
            }
            V::W(b) => {
                o.push(t(b'v', &b.sig()));
                b.toks(o);
            }
            V::WRaw(s, b) => {
                o.push(t(b'v', s));
                b.toks(o);
            }
        }
    }
}

pub fn body_sig(b: &[V]) -> Vec<u8> {
    let mut s = Vec::new();
    b.iter().for_each(|v| v.sig_to(&mut s));
    s
}

pub fn toks_of(b: &[V]) -> J {
    let mut o = Vec::new();
    b.iter().for_each(|v| v.toks(&mut o));
    J::A(o.iter().map(|t| jb(t)).collect())
}

// ------------------------------------------------------------------- types
/// Signature text to `Type`, without the library's parser.  None if malformed
/// (the empty struct is allowed here).
pub fn type_at(s: &[u8], i: &mut usize) -> Option<Type> {
    let c = *s.get(*i)?;
    *i += 1;
    Some(match c {
        b'y' => Type::Byte,
        b'b' => Type::Boolean,
        b'n' => Type::Int16,
        b'q' => Type::Uint16,
        b'i' => Type::Int32,
        b'u' => Type::Uint32,
        b'x' => Type::Int64,
        b't' => Type::Uint64,
        b'd' => Type::Double,
        b's' => Type::String,
        b'o' => Type::ObjectPath,
        b'g' => Type::Signature,
        b'h' => Type::UnixFD,
        b'v' => Type::Variant,
        b'a' => Type::Array(Box::new(type_at(s, i)?)),
        b'(' => {
            let mut v = Vec::new();
            loop {
                if *s.get(*i)? == b')' {
                    *i += 1;
                    break Type::Struct(v);
                }
                v.push(type_at(s, i)?);
            }
        }
        b'{' => {
            let k = type_at(s, i)?;
            let v = type_at(s, i)?;
            if *s.get(*i)? != b'}' {
                return None;
            }
            *i += 1;
            Type::DictEntry(Box::new((k, v)))
        }
        _ => return None,
    })
}
pub fn types_of(s: &[u8]) -> Option<Vec<Type>> {
    let mut i = 0;
    let mut r = Vec::new();
    while i < s.len() {
        r.push(type_at(s, &mut i)?);
    }
    Some(r)
}
/// One complete type.
pub fn type_of(s: &[u8]) -> Option<Type> {
    let mut i = 0;
    let t = type_at(s, &mut i)?;
    if i == s.len() {
        Some(t)
    } else {
        None
    }
}
/// `Type` to text, without the library's printer.
pub fn print_type(t: &Type, o: &mut Vec<u8>) {
    match t {
        Type::Byte => o.push(b'y'),
        Type::Boolean => o.push(b'b'),
        Type::Int16 => o.push(b'n'),
        Type::Uint16 => o.push(b'q'),
        Type::Int32 => o.push(b'i'),
        Type::Uint32 => o.push(b'u'),
        Type::Int64 => o.push(b'x'),
        Type::Uint64 => o.push(b't'),
        Type::UnixFD => o.push(b'h'),
        Type::Double => o.push(b'd'),
        Type::String => o.push(b's'),
        Type::ObjectPath => o.push(b'o'),
        Type::Variant => o.push(b'v'),
        Type::Signature => o.push(b'g'),
        Type::Array(t) => {
            o.push(b'a');
            print_type(t, o);
        }
        Type::Struct(v) => {
            o.push(b'(');
            v.iter().for_each(|t| print_type(t, o));
            o.push(b')');
        }
        Type::DictEntry(b) => {
            o.push(b'{');
            print_type(&b.0, o);
            print_type(&b.1, o);
            o.push(b'}');
        }
    }
}
pub fn print_types(v: &[Type]) -> Vec<u8> {
    let mut o = Vec::new();
    v.iter().for_each(|t| print_type(t, &mut o));
    o
}

// ------------------------------------------------------------------ bridge
/// Build the library's value.  Err says which constructor refused.
pub fn to_lib(v: &V) -> Result<Value, String> {
    fn text(b: &[u8]) -> Result<String, String> {
        String::from_utf8(b.to_vec()).map_err(|_| "utf8".to_string())
    }
    Ok(match v {
        V::Y(x) => Value::Byte(*x),
        V::B(x) => Value::Boolean(*x),
        V::N(x) => Value::Int16(*x),
        V::Q(x) => Value::Uint16(*x),
        V::I(x) => Value::Int32(*x),
        V::U(x) => Value::Uint32(*x),
        V::X(x) => Value::Int64(*x),
        V::T(x) => Value::Uint64(*x),
        V::D(x) => Value::Double(f64::from_bits(*x)),
        V::S(x) => Value::String(text(x)?),
        V::O(x) => Value::ObjectPath(
            ObjectPath::try_from(text(x)?).map_err(|e| format!("ObjectPath: {:?}", e))?,
        ),
        V::G(x) => Value::Signature(types_of(x).ok_or("harness: signature")?),
        V::H(x) => Value::UnixFD(*x),
        V::A(e, vs) => {
            let t = type_of(e).ok_or("harness: element type")?;
            let vs = vs.iter().map(to_lib).collect::<Result<Vec<_>, _>>()?;
            Value::Array(Array::new(vs, t).map_err(|e| format!("Array: {:?}", e))?)
        }
        V::R(vs) => {
            let vs = vs.iter().map(to_lib).collect::<Result<Vec<_>, _>>()?;
            Value::Struct(Struct::try_from(vs).map_err(|e| format!("Struct: {:?}", e))?)
        }
        V::E(b) => Value::DictEntry(Box::new((to_lib(&b.0)?, to_lib(&b.1)?))),
        V::W(b) | V::WRaw(_, b) => Value::Variant(Box::new(to_lib(b)?)),
    })
}

pub fn from_lib(v: &Value) -> V {
    match v {
        Value::Byte(x) => V::Y(*x),
        Value::Boolean(x) => V::B(*x),
        Value::Int16(x) => V::N(*x),
        Value::Uint16(x) => V::Q(*x),
        Value::Int32(x) => V::I(*x),
        Value::Uint32(x) => V::U(*x),
        Value::Int64(x) => V::X(*x),
        Value::Uint64(x) => V::T(*x),
        Value::Double(x) => V::D(x.to_bits()),
        Value::String(x) => V::S(x.as_bytes().to_vec()),
        Value::ObjectPath(x) => {
            let s: &str = x.as_ref();
            V::O(s.as_bytes().to_vec())
        }
        Value::Signature(x) => V::G(print_types(x)),
        Value::UnixFD(x) => V::H(*x),
        Value::Array(a) => {
            let mut e = Vec::new();
            print_type(a.get_type(), &mut e);
            V::A(e, a.as_ref().iter().map(from_lib).collect())
        }
        Value::Struct(s) => V::R(s.as_ref().iter().map(from_lib).collect()),
        Value::DictEntry(b) => V::E(Box::new((from_lib(&b.0), from_lib(&b.1)))),
        Value::Variant(b) => V::W(Box::new(from_lib(b))),
    }
}

// -------------------------------------------------------------- marshaller
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Site {
    Pad,
    Nul,
    Bool,
    ArrLen,
    StrLen,
    SigLen,
    Fd,
    BodyLen,
    FieldCode,
    Payload,
}

/// Marshals values and remembers the places where a fault can be planted.
pub struct Mk {
    pub out: Vec<u8>,
    pub le: bool,
    pub fds: Vec<i32>,
    pub sites: Vec<(Site, usize, usize)>,
    /// offset and width of every number of several bytes
    pub nums: Vec<(usize, usize)>,
}

impl Mk {
    pub fn new(le: bool) -> Mk {
        Mk { out: Vec::new(), le, fds: Vec::new(), sites: Vec::new(), nums: Vec::new() }
    }
    pub fn align(&mut self, a: usize) {
        while self.out.len() % a != 0 {
            self.sites.push((Site::Pad, self.out.len(), 1));
            self.out.push(0);
        }
    }
    fn put(&mut self, b: &[u8]) {
        // b is little-endian
        self.align(b.len());
        if b.len() > 1 {
            self.nums.push((self.out.len(), b.len()));
        }
        if self.le {
            self.out.extend_from_slice(b);
        } else {
            self.out.extend(b.iter().rev());
        }
    }
    pub fn u32_at(&mut self, off: usize, x: u32) {
        let b = if self.le { x.to_le_bytes() } else { x.to_be_bytes() };
        self.out[off..off + 4].copy_from_slice(&b);
    }
    fn u32_site(&mut self, s: Site, x: u32) -> usize {
        self.align(4);
        let o = self.out.len();
        self.sites.push((s, o, 4));
        self.put(&x.to_le_bytes());
        o
    }
    fn text(&mut self, b: &[u8]) {
        if !b.is_empty() {
            self.sites.push((Site::Payload, self.out.len(), b.len()));
        }
        self.out.extend_from_slice(b);
        self.sites.push((Site::Nul, self.out.len(), 1));
        self.out.push(0);
    }
    fn sigtext(&mut self, b: &[u8]) {
        self.sites.push((Site::SigLen, self.out.len(), 1));
        self.out.push(b.len() as u8);
        self.text(b);
    }
    pub fn value(&mut self, v: &V) {
        match v {
            V::Y(x) => self.out.push(*x),
            V::B(x) => {
                self.u32_site(Site::Bool, *x as u32);
            }
            V::N(x) => self.put(&x.to_le_bytes()),
            V::Q(x) => self.put(&x.to_le_bytes()),
            V::I(x) => self.put(&x.to_le_bytes()),
            V::U(x) => self.put(&x.to_le_bytes()),
            V::X(x) => self.put(&x.to_le_bytes()),
            V::T(x) => self.put(&x.to_le_bytes()),
            V::D(x) => self.put(&x.to_le_bytes()),
            V::S(x) | V::O(x) => {
                self.u32_site(Site::StrLen, x.len() as u32);
                self.text(x);
            }
            V::G(x) => self.sigtext(x),
            V::H(x) => {
                let i = match self.fds.iter().position(|f| f == x) {
                    Some(i) => i,
                    None => {
                        self.fds.push(*x);
                        self.fds.len() - 1
                    }
                };
                self.u32_site(Site::Fd, i as u32);
            }
            V::A(e, vs) => {
                let o = self.u32_site(Site::ArrLen, 0);
                self.align(match e.first() {
                    Some(b'y') | Some(b'g') | Some(b'v') => 1,
                    Some(b'n') | Some(b'q') => 2,
                    Some(b'x') | Some(b't') | Some(b'd') | Some(b'(') | Some(b'{') => 8,
                    _ => 4,
                });
                let st = self.out.len();
                vs.iter().for_each(|x| self.value(x));
                let n = self.out.len() - st;
                self.u32_at(o, n as u32);
            }
            V::R(vs) => {
                self.align(8);
                vs.iter().for_each(|x| self.value(x));
            }
            V::E(b) => {
                self.align(8);
                self.value(&b.0);
                self.value(&b.1);
            }
            V::W(b) => {
                self.sigtext(&b.sig());
                self.value(b);
            }
            V::WRaw(s, b) => {
                self.sigtext(s);
                self.value(b);
            }
        }
    }
}

/// A message for the harness' marshaller: everything can be chosen freely.
#[derive(Clone, Debug)]
pub struct Raw {
    pub le: bool,
    pub ty: u8,
    pub fl: u8,
    pub ver: u8,
    pub ser: u32,
    pub fields: Vec<(u8, V)>,
    pub body: Vec<V>,
}

impl Raw {
    /// Adds the signature field a body needs.
    pub fn with_sig(mut self) -> Raw {
        let s = body_sig(&self.body);
        if !s.is_empty() {
            self.fields.push((8, V::G(s)));
        }
        self
    }
    pub fn marshal(&self) -> Mk {
        let mut m = Mk::new(self.le);
        m.out.push(if self.le { b'l' } else { b'B' });
        m.out.push(self.ty);
        m.out.push(self.fl);
        m.out.push(self.ver);
        m.u32_site(Site::BodyLen, 0);
        m.put(&self.ser.to_le_bytes());
        let o = m.u32_site(Site::ArrLen, 0);
        let st = m.out.len();
        for (c, v) in &self.fields {
            m.align(8);
            m.sites.push((Site::FieldCode, m.out.len(), 1));
            m.out.push(*c);
            match v {
                V::WRaw(..) => m.value(v),
                _ => m.value(&V::W(Box::new(v.clone()))),
            }
        }
        let n = m.out.len() - st;
        m.u32_at(o, n as u32);
        m.align(8);
        let st = m.out.len();
        self.body.iter().for_each(|v| m.value(v));
        let n = m.out.len() - st;
        m.u32_at(4, n as u32);
        m
    }
}
