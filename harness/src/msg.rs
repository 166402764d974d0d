//! Abstract messages and the bridge to the library's `Message`.
use crate::js::*;
use crate::val::*;
use bytes::Bytes;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

/// f: path interface member error_name reply_serial destination sender
/// signature unix_fds; numbers as 4 little-endian bytes.
#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub le: bool,
    pub ty: u8,
    pub fl: i32,
    pub ver: i32,
    pub ser: u32,
    pub f: [Option<Vec<u8>>; 9],
    pub body: Vec<V>,
}

pub const NOF: [Option<Vec<u8>>; 9] = [None, None, None, None, None, None, None, None, None];

pub fn jf(f: &[Option<Vec<u8>>; 9]) -> J {
    J::A(
        f.iter()
            .map(|x| J::A(x.iter().map(|b| jb(b)).collect()))
            .collect(),
    )
}

impl M {
    pub fn js(&self) -> J {
        obj(vec![
            ("le", jbool(self.le)),
            ("ty", ji(self.ty as usize)),
            ("fl", J::I(self.fl as i64)),
            ("ver", J::I(self.ver as i64)),
            ("ser", jb(&self.ser.to_le_bytes())),
            ("f", jf(&self.f)),
            ("b", toks_of(&self.body)),
        ])
    }
    pub fn raw(&self) -> Raw {
        let mut fields = Vec::new();
        for (i, x) in self.f.iter().enumerate() {
            if let Some(b) = x {
                let v = match i {
                    0 => V::O(b.clone()),
                    4 | 8 => V::U(u32::from_le_bytes([b[0], b[1], b[2], b[3]])),
                    7 => continue,
                    _ => V::S(b.clone()),
                };
                fields.push((i as u8 + 1, v));
            }
        }
        Raw {
            le: self.le,
            ty: self.ty,
            fl: self.fl as u8,
            ver: self.ver as u8,
            ser: self.ser,
            fields,
            body: self.body.clone(),
        }
        .with_sig()
    }
}

fn le32(x: u32) -> Vec<u8> {
    x.to_le_bytes().to_vec()
}
fn n32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
fn txt(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap_or_default()
}

pub fn fields_to_lib(f: &[Option<Vec<u8>>; 9]) -> Result<MessageHeaderFields, String> {
    let mut h = MessageHeaderFields::default();
    if let Some(b) = &f[0] {
        h.path = Some(ObjectPath::try_from(txt(b)).map_err(|e| format!("{:?}", e))?);
    }
    if let Some(b) = &f[1] {
        h.interface = Some(Interface::try_from(txt(b)).map_err(|e| format!("{:?}", e))?);
    }
    if let Some(b) = &f[2] {
        h.member = Some(Member::try_from(txt(b)).map_err(|e| format!("{:?}", e))?);
    }
    if let Some(b) = &f[3] {
        h.error_name = Some(Error::try_from(txt(b)).map_err(|e| format!("{:?}", e))?);
    }
    h.reply_serial = f[4].as_ref().map(|b| n32(b));
    if let Some(b) = &f[5] {
        h.destination = Some(Bus::try_from(txt(b)).map_err(|e| format!("{:?}", e))?);
    }
    if let Some(b) = &f[6] {
        h.sender = Some(Bus::try_from(txt(b)).map_err(|e| format!("{:?}", e))?);
    }
    if let Some(b) = &f[7] {
        h.signature = Some(types_of(b).ok_or("harness: signature")?);
    }
    h.unix_fds = f[8].as_ref().map(|b| n32(b));
    Ok(h)
}

pub fn fields_from_lib(h: &MessageHeaderFields) -> [Option<Vec<u8>>; 9] {
    fn s(x: &str) -> Vec<u8> {
        x.as_bytes().to_vec()
    }
    [
        h.path.as_ref().map(|x| s(x.as_ref())),
        h.interface.as_ref().map(|x| s(x.as_ref())),
        h.member.as_ref().map(|x| s(x.as_ref())),
        h.error_name.as_ref().map(|x| s(x.as_ref())),
        h.reply_serial.map(le32),
        h.destination.as_ref().map(|x| s(x.as_ref())),
        h.sender.as_ref().map(|x| s(x.as_ref())),
        h.signature.as_ref().map(|x| print_types(x)),
        h.unix_fds.map(le32),
    ]
}

pub fn mtype(ty: u8) -> MessageType {
    match ty {
        1 => MessageType::MethodCall,
        2 => MessageType::MethodReturn,
        3 => MessageType::Error,
        _ => MessageType::Signal,
    }
}
pub fn mtype_no(t: MessageType) -> u8 {
    match t {
        MessageType::MethodCall => 1,
        MessageType::MethodReturn => 2,
        MessageType::Error => 3,
        MessageType::Signal => 4,
    }
}
pub fn flags(fl: u8) -> MessageFlags {
    let mut f = MessageFlags::empty();
    if fl & 1 != 0 {
        f |= MessageFlags::NO_REPLY_EXPECTED;
    }
    if fl & 2 != 0 {
        f |= MessageFlags::NO_AUTO_START;
    }
    if fl & 4 != 0 {
        f |= MessageFlags::ALLOW_INTERACTIVE_AUTHORIZATION;
    }
    f
}

pub fn to_lib_msg(m: &M) -> Result<Message, String> {
    let body = m.body.iter().map(to_lib).collect::<Result<Vec<_>, _>>()?;
    let h = MessageHeader::new(
        m.le,
        mtype(m.ty),
        flags(m.fl as u8),
        m.ver as u8,
        m.ser,
        fields_to_lib(&m.f)?,
    )
    .map_err(|e| format!("{:?}", e))?;
    Ok(Message::new(h, body))
}

fn s<T: AsRef<str>>(x: Option<&T>) -> Option<Vec<u8>> {
    x.map(|x| x.as_ref().as_bytes().to_vec())
}

/// The header fields as the accessors of the message show them; the signature is
/// left out (`get_signature` describes the body).  bad: an accessor pair disagrees.
pub fn obs_fields(m: &Message) -> ([Option<Vec<u8>>; 9], bool) {
    let f = [
        s(m.get_path()),
        s(m.get_interface()),
        s(m.get_member()),
        s(m.get_error_name()),
        m.get_reply_serial().map(le32),
        s(m.get_destination()),
        s(m.get_sender()),
        None,
        m.get_unix_fds().map(le32),
    ];
    let has = [
        m.has_path(),
        m.has_interface(),
        m.has_member(),
        m.has_error_name(),
        m.has_reply_serial(),
        m.has_destination(),
        m.has_sender(),
        false,
        m.has_unix_fds(),
    ];
    let bad = f.iter().zip(has.iter()).any(|(x, h)| x.is_some() != *h);
    (f, bad)
}

pub fn header_fields(h: &MessageHeader) -> [Option<Vec<u8>>; 9] {
    [
        s(h.get_path()),
        s(h.get_interface()),
        s(h.get_member()),
        s(h.get_error_name()),
        h.get_reply_serial().map(le32),
        s(h.get_destination()),
        s(h.get_sender()),
        h.get_signature().map(print_types),
        h.get_unix_fds().map(le32),
    ]
}

/// Byte order, flags and version have no accessor: they are found by comparing
/// the header with headers made of the same visible parts.  -1: none is equal.
pub fn hidden(h: &MessageHeader, hint: (bool, u8, u8)) -> (i32, i32, i32) {
    let fields = match fields_to_lib(&header_fields(h)) {
        Ok(f) => f,
        Err(_) => return (-1, -1, -1),
    };
    let eq = |le: bool, fl: u8, ver: u8| match MessageHeader::new(
        le,
        h.get_type(),
        flags(fl),
        ver,
        h.get_serial(),
        fields.clone(),
    ) {
        Ok(x) => x == *h,
        Err(_) => false,
    };
    let (l, f, v) = hint;
    if f < 8 && eq(l, f, v) {
        return (l as i32, f as i32, v as i32);
    }
    for ver in 0..=255u8 {
        for fl in 0..8u8 {
            for le in [true, false] {
                if eq(le, fl, ver) {
                    return (le as i32, fl as i32, ver as i32);
                }
            }
        }
    }
    (-1, -1, -1)
}

/// Everything that can be seen of a message.  The header signature is reported
/// as f[8] only when it is set in the message itself (has_signature).
pub fn obs(m: &Message, hint: (bool, u8, u8)) -> J {
    let (mut f, bad) = obs_fields(m);
    let (le, fl, ver) = match m.clone().split() {
        Ok((h, _)) => {
            if m.has_signature() {
                // split derives the signature of a non-empty body; show what is there
                f[7] = h.get_signature().map(print_types);
            }
            hidden(&h, hint)
        }
        Err(_) => (-2, -2, -2),
    };
    let body: Vec<V> = m.get_body().iter().map(from_lib).collect();
    let sig = match m.get_signature() {
        Ok(s) => J::A(vec![jb(&print_types(&s))]),
        Err(_) => J::A(vec![]),
    };
    obj(vec![
        ("le", J::I(le as i64)),
        ("ty", ji(mtype_no(m.get_type()) as usize)),
        ("fl", J::I(fl as i64)),
        ("ver", J::I(ver as i64)),
        ("ser", jb(&m.get_serial().to_le_bytes())),
        ("f", jf(&f)),
        ("b", toks_of(&body)),
        ("sig", sig),
        ("hs", jbool(m.has_signature())),
        ("bad", jbool(bad)),
    ])
}

// ------------------------------------------------------- running the library
/// Outcome of a call: value, or the panic flag.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ())
}

/// Name of an enum value: the head of its Debug text.
pub fn head<T: std::fmt::Debug>(e: &T) -> String {
    let s = format!("{:?}", e);
    s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
}

pub fn decode(input: &[u8], fds: &[i32]) -> Result<Result<(Message, usize, usize), decode_err::E>, ()> {
    let b = Bytes::copy_from_slice(input);
    if fds.is_empty() && BARE.with(|b| b.get()) {
        return guard(|| Message::decode(b).map(|(m, n)| (m, n, 0)));
    }
    guard(|| Message::decode_with_fds(b, fds))
}
thread_local! {
    /// inputs without descriptors go through the call without descriptors
    pub static BARE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Records a case; where there are no descriptors, the call that takes none is
/// recorded as well if it does anything else.
pub fn both(o: &mut crate::Out, none: bool, mut f: impl FnMut() -> J) {
    let a = f();
    if none {
        BARE.with(|b| b.set(true));
        let c = f();
        BARE.with(|b| b.set(false));
        if c.text() != a.text() {
            o.put(c);
        }
    }
    o.put(a);
}
pub mod decode_err {
    pub type E = dbus_message_parser::decode::DecodeError;
}

/// What an error says: its name and the names inside it, then its numbers (32-bit
/// raw values as 4 little-endian bytes); n: sizes as numbers; v: a value it carries.
pub fn claim(e: &decode_err::E) -> (Vec<String>, Vec<usize>, Vec<J>) {
    use dbus_message_parser::decode::DecodeError as D;
    fn w(name: &str, a: &[usize]) -> Vec<String> {
        let mut v = vec![name.to_string()];
        v.extend(a.iter().map(|x| x.to_string()));
        v
    }
    fn raw(x: u32) -> Vec<usize> {
        x.to_le_bytes().iter().map(|b| *b as usize).collect()
    }
    let none = Vec::new();
    crate::says::note(e);
    match e {
        D::NotEnoughBytes(h, n) => (w("NotEnoughBytes", &[]), vec![*h, *n], none),
        D::InvalidBoolean(x) => (w("InvalidBoolean", &raw(*x)), vec![], none),
        D::ArrayTooBig(x) => (w("ArrayTooBig", &raw(*x)), vec![], none),
        D::BodySignatureMissing(x) => (w("BodySignatureMissing", &raw(*x)), vec![], none),
        D::BodyLengthZero(t) => {
            let s: Vec<usize> = print_types(t).iter().map(|b| *b as usize).collect();
            (w("BodyLengthZero", &s), vec![], none)
        }
        D::NotEnoughFds(h, i) => {
            let mut a = vec![*h];
            a.extend(raw((*i).min(u32::MAX as usize) as u32));
            (w("NotEnoughFds", &a), vec![*h, *i], none)
        }
        D::Utf8Error(_) => (w("Utf8Error", &[]), vec![], none),
        D::MessageHeaderError(e) => (split_words(&format!("{:?}", e)), vec![], none),
        D::MessageHeaderFieldsError(e) => {
            let (c, v) = claim_fields(e);
            (c, vec![], v)
        }
        D::SignatureError(t) => {
            let mut c = w("SignatureError", &[]);
            c.extend(split_words(&format!("{:?}", t)));
            (c, vec![], none)
        }
        e => (split_words(&format!("{:?}", e)), vec![], none),
    }
}
/// The same for the header fields: claim and carried value.
pub fn claim_fields(e: &MessageHeaderFieldsError) -> (Vec<String>, Vec<J>) {
    use MessageHeaderFieldsError as F;
    crate::says::note(e);
    let v = match e {
        F::Struct(v) | F::Variant(v) | F::Byte(v) => v,
        F::Path(v) | F::Interface(v) | F::Member(v) | F::ErrorName(v) | F::ReplySerial(v) => v,
        F::Destination(v) | F::Sender(v) | F::Signature(v) | F::UnixFDs(v) => v,
        F::MultiplePath(v) | F::MultipleInterface(v) | F::MultipleMember(v) => v,
        F::MultipleErrorName(v) | F::MultipleReplySerial(v) | F::MultipleDestination(v) => v,
        F::MultipleSender(v) | F::MultipleSignature(v) | F::MultipleUnixFDs(v) => v,
        e => return (split_words(&format!("{:?}", e)), vec![]),
    };
    (vec![head(e)], vec![toks_of(&[from_lib(v)])])
}
pub fn split_words(e: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut cur = String::new();
    for c in e.chars().chain(std::iter::once(' ')) {
        if c.is_ascii_alphanumeric() || c == '_' {
            cur.push(c);
        } else if !cur.is_empty() {
            v.push(std::mem::take(&mut cur));
        }
    }
    v
}
pub fn jwords(v: &[String]) -> J {
    J::A(v.iter().map(|x| js(x)).collect())
}

/// Result of decoding as JSON.  st: "ok" "err" "panic".
pub fn decode_js(input: &[u8], fds: &[i32]) -> J {
    let hint = if input.len() > 3 {
        (input[0] == b'l', input[2], input[3])
    } else {
        (true, 0, 1)
    };
    match decode(input, fds) {
        Err(()) => obj(vec![("st", js("panic"))]),
        Ok(Err(e)) => {
            let (have, need) = match &e {
                decode_err::E::NotEnoughBytes(h, n) => (*h, *n),
                _ => (0, 0),
            };
            let (c, n, v) = claim(&e);
            obj(vec![
                ("st", js("err")),
                ("e", js(&head(&e))),
                ("c", jwords(&c)),
                ("n", J::A(n.iter().map(|x| ji((*x).min(1 << 30))).collect())),
                ("v", J::A(v)),
                ("have", ji(have)),
                ("need", ji(need.min(1 << 30))),
            ])
        }
        Ok(Ok((m, off, ofd))) => {
            match guard(|| obs(&m, hint)) {
                Ok(o) => obj(vec![
                    ("st", js("ok")),
                    ("m", o),
                    ("off", ji(off)),
                    ("ofd", ji(ofd)),
                ]),
                Err(()) => obj(vec![("st", js("panic"))]),
            }
        }
    }
}
