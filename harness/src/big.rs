//! Messages about the size limits, described compactly.
use crate::js::*;
use crate::msg::guard;
use crate::val::{print_types, type_of};
use crate::Out;
use bytes::Bytes;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

/// A value, by its sizes only.
#[derive(Clone, Debug)]
pub enum W {
    /// a number of this type
    Fix(u8),
    /// a text of this type and length
    Str(u8, usize),
    /// element type; runs of equal elements
    Arr(Vec<u8>, Vec<(usize, W)>),
    Grp(Vec<W>),
    Ent(Box<(W, W)>),
    Var(Box<W>),
}
use W::*;

impl W {
    fn sig(&self) -> Vec<u8> {
        match self {
            Fix(c) | Str(c, _) => vec![*c],
            Arr(e, _) => [b"a", &e[..]].concat(),
            Grp(v) => {
                let mut s = b"(".to_vec();
                v.iter().for_each(|x| s.extend(x.sig()));
                s.push(b')');
                s
            }
            Ent(b) => [b"{", &b.0.sig()[..], &b.1.sig()[..], b"}"].concat(),
            Var(_) => b"v".to_vec(),
        }
    }
    /// Gigabytes, as a list of values.
    fn many(&self) -> bool {
        matches!(self, Arr(_, r) if r.iter().any(|x| x.0 > 1 << 23))
    }
    fn js(&self) -> J {
        match self {
            Fix(c) => obj(vec![("t", js("fix")), ("c", ji(*c as usize))]),
            Str(c, n) => obj(vec![("t", js("str")), ("c", ji(*c as usize)), ("n", ji(*n))]),
            Arr(e, r) => obj(vec![
                ("t", js("arr")),
                ("e", jb(e)),
                ("r", J::A(r.iter().map(|(n, w)| obj(vec![("n", ji(*n)), ("v", w.js())])).collect())),
            ]),
            Grp(v) => obj(vec![("t", js("grp")), ("d", ji(0)), ("vs", J::A(v.iter().map(W::js).collect()))]),
            Ent(b) => obj(vec![("t", js("grp")), ("d", ji(1)), ("vs", J::A(vec![b.0.js(), b.1.js()]))]),
            Var(w) => obj(vec![("t", js("var")), ("v", w.js())]),
        }
    }
    fn of(j: &J) -> W {
        match j.get("t").str() {
            "fix" => Fix(j.get("c").int() as u8),
            "str" => Str(j.get("c").int() as u8, j.get("n").int() as usize),
            "arr" => Arr(
                j.get("e").bytes(),
                j.get("r").arr().iter().map(|x| (x.get("n").int() as usize, W::of(x.get("v")))).collect(),
            ),
            "var" => Var(Box::new(W::of(j.get("v")))),
            _ => {
                let mut v: Vec<W> = j.get("vs").arr().iter().map(W::of).collect();
                if j.get("d").int() == 1 {
                    let b = v.pop().unwrap();
                    let a = v.pop().unwrap();
                    Ent(Box::new((a, b)))
                } else {
                    Grp(v)
                }
            }
        }
    }
    fn lib(&self) -> Value {
        match self {
            Fix(b'y') => Value::Byte(0x5a),
            Fix(b'b') => Value::Boolean(true),
            Fix(b'q') => Value::Uint16(0x1234),
            Fix(b'n') => Value::Int16(0x1234),
            Fix(b'u') => Value::Uint32(0x1234_5678),
            Fix(b'i') => Value::Int32(0x1234_5678),
            Fix(b'x') => Value::Int64(0x0102_0304_0506_0708),
            Fix(b'd') => Value::Double(1.5),
            Fix(_) => Value::Uint64(0x0102_0304_0506_0708),
            Str(b'o', n) => Value::ObjectPath(ObjectPath::try_from(path(*n)).unwrap()),
            Str(b'g', n) => Value::Signature(vec![Type::Byte; *n]),
            Str(_, n) => Value::String("s".repeat(*n)),
            Arr(e, r) => {
                let mut v = Vec::with_capacity(r.iter().map(|x| x.0).sum());
                for (n, w) in r {
                    let x = w.lib();
                    for _ in 1..*n {
                        v.push(x.clone());
                    }
                    if *n > 0 {
                        v.push(x);
                    }
                }
                Value::Array(Array::new(v, type_of(e).unwrap()).unwrap())
            }
            Grp(v) => Value::Struct(Struct::try_from(v.iter().map(W::lib).collect::<Vec<_>>()).unwrap()),
            Ent(b) => Value::DictEntry(Box::new((b.0.lib(), b.1.lib()))),
            Var(w) => Value::Variant(Box::new(w.lib())),
        }
    }
}

fn path(n: usize) -> String {
    format!("/{}", "p".repeat(n - 1))
}

/// Marshals at any length, and notes where lengths of arrays and texts are.
struct Put {
    le: bool,
    out: Vec<u8>,
    /// outside of repeated elements
    lens: Vec<usize>,
    deep: usize,
}
impl Put {
    fn align(&mut self, a: usize) {
        while self.out.len() % a != 0 {
            self.out.push(0);
        }
    }
    fn u32(&mut self, x: usize) {
        self.align(4);
        let x = x as u32;
        self.out.extend_from_slice(&if self.le { x.to_le_bytes() } else { x.to_be_bytes() });
    }
    fn num(&mut self, x: u64, w: usize) {
        self.align(w);
        let b = x.to_le_bytes();
        if self.le {
            self.out.extend_from_slice(&b[..w]);
        } else {
            self.out.extend(b[..w].iter().rev());
        }
    }
    fn text(&mut self, c: u8, n: usize) {
        if c == b'g' {
            self.out.push(n as u8);
        } else {
            self.u32(n);
            if self.deep == 0 {
                self.lens.push(self.out.len() - 4);
            }
        }
        let st = self.out.len();
        let fill = match c {
            b'o' => b'p',
            b'g' => b'y',
            _ => b's',
        };
        self.out.resize(st + n, fill);
        if c == b'o' {
            self.out[st] = b'/';
        }
        self.out.push(0);
    }
    fn sig(&mut self, s: &[u8]) {
        self.out.push(s.len() as u8);
        self.out.extend_from_slice(s);
        self.out.push(0);
    }
    fn value(&mut self, w: &W) {
        match w {
            Fix(b'y') => self.out.push(0x5a),
            Fix(b'b') => self.u32(1),
            Fix(b'q') | Fix(b'n') => self.num(0x1234, 2),
            Fix(b'u') | Fix(b'i') => self.num(0x1234_5678, 4),
            Fix(b'd') => self.num(1.5f64.to_bits(), 8),
            Fix(_) => self.num(0x0102_0304_0506_0708, 8),
            Str(c, n) => self.text(*c, *n),
            Arr(e, r) => {
                self.u32(0);
                let at = self.out.len() - 4;
                if self.deep == 0 {
                    self.lens.push(at);
                }
                self.align(match e[0] {
                    b'y' | b'v' | b'g' => 1,
                    b'n' | b'q' => 2,
                    b'x' | b't' | b'd' | b'(' | b'{' => 8,
                    _ => 4,
                });
                let st = self.out.len();
                for (n, x) in r {
                    if *n > 1 {
                        self.deep += 1;
                    }
                    for _ in 0..*n {
                        self.value(x);
                    }
                    if *n > 1 {
                        self.deep -= 1;
                    }
                }
                let n = (self.out.len() - st) as u32;
                let b = if self.le { n.to_le_bytes() } else { n.to_be_bytes() };
                self.out[at..at + 4].copy_from_slice(&b);
            }
            Grp(v) => {
                self.align(8);
                v.iter().for_each(|x| self.value(x));
            }
            Ent(b) => {
                self.align(8);
                self.value(&b.0);
                self.value(&b.1);
            }
            Var(x) => {
                self.sig(&x.sig());
                self.value(x);
            }
        }
    }
}

/// A message: length of its path, byte order, body.  It is a signal a.b M.
#[derive(Clone, Debug)]
pub struct Big {
    pub le: bool,
    pub path: usize,
    pub body: Vec<W>,
    /// bytes behind the message (when decoding)
    pub ext: usize,
}

impl Big {
    fn js(&self, k: &str) -> Vec<(&'static str, J)> {
        vec![
            ("k", js(k)),
            ("le", jbool(self.le)),
            ("path", ji(self.path)),
            ("body", J::A(self.body.iter().map(W::js).collect())),
            ("ext", ji(self.ext)),
        ]
    }
    pub fn of(j: &J) -> Big {
        Big {
            le: j.get("le").int() == 1,
            path: j.get("path").int() as usize,
            body: j.get("body").arr().iter().map(W::of).collect(),
            ext: j.get("ext").int() as usize,
        }
    }
    fn lib(&self) -> Message {
        let mut f = MessageHeaderFields::default();
        f.path = Some(ObjectPath::try_from(path(self.path)).unwrap());
        f.interface = Some(Interface::try_from("a.b").unwrap());
        f.member = Some(Member::try_from("M").unwrap());
        let h = MessageHeader::new(self.le, MessageType::Signal, MessageFlags::empty(), 1, 7, f).unwrap();
        Message::new(h, self.body.iter().map(W::lib).collect())
    }
    /// The message's bytes, and the places of lengths in the body.
    fn marshal(&self) -> (Vec<u8>, Vec<usize>) {
        let mut b = Put { le: self.le, out: Vec::new(), lens: Vec::new(), deep: 0 };
        let mut sig = Vec::new();
        for w in &self.body {
            b.value(w);
            sig.extend(w.sig());
        }
        let mut h = Put { le: self.le, out: Vec::new(), lens: Vec::new(), deep: 0 };
        h.out.extend_from_slice(&[if self.le { b'l' } else { b'B' }, 4, 0, 1]);
        h.u32(b.out.len());
        h.u32(7);
        h.u32(0);
        h.out.extend_from_slice(&[1]);
        h.sig(b"o");
        h.text(b'o', self.path);
        h.align(8);
        h.out.extend_from_slice(&[2]);
        h.sig(b"s");
        h.u32(3);
        h.out.extend_from_slice(b"a.b\0");
        h.align(8);
        h.out.extend_from_slice(&[3]);
        h.sig(b"s");
        h.u32(1);
        h.out.extend_from_slice(b"M\0");
        if !sig.is_empty() {
            h.align(8);
            h.out.push(8);
            h.sig(b"g");
            h.sig(&sig);
        }
        let n = (h.out.len() - 16) as u32;
        let w = if self.le { n.to_le_bytes() } else { n.to_be_bytes() };
        h.out[12..16].copy_from_slice(&w);
        h.align(8);
        let mut out = h.out;
        out.extend_from_slice(&b.out);
        out.resize(out.len() + self.ext, 0x77);
        (out, b.lens)
    }
}

fn word(le: bool, b: &[u8], at: usize) -> J {
    let mut x = [0u8; 4];
    if at + 4 <= b.len() {
        x.copy_from_slice(&b[at..at + 4]);
    }
    if !le {
        x.reverse();
    }
    jb(&x)
}

fn decoded(r: Result<Result<(Message, usize), String>, ()>, m: &Message) -> J {
    match r {
        Err(()) => obj(vec![("st", js("panic"))]),
        Ok(Err(e)) => obj(vec![("st", js("err")), ("e", js(&e))]),
        Ok(Ok((d, off))) => {
            let same = d.get_body() == m.get_body()
                && d.get_path() == m.get_path()
                && d.get_member() == m.get_member()
                && d.get_serial() == m.get_serial()
                && d.get_signature().ok().map(|t| print_types(&t)) == m.get_signature().ok().map(|t| print_types(&t));
            obj(vec![("st", js("ok")), ("off", ji(off)), ("same", jbool(same))])
        }
    }
}
fn err<T: std::fmt::Debug>(e: T) -> String {
    let s = format!("{:?}", e);
    s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
}

/// Encoded; what came out is decoded again.
pub fn rec_bigenc(o: &mut Out, x: &Big) {
    o.about(|| obj(x.js("benc")));
    o.put(big_enc(x));
}
fn big_enc(x: &Big) -> J {
    let m = x.lib();
    let lens = x.marshal().1;
    let r = match guard(|| m.encode()) {
        Err(()) => obj(vec![("st", js("panic"))]),
        Ok(Err(e)) => obj(vec![("st", js("err")), ("e", js(&err(e)))]),
        Ok(Ok(out)) => {
            let out = out.freeze();
            let hl = {
                let b = &out[12..16];
                if x.le { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) } else { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) }
            };
            let beg = (16 + hl as usize + 7) / 8 * 8;
            let d = guard(|| Message::decode(out.clone()).map_err(err));
            obj(vec![
                ("st", js("ok")),
                ("len", ji(out.len())),
                ("bl", word(x.le, &out, 4)),
                ("hl", word(x.le, &out, 12)),
                ("lens", J::A(lens.iter().map(|p| J::A(vec![ji(*p), word(x.le, &out, beg.saturating_add(*p))])).collect())),
                ("d", decoded(d, &m)),
            ])
        }
    };
    let mut c = x.js("benc");
    c.push(("r", r));
    obj(c)
}

/// Marshalled here, decoded by the library.
pub fn rec_bigdec(o: &mut Out, x: &Big) {
    o.about(|| obj(x.js("bdec")));
    o.put(big_dec(x));
}
fn big_dec(x: &Big) -> J {
    let m = x.lib();
    let (out, _) = x.marshal();
    let out = Bytes::from(out);
    let total = out.len() - x.ext;
    let hl = word(x.le, &out, 12);
    let d1 = decoded(guard(|| Message::decode(out.clone()).map_err(err)), &m);
    let d2 = decoded(
        guard(|| Message::decode_with_fds(out.clone(), &[3]).map(|(m, a, _)| (m, a)).map_err(err)),
        &m,
    );
    let mut c = x.js("bdec");
    c.push(("hl", hl));
    c.push(("total", ji(total)));
    c.push(("r", d1));
    c.push(("r2", d2));
    obj(c)
}

const MA: usize = 1 << 26;
const MM: usize = 1 << 27;

fn arr(e: &[u8], r: Vec<(usize, W)>) -> W {
    Arr(e.to_vec(), r)
}

/// Bodies with an array of about the largest size; d is what it exceeds it by
/// (as far as the construct allows it).
fn array_bodies(d: i64, all: bool) -> Vec<Vec<W>> {
    let n = |x: usize| (x as i64 + d) as usize;
    let mut v = vec![
        // one long text
        vec![arr(b"s", vec![(1, Str(b's', n(MA - 5)))])],
        // inside a variant, a structure, a dict entry; other alignments in front
        vec![Fix(b'y'), Var(Box::new(arr(b"s", vec![(1, Str(b's', n(MA - 5)))])))],
        vec![Grp(vec![Fix(b'y'), arr(b"(ys)", vec![(1, Grp(vec![Fix(b'y'), Str(b's', n(MA - 9))]))])])],
        vec![arr(b"{sv}", vec![
            (1, Ent(Box::new((Str(b's', 3), Var(Box::new(Fix(b'y'))))))),
            (1, Ent(Box::new((Str(b's', 1), Var(Box::new(Str(b's', n(MA - 16 - 12 - 5)))))))),
        ])],
        // only the outer one exceeds
        vec![arr(b"as", vec![
            (2, arr(b"s", vec![(1, Str(b's', (1 << 25) - 5 - 4 - 4))])),
            (1, arr(b"s", vec![(1, Str(b's', n(16 - 4 - 5)))])),
        ])],
        // the last of several
        vec![arr(b"u", vec![(3, Fix(b'u'))]), Fix(b'q'), arr(b"o", vec![(1, Str(b'o', n(MA - 5)))])],
        vec![arr(b"s", vec![(1, Str(b's', n(MA - 5)))]), Fix(b'q'), Fix(b'y'), arr(b"u", vec![(3, Fix(b'u'))])],
    ];
    if all {
        // a variant's array inside an array: the outer one is bigger
        v.push(vec![arr(b"v", vec![(1, Var(Box::new(arr(b"s", vec![(1, Str(b's', n(MA - 5 - 4 - 4))) ]))))])]);
        v.push(vec![arr(b"v", vec![(1, Var(Box::new(arr(b"s", vec![(1, Str(b's', n(MA - 5)))]))))])]);
    }
    v
}

struct Cases {
    flip: bool,
    v: Vec<(bool, Big)>,
}
fn both(o: &mut Cases, mut b: Big) {
    o.flip = !o.flip;
    b.le = o.flip;
    o.v.push((true, b.clone()));
    b.le = !o.flip;
    o.v.push((false, b));
}
fn rec_bigdec_(o: &mut Cases, b: &Big) {
    o.v.push((false, b.clone()));
}

/// Several at a time; each takes up to a few hundred megabytes.
pub fn big_cases(o: &mut Out, thorough: bool) {
    run(o, cases(thorough));
}
/// Sizes about every power of two, in both byte orders.
pub fn mid_cases(o: &mut Out, thorough: bool) {
    let mut cs = Vec::new();
    let mut add = |path: usize, body: Vec<W>| {
        for le in [true, false] {
            for enc in [true, false] {
                cs.push((enc, Big { le, path, body: body.clone(), ext: if path % 2 == 1 { 3 } else { 0 } }));
            }
        }
    };
    for k in 5..if thorough { 27 } else { 26 } {
        for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            if k > 17 && n != 1 << k && !thorough {
                continue;
            }
            // lengths of array and text somewhat above and below
            add(2, vec![Fix(b'y'), arr(b"s", vec![(1, Str(b's', n))])]);
            add(2, vec![Str(b's', n), Fix(b'u')]);
            if n <= 1 << 20 {
                add(2, vec![arr(b"y", vec![(n, Fix(b'y'))]), Fix(b'q')]);
                add(2, vec![Var(Box::new(arr(b"o", vec![(2, Str(b'o', n))])))]);
                add(2, vec![Grp(vec![Fix(b'q'), Str(b's', n), Fix(b't')])]);
                add(n, vec![]);
                add(n, vec![Str(b'o', n)]);
            }
            if n <= 1 << 17 {
                let w = |c: u8| match c {
                    b's' => Str(b's', 2),
                    b'o' => Str(b'o', 3),
                    b'g' => Str(b'g', 2),
                    b'v' => Var(Box::new(Fix(b'q'))),
                    b'(' => Grp(vec![Fix(b'y'), Fix(b't')]),
                    b'{' => Ent(Box::new((Fix(b'u'), Str(b's', 1)))),
                    c => Fix(c),
                };
                for c in b"tbqdsogv({" {
                    let w = w(*c);
                    // for the larger ones only a few
                    if n > 300 && !thorough && !b"tsv{".contains(c) {
                        continue;
                    }
                    if n > 5000 && !thorough && n % 2 == 0 {
                        continue;
                    }
                    add(2, vec![arr(&w.sig(), vec![(n, w)])]);
                }
                add(2, vec![arr(b"as", vec![(n, arr(b"s", vec![(1, Str(b's', 1))]))])]);
            }
        }
    }
    run(o, cs);
}
fn run(o: &mut Out, cs: Vec<(bool, Big)>) {
    if o.one_by_one() {
        for (enc, b) in &cs {
            if *enc { rec_bigenc(o, b) } else { rec_bigdec(o, b) }
        }
        return;
    }
    let slots: Vec<std::sync::Mutex<Option<J>>> = cs.iter().map(|_| std::sync::Mutex::new(None)).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let huge = std::sync::Mutex::new(());
    std::thread::scope(|s| {
        for _ in 0..6 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= cs.len() {
                    return;
                }
                let (enc, b) = &cs[i];
                // those of several gigabytes one after the other
                let _g = if b.body.iter().any(W::many) { Some(huge.lock().unwrap()) } else { None };
                let j = if *enc { big_enc(b) } else { big_dec(b) };
                *slots[i].lock().unwrap() = Some(j);
            });
        }
    });
    for s in slots {
        o.runs += 1;
        o.put(s.into_inner().unwrap().unwrap());
    }
}

fn cases(thorough: bool) -> Vec<(bool, Big)> {
    let mut cs = Cases { flip: false, v: Vec::new() };
    let o = &mut cs;
    let plain = |body: Vec<W>| Big { le: true, path: 2, body, ext: 0 };
    // arrays
    for d in if thorough { vec![-9, -8, -7, -4, -1, 0, 1, 2, 3, 4, 7, 8, 9, 100] } else { vec![-1, 0, 1] } {
        for (i, b) in array_bodies(d, thorough).into_iter().enumerate() {
            if thorough || i != 3 || d != -1 {
                both(o, plain(b));
            }
        }
    }
    // many small elements
    for (c, w) in [(b't', 8usize), (b'd', 8), (b'u', 4), (b'q', 2), (b'b', 4), (b'x', 8), (b'y', 1)] {
        if !thorough && c != b't' {
            continue;
        }
        for n in [MA / w, MA / w + 1] {
            both(o, plain(vec![Fix(b'y'), arr(&[c], vec![(n, Fix(c))])]));
        }
    }
    if thorough {
        for n in [MA / 16, MA / 16 + 1] {
            both(o, plain(vec![arr(b"(yt)", vec![(n, Grp(vec![Fix(b'y'), Fix(b't')]))])]));
            both(o, plain(vec![arr(b"{yt}", vec![(n, Ent(Box::new((Fix(b'y'), Fix(b't')))))])]));
        }
        for n in [MA / 4, MA / 4 + 1] {
            both(o, plain(vec![arr(b"ay", vec![(n, arr(b"y", vec![]))])]));
        }
        for n in [MA / 8, MA / 8 + 1] {
            both(o, plain(vec![arr(b"s", vec![(n, Str(b's', 3))])]));
            both(o, plain(vec![arr(b"o", vec![(n, Str(b'o', 2))])]));
        }
    }
    // the array of header fields
    for n in if thorough { (MA - 60..MA - 10).collect::<Vec<_>>() } else { vec![MA - 50, MA - 34, MA - 30, MA - 25, MA - 18, MA - 10] } {
        let b = Big { le: true, path: n, body: vec![], ext: 0 };
        both(o, b);
    }
    // messages: 8-aligned header, then one text
    let room = MM - {
        let (x, _) = plain(vec![Str(b's', 0)]).marshal();
        x.len()
    };
    for d in if thorough { vec![-8i64, -1, 0, 1, 2, 7, 8, 9, 1000] } else { vec![-1i64, 0, 1] } {
        let n = (room as i64 + d) as usize;
        both(o, plain(vec![Str(b's', n)]));
    }
    // at the limit, and more behind it
    for (d, ext) in [(0i64, 1usize), (-1, 1), (-1, 2), (-5, 100), (1, 100), (-(1 << 26), 1 << 27)] {
        let n = (room as i64 + d) as usize;
        let mut b = plain(vec![Str(b's', n)]);
        b.ext = ext;
        rec_bigdec_(o, &b);
    }
    let mut b = plain(vec![Fix(b'u')]);
    b.ext = MM + 5;
    rec_bigdec_(o, &b);
    // the header takes half of it
    for d in [-1i64, 0, 1] {
        let p = MA - 1000;
        let mut b = Big { le: true, path: p, body: vec![Str(b's', 0)], ext: 0 };
        let used = b.marshal().0.len();
        b.body = vec![Str(b's', ((MM - used) as i64 + d) as usize)];
        both(o, b);
    }
    // several values
    for d in [0i64, 1] {
        let mut b = plain(vec![
            arr(b"s", vec![(1, Str(b's', MA - 5))]),
            arr(b"s", vec![(1, Str(b's', MA - 5 - 1000))]),
            Str(b's', 0),
        ]);
        let used = b.marshal().0.len();
        b.body[2] = Str(b's', ((MM - used) as i64 + d) as usize);
        both(o, b);
    }
    cs.v
}
