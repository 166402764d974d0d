//! Recording encode and decode runs.
use crate::gen::*;
use crate::js::*;
use crate::msg::*;
use crate::rng::Rng;
use crate::val::*;
use crate::Out;
use std::collections::HashSet;

pub fn jfds(fds: &[i32]) -> J {
    J::A(fds.iter().map(|f| jb(&f.to_le_bytes())).collect())
}

pub fn rec_dec(o: &mut Out, input: &[u8], fds: &[i32]) {
    o.about(|| obj(vec![("k", js("dec")), ("in", jb(input)), ("fds", jfds(fds))]));
    both(o, fds.is_empty(), || {
        obj(vec![("k", js("dec")), ("in", jb(input)), ("fds", jfds(fds)), ("r", decode_js(input, fds))])
    });
}

/// What encoding the decoded message once more gives (empty: it failed).
fn again(input: &[u8], fds: &[i32]) -> J {
    match decode(input, fds) {
        Ok(Ok((m, _, _))) => match guard(|| m.encode_with_fds()) {
            Ok(Ok((b, _))) => jb(&b),
            _ => jb(&[]),
        },
        _ => jb(&[]),
    }
}

/// Outcome of encoding, and of decoding the result again.
pub fn encode_js(m: &dbus_message_parser::message::Message) -> J {
    match guard(|| m.encode_with_fds()) {
        Err(()) => obj(vec![("st", js("panic"))]),
        Ok(Err(e)) => obj(vec![("st", js("err")), ("e", js(&head(&e))), ("c", jwords(&split_words(&crate::says::debug(&e))))]),
        Ok(Ok((out, fds))) => {
            let same = match guard(|| m.encode()) {
                Ok(Ok(o2)) => o2 == out,
                _ => false,
            };
            obj(vec![
                ("st", js("ok")),
                ("out", jb(&out)),
                ("ofds", jfds(&fds)),
                ("same", jbool(same)),
                ("d", decode_js(&out, &fds)),
            ])
        }
    }
}

pub fn rec_enc(o: &mut Out, m: &M) {
    o.about(|| obj(vec![("k", js("enc")), ("m", m.js())]));
    let r = match guard(|| to_lib_msg(m)) {
        Err(()) => obj(vec![("st", js("bpanic"))]),
        Ok(Err(e)) => obj(vec![("st", js("build")), ("e", js(&e))]),
        Ok(Ok(x)) => encode_js(&x),
    };
    o.put(obj(vec![("k", js("enc")), ("m", m.js()), ("r", r)]));
}

/// Decode, then encode the result again.
pub fn rec_rec(o: &mut Out, input: &[u8], fds: &[i32]) {
    o.about(|| obj(vec![("k", js("rec")), ("in", jb(input)), ("fds", jfds(fds))]));
    let r = decode_js(input, fds);
    let x = match decode(input, fds) {
        Ok(Ok((m, _, _))) => {
            let x = encode_js(&m);
            match (&x, guard(|| m.encode_with_fds())) {
                (J::O(v), Ok(Ok((b, f)))) => {
                    let mut v = v.clone();
                    v.push(("again".to_string(), again(&b, &f)));
                    J::O(v)
                }
                _ => x,
            }
        }
        _ => obj(vec![("st", js("none"))]),
    };
    o.put(obj(vec![
        ("k", js("rec")),
        ("in", jb(input)),
        ("fds", jfds(fds)),
        ("r", r),
        ("x", x),
    ]));
}

/// All prefixes of a message and some extensions.
pub fn rec_pre(o: &mut Out, r: &mut Rng, input: &[u8], fds: &[i32]) {
    let noise: Vec<u8> = (0..r.range(1, 20)).map(|_| r.next() as u8).collect();
    for n in 0..input.len() {
        o.about(|| obj(vec![("k", js("dec")), ("in", jb(&input[..n])), ("fds", jfds(fds))]));
        if o.one_by_one() {
            decode_js(&input[..n], fds);
        }
    }
    let mut tails: Vec<Vec<u8>> = vec![
        vec![0],
        vec![0; 8],
        vec![255],
        vec![input[0]],
        input.to_vec(),
        input[..input.len() / 2].to_vec(),
        noise,
    ];
    // what might be taken for more of the message or for the next one
    for _ in 0..3 {
        let mut t = vec![0u8; r.range(0, 9)];
        t.extend_from_slice(&input[..r.range(1, input.len())]);
        tails.push(t);
    }
    for _ in 0..8 {
        let n = r.range(1, 10);
        tails.push((0..n).map(|_| *r.pick(b"\0\0\0lB\x01\x02\x03\x04\x08ysua(){}vg/:. \xff\x80")).collect());
    }
    tails.push(vec![0, b'l']);
    tails.push(vec![0, b'B']);
    let with = |t: &[u8]| {
        let mut b = input.to_vec();
        b.extend_from_slice(t);
        b
    };
    for t in &tails {
        o.about(|| obj(vec![("k", js("dec")), ("in", jb(&with(t))), ("fds", jfds(fds))]));
        if o.one_by_one() {
            decode_js(&with(t), fds);
        }
    }
    both(o, fds.is_empty(), || {
        let mut cuts = Vec::new();
        for n in 0..input.len() {
            let d = decode_js(&input[..n], fds);
            let (h, w) = if d.has("have") { (d.get("have").int(), d.get("need").int()) } else { (0, 0) };
            let st = match d.get("st").str() {
                "err" => d.get("e").str().to_string(),
                s => s.to_string(),
            };
            cuts.push(J::A(vec![js(&st), J::I(h), J::I(w)]));
        }
        let base = decode_js(input, fds);
        let ext = tails.iter().map(|t| jbool(decode_js(&with(t), fds).text() == base.text())).collect();
        obj(vec![
            ("k", js("pre")),
            ("in", jb(input)),
            ("fds", jfds(fds)),
            ("r", base),
            ("cuts", J::A(cuts)),
            ("ext", J::A(ext)),
        ])
    });
}

// ------------------------------------------------------------ systematic
fn s(x: &str) -> V {
    V::S(x.as_bytes().to_vec())
}
fn a(sig: &str, v: Vec<V>) -> V {
    V::A(sig.as_bytes().to_vec(), v)
}
fn w(v: V) -> V {
    V::W(Box::new(v))
}
fn e(k: V, v: V) -> V {
    V::E(Box::new((k, v)))
}

/// At least one value of every basic type, with bytes that show their order.
pub fn basics() -> Vec<V> {
    vec![
        V::Y(0xa5),
        V::B(true),
        V::B(false),
        V::N(0x0102),
        V::N(-2),
        V::Q(0xfe01),
        V::I(0x0102_0304),
        V::I(i32::MIN),
        V::U(0xfffe_fdfc),
        V::X(0x0102_0304_0506_0708),
        V::X(-3),
        V::T(0xfffe_fdfc_fbfa_f9f8),
        V::D(0x4009_21fb_5444_2d18),
        V::D(0x7ff8_0000_0000_0001),
        s(""),
        s("x"),
        s("abcd"),
        V::S("é漢😀".as_bytes().to_vec()),
        V::O(b"/".to_vec()),
        V::O(b"/a/b_1".to_vec()),
        V::G(b"".to_vec()),
        V::G(b"a{sv}(iu)".to_vec()),
        V::H(7),
    ]
}

pub fn containers() -> Vec<V> {
    let mut v = vec![
        a("y", vec![]),
        a("y", vec![V::Y(1), V::Y(2), V::Y(3)]),
        a("n", vec![]),
        a("q", vec![V::Q(1)]),
        a("u", vec![]),
        a("u", vec![V::U(1), V::U(0xffff_ffff)]),
        a("b", vec![V::B(true), V::B(false)]),
        a("x", vec![]),
        a("t", vec![V::T(9)]),
        a("d", vec![]),
        a("d", vec![V::D(1), V::D(2)]),
        a("s", vec![]),
        a("s", vec![s(""), s("a"), s("abc")]),
        a("o", vec![V::O(b"/".to_vec()), V::O(b"/ab".to_vec())]),
        a("g", vec![V::G(b"".to_vec()), V::G(b"s".to_vec())]),
        a("h", vec![V::H(3), V::H(4), V::H(3)]),
        a("v", vec![]),
        a("v", vec![w(V::Y(1)), w(V::X(2)), w(s("z"))]),
        a("(y)", vec![]),
        a("(y)", vec![V::R(vec![V::Y(1)]), V::R(vec![V::Y(2)])]),
        a("(yx)", vec![V::R(vec![V::Y(1), V::X(-1)])]),
        a("{sv}", vec![]),
        a("{sv}", vec![e(s("k"), w(V::U(1))), e(s("kk"), w(a("y", vec![V::Y(1)])))]),
        a("{ys}", vec![e(V::Y(1), s("v"))]),
        a("ay", vec![a("y", vec![]), a("y", vec![V::Y(1)]), a("y", vec![])]),
        a("at", vec![a("t", vec![]), a("t", vec![V::T(1)])]),
        a("a{yt}", vec![a("{yt}", vec![]), a("{yt}", vec![e(V::Y(1), V::T(2))])]),
        a("as", vec![a("s", vec![s("q")]), a("s", vec![])]),
        V::R(vec![V::Y(1)]),
        V::R(vec![V::Y(1), V::T(1), V::Y(2)]),
        V::R(vec![V::R(vec![V::Y(1)]), s("s")]),
        V::R(vec![a("t", vec![]), V::Y(1)]),
        e(s("k"), V::Y(1)),
        w(w(w(w(V::Y(1))))),
        w(V::R(vec![V::Y(1), V::T(1)])),
        w(a("(yt)", vec![V::R(vec![V::Y(1), V::T(1)])])),
        w(a("t", vec![])),
        w(a("{sv}", vec![e(s("a"), w(V::H(2)))])),
    ];
    for b in basics() {
        v.push(w(b));
    }
    v
}

/// Bodies: every basic value and container behind 0..7 bytes.
pub fn systematic(pads: usize) -> Vec<Vec<V>> {
    let mut all = basics();
    all.extend(containers());
    let mut r = Vec::new();
    for v in &all {
        for p in 0..pads {
            let mut b: Vec<V> = (0..p).map(|i| V::Y(i as u8 + 1)).collect();
            b.push(v.clone());
            // something behind it shows where the value ended
            b.push(V::Y(0xee));
            r.push(b);
        }
    }
    r
}

pub fn plain(le: bool, body: Vec<V>) -> M {
    let mut f = NOF;
    f[4] = Some(vec![1, 0, 0, 0]);
    M { le, ty: 2, fl: 1, ver: 1, ser: 0x0102_0304, f, body }
}

/// A signal whose path has the given length: moves the end of the header.
pub fn sized(le: bool, n: usize, body: Vec<V>) -> M {
    let mut f = NOF;
    let mut p = b"/".to_vec();
    p.resize(n, b'p');
    f[0] = Some(p);
    f[1] = Some(b"a.b".to_vec());
    f[2] = Some(b"M".to_vec());
    M { le, ty: 4, fl: 0, ver: 1, ser: 7, f, body }
}

pub fn shuffle<T>(r: &mut Rng, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
}

/// A valid message as bytes with the descriptors it needs; fields in any order.
pub fn valid(r: &mut Rng, p: Gp, maxn: usize) -> (Vec<u8>, Vec<i32>, Mk) {
    let m = gen_m(r, p, maxn);
    let mut raw = m.raw();
    shuffle(r, &mut raw.fields);
    let mk = raw.marshal();
    let mut fds = mk.fds.clone();
    if r.chance(1, 3) {
        for i in 0..r.range(1, 3) {
            fds.push(100 + i as i32);
        }
    }
    (mk.out.clone(), fds, mk)
}

/// Remembers which outcomes were seen, so that new ones get recorded.
pub struct Novel(HashSet<String>);
impl Novel {
    pub fn new() -> Novel {
        Novel(HashSet::new())
    }
    pub fn see(&mut self, key: String) -> bool {
        self.0.insert(key)
    }
}

/// The kind of an outcome: Debug text of the error without its numbers.
pub fn kind(input: &[u8], fds: &[i32]) -> String {
    match decode(input, fds) {
        Err(()) => "panic".to_string(),
        Ok(Err(e)) => format!("{:?}", e).chars().filter(|c| !c.is_ascii_digit()).take(80).collect(),
        Ok(Ok(_)) => "ok".to_string(),
    }
}

/// All planted faults of a marshalled message: (what, bytes).
pub fn faults(r: &mut Rng, mk: &Mk, nfds: usize) -> Vec<(String, Vec<u8>)> {
    let mut v = Vec::new();
    let le = mk.le;
    for (i, (st, off, len)) in mk.sites.iter().enumerate() {
        let put32 = |x: u32| {
            let mut b = mk.out.clone();
            let y = if le { x.to_le_bytes() } else { x.to_be_bytes() };
            b[*off..*off + 4].copy_from_slice(&y);
            b
        };
        let cur32 = || {
            let y = [mk.out[*off], mk.out[*off + 1], mk.out[*off + 2], mk.out[*off + 3]];
            if le {
                u32::from_le_bytes(y)
            } else {
                u32::from_be_bytes(y)
            }
        };
        let put = |x: u8| {
            let mut b = mk.out.clone();
            b[*off] = x;
            b
        };
        match st {
            Site::Pad | Site::Nul => {
                for x in [1u8, 0x80, 0xff, r.next() as u8 | 1] {
                    v.push((format!("{:?}{}", st, i), put(x)));
                }
            }
            Site::Bool => {
                let k = 1u32 << r.range(1, 31);
                for x in [2u32, 0x100, 0x10000, 0x0100_0000, 0xffff_ffff, 0x101, k, k | 1, k - 1 | k, r.next() as u32 | 2] {
                    v.push((format!("Bool{}", i), put32(x)));
                }
            }
            Site::Fd => {
                let n = nfds as u32;
                for x in [n, n + 1, 0xffff_ffff, 0x8000_0000, 0x100, 0, n.saturating_sub(1)] {
                    v.push((format!("Fd{}", i), put32(x)));
                }
            }
            Site::ArrLen | Site::StrLen | Site::BodyLen => {
                let c = cur32();
                for x in [
                    c.wrapping_add(1),
                    c.wrapping_sub(1),
                    c.wrapping_add(4),
                    c.wrapping_add(8),
                    c.wrapping_sub(8),
                    0,
                    c.wrapping_mul(2),
                    0x0400_0000,
                    0x0400_0001,
                    0x0800_0000,
                    0x7fff_ffff,
                    0xffff_ffff,
                    0xffff_fff0,
                    c.swap_bytes(),
                ] {
                    if x != c {
                        v.push((format!("{:?}{}", st, i), put32(x)));
                    }
                }
            }
            Site::SigLen => {
                let c = mk.out[*off];
                for x in [c.wrapping_add(1), c.wrapping_sub(1), 0, 255] {
                    if x != c {
                        v.push((format!("SigLen{}", i), put(x)));
                    }
                }
            }
            Site::FieldCode => {
                for x in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 128, 255] {
                    if x != mk.out[*off] {
                        v.push((format!("Code{}", i), put(x)));
                    }
                }
            }
            Site::Payload => {
                for _ in 0..3 {
                    let k = *off + r.below(*len);
                    let mut b = mk.out.clone();
                    b[k] = *r.pick(&[0u8, b'.', b'/', b'0', b'-', b':', 0x80, 0xff, 0xc3, b'(', b'a', b'v', b'}', b' ']);
                    if b != mk.out {
                        v.push((format!("Payload{}", i), b));
                    }
                }
            }
        }
    }
    v
}

/// Numbers with few bits, all but few, and bytes that repeat.
pub fn wide32(r: &mut Rng) -> Vec<u32> {
    let mut v: Vec<u32> = vec![0, 0x0101_0101, 0x00ff_00ff, 0xff00_ff00, 0x0001_0001, 0x8000_0001, 0x1234_5678];
    for k in 0..32 {
        let b = 1u32 << k;
        v.extend([b, b | 1, b - 1, b + 2, !b]);
    }
    for _ in 0..10 {
        v.push(r.next() as u32);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Numbers of every kind set to such values: the input and a name of the place.
pub fn numbers(r: &mut Rng, all: bool) -> Vec<(Vec<u8>, Vec<i32>)> {
    let mut v = Vec::new();
    for le in [true, false] {
        let bodies = vec![
            vec![V::B(true), V::Y(1)],
            vec![V::A(b"b".to_vec(), vec![V::B(false), V::B(true)])],
            vec![V::H(7), V::H(8), V::W(Box::new(V::H(9)))],
            vec![V::S(b"abcd".to_vec()), V::G(b"su".to_vec()), V::O(b"/a".to_vec())],
            vec![V::A(b"{ys}".to_vec(), vec![V::E(Box::new((V::Y(1), V::S(b"x".to_vec()))))])],
            vec![V::W(Box::new(V::R(vec![V::Y(1), V::B(true)]))), V::T(5)],
        ];
        for body in bodies {
            let m = if body.len() == 2 { sized(le, 3, body) } else { plain(le, body) };
            let mk = m.raw().marshal();
            for (st, off, _) in &mk.sites {
                match st {
                    Site::Bool | Site::Fd | Site::ArrLen | Site::StrLen | Site::BodyLen => {
                        for x in wide32(r) {
                            if !all && !matches!(st, Site::Bool) && r.chance(3, 4) {
                                continue;
                            }
                            let mut b = mk.out.clone();
                            b[*off..*off + 4].copy_from_slice(&if le { x.to_le_bytes() } else { x.to_be_bytes() });
                            v.push((b, mk.fds.clone()));
                        }
                    }
                    Site::SigLen | Site::FieldCode | Site::Pad | Site::Nul => {
                        for x in 0..=255u8 {
                            if all || r.chance(1, if matches!(st, Site::FieldCode) { 1 } else { 8 }) {
                                let mut b = mk.out.clone();
                                b[*off] = x;
                                v.push((b, mk.fds.clone()));
                            }
                        }
                    }
                    Site::Payload => (),
                }
            }
        }
        // the first bytes of a message: any value each
        let mk = plain(le, vec![V::U(1)]).raw().marshal();
        for p in 0..4 {
            for x in 0..=255u8 {
                let mut b = mk.out.clone();
                b[p] = x;
                v.push((b, vec![]));
            }
        }
        // serials, also of the answered message
        for x in wide32(r) {
            let y = if le { x.to_le_bytes() } else { x.to_be_bytes() };
            let mut b = mk.out.clone();
            b[8..12].copy_from_slice(&y);
            v.push((b, vec![]));
            let mut m = plain(le, vec![]);
            m.f[4] = Some(x.to_le_bytes().to_vec());
            m.f[8] = if r.chance(1, 2) { Some(x.to_le_bytes().to_vec()) } else { None };
            v.push((m.raw().marshal().out, vec![]));
        }
    }
    v
}

/// Every byte changed in several ways.
pub fn bytewise(r: &mut Rng, b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for i in 0..b.len() {
        let c = b[i];
        let mut seen = vec![c];
        for x in [0, 1, 255, c ^ 1, c ^ 0x80, c.wrapping_add(1), c.wrapping_sub(1), r.next() as u8] {
            if !seen.contains(&x) {
                seen.push(x);
                let mut m = b.to_vec();
                m[i] = x;
                v.push(m);
            }
        }
    }
    v
}

/// Coarse mutations: insert, delete, duplicate, swap, truncate, several bytes.
pub fn coarse(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut m = b.to_vec();
    for _ in 0..r.range(1, 3) {
        if m.is_empty() {
            break;
        }
        let i = r.below(m.len());
        match r.below(7) {
            0 => m.insert(i, r.next() as u8),
            1 => {
                m.remove(i);
            }
            2 => {
                let j = (i + r.range(1, 8)).min(m.len());
                let t = m[i..j].to_vec();
                for x in t {
                    m.insert(i, x);
                }
            }
            3 => {
                let j = r.below(m.len());
                m.swap(i, j);
            }
            4 => m.truncate(i),
            5 => {
                let j = (i + 4).min(m.len());
                for x in &mut m[i..j] {
                    *x = *r.pick(&[0, 0, 1, 4, 8, 255]);
                }
            }
            _ => m[i] = r.next() as u8,
        }
    }
    m
}

/// Texts with something odd at the beginning, far into them and at the end.
pub fn odd_texts(r: &mut Rng, all: bool) -> Vec<V> {
    let mut v = Vec::new();
    let odd: &[&[u8]] = &[
        b"", b"\x80", b"\xc0\x80", b"\xc2", b"\xe0\xa0", b"\xed\xa0\x80", b"\xf0\x90\x80", b"\xf4\x90\x80\x80", b"\xff", b"\xc3(", b"\xe2\x82\xac\x80",
        b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\0", b"\0\xff", b"\0\xc3\xa9",
    ];
    let mut sides: Vec<Vec<u8>> = vec![b"".to_vec(), b"a".to_vec(), b"\0".to_vec(), b"b\0c".to_vec(), "é".into(), "a漢".into(), "😀".into()];
    for n in [3usize, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257] {
        sides.push(vec![b'x'; n]);
    }
    for x in odd {
        for a in &sides {
            for b in &sides {
                if all || a.len() < 5 && b.len() < 5 || r.chance(1, 8) {
                    v.push(V::S([&a[..], x, &b[..]].concat()));
                }
            }
        }
    }
    // words that mean something elsewhere
    for x in ["null", "NULL", "nil", "None", "true", "false", "0", "1", "-1", "NaN", "inf", "()", "[]", "{}", "\"\"", "''", " ", "\n", "\r\n", "\\0", "%s", "\u{feff}", "\u{fffd}", "\u{10ffff}"] {
        v.push(V::S(x.into()));
        v.push(V::S(format!("{}x", x).into()));
        v.push(V::S(format!("x{}", x).into()));
    }
    // paths and signatures that are right for long, or of many pieces
    let lens = [1usize, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 240];
    for n in lens {
        for bad in [&b"/"[..], b"/a/", b"//a", b".", b"-", b"\0", b"\xc3\xa9", b"\xff", b"/_", b"/0", b" "] {
            v.push(V::O([&b"/"[..], &vec![b'k'; n], bad].concat()));
            v.push(V::O([&b"/k".repeat(n), bad].concat()));
        }
        for bad in [&b"("[..], b"a", b"()", b"z", b")", b"{yy}", b"a{vy}", b"a{yv}", b"ah", b"\0", b"r", b"(y", b"{y", b"aa{s(yu)}"] {
            v.push(V::G([&b"y".repeat(n), bad].concat()));
            v.push(V::G([&b"(u)".repeat(n.min(80)), bad, b"s"].concat()));
        }
    }
    v
}

/// Containers in containers, to the given depth.
pub fn nested(depth: usize) -> Vec<V> {
    let mut all = vec![V::Y(1), V::T(2), s("q"), V::G(b"y".to_vec()), V::B(true)];
    let mut last = all.clone();
    for _ in 0..depth {
        let mut next = Vec::new();
        for x in &last {
            let sg = x.sig();
            next.push(V::A(sg.clone(), vec![x.clone(), x.clone()]));
            next.push(V::R(vec![V::Y(3), x.clone()]));
            next.push(V::A([b"{y", &sg[..], b"}"].concat(), vec![e(V::Y(4), x.clone()), e(V::Y(5), x.clone())]));
            next.push(V::A([b"{g", &sg[..], b"}"].concat(), vec![e(V::G(b"".to_vec()), x.clone())]));
            next.push(V::W(Box::new(x.clone())));
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

/// Such values, right and with each of their paddings broken.
pub fn broken(r: &mut Rng, all: bool) -> Vec<(Vec<u8>, Vec<i32>)> {
    let mut v = Vec::new();
    for x in odd_texts(r, all) {
        let le = r.chance(1, 2);
        let c = if let V::S(_) = x { contexts(&x) } else { vec![vec![x.clone()], vec![V::A(x.sig(), vec![x.clone(), x.clone()]), V::W(Box::new(x.clone()))]] };
        let mk = raw_of(le, r.pick(&c).clone()).marshal();
        v.push((mk.out.clone(), mk.fds.clone()));
    }
    for x in nested(if all { 4 } else { 3 }) {
        let mut b: Vec<V> = (0..r.below(3)).map(|_| V::Y(0)).collect();
        b.push(x);
        b.push(V::Y(9));
        let mk = raw_of(r.chance(1, 2), b).marshal();
        v.push((mk.out.clone(), mk.fds.clone()));
        for (st, off, _) in &mk.sites {
            if matches!(st, Site::Pad | Site::Nul) && r.chance(3, 4) {
                let mut b = mk.out.clone();
                b[*off] = r.next() as u8 | 1;
                v.push((b, mk.fds.clone()));
            }
        }
    }
    // the same faults in larger messages: at the last site of every kind and at a few others
    for m in scale(false) {
        let mut mk = m.raw().marshal();
        if mk.out.len() > if all { 9000 } else { 4500 } {
            continue;
        }
        let n = mk.sites.len();
        let mut keep: Vec<usize> = (0..if all { 6 } else { 2 }).map(|_| r.below(n)).collect();
        for k in ["Pad", "Nul", "Bool", "StrLen", "SigLen", "ArrLen", "Payload"] {
            let at: Vec<usize> = (0..n).filter(|i| format!("{:?}", mk.sites[*i].0) == k).collect();
            if let Some(l) = at.last() {
                keep.push(*l);
                keep.push(*r.pick(&at));
            }
        }
        // the text that is longest
        if let Some((i, _)) = mk.sites.iter().enumerate().filter(|(_, s)| matches!(s.0, Site::Payload)).max_by_key(|(_, s)| s.2) {
            keep.push(i);
            keep.extend((i + 1..n).find(|j| matches!(mk.sites[*j].0, Site::Nul)));
        }
        keep.sort();
        keep.dedup();
        mk.sites = keep.iter().map(|i| mk.sites[*i]).collect();
        let nf = mk.fds.len();
        let mut f = faults(r, &mk, nf);
        let max = if all { 24 } else { 5 };
        while f.len() > max {
            let i = r.below(f.len());
            f.swap_remove(i);
        }
        for (_, b) in f {
            v.push((b, mk.fds.clone()));
        }
    }
    v
}

/// Valid values whose payload breaks a rule of its type.
pub fn bad_values() -> Vec<V> {
    let mut v = Vec::new();
    let b: &[&[u8]] = &[
        b"\x80", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xe0\x9f\xbf", b"\xe0\xa0", b"\xed\xa0\x80", b"\xf0\x8f\xbf\xbf",
        b"\xf0\x90\x80", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"a\xfeb", b"ab\xc3(", b"\xe2\x82\xac\x80", b"abc\xf0\x9f\x98",
        b"\xed\xbf\xbf", b"\xbf", b"\xf8\x88\x80\x80\x80",
    ];
    for x in b {
        v.push(V::S(x.to_vec()));
    }
    let p: &[&str] = &["", "a", "//", "/a/", "/a//b", "/a.b", "/a-b", "/é", "a/b", "/a b", "/\0", "/a/b/", " /"];
    for x in p {
        v.push(V::O(x.as_bytes().to_vec()));
    }
    let g: &[&str] = &[
        "a", "(", ")", "()", "a()", "{", "}", "{s}", "{sv", "a{sv", "a{s}", "a{sss}", "(s", "s)", "r", "e", "z", "aa", "m", "*", "a{}",
        "(a)", "({s})", "ss(", "(()", "{()s}", "s\0",
    ];
    for x in g {
        v.push(V::G(x.as_bytes().to_vec()));
    }
    let mut deep = vec![b'a'; 33];
    deep.push(b'y');
    v.push(V::G(deep.clone()));
    let mut d2 = vec![b'('; 33];
    d2.push(b'y');
    d2.extend(vec![b')'; 33]);
    v.push(V::G(d2.clone()));
    let mut d3 = Vec::new();
    for _ in 0..33 {
        d3.extend_from_slice(b"{y");
    }
    d3.push(b'y');
    d3.extend(vec![b'}'; 33]);
    v.push(V::G(d3));
    for g in [&b""[..], b"yy", b"()", b"a", b"(y", b"z", b"{y}", b"ss", b"y)", &deep, &d2] {
        v.push(V::WRaw(g.to_vec(), Box::new(V::Y(1))));
    }
    v.push(w(w(w(w(w(V::Y(1)))))));
    v.push(w(w(w(w(w(w(V::Y(1))))))));
    v.push(w(V::R(vec![w(a("v", vec![w(w(w(V::Y(1))))]))])));
    v
}

/// Places where a value can sit.
pub fn contexts(v: &V) -> Vec<Vec<V>> {
    let sg = v.sig();
    let mut c = vec![
        vec![v.clone()],
        vec![V::Y(1), v.clone(), V::Y(2)],
        vec![V::R(vec![V::Y(3), v.clone()])],
        vec![V::A(sg.clone(), vec![v.clone()])],
        vec![V::A(b"{y".iter().chain(sg.iter()).chain(b"}".iter()).copied().collect(), vec![e(V::Y(1), v.clone())])],
    ];
    if v.vdepth() < 4 {
        c.push(vec![w(v.clone())]);
        c.push(vec![w(V::R(vec![V::Y(1), v.clone()]))]);
    }
    c
}

pub fn raw_of(le: bool, body: Vec<V>) -> Raw {
    plain(le, body).raw()
}

/// Header field arrays that break the header rules (and some that do not).
pub fn header_cases(r: &mut Rng) -> Vec<Raw> {
    let good: Vec<(u8, V)> = vec![
        (1, V::O(b"/a".to_vec())),
        (2, s("a.b")),
        (3, s("M")),
        (4, s("e.r")),
        (5, V::U(5)),
        (6, s("c.d")),
        (7, s(":1.2")),
        (9, V::U(0)),
    ];
    let mut v = Vec::new();
    let mk = |ty: u8, fields: Vec<(u8, V)>, body: Vec<V>| Raw { le: true, ty, fl: 0, ver: 1, ser: 1, fields, body };
    // every subset of the fields that matter, for every type
    for ty in 1..=4u8 {
        for bits in 0..256usize {
            let mut f: Vec<_> = (0..8).filter(|i| bits >> i & 1 == 1).map(|i| good[i].clone()).collect();
            if r.chance(1, 2) {
                shuffle(r, &mut f);
            }
            v.push(mk(ty, f, vec![]));
        }
    }
    // wrong types, duplicates, unknown codes, bad names on top of a full header
    let vals = vec![
        V::Y(1), V::B(true), V::N(1), V::Q(1), V::I(5), V::U(5), V::X(5), V::T(5), V::D(5), s("a.b"), V::O(b"/a".to_vec()),
        V::G(b"s".to_vec()), a("y", vec![]), V::R(vec![V::U(5)]), w(s("a.b")), w(V::U(5)), V::R(vec![s("a.b")]), a("s", vec![s("a.b")]),
    ];
    for code in 0..=12u8 {
        for x in &vals {
            for keep in [true, false] {
                for ty in 1..=4u8 {
                    let mut f: Vec<_> = good.iter().filter(|g| keep || g.0 != code).cloned().collect();
                    let at = r.below(f.len() + 1);
                    f.insert(at, (code, x.clone()));
                    if keep && ty != 1 {
                        continue;
                    }
                    v.push(mk(ty, f, vec![]));
                }
            }
        }
    }
    let names: Vec<&[u8]> = vec![
        b"", b"a", b".", b"a.", b".a", b"a..b", b"a.b", b"1a.b", b"a.1b", b"a-b.c", b":", b":a", b":1.2", b":1..2", b":.1", b":1.", b"a:b.c",
        b"a.b.c", b"_._", b"A9.Z_", b"a b.c", b"\xff.a", b"a.\xc3\xa9", b"M", b"9", b"M-", b"a/b", b"/a", b"/", b"a.b\0", b":1.2-3", b"a.b-",
    ];
    for code in [1u8, 2, 3, 4, 6, 7] {
        for n in &names {
            let ty = *r.pick(&[1u8, 2, 3, 4]);
            let mut f: Vec<_> = good.iter().filter(|g| g.0 != code).cloned().collect();
            let x = if code == 1 { V::O(n.to_vec()) } else { V::S(n.to_vec()) };
            let at = r.below(f.len() + 1);
            f.insert(at, (code, x));
            v.push(mk(ty, f, vec![]));
        }
        for n in [254usize, 255, 256, 300] {
            let mut t = if code == 3 { b"".to_vec() } else { b"a.".to_vec() };
            t.resize(n, b'b');
            if code == 7 {
                t[0] = b':';
                t[1] = b'1';
                t[2] = b'.';
            }
            if code == 1 {
                t = vec![b'/'];
                t.resize(n, b'b');
            }
            let mut f: Vec<_> = good.iter().filter(|g| g.0 != code).cloned().collect();
            f.push((code, if code == 1 { V::O(t) } else { V::S(t) }));
            v.push(mk(1, f, vec![]));
        }
    }
    // variants in the field array that are not single values
    for code in [1u8, 3, 5, 8] {
        for sg in [&b""[..], b"ss", b"uu", b"(u", b"()"] {
            let mut f = good.clone();
            f.push((code, V::WRaw(sg.to_vec(), Box::new(V::U(1)))));
            v.push(mk(2, f, vec![]));
        }
    }
    // body and signature that do not belong together
    let one = vec![V::Y(1), V::U(2)];
    for (sg, body) in [
        (None, vec![]),
        (Some(&b""[..]), vec![]),
        (Some(b"y"), vec![]),
        (Some(b"as"), vec![]),
        (None, one.clone()),
        (Some(b""), one.clone()),
        (Some(b"y"), one.clone()),
        (Some(b"yu"), one.clone()),
        (Some(b"yuy"), one.clone()),
        (Some(b"yyyyyyyy"), one.clone()),
        (Some(b"yyyyyyy"), one.clone()),
        (Some(b"t"), one.clone()),
        (Some(b"x"), one.clone()),
        (Some(b"ay"), one.clone()),
        (Some(b"v"), one.clone()),
        (Some(b"()"), one.clone()),
        (Some(b"yz"), one.clone()),
        (Some(b"a"), one),
    ] {
        for ty in [2u8, 4] {
            let mut f = good.clone();
            if let Some(sg) = sg {
                f.insert(r.below(9), (8, V::G(sg.to_vec())));
            }
            v.push(mk(ty, f, body.clone()));
        }
    }
    // fixed part
    for ty in [0u8, 1, 2, 3, 4, 5, 6, 128, 255] {
        for fl in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 0x80, 0xff] {
            for ver in [0u8, 1, 2, 255] {
                for ser in [0u32, 1, u32::MAX] {
                    if r.chance(1, 3) {
                        v.push(Raw { le: r.chance(1, 2), ty, fl, ver, ser, fields: good.clone(), body: vec![] });
                    }
                }
            }
        }
    }
    v
}

/// One value of every kind of type, for the grids.
pub fn shapes() -> Vec<V> {
    vec![
        V::Y(0x5a),
        V::B(true),
        V::N(0x0304),
        V::Q(0xf1f2),
        V::I(0x0a0b_0c0d),
        V::U(0x8182_8384),
        V::X(0x0102_0304_0506_0708),
        V::T(0xf1f2_f3f4_f5f6_f7f8),
        V::D(0x4009_21fb_5444_2d18),
        s("é"),
        s(""),
        V::O(b"/a".to_vec()),
        V::G(b"ai".to_vec()),
        V::G(b"".to_vec()),
        V::H(9),
        a("y", vec![V::Y(1)]),
        a("t", vec![]),
        a("s", vec![s("k")]),
        V::R(vec![V::Y(1), V::Q(2)]),
        V::R(vec![V::T(1)]),
        e(V::Y(1), V::U(2)),
        e(s("x"), w(V::T(1))),
        w(V::Y(1)),
        w(V::T(2)),
        w(s("z")),
        w(V::R(vec![V::T(3)])),
    ]
}

/// Every kind of type inside every kind of container behind some bytes.
pub fn grid(r: &mut Rng, every: bool) -> Vec<Vec<V>> {
    let mut out = Vec::new();
    for x in shapes() {
        let sg = x.sig();
        let pre = |p: &str, q: &str| {
            let mut t = p.as_bytes().to_vec();
            t.extend_from_slice(&sg);
            t.extend_from_slice(q.as_bytes());
            t
        };
        let mut v = vec![
            V::A(sg.clone(), vec![]),
            V::A(sg.clone(), vec![x.clone()]),
            V::A(sg.clone(), vec![x.clone(), x.clone(), x.clone()]),
            V::R(vec![x.clone()]),
            V::R(vec![V::Y(7), x.clone(), V::Y(8)]),
            V::A(pre("(y", ")"), vec![V::R(vec![V::Y(1), x.clone()]), V::R(vec![V::Y(2), x.clone()])]),
            V::A(pre("{y", "}"), vec![e(V::Y(1), x.clone()), e(V::Y(2), x.clone())]),
            V::A(pre("{s", "}"), vec![e(s("ab"), x.clone())]),
            V::A(pre("a", ""), vec![V::A(sg.clone(), vec![x.clone()]), V::A(sg.clone(), vec![])]),
        ];
        if x.vdepth() < 4 {
            v.push(w(x.clone()));
            v.push(V::A(b"v".to_vec(), vec![w(x.clone()), w(V::Y(1)), w(x.clone())]));
            v.push(V::A(b"{sv}".to_vec(), vec![e(s("k"), w(x.clone()))]));
            v.push(w(V::A(sg.clone(), vec![x.clone(), x.clone()])));
            v.push(w(V::R(vec![V::Y(1), x.clone()])));
            v.push(w(V::A(pre("{y", "}"), vec![e(V::Y(1), x.clone())])));
        }
        for c in v {
            if c.vdepth() > 4 {
                continue;
            }
            let pads: Vec<usize> = if every { (0..8).collect() } else { vec![0, r.range(1, 7)] };
            for p in pads {
                let mut b: Vec<V> = (0..p).map(|i| V::Y(i as u8 + 1)).collect();
                b.push(c.clone());
                b.push(V::Y(0xee));
                out.push(b);
            }
        }
    }
    out
}

/// Sizes: long strings, many elements, many arguments, many descriptors.
pub fn scale(big: bool) -> Vec<M> {
    let mut v = Vec::new();
    let mut sizes = vec![63usize, 64, 127, 128, 250, 254, 255, 256, 257, 300, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097];
    if big {
        sizes.extend([8192, 16384, 32767, 32768, 65535, 65536, 65537, 70000]);
    } else {
        sizes.extend([8193, 16385, 65536]);
    }
    let txt = |n: usize| -> Vec<u8> { (0..n).map(|i| b'a' + (i % 23) as u8).collect() };
    let path = |n: usize| -> Vec<u8> {
        (0..n).map(|i| if i % 50 == 0 { b'/' } else { b'b' }).take(if n % 50 == 1 { n + 1 } else { n }).collect()
    };
    for (k, &n) in sizes.iter().enumerate() {
        let le = k % 2 == 0;
        v.push(plain(le, vec![V::Y(1), V::S(txt(n)), V::U(7)]));
        v.push(plain(!le, vec![V::A(b"y".to_vec(), (0..n).map(|i| V::Y(i as u8)).collect()), V::T(1)]));
        if n <= 5000 {
            v.push(plain(le, vec![V::O(path(n)), V::Y(1)]));
            v.push(plain(!le, vec![w(V::S(txt(n))), V::Q(1)]));
        }
        if n <= 1100 {
            v.push(plain(le, vec![V::A(b"u".to_vec(), (0..n).map(|i| V::U(i as u32 * 77)).collect()), V::Y(1)]));
            v.push(plain(le, vec![V::A(b"s".to_vec(), (0..n).map(|i| V::S(txt(i % 7))).collect())]));
            v.push(plain(
                !le,
                vec![V::A(b"{qv}".to_vec(), (0..n / 4).map(|i| e(V::Q(i as u16), w(V::T(i as u64)))).collect())],
            ));
            v.push(plain(le, vec![V::A(b"(yt)".to_vec(), (0..n / 4).map(|i| V::R(vec![V::Y(i as u8), V::T(1)])).collect())]));
            // descriptors: all different, then repeated backwards
            let n = n.min(if big { 1100 } else { 520 });
            let mut h: Vec<V> = (0..n as i32).map(V::H).collect();
            h.extend((0..n as i32 / 8).rev().map(V::H));
            v.push(plain(le, vec![V::A(b"h".to_vec(), h)]));
            v.push(sized(le, n + 2, vec![V::Y(1), V::T(2)]));
        }
        if n <= 255 {
            v.push(plain(le, (0..n).map(|i| V::Y(i as u8)).collect()));
            v.push(plain(!le, (0..n).map(|i| if i % 2 == 0 { V::Y(i as u8) } else { V::U(i as u32) }).collect()));
            v.push(plain(le, vec![V::G(vec![b'y'; n]), V::U(1)]));
            v.push(plain(le, vec![V::R((0..n.min(250)).map(|i| V::Q(i as u16)).collect()), V::Y(2)]));
            let mut f = NOF;
            let mut name = b"a.".to_vec();
            name.resize(n, b'n');
            f[3] = Some(name.clone());
            f[4] = Some(vec![255, 255, 255, 255]);
            f[5] = Some(name.clone());
            name[0] = b':';
            name[1] = b'1';
            name[2] = b'.';
            f[6] = Some(name);
            f[1] = f[3].clone();
            f[2] = Some(vec![b'm'; n]);
            v.push(M { le, ty: 3, fl: 7, ver: 1, ser: u32::MAX, f, body: vec![V::D(1), V::Y(1)] });
        }
    }
    // deep nesting
    for n in [1usize, 2, 4, 8, 16, 30, 31, 32] {
        let mut x = V::Y(1);
        let mut y = V::T(1);
        let mut z = V::Y(2);
        for _ in 0..n {
            let sg = x.sig();
            x = V::A(sg, vec![x]);
            y = V::R(vec![V::Y(3), y]);
            z = e(V::Y(4), z);
        }
        for le in [true, false] {
            v.push(plain(le, vec![V::Y(1), x.clone(), V::Y(2)]));
            v.push(plain(le, vec![V::Y(1), y.clone(), V::Y(2)]));
            v.push(plain(le, vec![V::Y(1), z.clone(), V::Y(2)]));
            v.push(plain(le, vec![w(x.clone()), w(y.clone()), w(z.clone())]));
        }
    }
    v
}

/// Bodies that are about descriptors.
pub fn fd_bodies(r: &mut Rng, n: usize) -> Vec<Vec<V>> {
    let mut v: Vec<Vec<V>> = vec![
        vec![V::H(3)],
        vec![V::H(3), V::H(3)],
        vec![V::H(3), V::H(4), V::H(3)],
        vec![V::H(4), V::H(3), V::H(4), V::H(5), V::H(3)],
        vec![a("h", vec![]), V::H(1)],
        vec![a("h", vec![V::H(1), V::H(2), V::H(1)])],
        vec![V::R(vec![V::H(1), V::H(0)])],
        vec![a("{sh}", vec![e(s("a"), V::H(7)), e(s("b"), V::H(8)), e(s("c"), V::H(7))])],
        vec![a("{hs}", vec![e(V::H(7), s("a")), e(V::H(8), s("b"))])],
        vec![w(V::H(1)), w(V::H(2)), w(V::H(1))],
        vec![w(w(w(w(V::H(5))))), V::H(6), V::H(5)],
        vec![a("a{sv}", vec![a("{sv}", vec![e(s("x"), w(V::H(1)))]), a("{sv}", vec![e(s("y"), w(V::H(2)))])])],
        vec![a("(hv)", vec![V::R(vec![V::H(1), w(V::H(2))]), V::R(vec![V::H(2), w(a("h", vec![V::H(3), V::H(1)]))])])],
        vec![V::H(0), V::H(-1), V::H(i32::MAX), V::H(i32::MIN), V::H(0)],
        vec![V::Y(1), V::H(2)],
        vec![V::I(5), V::H(5), V::U(5)],
    ];
    for _ in 0..n {
        // type with descriptors everywhere
        let mut b = Vec::new();
        for _ in 0..r.range(1, 3) {
            let sg = loop {
                let t = one_sig(r, GP);
                if t.contains(&b'h') || t.contains(&b'v') {
                    break t;
                }
            };
            b.push(val_of(r, GP, &sg, 12));
        }
        if b.iter().any(V::has_fd) {
            v.push(b);
        }
    }
    v
}

/// Decode runs about descriptors: indexes of the message against the list given.
pub fn fd_cases(r: &mut Rng, n: usize) -> Vec<(Vec<u8>, Vec<i32>)> {
    let mut v = Vec::new();
    for b in fd_bodies(r, n) {
        for le in [true, false] {
            let mk = raw_of(le, b.clone()).marshal();
            let k = mk.fds.len();
            // surplus, exact, too few, none; also lists with repeats
            for extra in [0usize, 1, 3] {
                let mut f = mk.fds.clone();
                f.extend((0..extra).map(|i| 200 + i as i32));
                v.push((mk.out.clone(), f));
            }
            if k > 0 {
                v.push((mk.out.clone(), mk.fds[..k - 1].to_vec()));
                v.push((mk.out.clone(), vec![]));
                v.push((mk.out.clone(), vec![42; k]));
            }
            // other indexes in place
            let sites: Vec<usize> = mk.sites.iter().filter(|x| x.0 == Site::Fd).map(|x| x.1).collect();
            for _ in 0..3 {
                let nf = r.range(1, 6);
                let mut m2 = Mk { out: mk.out.clone(), le, fds: vec![], sites: vec![], nums: Vec::new() };
                for &o in &sites {
                    let x = if r.chance(1, 12) { nf as u32 + r.below(2) as u32 } else { r.below(nf) as u32 };
                    m2.u32_at(o, x);
                }
                v.push((m2.out, (0..nf).map(|i| 50 + i as i32 * 3).collect()));
            }
            if let Some(&o) = sites.last() {
                for x in [0x0001_0000u32, 0x0100_0000, 0x8000_0000, u32::MAX, 256, 255] {
                    let mut m2 = Mk { out: mk.out.clone(), le, fds: vec![], sites: vec![], nums: Vec::new() };
                    m2.u32_at(o, x);
                    v.push((m2.out, (0..=255).collect()));
                }
            }
        }
    }
    v
}

/// Values about the limits of nesting, signatures and names.
pub fn limit_bodies() -> Vec<Vec<V>> {
    let mut v: Vec<Vec<V>> = Vec::new();
    for n in [31usize, 32, 33, 34, 48] {
        let (mut x, mut y, mut z, mut m) = (V::Y(1), V::T(1), V::Y(2), V::Y(3));
        let mut empty = V::A(b"y".to_vec(), vec![]);
        let mut key = V::Y(9);
        for i in 0..n {
            x = V::A(x.sig(), vec![x]);
            y = V::R(vec![V::Y(3), y]);
            z = e(V::Y(4), z);
            key = e(key, V::Y(5));
            m = match i % 3 {
                0 => V::A(m.sig(), vec![m.clone(), m]),
                1 => V::R(vec![m]),
                _ => e(V::Y(4), m),
            };
            if i % 9 == 8 {
                // keep it small
                m = V::A(m.sig(), vec![]);
            }
            if i > 0 {
                empty = V::A(empty.sig(), vec![]);
            }
        }
        for q in [x, y, z, key, m, empty] {
            v.push(vec![q.clone()]);
            v.push(vec![V::Y(1), q.clone(), V::Y(2)]);
            v.push(vec![w(q.clone())]);
            v.push(vec![V::R(vec![q.clone()])]);
            v.push(vec![V::A(q.sig(), vec![q.clone()])]);
            v.push(vec![e(V::Y(1), q.clone())]);
            // a variant starts counting again
            v.push(vec![V::R(vec![V::A(b"v".to_vec(), vec![w(q.clone())])])]);
            v.push(vec![q.clone(), q.clone()]);
        }
    }
    // one layer of another kind somewhere in a nesting about the limit
    for n in [31usize, 32, 33] {
        for main in 0..3 {
            for odd in 0..5 {
                for at in [0, n / 2, n - 1] {
                    let layer = |k: usize, q: V| match k {
                        0 => V::R(vec![V::Y(6), q]),
                        1 => e(V::Y(4), q),
                        2 => e(q, V::Y(4)),
                        3 => V::A(q.sig(), vec![q]),
                        _ => w(q),
                    };
                    let mut q = V::Y(1);
                    for i in 0..n {
                        q = layer(main, q);
                        if i == at {
                            q = layer(odd, q);
                        }
                    }
                    if main != odd {
                        v.push(vec![q]);
                    }
                }
            }
        }
    }
    // 32 of each at once, and one of them more
    for (a, t, d) in [(32usize, 32usize, 32usize), (33, 32, 32), (32, 33, 32), (32, 32, 33), (33, 0, 32), (0, 33, 32), (1, 1, 33)] {
        let mut q = V::Y(1);
        for _ in 0..d {
            q = e(V::Y(4), q);
        }
        for _ in 0..t {
            q = V::R(vec![q]);
        }
        for _ in 0..a {
            q = V::A(q.sig(), vec![q]);
        }
        v.push(vec![q.clone()]);
        v.push(vec![w(q)]);
    }
    // signatures: values, variants' own, the body's
    for n in [250usize, 253, 254, 255, 256, 257, 258, 300] {
        v.push(vec![V::G(vec![b'y'; n]), V::Y(1)]);
        let mut s = b"(".to_vec();
        s.resize(n - 1, b'i');
        s.push(b')');
        v.push(vec![V::G(s)]);
        let mut s = b"ay".to_vec();
        s.resize(n - 4, b'u');
        s.extend_from_slice(b"a{sv}");
        s.truncate(n);
        v.push(vec![V::G(s)]);
        v.push((0..n).map(|_| V::Y(7)).collect());
        v.push((0..n).map(|i| if i % 3 == 0 { V::Q(7) } else { V::B(true) }).collect());
        v.push(vec![V::R((0..n - 2).map(|_| V::Y(7)).collect())]);
        v.push(vec![w(V::R((0..n - 2).map(|_| V::Y(7)).collect()))]);
        v.push(vec![V::Y(0), V::R((0..n - 3).map(|_| V::Y(7)).collect())]);
        v.push(vec![V::A(V::R((0..n - 3).map(|_| V::Y(7)).collect()).sig(), vec![])]);
    }
    // variants
    for n in 1..8usize {
        let base = [V::Y(1), s("x"), V::R(vec![V::T(1)]), V::A(b"y".to_vec(), vec![V::Y(1)])];
        for b in base {
            for how in 0..6 {
                let mut q = b.clone();
                for i in 0..n {
                    q = w(q);
                    let h = if how == 5 { i % 5 } else { how };
                    if i + 1 < n {
                        q = match h {
                            0 => q,
                            1 => V::R(vec![V::Y(1), q]),
                            2 => V::A(b"v".to_vec(), vec![w(V::Y(0)), q]),
                            3 => e(V::Y(1), q),
                            _ => V::A(b"{yv}".to_vec(), vec![e(V::Y(1), q)]),
                        };
                    }
                }
                v.push(vec![q.clone(), V::Y(1)]);
                v.push(vec![V::A(b"v".to_vec(), vec![]), V::A(b"(v)".to_vec(), vec![V::R(vec![q])])]);
            }
        }
    }
    // every kind of layer in one place between variants
    for n in 3..7usize {
        for at in 0..n {
            for kind in 0..7 {
                let mut q = V::Y(1);
                for i in 0..n {
                    q = w(q);
                    if i == at {
                        q = match kind {
                            0 => e(q, V::Y(1)),
                            1 => V::A(b"{vy}".to_vec(), vec![e(w(V::Y(1)), V::Y(1)), e(q, V::Y(2))]),
                            2 => V::R(vec![q]),
                            3 => V::R(vec![q.clone(), q]),
                            4 => V::A(b"{vv}".to_vec(), vec![e(q.clone(), q)]),
                            5 => V::A(b"av".to_vec(), vec![V::A(b"v".to_vec(), vec![]), V::A(b"v".to_vec(), vec![q])]),
                            _ => e(V::R(vec![V::Y(1), q]), V::Y(1)),
                        };
                    }
                }
                v.push(vec![q]);
            }
        }
    }
    // an empty array of deeper variants is no deep variant
    v.push(vec![w(w(w(w(V::A(b"v".to_vec(), vec![])))))]);
    v.push(vec![w(w(w(w(V::A(b"v".to_vec(), vec![w(V::Y(1))])))))]);
    v.push(vec![w(w(w(w(V::R(vec![V::A(b"(yv)".to_vec(), vec![])])))))]);
    v
}

/// Messages whose header fields are about as long as they may be.
pub fn limit_headers() -> Vec<Raw> {
    let mut v = Vec::new();
    for n in [253usize, 254, 255, 256, 257, 300, 511, 512, 600] {
        let fill = |p: &str| {
            let mut b = p.as_bytes().to_vec();
            b.resize(n, b'n');
            b
        };
        let segs = |p: &str| {
            let mut b = p.as_bytes().to_vec();
            while b.len() < n {
                b.push(if b.len() % 9 == 0 && b.len() + 1 < n { b'.' } else { b'n' });
            }
            b
        };
        for (code, val) in [
            (2u8, V::S(fill("a."))),
            (2, V::S(segs("a.b"))),
            (3, V::S(fill("M"))),
            (4, V::S(fill("a."))),
            (4, V::S(segs("e.b"))),
            (6, V::S(fill("a."))),
            (6, V::S(fill(":1."))),
            (6, V::S(segs(":1.b"))),
            (7, V::S(fill("a-."))),
            (7, V::S(fill(":1."))),
            (1, V::O(fill("/"))),
        ] {
            for le in [true, false] {
                let mut f = vec![
                    (1u8, V::O(b"/a".to_vec())),
                    (2, V::S(b"a.b".to_vec())),
                    (3, V::S(b"M".to_vec())),
                    (4, V::S(b"a.e".to_vec())),
                    (5, V::U(1)),
                ];
                f.retain(|x| x.0 != code);
                f.push((code, val.clone()));
                v.push(Raw { le, ty: 4, fl: 0, ver: 1, ser: 1, fields: f.clone(), body: vec![] });
                v.push(Raw { le, ty: 3, fl: 0, ver: 1, ser: 1, fields: f, body: vec![] });
            }
        }
    }
    v
}
