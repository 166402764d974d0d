//! Random and boundary generators.
use crate::msg::{M, NOF};
use crate::rng::Rng;
use crate::val::*;

const BASIC: &[u8] = b"ybnqiuxtdsogh";

#[derive(Clone, Copy)]
pub struct Gp {
    pub fds: bool,
    pub vmax: usize,
    pub depth: usize,
    /// dict entries only inside arrays, keys basic
    pub strict: bool,
}
pub const GP: Gp = Gp { fds: true, vmax: 4, depth: 4, strict: false };

pub fn gen_sig(r: &mut Rng, p: Gp, depth: usize, o: &mut Vec<u8>) {
    let k = r.below(20);
    if depth == 0 || k < 12 {
        loop {
            let c = *r.pick(BASIC);
            if c == b'h' && !p.fds {
                continue;
            }
            o.push(c);
            return;
        }
    } else if k < 14 {
        o.push(b'v');
    } else if k < 16 {
        o.push(b'(');
        for _ in 0..r.range(1, 3) {
            gen_sig(r, p, depth - 1, o);
        }
        o.push(b')');
    } else if k < 18 {
        o.push(b'a');
        gen_sig(r, p, depth - 1, o);
    } else {
        if p.strict || r.chance(5, 6) {
            o.push(b'a');
        }
        o.push(b'{');
        if p.strict || r.chance(5, 6) {
            loop {
                let c = *r.pick(BASIC);
                if c == b'h' && !p.fds {
                    continue;
                }
                o.push(c);
                break;
            }
        } else {
            gen_sig(r, p, depth - 1, o);
        }
        gen_sig(r, p, depth - 1, o);
        o.push(b'}');
    }
}

pub fn one_sig(r: &mut Rng, p: Gp) -> Vec<u8> {
    let mut s = Vec::new();
    gen_sig(r, p, p.depth, &mut s);
    s
}

const EDGE32: &[u32] = &[
    0, 1, 2, 7, 8, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fff_ffff, 0x8000_0000,
    0xffff_fffe, 0xffff_ffff, 0x0102_0304, 0x00ff_00ff,
];
pub fn edge32(r: &mut Rng) -> u32 {
    if r.chance(1, 2) {
        *r.pick(EDGE32)
    } else {
        r.next() as u32
    }
}
pub fn edge64(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(64),
        3 => 0x0102_0304_0506_0708,
        _ => r.next(),
    }
}
const EDGEF: &[u64] = &[
    0,
    0x8000_0000_0000_0000,
    0x7ff0_0000_0000_0000,
    0xfff0_0000_0000_0000,
    0x7ff8_0000_0000_0000,
    0x7ff8_0000_0000_0001,
    0xfff8_0000_dead_beef,
    1,
    0x3ff0_0000_0000_0000,
];

const CHARS: &[&str] = &[
    "a", "Z", "0", "_", " ", ".", "/", ":", "-", "'", "\\", ",", "=", "\"", "\n", "\u{1}", "\u{7f}", "\u{80}",
    "\u{7ff}", "\u{800}", "\u{fff}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{3ffff}",
    "\u{40000}", "\u{10ffff}", "é", "漢", "😀", "\0", "\r", "\t", "\u{feff}", "\u{fffd}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{301}",
    "{", "}", "%", "&",
];
/// Characters some code may treat specially.
pub const ODD: &[&str] = &[
    "\u{feff}", "\u{fffe}", "\u{ffff}", "\u{fffd}", "\u{1fffe}", "\u{10fffe}", "\u{fdd0}", "\u{200b}", "\u{200d}", "\u{202e}",
    "\u{2028}", "\u{2029}", "\u{85}", "\u{a0}", "\u{ad}", "\u{301}", "\u{1160}", "\u{3000}", "\u{d7ff}", "\u{e000}", "\0", "\u{1}",
    "\u{1b}", "\u{7f}", "\u{80}", "\r", "\n", "\t", "\u{b}", "\u{c}", " ", "\\", "'", "\"", "%s", "{}", "ß", "İ", "ſ", "ﬀ", "é", "e\u{301}",
    "\u{1f1e6}", "😀", "\u{e0001}",
];
/// Texts in which every place is within a character of several bytes in one of them.
pub fn wide_texts(lens: &[usize]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for n in lens {
        for c in ["é", "漢", "😀"] {
            for k in 0..c.len() {
                let mut t = "a".repeat(k);
                while t.len() < *n {
                    t += c;
                }
                v.push(t.into_bytes());
            }
        }
    }
    v
}
/// Texts that differ a little from t, here and there.
pub fn near_texts(r: &mut Rng, t: &[u8], places: usize) -> Vec<Vec<u8>> {
    let mut v = vec![t.to_ascii_uppercase(), t.to_ascii_lowercase(), t.to_vec()];
    if t.is_empty() {
        return v;
    }
    let n = t.len();
    let mut at: Vec<usize> = vec![0, 1 % n, n / 2, n - 1, n.saturating_sub(2)];
    at.extend((0..places).map(|_| r.below(n)));
    at.sort_unstable();
    at.dedup();
    for i in at {
        for x in [t[i] ^ 0x20, t[i].wrapping_add(1), t[i] ^ 1, b'_', b'-'] {
            let mut u = t.to_vec();
            u[i] = x;
            v.push(u);
        }
        let mut u = t.to_vec();
        u.remove(i);
        v.push(u.clone());
        u.insert(r.below(n), t[i]);
        v.push(u);
        let mut u = t.to_vec();
        u.insert(i, t[i]);
        v.push(u);
        let mut u = t.to_vec();
        u.swap(i, r.below(n));
        v.push(u);
    }
    v.push(t[..n - 1].to_vec());
    v.push([t, b"z"].concat());
    v.push(t.iter().rev().cloned().collect());
    v
}
/// Names of n elements joined by sep, with lead in front.
pub fn many_elements(lead: &str, n: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..n).map(|i| ["a", "Zb", "_", "c9"][i % 4].chars().take(if n > 60 { 1 } else { 2 }).collect()).collect();
    v[0] = format!("{}{}", lead, v[0]);
    v
}
/// About every power of two.
pub fn about_powers(lo: u32, hi: u32) -> Vec<usize> {
    (lo..=hi).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).collect()
}
pub fn gen_text(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1 => max,
        _ => r.below(max + 1),
    };
    let mut s = Vec::new();
    for _ in 0..n {
        s.extend_from_slice(r.pick(CHARS).as_bytes());
    }
    s
}
const ELEM: &[&str] = &["a", "b", "A1", "_", "x_9", "org", "freedesktop", "DBus", "Z0", "ab"];
fn elems(r: &mut Rng, lo: usize, hi: usize, sep: &str) -> String {
    let n = r.range(lo, hi);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(r.pick(ELEM).to_string());
    }
    v.join(sep)
}
/// Append letters to reach exactly n bytes, now and then.
fn pad_to(r: &mut Rng, mut s: String) -> Vec<u8> {
    if r.chance(1, 24) {
        let n = *r.pick(&[254usize, 255, 128, 63, 64]);
        while s.len() < n {
            s.push('q');
        }
    }
    s.into_bytes()
}
pub fn gen_path(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 8) {
        return b"/".to_vec();
    }
    let s = format!("/{}", elems(r, 1, 4, "/"));
    pad_to(r, s)
}
pub fn gen_iface(r: &mut Rng) -> Vec<u8> {
    let s = elems(r, 2, 4, ".");
    pad_to(r, s)
}
pub fn gen_member(r: &mut Rng) -> Vec<u8> {
    let s = elems(r, 1, 1, "");
    pad_to(r, s)
}
pub fn gen_wk(r: &mut Rng) -> Vec<u8> {
    let mut s = elems(r, 2, 4, ".");
    if r.chance(1, 3) {
        s.push_str("-x");
    }
    pad_to(r, s)
}
pub fn gen_unique(r: &mut Rng) -> Vec<u8> {
    let s = match r.below(4) {
        0 => format!(":1.{}", r.below(1000)),
        1 => format!(":{}.0-", r.below(1000)),
        2 => ":a.b.c".to_string(),
        _ => format!(":{}", elems(r, 2, 3, ".")),
    };
    pad_to(r, s)
}
pub fn gen_bus(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 2) {
        gen_unique(r)
    } else {
        gen_wk(r)
    }
}

/// Value of the type at s[*i].  budget bounds the number of values.
pub fn gen_val(r: &mut Rng, p: Gp, s: &[u8], i: &mut usize, vd: usize, budget: &mut usize) -> V {
    *budget = budget.saturating_sub(1);
    let c = s[*i];
    *i += 1;
    match c {
        b'y' => V::Y(edge32(r) as u8),
        b'b' => V::B(r.chance(1, 2)),
        b'n' => V::N(edge32(r) as i16),
        b'q' => V::Q(edge32(r) as u16),
        b'i' => V::I(edge32(r) as i32),
        b'u' => V::U(edge32(r)),
        b'x' => V::X(edge64(r) as i64),
        b't' => V::T(edge64(r)),
        b'd' => V::D(if r.chance(1, 3) { *r.pick(EDGEF) } else { edge64(r) }),
        b's' => V::S(gen_text(r, 9)),
        b'o' => V::O(gen_path(r)),
        b'g' => {
            let mut g = Vec::new();
            for _ in 0..r.below(4) {
                gen_sig(r, GP, 2, &mut g);
            }
            V::G(g)
        }
        b'h' => V::H(*r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, -1, 1000, i32::MAX, i32::MIN])),
        b'v' => {
            let q = if vd + 1 >= p.vmax {
                // no further variants: retry until there is none
                let mut t;
                loop {
                    t = Vec::new();
                    gen_sig(r, p, if *budget == 0 { 0 } else { 2 }, &mut t);
                    if !t.contains(&b'v') {
                        break;
                    }
                }
                t
            } else {
                let mut t = Vec::new();
                gen_sig(r, p, if *budget == 0 { 0 } else { 2 }, &mut t);
                if *budget > 0 && r.chance(1, 4) {
                    t = b"v".to_vec();
                }
                t
            };
            let mut j = 0;
            V::W(Box::new(gen_val(r, p, &q, &mut j, vd + 1, budget)))
        }
        b'a' => {
            let st = *i;
            skip(s, i);
            let e = s[st..*i].to_vec();
            let n = if *budget == 0 { 0 } else { *r.pick(&[0usize, 0, 1, 1, 2, 3, 4, 5]) };
            let mut v = Vec::new();
            for _ in 0..n {
                let mut j = 0;
                v.push(gen_val(r, p, &e, &mut j, vd, budget));
            }
            V::A(e, v)
        }
        b'(' => {
            let mut v = Vec::new();
            while s[*i] != b')' {
                v.push(gen_val(r, p, s, i, vd, budget));
            }
            *i += 1;
            V::R(v)
        }
        b'{' => {
            let k = gen_val(r, p, s, i, vd, budget);
            let v = gen_val(r, p, s, i, vd, budget);
            *i += 1;
            V::E(Box::new((k, v)))
        }
        _ => unreachable!(),
    }
}
pub fn skip(s: &[u8], i: &mut usize) {
    let c = s[*i];
    *i += 1;
    match c {
        b'a' => skip(s, i),
        b'(' | b'{' => {
            while s[*i] != b')' && s[*i] != b'}' {
                skip(s, i);
            }
            *i += 1;
        }
        _ => (),
    }
}
pub fn val_of(r: &mut Rng, p: Gp, s: &[u8], budget: usize) -> V {
    let mut i = 0;
    let mut b = budget;
    gen_val(r, p, s, &mut i, 0, &mut b)
}
pub fn gen_body(r: &mut Rng, p: Gp, maxn: usize) -> Vec<V> {
    let n = r.below(maxn + 1);
    (0..n)
        .map(|_| {
            let s = one_sig(r, p);
            val_of(r, p, &s, 12)
        })
        .collect()
}

/// Header fields a message of this type may carry; the required ones are there.
pub fn gen_fields(r: &mut Rng, ty: u8) -> [Option<Vec<u8>>; 9] {
    let req: &[usize] = match ty {
        1 => &[0, 2],
        2 => &[4],
        3 => &[3, 4],
        _ => &[0, 1, 2],
    };
    let mut f = NOF;
    let extra = r.below(3);
    for i in 0..9 {
        if i == 7 {
            continue;
        }
        let want = req.contains(&i)
            || match extra {
                0 => r.chance(1, 6),
                1 => r.chance(1, 2),
                _ => matches!(i, 1 | 5 | 6) && r.chance(2, 3),
            };
        if !want || (i == 8 && r.chance(2, 3)) {
            continue;
        }
        f[i] = Some(match i {
            0 => gen_path(r),
            1 => gen_iface(r),
            2 => gen_member(r),
            3 => gen_iface(r),
            5 | 6 => gen_bus(r),
            8 if r.chance(2, 3) => (r.below(4) as u32).to_le_bytes().to_vec(),
            _ => edge32(r).to_le_bytes().to_vec(),
        });
    }
    // fields that say the same
    if r.chance(1, 5) {
        let (a, b) = *r.pick(&[(5, 6), (6, 5), (1, 3), (3, 1), (4, 8), (8, 4)]);
        if f[b].is_some() {
            f[a] = f[b].clone();
        }
    }
    if r.chance(1, 12) {
        // names of several kinds
        for i in [1, 3, 5, 6] {
            if f[i].is_some() {
                f[i] = Some(b"a.b".to_vec());
            }
        }
        if f[2].is_some() {
            f[2] = Some(b"a".to_vec());
        }
        if f[0].is_some() {
            f[0] = Some(b"/a/b".to_vec());
        }
    }
    f
}

pub fn gen_m(r: &mut Rng, p: Gp, maxn: usize) -> M {
    let ty = r.range(1, 4) as u8;
    M {
        le: r.chance(1, 2),
        ty,
        fl: r.below(8) as i32,
        ver: *r.pick(&[1, 1, 1, 0, 2, 255]),
        ser: edge32(r),
        f: gen_fields(r, ty),
        body: gen_body(r, p, maxn),
    }
}

/// Values at the edges of their types, and values some code may take for others.
pub fn specials() -> Vec<V> {
    let mut v = Vec::new();
    for i in 0..64 {
        for x in [1u64 << i, (1u64 << i) - 1, !(1u64 << i)] {
            if i < 8 {
                v.push(V::Y(x as u8));
            }
            if i < 16 && i % 3 != 1 {
                v.push(V::N(x as i16));
                v.push(V::Q(x as u16));
            }
            if i < 32 && i % 4 != 1 {
                v.push(V::I(x as i32));
                v.push(V::U(x as u32));
                v.push(V::H(x as i32));
            }
            if i % 4 != 1 {
                v.push(V::X(x as i64));
                v.push(V::T(x));
            }
        }
    }
    for d in EDGEF {
        v.push(V::D(*d));
    }
    for d in [
        2u64, 0x000f_ffff_ffff_ffff, 0x0010_0000_0000_0000, 0x7fef_ffff_ffff_ffff, 0xffef_ffff_ffff_ffff, 0x8000_0000_0000_0001, 0x7ff0_0000_0000_0001,
        0x7fff_ffff_ffff_ffff, 0xffff_ffff_ffff_ffff, 0xbff0_0000_0000_0000, 0x4330_0000_0000_0000, 0x3fb9_9999_9999_999a, 0x7ff4_0000_0000_0000,
    ] {
        v.push(V::D(d));
    }
    for c in ODD {
        for t in [format!("{}", c), format!("{}ab", c), format!("ab{}", c), format!("a{}b", c), format!("{}{}", c, c)] {
            v.push(V::S(t.into_bytes()));
        }
    }
    for p in ["/", "/_", "/0", "/a/0", "/A/_9", "/a/a/a/a/a/a/a/a/a/a/a/a/a/a/a/a", "/org/freedesktop/DBus", "/org/freedesktop/DBus/Local"] {
        v.push(V::O(p.as_bytes().to_vec()));
    }
    for g in ["", "y", "v", "aay", "((y))", "a{sv}", "{yy}", "a(yv)", "yyyyyyyyyyyyyyyyyyyy", "hh", "ga"] {
        if g != "ga" {
            v.push(V::G(g.as_bytes().to_vec()));
        }
    }
    v
}

/// Kinds of layers from the outside: a nesting of one kind about its limit,
/// mixed with some of the others.
fn layers(r: &mut Rng) -> Vec<u8> {
    let main = *r.pick(b"a(({{v");
    let mut l = Vec::new();
    for k in *b"a({v" {
        let n = if k == main {
            if k == b'v' { r.range(3, 6) } else { r.range(31, 34) }
        } else if k == b'v' {
            *r.pick(&[0usize, 0, 0, 1, 2, 4])
        } else {
            *r.pick(&[0usize, 0, 1, 2, 5, 9, 31, 32, 33])
        };
        l.extend(vec![k; n]);
    }
    for i in (1..l.len()).rev() {
        l.swap(i, r.below(i + 1));
    }
    l
}

pub fn deep_sig(r: &mut Rng) -> Vec<u8> {
    let mut s = vec![*r.pick(b"ytsv")];
    for k in layers(r) {
        s = match k {
            b'a' => [b"a", &s[..]].concat(),
            b'(' => {
                let (a, b) = *r.pick(&[("", ""), ("y", ""), ("", "y"), ("y", "y"), ("ay", ""), ("(y)", "{yy}")]);
                [b"(", a.as_bytes(), &s, b.as_bytes(), b")"].concat()
            }
            b'{' if r.chance(1, 3) => [b"{", &s[..], b"y}"].concat(),
            b'{' => [b"{y", &s[..], b"}"].concat(),
            _ => s,
        };
    }
    s
}

pub fn deep_val(r: &mut Rng) -> V {
    let mut q = match r.below(4) {
        0 => V::Y(1),
        1 => V::T(1),
        2 => V::A(b"t".to_vec(), vec![]),
        _ => V::S(b"x".to_vec()),
    };
    for k in layers(r) {
        q = match k {
            b'a' if r.chance(1, 40) => V::A(q.sig(), vec![]),
            b'a' => V::A(q.sig(), vec![q]),
            b'(' => {
                let n = *r.pick(&[1usize, 1, 2, 2, 3, 3, 9, 12]);
                let at = r.below(n);
                let mut v: Vec<V> = (0..n).map(|i| if i % 3 == 1 { V::W(Box::new(V::Y(i as u8))) } else { V::Y(i as u8) }).collect();
                v[at] = q;
                V::R(v)
            }
            b'{' if r.chance(1, 3) => V::E(Box::new((q, V::Y(5)))),
            b'{' => V::E(Box::new((V::Y(4), q))),
            _ => V::W(Box::new(q)),
        };
    }
    q
}
