//! Headers built through the API, and header fields to and from value lists.
use crate::gen::*;
use crate::js::*;
use crate::msg::*;
use crate::rng::Rng;
use crate::val::*;
use crate::wire::shuffle;
use crate::Out;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

fn has9(h: &MessageHeader) -> [bool; 9] {
    [
        h.has_path(),
        h.has_interface(),
        h.has_member(),
        h.has_error_name(),
        h.has_reply_serial(),
        h.has_destination(),
        h.has_sender(),
        h.has_signature(),
        h.has_unix_fds(),
    ]
}

/// MessageHeader::new with the header of m.
pub fn rec_hnew(o: &mut Out, m: &M) {
    let case = || vec![("k", js("hnew")), ("m", m.js())];
    o.about(|| obj(case()));
    let f = match fields_to_lib(&m.f) {
        Ok(f) => f,
        Err(_) => return,
    };
    let r = guard(|| {
        match MessageHeader::new(m.le, mtype(m.ty), flags(m.fl as u8), m.ver as u8, m.ser, f) {
            Err(e) => obj(vec![("st", js("err")), ("c", jwords(&split_words(&crate::says::debug(&e))))]),
            Ok(h) => {
                let (le, fl, ver) = hidden(&h, (m.le, m.fl as u8, m.ver as u8));
                let g = header_fields(&h);
                let bad = g.iter().zip(has9(&h).iter()).any(|(a, b)| a.is_some() != *b);
                obj(vec![
                    ("st", js("ok")),
                    ("le", J::I(le as i64)),
                    ("ty", ji(mtype_no(h.get_type()) as usize)),
                    ("fl", J::I(fl as i64)),
                    ("ver", J::I(ver as i64)),
                    ("ser", jb(&h.get_serial().to_le_bytes())),
                    ("f", jf(&g)),
                    ("bad", jbool(bad)),
                ])
            }
        }
    })
    .unwrap_or_else(|()| obj(vec![("st", js("panic"))]));
    let mut c = case();
    c.push(("r", r));
    o.put(obj(c));
}

/// MessageHeaderFields from a list of values, and back.
pub fn rec_hfld(o: &mut Out, vs: &[V]) {
    let case = || vec![("k", js("hfld")), ("v", toks_of(vs))];
    o.about(|| obj(case()));
    let libs: Vec<Value> = match guard(|| vs.iter().map(to_lib).collect::<Result<Vec<_>, _>>()) {
        Ok(Ok(x)) => x,
        _ => return,
    };
    let r = guard(|| match MessageHeaderFields::try_from(libs) {
        Err(e) => {
            let (c, v) = claim_fields(&e);
            obj(vec![("st", js("err")), ("c", jwords(&c)), ("v", J::A(v))])
        }
        Ok(f) => {
            let g = fields_from_lib(&f);
            let back: Vec<Value> = f.clone().into();
            let back: Vec<V> = back.iter().map(from_lib).collect();
            obj(vec![("st", js("ok")), ("f", jf(&g)), ("back", toks_of(&back))])
        }
    })
    .unwrap_or_else(|()| obj(vec![("st", js("panic"))]));
    let mut c = case();
    c.push(("r", r));
    o.put(obj(c));
}

/// Message types as numbers and as texts.
pub fn rec_mty(o: &mut Out, r: &mut Rng) {
    let mut by = Vec::new();
    for b in 0..=255u8 {
        if let Ok(t) = MessageType::try_from(b) {
            by.push(J::A(vec![ji(b as usize), ji(mtype_no(t) as usize), ji(t as u8 as usize), jb(t.to_string().as_bytes())]));
        }
    }
    let mut texts: Vec<String> = Vec::new();
    for t in ["method_call", "method_return", "error", "signal"] {
        texts.push(t.into());
        texts.push(t.to_uppercase());
        texts.push(format!("{} ", t));
        texts.push(format!(" {}", t));
        texts.push(t.replace('_', ""));
        texts.push(t.replace('_', "-"));
        for i in 0..t.len() {
            texts.push(t[..i].into());
            texts.push(t[i..].into());
            let mut x = t.as_bytes().to_vec();
            x[i] ^= 1 << r.below(5);
            if let Ok(x) = String::from_utf8(x) {
                texts.push(x);
            }
        }
    }
    texts.sort();
    texts.dedup();
    let tx: Vec<J> = texts
        .iter()
        .map(|t| match MessageType::try_from(&t[..]) {
            Ok(x) => J::A(vec![jb(t.as_bytes()), ji(mtype_no(x) as usize)]),
            Err(_) => J::A(vec![jb(t.as_bytes()), ji(0)]),
        })
        .collect();
    let fl: Vec<J> = (0..=255u8)
        .filter_map(|b| MessageFlags::from_bits(b).map(|f| J::A(vec![ji(b as usize), ji(f.bits() as usize)])))
        .collect();
    o.about(|| obj(vec![("k", js("mty"))]));
    o.put(obj(vec![("k", js("mty")), ("by", J::A(by)), ("tx", J::A(tx)), ("fl", J::A(fl))]));
}

fn field(code: u8, v: V) -> V {
    V::R(vec![V::Y(code), V::W(Box::new(v))])
}

pub fn head_cases(o: &mut Out, r: &mut Rng, k: usize) {
    rec_mty(o, r);
    // every subset of the fields for every type
    for ty in 1..=4u8 {
        for bits in 0..512usize {
            let mut f = NOF;
            for i in 0..9 {
                if bits >> i & 1 == 1 {
                    f[i] = Some(match i {
                        0 => gen_path(r),
                        1 | 3 => gen_iface(r),
                        2 => gen_member(r),
                        4 | 8 => edge32(r).to_le_bytes().to_vec(),
                        7 => {
                            let mut s = Vec::new();
                            for _ in 0..r.below(3) {
                                s.extend(one_sig(r, GP));
                            }
                            s
                        }
                        _ => gen_bus(r),
                    });
                }
            }
            let m = M {
                le: r.chance(1, 2),
                ty,
                fl: r.below(8) as i32,
                ver: *r.pick(&[1, 1, 0, 2, 255]),
                ser: edge32(r),
                f,
                body: vec![],
            };
            rec_hnew(o, &m);
        }
    }
    // lists of values
    let text = |t: &str| V::S(t.as_bytes().to_vec());
    let good: Vec<V> = vec![
        V::O(b"/a".to_vec()),
        text("a.b"),
        text("M"),
        text("e.r"),
        V::U(5),
        text("c.d"),
        text(":1.2"),
        V::G(b"as".to_vec()),
        V::U(3),
    ];
    for bits in 0..512usize {
        let mut v: Vec<V> = (0..9).filter(|i| bits >> i & 1 == 1).map(|i| field(i as u8 + 1, good[i].clone())).collect();
        shuffle(r, &mut v);
        rec_hfld(o, &v);
    }
    let others = vec![
        V::Y(1), V::B(true), V::N(1), V::Q(1), V::I(5), V::U(5), V::X(5), V::T(5), V::D(5), text("a.b"), text("M"), text(""),
        text(":1.2"), V::O(b"/a".to_vec()), V::G(b"s".to_vec()), V::G(vec![]), V::H(1), V::A(b"y".to_vec(), vec![]),
        V::R(vec![V::U(5)]), V::W(Box::new(text("a.b"))), V::W(Box::new(V::U(5))), V::E(Box::new((V::Y(1), V::U(5)))),
        V::A(b"s".to_vec(), vec![text("a.b")]), V::G(b"()".to_vec()),
    ];
    let some = |r: &mut Rng| {
        let mut v: Vec<V> = (0..9).filter(|_| r.chance(1, 3)).map(|i| field(i as u8 + 1, good[i].clone())).collect();
        shuffle(r, &mut v);
        v
    };
    // every code with every value, alone, before and after others
    for code in (0..=12u8).chain([127, 128, 255]) {
        for x in &others {
            rec_hfld(o, &[field(code, x.clone())]);
            let mut v = some(r);
            v.retain(|y| !matches!(y, V::R(m) if m[0] == V::Y(code)));
            let at = r.below(v.len() + 1);
            v.insert(at, field(code, x.clone()));
            rec_hfld(o, &v);
            if (1..10).contains(&code) {
                // twice, the second one good or bad
                v.insert(r.below(v.len() + 1), field(code, good[code as usize - 1].clone()));
                rec_hfld(o, &v);
            }
        }
    }
    // things that are no fields
    let odd = |r: &mut Rng| -> V {
        let c = r.range(0, 10) as u8;
        let x = r.pick(&others).clone();
        let w = V::W(Box::new(x.clone()));
        match r.below(11) {
            0 => x,
            1 => V::R(vec![V::Y(c)]),
            2 => V::R(vec![w]),
            3 => V::R(vec![V::Y(c), x]),
            4 => V::R(vec![V::Y(c), w, V::Y(1)]),
            5 => V::R(vec![w, V::Y(c)]),
            6 => V::R(vec![V::U(c as u32), w]),
            7 => V::W(Box::new(V::R(vec![V::Y(c), w]))),
            8 => V::A(b"(yv)".to_vec(), vec![field(c, x)]),
            9 => V::E(Box::new((V::Y(c), w))),
            _ => V::R(vec![V::Y(c), w.clone(), w]),
        }
    };
    for _ in 0..600 * k {
        let mut v = some(r);
        for _ in 0..r.range(1, 2) {
            let at = r.below(v.len() + 1);
            let x = odd(r);
            v.insert(at, x);
        }
        rec_hfld(o, &v);
    }
    // names, good and bad
    for _ in 0..800 * k {
        let code = *r.pick(&[1u8, 2, 3, 4, 6, 7]);
        let mut t = match code {
            1 => gen_path(r),
            3 => gen_member(r),
            6 | 7 => gen_bus(r),
            _ => gen_iface(r),
        };
        if r.chance(1, 2) {
            let p = r.below(t.len() + 1);
            match r.below(3) {
                0 => t.insert(p, *r.pick(b".:/-_ 0a\0")),
                1 if p < t.len() => {
                    t.remove(p);
                }
                _ if p < t.len() => t[p] = *r.pick(b".:/-_ 0a\0"),
                _ => (),
            }
        }
        if r.chance(1, 12) {
            t.resize(r.range(253, 257), b'x');
        }
        let x = if code == 1 { V::O(t) } else { V::S(t) };
        let mut v = some(r);
        v.retain(|y| !matches!(y, V::R(m) if m[0] == V::Y(code)));
        let at = r.below(v.len() + 1);
        v.insert(at, field(code, x));
        rec_hfld(o, &v);
    }
}
