//! Pools of related things: what is equal, less and of the same hash.
use crate::gen::*;
use crate::js::*;
use crate::msg::*;
use crate::plan::{m_of, untoks};
use crate::rng::Rng;
use crate::rules::*;
use crate::val::*;

use crate::Out;
use bytes::Bytes;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

fn code(o: Option<Ordering>) -> i64 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 2,
    }
}
/// 9: the operators do not agree among themselves
fn part<T: PartialOrd>(a: &T, b: &T) -> i64 {
    let c = code(a.partial_cmp(b));
    let ops = (a < b, a <= b, a > b, a >= b);
    let want = match c {
        -1 => (true, true, false, false),
        0 => (false, true, false, true),
        1 => (false, false, true, true),
        _ => (false, false, false, false),
    };
    if ops == want {
        c
    } else {
        9
    }
}
fn total<T: Ord>(a: &T, b: &T) -> i64 {
    let c = code(Some(a.cmp(b)));
    if part(a, b) == c {
        c
    } else {
        9
    }
}
fn hash<T: Hash>(a: &T) -> u64 {
    let mut h = DefaultHasher::new();
    a.hash(&mut h);
    h.finish()
}

struct Tab {
    eq: J,
    ord: J,
    hash: J,
    st: J,
}
type Ord2<'a, T> = Option<&'a dyn Fn(&T, &T) -> i64>;
fn tab<T: PartialEq>(v: &[T], ord: Ord2<T>, hash: Option<&dyn Fn(&T) -> u64>) -> Tab {
    let m = |f: &dyn Fn(&T, &T) -> i64| {
        J::A(v.iter().map(|a| J::A(v.iter().map(|b| J::I(f(a, b))).collect())).collect())
    };
    #[allow(clippy::nonminimal_bool)]
    let eq = m(&|a, b| {
        let e = a == b;
        if e == !(a != b) {
            e as i64
        } else {
            9
        }
    });
    let hash = match hash {
        None => J::A(vec![]),
        Some(h) => {
            let hs: Vec<u64> = v.iter().map(|x| h(x)).collect();
            J::A(hs.iter().map(|h| ji(hs.iter().position(|g| g == h).unwrap() + 1)).collect())
        }
    };
    Tab { eq, ord: ord.map(m).unwrap_or(J::A(vec![])), hash, st: J::A(vec![]) }
}
/// Names also compare with texts.
fn named<T: Ord + PartialEq<str> + AsRef<str>>(v: &[T], hash: Option<&dyn Fn(&T) -> u64>) -> Tab {
    let mut t = tab(v, Some(&total::<T>), hash);
    let s: Vec<String> = v.iter().map(|x| x.as_ref().to_string()).collect();
    t.st = J::A(v.iter().map(|a| J::A(s.iter().map(|b| jbool(*a == **b)).collect())).collect());
    t
}

/// A name from its text, in any of the input forms.
fn nm<T>(s: &[u8], w: usize) -> Option<T>
where
    T: for<'a> TryFrom<&'a str> + for<'a> TryFrom<&'a [u8]> + TryFrom<String> + Clone,
{
    let t = std::str::from_utf8(s).ok()?;
    match w % 4 {
        0 => T::try_from(t).ok(),
        1 => T::try_from(s).ok(),
        2 => T::try_from(t.to_string()).ok(),
        _ => T::try_from(t).ok().map(|x: T| x.clone()),
    }
}
fn path(s: &[u8], w: usize) -> Option<ObjectPath> {
    if w < 4 {
        return nm(s, w);
    }
    // element by element
    let t = std::str::from_utf8(s).ok()?;
    if t != "/" && (t.ends_with('/') || t.contains("//") || !t.starts_with('/')) {
        return None;
    }
    let mut p = ObjectPath::default();
    for e in t.split('/').filter(|e| !e.is_empty()) {
        if !p.append(e) {
            return None;
        }
    }
    Some(p)
}
fn ty(s: &[u8], w: usize) -> Option<Type> {
    let t = std::str::from_utf8(s).ok()?;
    match w % 3 {
        0 => Type::try_from(t).ok(),
        1 => Type::try_from(s).ok(),
        _ => Type::from_string_to_signature(t).ok().filter(|v| v.len() == 1).map(|mut v| v.remove(0)),
    }
}
/// The same message, made in some way.
fn message(m: &M, w: usize) -> Option<Message> {
    let x = to_lib_msg(m).ok()?;
    Some(match w % 5 {
        0 => x,
        1 => {
            let (h, b) = x.clone().split().ok()?;
            if x.has_signature() != h.has_signature() {
                return Some(x);
            }
            Message::new(h, b)
        }
        2 => {
            let (b, f) = x.encode_with_fds().ok()?;
            Message::decode_with_fds(Bytes::from(b.to_vec()), &f).ok()?.0
        }
        3 => {
            // value by value
            let mut n = m.clone();
            let body = std::mem::take(&mut n.body);
            n.f[7] = None;
            let mut y = to_lib_msg(&n).ok()?;
            for v in body {
                y.add_value(to_lib(&v).ok()?);
            }
            y
        }
        _ => {
            let mut n = m.clone();
            n.ser ^= 5;
            let mut y = to_lib_msg(&n).ok()?;
            y.set_serial(m.ser);
            y
        }
    })
}
fn content(m: &Message, s: &M) -> J {
    let (mut f, _) = obs_fields(m);
    if let (true, Ok((h, _))) = (m.has_signature(), m.clone().split()) {
        f[7] = h.get_signature().map(print_types);
    }
    let body: Vec<V> = m.get_body().iter().map(from_lib).collect();
    obj(vec![
        ("le", jbool(s.le)),
        ("ty", ji(mtype_no(m.get_type()) as usize)),
        ("fl", J::I(s.fl as i64)),
        ("ver", J::I(s.ver as i64)),
        ("ser", jb(&m.get_serial().to_le_bytes())),
        ("f", jf(&f)),
        ("b", toks_of(&body)),
    ])
}

/// class, and what to make: [text | tokens | message, way]
pub fn rec_cmp(o: &mut Out, class: &str, src: &[J]) {
    let case = || vec![("k", js("cmp")), ("t", js(class)), ("src", J::A(src.to_vec()))];
    o.about(|| obj(case()));
    let src: Vec<J> = src.iter().map(|x| parse(&x.text())).collect();
    let way = |x: &J| x.arr()[1].int() as usize;
    let txt = |x: &J| x.arr()[0].bytes();
    macro_rules! names {
        ($t:ty, $hash:expr) => {{
            let v: Vec<(J, $t)> = src.iter().filter_map(|x| nm::<$t>(&txt(x), way(x)).map(|n| (jb(&txt(x)), n))).collect();
            let (c, n): (Vec<J>, Vec<$t>) = v.into_iter().unzip();
            (c, named(&n, $hash))
        }};
    }
    let r = guard(|| match class {
        "interface" => names!(Interface, Some(&hash::<Interface>)),
        "error" => names!(Error, Some(&hash::<Error>)),
        "member" => names!(Member, Some(&hash::<Member>)),
        "wellknown" => names!(WellKnownBusName, None),
        "unique" => names!(UniqueConnectionName, None),
        "bus" => names!(Bus, None),
        "path" => {
            let v: Vec<(J, ObjectPath)> = src.iter().filter_map(|x| path(&txt(x), way(x)).map(|n| (jb(&txt(x)), n))).collect();
            let (c, n): (Vec<J>, Vec<ObjectPath>) = v.into_iter().unzip();
            (c, named(&n, Some(&hash::<ObjectPath>)))
        }
        "type" => {
            let v: Vec<(J, Type)> = src.iter().filter_map(|x| ty(&txt(x), way(x)).map(|n| (jb(&txt(x)), n))).collect();
            let (c, n): (Vec<J>, Vec<Type>) = v.into_iter().unzip();
            (c, tab(&n, Some(&total::<Type>), Some(&hash::<Type>)))
        }
        "value" => {
            let v: Vec<(J, Value)> =
                src.iter().filter_map(|x| to_lib(&untoks(&x.arr()[0])[0]).ok().map(|n| (toks_of(&[from_lib(&n)]), n))).collect();
            let (c, n): (Vec<J>, Vec<Value>) = v.into_iter().unzip();
            (c, tab(&n, Some(&part::<Value>), None))
        }
        "array" | "struct" => {
            let v: Vec<(J, Value)> =
                src.iter().filter_map(|x| to_lib(&untoks(&x.arr()[0])[0]).ok().map(|n| (toks_of(&[from_lib(&n)]), n))).collect();
            if class == "array" {
                let (c, n): (Vec<J>, Vec<Array>) =
                    v.into_iter().filter_map(|(c, v)| if let Value::Array(a) = v { Some((c, a)) } else { None }).unzip();
                (c, tab(&n, Some(&part::<Array>), None))
            } else {
                let (c, n): (Vec<J>, Vec<Struct>) =
                    v.into_iter().filter_map(|(c, v)| if let Value::Struct(a) = v { Some((c, a)) } else { None }).unzip();
                (c, tab(&n, Some(&part::<Struct>), None))
            }
        }
        "rule" => {
            let v: Vec<(J, _)> = src
                .iter()
                .filter_map(|x| {
                    let r = rs_of(&J::A(vec![x.arr()[0].clone()]))[0].clone();
                    to_lib_rule(&r).ok().map(|l| (jrs(&[from_lib_rule(&l)]), l))
                })
                .collect();
            let (c, n): (Vec<J>, Vec<_>) = v.into_iter().unzip();
            (c, tab(&n, None, None))
        }
        "message" => {
            let v: Vec<(J, Message)> = src
                .iter()
                .filter_map(|x| {
                    let m = m_of(&x.arr()[0]);
                    message(&m, way(x)).map(|n| (content(&n, &m), n))
                })
                .collect();
            let (c, n): (Vec<J>, Vec<Message>) = v.into_iter().unzip();
            (c, tab(&n, Some(&part::<Message>), None))
        }
        "header" => {
            let v: Vec<(J, MessageHeader)> = src
                .iter()
                .filter_map(|x| {
                    let mut m = m_of(&x.arr()[0]);
                    m.body.clear();
                    let h = MessageHeader::new(m.le, mtype(m.ty), flags(m.fl as u8), m.ver as u8, m.ser, fields_to_lib(&m.f).ok()?);
                    h.ok().map(|h| (m.js(), h))
                })
                .collect();
            let (c, n): (Vec<J>, Vec<MessageHeader>) = v.into_iter().unzip();
            (c, tab(&n, Some(&total::<MessageHeader>), None))
        }
        "fields" => {
            let v: Vec<(J, MessageHeaderFields)> = src
                .iter()
                .filter_map(|x| {
                    let m = m_of(&x.arr()[0]);
                    fields_to_lib(&m.f).ok().map(|h| (jf(&m.f), h))
                })
                .collect();
            let (c, n): (Vec<J>, Vec<MessageHeaderFields>) = v.into_iter().unzip();
            (c, tab(&n, Some(&total::<MessageHeaderFields>), None))
        }
        c => panic!("class {}", c),
    });
    let mut c = case();
    match r {
        Err(()) => c.push(("st", js("panic"))),
        Ok((x, t)) => {
            o.runs += x.len() * x.len();
            c.extend(vec![("st", js("ok")), ("x", J::A(x)), ("eq", t.eq), ("ord", t.ord), ("hash", t.hash), ("as", t.st)])
        }
    }
    o.put(obj(c));
}

/// Texts that differ a little.
fn near(r: &mut Rng, s: &[u8]) -> Vec<u8> {
    let mut t = s.to_vec();
    let n = t.len();
    match r.below(8) {
        0 => t.push(*r.pick(b"aZ_19-./")),
        1 if n > 1 => {
            t.pop();
        }
        2 if n > 0 => {
            let i = r.below(n);
            t[i] ^= 0x20;
        }
        3 if n > 0 => {
            let i = r.below(n);
            t[i] = t[i].wrapping_add(1);
        }
        4 if n > 1 => {
            let (i, j) = (r.below(n), r.below(n));
            t.swap(i, j);
        }
        5 if n > 0 => {
            let i = r.below(n + 1);
            t.insert(i, *r.pick(b"aA_0./:-"));
        }
        6 => {
            let l = t.len().min(4);
            let p = t[..l].to_vec();
            t.extend(p);
        }
        _ => (),
    }
    t
}
fn bump(r: &mut Rng, b: &mut [u8]) {
    let i = r.below(b.len());
    b[i] = match r.below(4) {
        0 => b[i].wrapping_add(1),
        1 => b[i] ^ 0x80,
        2 => 0,
        _ => 255,
    };
}
/// Values that differ a little.
fn nearv(r: &mut Rng, v: &V) -> V {
    fn num<const N: usize>(r: &mut Rng, mut b: [u8; N]) -> [u8; N] {
        bump(r, &mut b);
        b
    }
    match v {
        V::Y(x) => V::Y(x.wrapping_add(r.below(3) as u8)),
        V::B(x) => V::B(!x),
        V::N(x) => V::N(i16::from_le_bytes(num(r, x.to_le_bytes()))),
        V::Q(x) => V::Q(u16::from_le_bytes(num(r, x.to_le_bytes()))),
        V::I(x) => match r.below(3) {
            0 => V::U(*x as u32),
            1 => V::X(*x as i64),
            _ => V::I(i32::from_le_bytes(num(r, x.to_le_bytes()))),
        },
        V::U(x) => {
            if r.chance(1, 3) {
                V::T(*x as u64)
            } else {
                V::U(u32::from_le_bytes(num(r, x.to_le_bytes())))
            }
        }
        V::X(x) => V::X(i64::from_le_bytes(num(r, x.to_le_bytes()))),
        V::T(x) => V::T(u64::from_le_bytes(num(r, x.to_le_bytes()))),
        V::D(x) => match r.below(6) {
            0 => V::D(x ^ (1 << 63)),
            1 => V::D(0),
            2 => V::D(1 << 63),
            3 => V::D(0x7ff8_0000_0000_0000),
            4 => V::D(0x7ff0_0000_0000_0000 | r.below(2) as u64),
            _ => V::D(u64::from_le_bytes(num(r, x.to_le_bytes()))),
        },
        V::S(t) => match r.below(4) {
            0 => V::G(b"s".to_vec()),
            1 if t.starts_with(b"/") => V::O(t.clone()),
            _ => V::S(near(r, t)),
        },
        V::O(t) => {
            if r.chance(1, 3) {
                V::S(t.clone())
            } else {
                V::O(near(r, t))
            }
        }
        V::G(_) => V::G(one_sig(r, GP)),
        V::H(x) => V::H(x ^ r.below(2) as i32),
        V::A(s, e) => {
            let mut e = e.clone();
            match r.below(4) {
                0 if !e.is_empty() => {
                    e.pop();
                }
                1 if !e.is_empty() => {
                    let x = r.pick(&e).clone();
                    e.push(x);
                }
                2 if e.len() > 1 => {
                    let i = r.below(e.len() - 1);
                    e.swap(i, i + 1);
                }
                3 if !e.is_empty() => {
                    let i = r.below(e.len());
                    e[i] = nearv(r, &e[i]);
                }
                _ => {
                    if e.is_empty() {
                        return V::A(near(r, s), e);
                    }
                }
            }
            V::A(s.clone(), e)
        }
        V::R(e) => {
            let mut e = e.clone();
            match r.below(4) {
                0 if e.len() > 1 => {
                    e.pop();
                }
                1 => {
                    let x = r.pick(&e).clone();
                    e.push(x);
                }
                2 if e.len() > 1 => {
                    let i = r.below(e.len() - 1);
                    e.swap(i, i + 1);
                }
                _ => {
                    let i = r.below(e.len());
                    e[i] = nearv(r, &e[i]);
                }
            }
            V::R(e)
        }
        V::E(b) => {
            if r.chance(1, 2) {
                V::E(Box::new((nearv(r, &b.0), b.1.clone())))
            } else {
                V::E(Box::new((b.0.clone(), nearv(r, &b.1))))
            }
        }
        V::W(b) => match r.below(3) {
            0 => (**b).clone(),
            1 => V::W(Box::new(V::W(b.clone()))),
            _ => V::W(Box::new(nearv(r, b))),
        },
        x => x.clone(),
    }
}
fn nearm(r: &mut Rng, m: &M) -> M {
    let mut n = m.clone();
    match r.below(9) {
        0 => n.le = !n.le,
        1 => n.ty = r.range(1, 4) as u8,
        2 => n.fl = r.below(8) as i32,
        3 => n.ver = r.below(3) as i32,
        4 => n.ser = edge32(r),
        5 => {
            let i = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 8]);
            n.f[i] = None;
        }
        6 => {
            let i = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 8]);
            n.f[i] = Some(match i {
                4 | 8 => edge32(r).to_le_bytes().to_vec(),
                _ => match &n.f[i] {
                    Some(t) => near(r, t),
                    None => match i {
                        0 => gen_path(r),
                        2 => gen_member(r),
                        5 | 6 => gen_bus(r),
                        _ => gen_iface(r),
                    },
                },
            });
        }
        7 if !n.body.is_empty() => {
            let i = r.below(n.body.len());
            n.body[i] = nearv(r, &n.body[i]);
        }
        _ => {
            if n.body.is_empty() {
                n.body.push(one_at_random(r));
            } else if r.chance(1, 2) {
                n.body.pop();
            } else {
                let i = r.below(n.body.len());
                let x = n.body[i].clone();
                n.body.push(x);
            }
        }
    }
    if n.f[7].is_some() || r.chance(1, 8) {
        n.f[7] = if n.body.is_empty() { None } else { Some(body_sig(&n.body)) };
    }
    n
}
fn one_at_random(r: &mut Rng) -> V {
    let s = one_sig(r, GP);
    val_of(r, GP, &s, 12)
}
/// A pool grown from some seeds by small steps, with repetitions.
fn grow<T: Clone>(r: &mut Rng, seeds: Vec<T>, n: usize, mut step: impl FnMut(&mut Rng, &T) -> T, j: impl Fn(&T) -> J) -> Vec<J> {
    let mut v = seeds;
    while v.len() < n {
        let x = r.pick(&v).clone();
        let y = if r.chance(1, 4) { x } else { step(r, &x) };
        v.push(y);
    }
    v.iter().map(|x| J::A(vec![j(x), ji(r.below(5))])).collect()
}

pub fn compare_cases(o: &mut Out, r: &mut Rng, k: usize) {
    let n = 12;
    for _ in 0..60 * k {
        for class in ["interface", "error", "member", "wellknown", "unique", "bus", "path"] {
            let one = |r: &mut Rng| match class {
                "interface" | "error" => gen_iface(r),
                "member" => gen_member(r),
                "wellknown" => gen_wk(r),
                "unique" => gen_unique(r),
                "bus" => gen_bus(r),
                _ => gen_path(r),
            };
            let s = vec![one(r), one(r)];
            let src = grow(r, s, n, |r, x| near(r, x), |x| jb(x));
            rec_cmp(o, class, &src);
        }
        let s = vec![one_sig(r, GP), one_sig(r, GP), one_sig(r, GP)];
        let src = grow(
            r,
            s,
            n,
            |r, x| match r.below(4) {
                0 => [b"a", &x[..]].concat(),
                1 => [b"(", &x[..], b")"].concat(),
                2 => [b"a{s", &x[..], b"}"].concat(),
                _ => near(r, x),
            },
            |x| jb(x),
        );
        rec_cmp(o, "type", &src);
    }
    for _ in 0..250 * k {
        let s = vec![one_at_random(r), one_at_random(r)];
        let src = grow(r, s, n, nearv, |x| toks_of(std::slice::from_ref(x)));
        rec_cmp(o, "value", &src);
    }
    for _ in 0..100 * k {
        for class in ["array", "struct"] {
            let s = if class == "array" { [b"a".to_vec(), one_sig(r, GP)].concat() } else { [b"(", &one_sig(r, GP)[..], &one_sig(r, GP)[..], b")"].concat() };
            let v = val_of(r, GP, &s, 12);
            let src = grow(r, vec![v], n, nearv, |x| toks_of(std::slice::from_ref(x)));
            rec_cmp(o, class, &src);
        }
    }
    // all the doubles that matter
    let ds = [0u64, 1 << 63, 1, 1 | 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0xfff8 << 48, 0x7ff0_0000_0000_0001, 0x3ff0 << 48, 0xbff0 << 48];
    let wrap: [&dyn Fn(V) -> V; 4] = [&|v| v, &|v| V::W(Box::new(v)), &|v| V::R(vec![v, V::Y(1)]), &|v| V::A(b"d".to_vec(), vec![v])];
    for f in wrap {
        let src: Vec<J> = ds.iter().map(|d| J::A(vec![toks_of(&[f(V::D(*d))]), ji(0)])).collect();
        rec_cmp(o, "value", &src);
    }
    for _ in 0..150 * k {
        let s = vec![gen_rule(r), gen_rule(r)];
        let src = grow(
            r,
            s,
            n,
            |r, x| match r.below(4) {
                0 => {
                    let k = *r.pick(&["path", "path_namespace", "interface", "arg0namespace", "arg", "argpath", "sender", "destination"]);
                    R { k: k.into(), n: if k.starts_with("arg") && k != "arg0namespace" { b"3".to_vec() } else { vec![] }, v: x.v.clone() }
                }
                1 if !x.n.is_empty() => R { n: r.below(64).to_string().into_bytes(), ..x.clone() },
                _ => R { v: near(r, &x.v), ..x.clone() },
            },
            |x| parse(&jrs(std::slice::from_ref(x)).text()).arr()[0].clone(),
        );
        rec_cmp(o, "rule", &src);
    }
    for _ in 0..250 * k {
        let mut m = gen_m(r, GP, 3);
        if m.f[7].is_some() {
            m.f[7] = if m.body.is_empty() { None } else { Some(body_sig(&m.body)) };
        }
        let src = grow(r, vec![m], n, nearm, M::js);
        rec_cmp(o, "message", &src);
        rec_cmp(o, "header", &src);
        rec_cmp(o, "fields", &src);
    }

}
