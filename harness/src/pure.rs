//! Calls that must not know about each other: every operation of a pool in a
//! process of its own, then in histories and on threads.
use crate::gen::*;
use crate::js::*;
use crate::msg::*;
use crate::rng::Rng;
use crate::rules::*;
use crate::text::name_in;
use crate::text::Got;
use crate::val::*;
use crate::wire::*;
use crate::Out;
use bytes::Bytes;
use dbus_message_parser::match_rule::*;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};

/// What one operation is about (no library object yet).
#[derive(Clone)]
enum S {
    Dec(Vec<u8>, Vec<i32>),
    Enc(M),
    Look(M),
    Split(M),
    Reply(M, usize),
    Edit(M, u32, V),
    Make(usize, [Vec<u8>; 4], V),
    Hnew(M),
    Fields(Vec<V>),
    Name(&'static str, usize, Vec<u8>),
    Sig(usize, Vec<u8>),
    Print(Vec<u8>),
    Rule(Vec<u8>),
    Rules(Vec<u8>),
    Show(Vec<R>),
    Match(M, Vec<R>),
    Arr(Vec<u8>, Vec<V>),
    Str(Vec<V>),
    Vty(V),
    Below(Vec<u8>, Vec<u8>),
    Strip(Vec<u8>, Vec<u8>),
    App(Vec<u8>, Vec<u8>),
}

/// The outcome as text, and whether what was passed by reference is as it was.
type Op = Box<dyn Fn() -> (String, bool) + Send + Sync>;

fn d<T: Debug>(x: T) -> String {
    format!("{:?}", x)
}
fn res<T: Debug, E: Debug + std::fmt::Display>(x: Result<T, E>) -> String {
    match x {
        Ok(x) => d(x),
        Err(e) => format!("{:?} {}", e, e),
    }
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn constant(s: String) -> Op {
    Box::new(move || (s.clone(), true))
}
fn msg(m: &M) -> Result<Arc<Message>, Op> {
    match to_lib_msg(m) {
        Ok(x) => Ok(Arc::new(x)),
        Err(e) => Err(constant(format!("build {}", e))),
    }
}
/// An operation on a shared message.
fn on(m: &M, f: impl Fn(&Message) -> String + Send + Sync + 'static) -> Op {
    match msg(m) {
        Err(o) => o,
        Ok(x) => {
            let before = d(&x);
            Box::new(move || {
                let r = f(&x);
                (r, d(&x) == before)
            })
        }
    }
}

fn build(s: &S) -> Op {
    match s.clone() {
        S::Dec(b, f) => {
            let shared = Bytes::from(b.clone());
            let odd = b.iter().fold(0u8, |a, x| a ^ x) & 1 == 1;
            Box::new(move || {
                // one call only: a second one could hide what the first left behind
                let r = if f.is_empty() && odd { res(Message::decode(shared.clone())) } else { res(Message::decode_with_fds(shared.clone(), &f)) };
                (r, shared[..] == b[..])
            })
        }
        S::Enc(m) => {
            let odd = m.ser & 1 == 1 && !m.body.iter().any(|x| matches!(x, V::H(_)));
            on(&m, move |m| match if odd { m.encode().map(|x| (x, vec![])) } else { m.encode_with_fds() } {
                Ok((b, f)) => format!("{:?} {:?}", b, f),
                Err(e) => format!("{:?} {}", e, e),
            })
        }
        S::Look(m) => on(&m, |m| {
            let (f, bad) = obs_fields(m);
            format!("{:?} {} {:?} {:?} {} {:?} {}", f, bad, m.get_signature(), m.get_type(), m.get_serial(), m.get_body(), m.has_signature())
        }),
        S::Split(m) => on(&m, |m| res(m.clone().split())),
        S::Reply(m, n) => on(&m, move |m| match n {
            0 => d(m.method_return()),
            1 => d(m.error(Error::try_from("a.b").unwrap(), "text".into())),
            2 => d(m.invalid_args("why".into())),
            3 => d(m.unknown_property("P")),
            4 => d(m.unknown_path()),
            5 => d(m.unknown_interface()),
            _ => d(m.unknown_member()),
        }),
        S::Edit(m, n, v) => {
            let v = match to_lib(&v) {
                Ok(v) => v,
                Err(e) => return constant(e),
            };
            on(&m, move |m| {
                let mut x = m.clone();
                x.set_serial(n);
                x.add_value(v.clone());
                x.add_value(v.clone());
                format!("{:?} {}", x, match x.encode_with_fds() {
                    Ok(x) => d(x),
                    Err(e) => d(e),
                })
            })
        }
        S::Make(n, t, v) => Box::new(move || {
            let b = match Bus::try_from(&t[0][..]) {
                Ok(x) => x,
                Err(e) => return (d(e), true),
            };
            let p = match ObjectPath::try_from(&t[1][..]) {
                Ok(x) => x,
                Err(e) => return (d(e), true),
            };
            let i = match Interface::try_from(&t[2][..]) {
                Ok(x) => x,
                Err(e) => return (d(e), true),
            };
            let m = match Member::try_from(&t[3][..]) {
                Ok(x) => x,
                Err(e) => return (d(e), true),
            };
            let v = match to_lib(&v) {
                Ok(x) => x,
                Err(e) => return (e, true),
            };
            let m = match n {
                0 => Message::method_call(b, p, i, m),
                1 => Message::signal(p, i, m),
                2 => Message::property_get(b, p, i, "Prop"),
                3 => Message::properties_get_all(b, p, i),
                _ => Message::property_set(b, p, i, "Prop", v),
            };
            (format!("{:?} {:?}", m, m.encode().map(|x| x.to_vec()).map_err(d)), true)
        }),
        S::Hnew(m) => Box::new(move || {
            let f = match fields_to_lib(&m.f) {
                Ok(f) => f,
                Err(e) => return (e, true),
            };
            let back: Vec<Value> = f.clone().into();
            let r = res(MessageHeader::new(m.le, mtype(m.ty), flags(m.fl as u8), m.ver as u8, m.ser, f));
            (format!("{} {:?}", r, back), true)
        }),
        S::Fields(v) => match v.iter().map(to_lib).collect::<Result<Vec<_>, _>>() {
            Err(e) => constant(e),
            Ok(v) => Box::new(move || (d(MessageHeaderFields::try_from(v.clone())), true)),
        },
        S::Name(k, form, b) => Box::new(move || {
            let r = match name_in(k, form, &b, std::slice::from_ref(&b)) {
                None => "na".to_string(),
                Some(Got::Panic) => "panic".to_string(),
                Some(Got::No(e)) => e,
                Some(Got::Yes(s)) => d(s),
            };
            (r, true)
        }),
        S::Sig(n, b) => Box::new(move || {
            let t = text(&b);
            let r = match n {
                0 => res(Type::from_bytes_to_signature(&b)),
                1 => res(Type::from_string_to_signature(&t)),
                2 => res(Type::try_from(&b[..])),
                _ => res(Type::try_from(&t[..])),
            };
            (r, true)
        }),
        S::Print(b) => match types_of(&b) {
            None => constant("na".into()),
            Some(t) => Box::new(move || {
                let r = res(Type::from_signature_to_string(&t));
                let a: Vec<usize> = t.iter().map(|x| x.get_alignment()).collect();
                let s: Vec<String> = t.iter().map(|x| x.to_string()).collect();
                (format!("{} {:?} {:?}", r, a, s), print_types(&t) == b)
            }),
        },
        S::Rule(b) => Box::new(move || (res(MatchRule::try_from(&text(&b)[..])), true)),
        S::Rules(b) => Box::new(move || (res(MatchRule::decode(&text(&b))), true)),
        S::Show(rs) => match rs.iter().map(to_lib_rule).collect::<Result<Vec<_>, _>>() {
            Err(e) => constant(e),
            Ok(v) => {
                let before = d(&v);
                Box::new(move || {
                    let one: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                    (format!("{:?} {:?}", one, MatchRule::encode(&v)), d(&v) == before)
                })
            }
        },
        S::Match(m, rs) => match rs.iter().map(to_lib_rule).collect::<Result<Vec<_>, _>>() {
            Err(e) => constant(e),
            Ok(v) => {
                let before = d(&v);
                on(&m, move |m| {
                    let one: Vec<bool> = v.iter().map(|x| x.matching_rule(m)).collect();
                    format!("{:?} {} {}", one, MatchRule::matching_rules(&v, m), d(&v) == before)
                })
            }
        },
        S::Arr(e, v) => match (type_of(&e), v.iter().map(to_lib).collect::<Result<Vec<_>, _>>()) {
            (Some(t), Ok(v)) => Box::new(move || (res(Array::new(v.clone(), t.clone())), true)),
            _ => constant("na".into()),
        },
        S::Str(v) => match v.iter().map(to_lib).collect::<Result<Vec<_>, _>>() {
            Ok(v) => Box::new(move || (res(Struct::try_from(v.clone())), true)),
            Err(e) => constant(e),
        },
        S::Vty(v) => match to_lib(&v) {
            Ok(l) => {
                let before = d(&l);
                Box::new(move || (res(l.get_type()), d(&l) == before))
            }
            Err(e) => constant(e),
        },
        S::Below(a, b) | S::Strip(a, b) => match (ObjectPath::try_from(&a[..]), ObjectPath::try_from(&b[..])) {
            (Ok(p), Ok(q)) => {
                let strip = matches!(s, S::Strip(..));
                let before = d((&p, &q));
                Box::new(move || {
                    let r = if strip {
                        d(p.strip_prefix_elements(&q).map(|x| x.map(|e| e.to_string()).collect::<Vec<_>>()))
                    } else {
                        d(p.starts_with(&q))
                    };
                    (r, d((&p, &q)) == before)
                })
            }
            _ => constant("na".into()),
        },
        S::App(a, e) => match ObjectPath::try_from(&a[..]) {
            Ok(p) => Box::new(move || {
                let mut q = p.clone();
                let r = q.append(&text(&e));
                let r2 = q.append(&text(&e));
                let mut z = ObjectPath::default();
                z.append(&text(&e));
                (format!("{} {} {:?} {:?}", r, r2, q, z), p.as_ref().as_bytes() == &a[..])
            }),
            Err(e) => constant(d(e)),
        },
    }
}

/// The pool: few of every kind (for all pairs) first, then more.
fn pool(seed: u64, more: usize) -> (Vec<S>, usize, Vec<std::ops::Range<usize>>) {
    let mut rng = Rng::new(seed, "pure");
    let r = &mut rng;
    let mut v = Vec::new();
    let b = |s: &str| s.as_bytes().to_vec();
    let simple = |le: bool, ser: u32, body: Vec<V>| {
        let mut m = plain(le, body);
        m.ser = ser;
        m
    };
    let str1 = |s: &str| V::S(s.as_bytes().to_vec());
    // messages that differ in one thing only
    let mut ms = vec![
        simple(true, 1, vec![]),
        simple(true, 1, vec![str1("a"), V::U(1)]),
        simple(false, 1, vec![str1("a"), V::U(1)]),
        simple(true, 1, vec![V::U(1), str1("a")]),
        simple(true, 2, vec![str1("b"), V::U(1)]),
        simple(true, 1, vec![V::A(b("s"), vec![str1("x"), str1("y")])]),
        simple(true, 1, vec![V::A(b("(ys)"), vec![])]),
        simple(false, 1, vec![V::A(b("t"), vec![V::T(1), V::T(2)]), V::W(Box::new(V::R(vec![V::Y(1), str1("z")])))]),
        simple(true, 7, vec![V::H(5), V::H(6), V::H(5)]),
        simple(true, 7, vec![V::H(6), V::H(5)]),
        simple(true, 1, vec![V::G(b("()"))]),
        simple(true, 1, vec![V::W(Box::new(V::W(Box::new(V::W(Box::new(V::W(Box::new(V::Y(1)))))))))]),
    ];
    let mut call = simple(true, 9, vec![str1("org.x.y")]);
    call.ty = 1;
    call.f = NOF;
    call.f[0] = Some(b("/org/x"));
    call.f[1] = Some(b("org.x"));
    call.f[2] = Some(b("M"));
    call.f[5] = Some(b("org.x"));
    call.f[6] = Some(b(":1.5"));
    let mut call2 = call.clone();
    call2.le = false;
    call2.ser = 10;
    call2.f[6] = None;
    call2.f[0] = Some(b("/org"));
    call2.body = vec![V::O(b("/org/x/y"))];
    ms.push(call.clone());
    ms.push(call2.clone());
    for m in &ms {
        v.push(S::Enc(m.clone()));
        let mk = m.raw().marshal();
        v.push(S::Dec(mk.out.clone(), mk.fds.clone()));
    }
    // refused messages, one of every kind
    let good = call.raw().marshal();
    let mut bad: Vec<Vec<u8>> = vec![vec![], good.out[..20].to_vec(), good.out[..good.out.len() - 1].to_vec()];
    for (p, x) in [(0usize, b'x'), (1, 9), (2, 8), (4, 200), (12, 255), (16, 77), (good.out.len() - 1, 1), (good.out.len() - 3, 0xff)] {
        let mut y = good.out.clone();
        y[p] = x;
        bad.push(y);
    }
    bad.push(ms[11].raw().marshal().out);
    bad.push(simple(true, 1, vec![V::W(Box::new(ms[11].body[0].clone()))]).raw().marshal().out);
    for x in bad {
        v.push(S::Dec(x, vec![]));
    }
    v.push(S::Dec(ms[8].raw().marshal().out, vec![]));
    v.push(S::Dec(ms[8].raw().marshal().out, vec![8, 9, 10]));
    for m in [&call, &call2, &ms[1]] {
        v.push(S::Look(m.clone()));
        v.push(S::Split(m.clone()));
        for n in [0, 1, 4] {
            v.push(S::Reply(m.clone(), n));
        }
        v.push(S::Edit(m.clone(), 77, V::R(vec![V::Y(1), V::T(2)])));
    }
    let t4 = [b("org.x"), b("/a"), b("a.b"), b("M")];
    for n in 0..5 {
        v.push(S::Make(n, t4.clone(), V::U(3)));
    }
    for t in ["org.x", "org.X", "org", "org..x", "", ":1.2", "M", "1M", "/a/b", "/a//b", "/"] {
        for k in ["interface", "member", "bus", "path"] {
            v.push(S::Name(k, r.below(3), b(t)));
        }
    }
    for t in ["", "s", "u", "a{sv}", "a{su}", "(ii)", "(i", "i)", "()", "a", "ssss", "sssu", "z"] {
        v.push(S::Sig(r.below(4), b(t)));
        v.push(S::Print(b(t)));
    }
    for t in ["type='signal'", "type='error'", "member='M',path='/a'", "member='M',path='/b'", "arg0='x'", "arg63='x'", "arg64='x'", "x='y'", "path='", "", "arg0path='/a/'"] {
        v.push(S::Rules(b(t)));
        if r.chance(1, 2) {
            v.push(S::Rule(b(t)));
        }
    }
    let rs = vec![rule("path_namespace", "", b"/org"), rule("arg0namespace", "", b"org.x"), rule("type", "", b"method_call")];
    v.push(S::Show(rs.clone()));
    v.push(S::Show(vec![rule("arg", "1", b"it's, \\ ok")]));
    v.push(S::Match(call.clone(), rs.clone()));
    v.push(S::Match(call2.clone(), rs.clone()));
    v.push(S::Match(call2.clone(), vec![rule("argpath", "0", b"/org/x")]));
    v.push(S::Arr(b("u"), vec![V::U(1), V::U(2)]));
    v.push(S::Arr(b("u"), vec![V::U(1), V::I(2)]));
    v.push(S::Str(vec![]));
    v.push(S::Str(vec![V::Y(1)]));
    v.push(S::Vty(V::W(Box::new(V::U(1)))));
    v.push(S::Vty(V::R(vec![V::E(Box::new((V::Y(1), V::A(b("s"), vec![]))))])));
    v.push(S::Hnew(call.clone()));
    let mut h = call.clone();
    h.f[2] = None;
    v.push(S::Hnew(h));
    v.push(S::Fields(vec![V::R(vec![V::Y(1), V::W(Box::new(V::O(b("/a"))))])]));
    v.push(S::Fields(vec![V::R(vec![V::Y(1), V::W(Box::new(V::U(1)))])]));
    for (p, q) in [("/a/b", "/a"), ("/a/b", "/ab"), ("/ab", "/a"), ("/a", "/")] {
        v.push(S::Below(b(p), b(q)));
        v.push(S::Strip(b(p), b(q)));
        v.push(S::App(b(p), q.as_bytes()[1..].to_vec()));
    }
    // refused after a part of the work is done
    let deep = {
        let mut x = V::Y(1);
        for _ in 0..33 {
            x = V::R(vec![x]);
        }
        x
    };
    for le in [true, false] {
        v.push(S::Enc(simple(le, 1, vec![V::Y(1), str1("left over"), deep.clone()])));
        v.push(S::Enc(simple(le, 1, vec![V::H(9), V::H(8), V::W(Box::new(deep.clone()))])));
        v.push(S::Enc(simple(le, 1, vec![V::A(b("v"), vec![V::W(Box::new(V::U(7))), V::W(Box::new(V::G(b("s()"))))])])));
    }
    v.push(S::Enc(simple(true, 1, vec![V::G(b("()"))])));
    v.push(S::Enc(simple(true, 1, vec![V::E(Box::new((V::Y(1), V::G(vec![b'y'; 256]))))])));
    v.push(S::Vty(V::R(vec![V::U(1), deep.clone()])));
    v.push(S::Split(simple(true, 1, vec![V::U(1), deep.clone()])));
    v.push(S::Edit(call.clone(), 5, deep.clone()));
    for t in ["arg0=abc'", "arg0='abc", "member=ab'c", "path=/x'", "arg0=a\\'b'", "path_namespace=/a//", "arg0=x", "arg0=\\", "arg1='a',b", "sender=a", "arg70=b", "eavesdrop=tru", "type=sign"] {
        v.push(S::Rule(b(t)));
    }
    for t in ["arg0=x,arg1='y", "member=M,path=/a//", "arg0=a,arg1=b,arg2=c", "arg0=a,,", "member=N,x"] {
        v.push(S::Rules(b(t)));
    }
    for t in ["ssssa", "(su(", "a{s", "a{sv", "us(yy)}", "yyyyyz"] {
        for n in 0..4 {
            v.push(S::Sig(n, b(t)));
        }
    }
    for t in ["su()", "s(u())", "a{s()}"] {
        v.push(S::Print(b(t)));
    }
    for t in ["org.example.a!", "org.example.", "org.example.1", "/org/example/", "/org/a//b", "Member!", ":1.2.", ":1.2:3"] {
        for (i, k) in ["interface", "error", "member", "wellknown", "unique", "bus", "path"].iter().enumerate() {
            v.push(S::Name(k, i % 3, b(t)));
        }
    }
    let fld = |n: u8, x: V| V::R(vec![V::Y(n), V::W(Box::new(x))]);
    v.push(S::Fields(vec![fld(1, V::O(b("/a"))), fld(2, str1("a.b")), fld(3, str1("1"))]));
    v.push(S::Fields(vec![fld(1, V::O(b("/a"))), fld(2, str1("a.b")), fld(2, str1("a.b"))]));
    v.push(S::Fields(vec![fld(7, str1(":1.1")), fld(9, V::U(1)), fld(10, V::U(1))]));
    v.push(S::Fields(vec![fld(3, str1("M")), fld(8, V::G(b("us")))]));
    v.push(S::Arr(b("s"), vec![str1("a"), str1("b"), V::U(2)]));
    for (a, e) in [("/a", "b!"), ("/", "b/c"), ("/a", ""), ("/a", "b")] {
        v.push(S::App(b(a), b(e)));
    }
    // calls that differ in one number or one text only
    for (i, n) in [0u32, 1, 255, 0x7fff, 0xffff, 0x7fff_ffff, 0x8000_0000, u32::MAX].into_iter().enumerate() {
        let mut x = call.clone();
        x.ser = n;
        v.push(S::Reply(x.clone(), 0));
        v.push(S::Reply(x.clone(), 1 + i % 6));
        x.le = n % 2 == 0;
        v.push(S::Enc(x.clone()));
        let k = x.raw().marshal();
        v.push(S::Dec(k.out.clone(), vec![]));
    }
    for (f, ver, s, dst) in [(1u8, 1u8, None, Some("a.b")), (2, 0, Some(":1.7"), None), (4, 255, Some("c.d"), Some(":1.8")), (7, 2, None, None)] {
        let mut x = call.clone();
        x.ser = 3;
        x.fl = f as _;
        x.ver = ver as _;
        x.f[5] = dst.map(b);
        x.f[6] = s.map(b);
        for n in 0..7 {
            v.push(S::Reply(x.clone(), n));
        }
        v.push(S::Hnew(x.clone()));
        v.push(S::Look(x));
    }
    let base = v.len();
    // more of everything
    for _ in 0..more {
        let m = gen_m(r, GP, 3);
        match r.below(16) {
            0 | 1 => {
                let (x, f, _) = valid(r, GP, 3);
                v.push(S::Dec(x, f));
            }
            2 | 3 => {
                let (x, f, mk) = valid(r, GP, 3);
                let fs = faults(r, &mk, f.len());
                if !fs.is_empty() {
                    v.push(S::Dec(r.pick(&fs).1.clone(), f));
                } else {
                    v.push(S::Dec(coarse(r, &x), f));
                }
            }
            4 => v.push(S::Enc(m)),
            5 => v.push(S::Look(m)),
            6 => v.push(S::Split(m)),
            7 => v.push(S::Reply(m, r.below(7))),
            8 => {
                let s = one_sig(r, GP);
                let x = val_of(r, GP, &s, 6);
                v.push(S::Edit(m, edge32(r), x))
            }
            9 => {
                let t = match r.below(5) {
                    0 => gen_path(r),
                    1 => gen_iface(r),
                    2 => gen_member(r),
                    3 => gen_bus(r),
                    _ => gen_text(r, 6),
                };
                for k in ["interface", "error", "member", "wellknown", "unique", "bus", "path"] {
                    v.push(S::Name(k, r.below(3), t.clone()));
                }
            }
            10 => {
                let s = one_sig(r, GP);
                v.push(S::Print(s.clone()));
                let mut x = s.clone();
                if r.chance(1, 2) {
                    let p = r.below(x.len());
                    x[p] = *r.pick(b"()a{}yvz");
                }
                for n in 0..4 {
                    v.push(S::Sig(n, x.clone()));
                }
            }
            11 => v.push(S::Show((0..r.range(1, 4)).map(|_| gen_rule(r)).collect())),
            12 => v.push(S::Match(m, (0..r.range(1, 4)).map(|_| gen_rule(r)).collect())),
            13 => {
                let s = one_sig(r, GP);
                let x: Vec<V> = (0..r.below(4)).map(|_| val_of(r, GP, &s, 6)).collect();
                v.push(S::Arr(s, x.clone()));
                x.into_iter().for_each(|x| v.push(S::Vty(x)));
            }
            14 => {
                let (p, q) = (gen_path(r), gen_path(r));
                v.push(S::Below(p.clone(), q.clone()));
                v.push(S::App(p, if q.len() > 1 { q[1..].to_vec() } else { q }));
            }
            _ => v.push(S::Hnew(m)),
        }
    }
    let mut fam = Vec::new();
    for f in families(r, if more > 1000 { 3 } else { 1 }) {
        fam.push(v.len()..v.len() + f.len());
        v.extend(f);
    }
    (v, base, fam)
}

/// Texts easily taken for each other: of the same length with one thing changed,
/// two exchanged, the same beginning, the same end, the same letters.
fn alike(r: &mut Rng, t: &[u8], letters: &[u8], k: usize) -> Vec<Vec<u8>> {
    let mut v = vec![t.to_vec()];
    let n = t.len();
    if n == 0 {
        return v;
    }
    let mut put = |r: &mut Rng, p: usize| {
        let mut x = t.to_vec();
        // mostly so that it stays a text of the same kind
        let like: Vec<u8> = letters.iter().copied().filter(|c| *c != t[p]).collect();
        if letters.contains(&t[p]) && !like.is_empty() {
            x[p] = *r.pick(&like);
            v.push(x);
        } else if r.chance(1, 6) {
            x[p] = *r.pick(letters);
            v.push(x);
        }
    };
    let mut ps = vec![0, n - 1, n / 2];
    for _ in 0..k {
        ps.push(r.below(n));
    }
    for q in ps {
        put(r, q);
    }
    for _ in 0..2 {
        let (a, b) = (r.below(n), r.below(n));
        let mut x = t.to_vec();
        x.swap(a, b);
        v.push(x);
    }
    let mut x = t.to_vec();
    x.push(t[n - 1]);
    v.push(x);
    v.push(t[..n - 1].to_vec());
    v.sort();
    v.dedup();
    v
}

/// Families of operations on such inputs; members of one follow each other in
/// every order.
fn families(r: &mut Rng, k: usize) -> Vec<Vec<S>> {
    let mut out = Vec::new();
    let b = |s: &str| s.as_bytes().to_vec();
    let word = b"abXY_z09";
    for i in 0..8 * k {
        // signatures, parsed and printed; each form has a family of its own
        let mut s = Vec::new();
        while s.len() < [2, 4, 6, 9, 14][i % 5] {
            s.extend(one_sig(r, GP));
        }
        let n = i % 4;
        out.push(alike(r, &s, b"ybnqiuxtdsogv", 3).into_iter().map(|x| S::Sig(n, x)).collect());
        let t = alike(r, &s, b"ybnqiuxtdsogv", 3);
        out.push(t.into_iter().filter(|x| types_of(x).is_some()).map(S::Print).collect());
    }
    for (i, t) in ["org.example.Name", ":1.234", "org.ab", "Member", "/org/example/a", "/a/b", "Mem_ber_1"].iter().enumerate() {
        for (j, kind) in ["interface", "error", "member", "wellknown", "unique", "bus", "path"].iter().enumerate() {
            let v = alike(r, t.as_bytes(), word, 2);
            if v.iter().any(|x| name_in(kind, 0, x, std::slice::from_ref(x)).map_or(false, |g| matches!(g, Got::Yes(_)))) {
                out.push(v.into_iter().map(|x| S::Name(kind, (i + j) % 3, x)).collect());
            }
        }
    }
    for t in ["type='signal',member='Abc'", "path='/a/bc'", "arg1='xyz',arg2='a'", "arg0path='/a/b/'", "arg0namespace='a.bc'", "sender=':1.2'", "path_namespace='/ab'", "interface='a.bc'", "destination=':1.42'", "arg12=ab\\'c'd'"] {
        let v = alike(r, t.as_bytes(), b"abcxyz0123", 4);
        out.push(v.iter().cloned().map(S::Rules).collect());
        if !t.contains(',') {
            out.push(v.into_iter().map(S::Rule).collect());
        }
    }
    for t in ["/a/bc", "/ab/c/d", "/org/x"] {
        let v = alike(r, t.as_bytes(), b"abcdx", 2);
        out.push(v.iter().cloned().map(|x| S::Below(b("/ab/c/d/e"), x)).collect());
        out.push(v.iter().cloned().map(|x| S::Strip(x, b("/a"))).collect());
        out.push(v.iter().cloned().map(|x| S::App(x, b("el"))).collect());
        out.push(v.iter().cloned().map(|x| S::App(b("/q"), x[1..].to_vec())).collect());
    }
    // everything that has a limit, at the limit and one beyond
    {
        let nest = |n: usize, f: &dyn Fn(V) -> V| (0..n).fold(V::Y(1), |x, _| f(x));
        let wrap = |n: usize| nest(n, &|x| V::W(Box::new(x)));
        let mut vals: Vec<V> = Vec::new();
        for n in [3, 4, 5] {
            vals.push(wrap(n));
            vals.push(V::R(vec![wrap(n), V::U(2)]));
            vals.push(V::A(b("v"), vec![wrap(n)]));
        }
        for n in [31, 32, 33] {
            vals.push(nest(n, &|x| V::R(vec![x])));
            vals.push(nest(n, &|x| V::A(x.sig(), vec![x])));
            vals.push(V::G([vec![b'a'; n], b("y")].concat()));
            vals.push(V::G([vec![b'('; n], b("y"), vec![b')'; n]].concat()));
        }
        vals.push(V::G(vec![b'y'; 255]));
        vals.push(V::O(b("/a")));
        let mut f = Vec::new();
        for (i, x) in vals.iter().enumerate() {
            let mut m = plain(i % 3 != 0, vec![x.clone()]);
            m.ser = 5 + i as u32 % 2;
            let k = m.raw().marshal();
            f.push(S::Dec(k.out.clone(), k.fds.clone()));
            if i % 2 == 0 {
                f.push(S::Enc(m));
            }
        }
        for n in [254usize, 255, 256] {
            let t = [b("a."), vec![b'b'; n - 2]].concat();
            f.push(S::Name("interface", n % 3, t.clone()));
            f.push(S::Name("wellknown", n % 3, t));
            f.push(S::Name("member", n % 3, vec![b'b'; n]));
            f.push(S::Name("unique", n % 3, [b(":1."), vec![b'2'; n - 3]].concat()));
            f.push(S::Sig(n % 4, vec![b'y'; n]));
            f.push(S::Rules(b(&format!("arg{}='x'", n - 192))));
        }
        for n in [32, 33] {
            f.push(S::Sig(n % 4, [vec![b'a'; n], b("s")].concat()));
            f.push(S::Sig((n + 1) % 4, [vec![b'('; n], b("s"), vec![b')'; n]].concat()));
        }
        out.push(f);
    }
    // messages: one thing different; and their bytes
    for i in 0..6 * k {
        let m = gen_m(r, GP, 2);
        let mut ms = vec![m.clone()];
        for j in 0..8 {
            let mut x = m.clone();
            match j {
                0 => x.ser ^= 0x100,
                1 => x.le = !x.le,
                2 => x.body.push(V::Y(1)),
                3 => {
                    x.body.pop();
                }
                4 => x.body.reverse(),
                5 => x.body = other(&m.body, r),
                6 => {
                    for f in x.f.iter_mut().flatten() {
                        if let Some(c) = f.last_mut() {
                            if c.is_ascii_alphabetic() {
                                *c = if *c == b'Q' { b'R' } else { b'Q' };
                            }
                        }
                    }
                }
                _ => x.fl ^= 1,
            }
            ms.push(x);
        }
        let f: Vec<Box<dyn Fn(&M) -> S>> = vec![
            Box::new(|m| {
                let k = m.raw().marshal();
                S::Dec(k.out, k.fds)
            }),
            Box::new(|m| S::Enc(m.clone())),
            Box::new(|m| S::Look(m.clone())),
            Box::new(|m| S::Hnew(m.clone())),
            Box::new(|m| S::Reply(m.clone(), 0)),
            Box::new(|m| S::Match(m.clone(), vec![rule("path_namespace", "", b"/a"), rule("arg", "0", b"a")])),
        ];
        for (n, g) in f.iter().enumerate() {
            if n < 2 || (n + i) % 2 == 0 {
                out.push(ms.iter().map(|m| g(m)).collect());
            }
        }
        // bytes of the same length
        let k = m.raw().marshal();
        let mut v = vec![S::Dec(k.out.clone(), k.fds.clone())];
        for _ in 0..8 {
            let mut x = k.out.clone();
            let p = r.below(x.len());
            x[p] = x[p].wrapping_add(1 + r.below(3) as u8);
            v.push(S::Dec(x, k.fds.clone()));
        }
        // other descriptors
        v.push(S::Dec(k.out.clone(), vec![77; k.fds.len()]));
        v.push(S::Dec(k.out.clone(), k.fds.iter().rev().copied().collect()));
        out.push(v);
    }
    out
}
/// Other values of the same types.
fn other(b: &[V], r: &mut Rng) -> Vec<V> {
    b.iter().map(|x| val_of(r, GP, &x.sig(), 6)).collect()
}

/// The outcome in few letters.
fn digest(s: &str) -> String {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    format!("{:x}:{}", h, s.len())
}
fn run(op: &Op) -> (String, bool) {
    match guard(|| op()) {
        Ok((s, same)) => (digest(&s), same),
        Err(()) => ("panic".into(), true),
    }
}

fn more(thorough: bool) -> usize {
    if thorough {
        1200
    } else {
        350
    }
}

/// One operation alone in this process: its outcome on standard output.
pub fn pure_one(seed: u64, thorough: bool) {
    let i: usize = std::env::var("VH_OP").unwrap().parse().unwrap();
    let (p, ..) = pool(seed, more(thorough));
    let op = build(&p[i]);
    println!("outcome={}", run(&op).0);
}

fn alone(n: usize) -> Vec<String> {
    let exe = std::env::current_exe().unwrap();
    let next = AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<String>> = (0..n).map(|_| Default::default()).collect();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let r = std::process::Command::new(&exe)
                    .args(["pure1", "/dev/null"])
                    .env("VH_OP", i.to_string())
                    .env_remove("VH_LAST")
                    .output()
                    .unwrap();
                let t = String::from_utf8_lossy(&r.stdout).into_owned();
                let o = t.lines().find_map(|l| l.strip_prefix("outcome=")).unwrap_or("crash");
                *out[i].lock().unwrap() = o.to_string();
            });
        }
    });
    out.into_iter().map(|x| x.into_inner().unwrap()).collect()
}

fn event(op: usize, r: &(String, bool)) -> J {
    J::A(vec![ji(op + 1), js(&r.0), jbool(r.1)])
}

pub fn pure_cases(o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed, "history");
    let r = &mut rng;
    let (p, base, fam) = pool(seed, more(thorough));
    let tag = |k: &str| vec![("k", js(k)), ("seed", ji(seed as usize))];
    // every operation alone in a process
    let fresh = alone(p.len());
    o.runs += p.len();
    let mut j = tag("fresh");
    j.push(("res", J::A(fresh.iter().map(|x| js(x)).collect())));
    o.put(obj(j));
    let ops: Arc<Vec<Op>> = Arc::new(p.iter().map(build).collect());
    // a history, in pieces
    let mut piece: Vec<J> = Vec::new();
    macro_rules! flush {
        ($k:expr) => {
            if !piece.is_empty() {
                let mut j = tag($k);
                j.push(("ev", J::A(std::mem::take(&mut piece))));
                o.put(obj(j));
            }
        };
    }
    macro_rules! go {
        ($i:expr) => {{
            let i = $i;
            o.runs += 1;
            piece.push(event(i, &run(&ops[i])));
            if piece.len() >= 200 {
                flush!("hist");
            }
        }};
    }
    // each one twice, every pair of the first ones, at random
    for i in 0..p.len() {
        go!(i);
        go!(i);
    }
    for a in 0..base {
        for b in 0..base {
            go!(a);
            go!(b);
        }
    }
    for f in fam {
        for a in f.clone() {
            for b in f.clone() {
                go!(a);
                go!(b);
            }
        }
    }
    let mut last = 0;
    for _ in 0..if thorough { 200_000 } else { 20_000 } {
        let i = if r.chance(1, 5) { last } else { r.below(p.len()) };
        last = i;
        go!(i);
    }
    flush!("hist");
    // threads: beginnings and ends of calls in one order
    let rounds = if thorough { 12 } else { 3 };
    for round in 0..rounds {
        let clock = Arc::new(AtomicUsize::new(0));
        let gate = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8)
            .map(|t| {
                let (ops, clock, gate) = (ops.clone(), clock.clone(), gate.clone());
                let mut r = Rng::new(seed + round, &format!("thread{}", t));
                // in some rounds all threads use few operations
                let few: Vec<usize> = {
                    let mut q = Rng::new(seed + round, "few");
                    (0..if round % 3 == 1 { 6 } else { ops.len() }).map(|_| q.below(ops.len())).collect()
                };
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        let mut log = Vec::new();
                        gate.wait();
                        for _ in 0..700 {
                            let i = *r.pick(&few);
                            let s = clock.fetch_add(1, Ordering::SeqCst);
                            let x = run(&ops[i]);
                            let e = clock.fetch_add(1, Ordering::SeqCst);
                            log.push((s, e, i, x));
                        }
                        (t, log)
                    })
                    .unwrap()
            })
            .collect();
        let mut all: Vec<(usize, J)> = Vec::new();
        for h in hs {
            let (t, log) = h.join().expect("thread");
            for (s, e, i, x) in log {
                o.runs += 1;
                all.push((s, J::A(vec![ji(t + 1), ji(i + 1), js(""), ji(1)])));
                all.push((e, J::A(vec![ji(t + 1), ji(i + 1), js(&x.0), jbool(x.1)])));
            }
        }
        all.sort_by_key(|x| x.0);
        let mut j = tag("par");
        j.push(("ev", J::A(all.into_iter().map(|x| x.1).collect())));
        o.put(obj(j));
    }
    // threads at full speed: which outcomes there were
    for round in 0..rounds * 2 {
        let gate = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8)
            .map(|t| {
                let (ops, gate) = (ops.clone(), gate.clone());
                let mut r = Rng::new(seed + round, &format!("hot{}", t));
                let few: Vec<usize> = {
                    let mut q = Rng::new(seed + round, "hotfew");
                    (0..[2usize, 5, 40, 400][round as usize % 4]).map(|_| q.below(ops.len())).collect()
                };
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        let mut seen = BTreeSet::new();
                        gate.wait();
                        for _ in 0..if thorough { 20_000 } else { 3_000 } {
                            let i = *r.pick(&few);
                            let x = run(&ops[i]);
                            seen.insert((i, x.0, x.1));
                        }
                        seen
                    })
                    .unwrap()
            })
            .collect();
        let mut seen = BTreeSet::new();
        for h in hs {
            seen.extend(h.join().expect("thread"));
            o.runs += if thorough { 20_000 } else { 3_000 };
        }
        let mut j = tag("hist");
        j.push(("ev", J::A(seen.into_iter().map(|(i, a, b)| event(i, &(a, b))).collect())));
        o.put(obj(j));
    }
}
