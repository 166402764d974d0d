//! Histories of API calls on messages and headers in three registers.
use crate::gen::*;
use crate::js::*;
use crate::msg::*;
use crate::plan::untoks;
use crate::rng::Rng;
use crate::val::*;
use crate::wire::jfds;
use crate::Out;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

pub const NREGS: usize = 3;
type Hint = (bool, u8, u8);

#[derive(Clone)]
pub enum Reg {
    No,
    M(Message, Hint),
    H(MessageHeader, Hint),
}
impl Reg {
    fn hint(&self) -> Hint {
        match self {
            Reg::No => (true, 0, 1),
            Reg::M(_, h) | Reg::H(_, h) => *h,
        }
    }
}

fn find(h: &MessageHeader, hint: Hint) -> (i32, i32, i32) {
    for x in [hint, (true, 0, 1), (true, 1, 1), (false, 1, 1), (false, 0, 1)] {
        let fields = match fields_to_lib(&header_fields(h)) {
            Ok(f) => f,
            Err(_) => return (-1, -1, -1),
        };
        if let Ok(y) = MessageHeader::new(x.0, h.get_type(), flags(x.1), x.2, h.get_serial(), fields) {
            if y == *h {
                return (x.0 as i32, x.1 as i32, x.2 as i32);
            }
        }
    }
    hidden(h, hint)
}

fn has9(h: &MessageHeader) -> bool {
    let has = [
        h.has_path(),
        h.has_interface(),
        h.has_member(),
        h.has_error_name(),
        h.has_reply_serial(),
        h.has_destination(),
        h.has_sender(),
        h.has_signature(),
        h.has_unix_fds(),
    ];
    header_fields(h).iter().zip(has.iter()).all(|(f, x)| f.is_some() == *x)
}

/// What a message shows, without its encoding.
fn plain_obs(m: &Message, hint: Hint) -> Vec<(&'static str, J)> {
    let (f, bad) = obs_fields(m);
    let sp = m.clone().split();
    let (le, fl, ver) = match &sp {
        Ok((h, _)) => find(h, hint),
        Err(_) => (-2, -2, -2),
    };
    let sp = match sp {
        Ok((h, b)) => {
            let hf = header_fields(&h);
            let mut same = has9(&h) && h.get_type() == m.get_type() && h.get_serial() == m.get_serial();
            for i in 0..9 {
                same &= i == 7 || hf[i] == f[i];
            }
            let b: Vec<V> = b.iter().map(from_lib).collect();
            obj(vec![
                ("st", js(if same { "ok" } else { "differs" })),
                ("sig", J::A(hf[7].iter().map(|x| jb(x)).collect())),
                ("b", toks_of(&b)),
            ])
        }
        Err(_) => obj(vec![("st", js("err")), ("sig", J::A(vec![])), ("b", J::A(vec![]))]),
    };
    let body: Vec<V> = m.get_body().iter().map(from_lib).collect();
    vec![
        ("k", js("m")),
        ("le", J::I(le as i64)),
        ("ty", ji(mtype_no(m.get_type()) as usize)),
        ("fl", J::I(fl as i64)),
        ("ver", J::I(ver as i64)),
        ("ser", jb(&m.get_serial().to_le_bytes())),
        ("f", jf(&f)),
        ("b", toks_of(&body)),
        ("hs", jbool(m.has_signature())),
        ("bad", jbool(bad)),
        (
            "sig",
            match m.get_signature() {
                Ok(s) => J::A(vec![jb(&print_types(&s))]),
                Err(_) => J::A(vec![]),
            },
        ),
        ("sp", sp),
    ]
}

fn reg_obs(r: &Reg) -> J {
    match r {
        Reg::No => obj(vec![("k", js("none"))]),
        Reg::H(h, hint) => {
            let (le, fl, ver) = find(h, *hint);
            obj(vec![
                ("k", js("h")),
                ("le", J::I(le as i64)),
                ("ty", ji(mtype_no(h.get_type()) as usize)),
                ("fl", J::I(fl as i64)),
                ("ver", J::I(ver as i64)),
                ("ser", jb(&h.get_serial().to_le_bytes())),
                ("f", jf(&header_fields(h))),
                ("b", J::A(vec![])),
                ("hs", jbool(h.has_signature())),
                ("bad", jbool(!has9(h))),
            ])
        }
        Reg::M(m, hint) => {
            let mut v = plain_obs(m, *hint);
            v.push((
                "e",
                match m.encode_with_fds() {
                    Err(_) => obj(vec![("st", js("err"))]),
                    Ok((out, fds)) => {
                        let d = match decode(&out, &fds) {
                            Err(()) => obj(vec![("st", js("panic"))]),
                            Ok(Err(_)) => obj(vec![("st", js("err"))]),
                            Ok(Ok((m2, _, _))) => {
                                obj(vec![("st", js("ok")), ("m", obj(plain_obs(&m2, *hint)))])
                            }
                        };
                        obj(vec![("st", js("ok")), ("out", jb(&out)), ("ofds", jfds(&fds)), ("d", d)])
                    }
                },
            ));
            obj(v)
        }
    }
}

fn text(op: &J, k: &str) -> Result<String, String> {
    String::from_utf8(op.get(k).bytes()).map_err(|_| "text".to_string())
}
fn name<T>(op: &J, k: &str) -> Result<T, String>
where
    T: TryFrom<String>,
{
    T::try_from(text(op, k)?).map_err(|_| "bad".to_string())
}
fn vals(op: &J) -> Result<Vec<Value>, String> {
    untoks(op.get("v")).iter().map(to_lib).collect()
}
pub fn f9(j: &J) -> [Option<Vec<u8>>; 9] {
    let mut f = NOF;
    for (i, x) in j.arr().iter().enumerate() {
        if let Some(b) = x.arr().first() {
            f[i] = Some(b.bytes());
        }
    }
    f
}
fn n4(j: &J) -> u32 {
    let b = j.bytes();
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

/// One call; the answer ("ok" "err" "bad" "refused" "none" "skip").
fn step(regs: &mut [Reg], op: &J) -> Result<&'static str, String> {
    let a = op.get("a").int() as usize - 1;
    let d = op.get("d").int() as usize - 1;
    let h1: Hint = (true, 0, 1);
    let hint = regs[a].hint();
    match op.get("o").str() {
        "call" => {
            let m = Message::method_call(name(op, "dest")?, name(op, "path")?, name(op, "iface")?, name(op, "member")?);
            regs[d] = Reg::M(m, h1);
        }
        "signal" => {
            let m = Message::signal(name(op, "path")?, name(op, "iface")?, name(op, "member")?);
            regs[d] = Reg::M(m, (true, 1, 1));
        }
        "pget" => {
            let m = Message::property_get(name(op, "dest")?, name(op, "path")?, name(op, "iface")?, &text(op, "text")?);
            regs[d] = Reg::M(m, h1);
        }
        "pall" => {
            let m = Message::properties_get_all(name(op, "dest")?, name(op, "path")?, name(op, "iface")?);
            regs[d] = Reg::M(m, h1);
        }
        "pset" => {
            let v = vals(op)?.pop().ok_or("value")?;
            let m = Message::property_set(name(op, "dest")?, name(op, "path")?, name(op, "iface")?, &text(op, "text")?, v);
            regs[d] = Reg::M(m, h1);
        }
        "hdr" => {
            let f = fields_to_lib(&f9(op.get("f"))).map_err(|_| "bad".to_string())?;
            let hint = (op.get("le").int() != 0, op.get("fl").int() as u8, op.get("ver").int() as u8);
            match MessageHeader::new(hint.0, mtype(op.get("ty").int() as u8), flags(hint.1), hint.2, n4(op.get("ser")), f) {
                Ok(h) => regs[d] = Reg::H(h, hint),
                Err(_) => return Ok("err"),
            }
        }
        "mk" => match &regs[a] {
            Reg::H(h, _) => regs[d] = Reg::M(Message::new(h.clone(), vals(op)?), hint),
            _ => return Ok("skip"),
        },
        "clone" => match &regs[a] {
            Reg::No => return Ok("skip"),
            r => regs[d] = r.clone(),
        },
        "ser" => match &mut regs[a] {
            Reg::M(m, _) => m.set_serial(n4(op.get("ser"))),
            _ => return Ok("skip"),
        },
        "add" => match &mut regs[a] {
            Reg::M(m, _) => {
                for v in vals(op)? {
                    m.add_value(v);
                }
            }
            _ => return Ok("skip"),
        },
        "split" => match &regs[a] {
            Reg::M(m, _) => match m.clone().split() {
                Ok((h, _)) => regs[d] = Reg::H(h, hint),
                Err(_) => return Ok("err"),
            },
            _ => return Ok("skip"),
        },
        "swap" => match (&regs[a], &regs[d]) {
            (Reg::M(m, _), Reg::M(n, _)) => match (m.clone().split(), n.clone().split()) {
                (Ok((h, _)), Ok((_, b))) => regs[d] = Reg::M(Message::new(h, b), hint),
                _ => return Ok("err"),
            },
            _ => return Ok("skip"),
        },
        "rt" => match &regs[a] {
            Reg::M(m, _) => match m.encode_with_fds() {
                Err(_) => return Ok("err"),
                Ok((b, f)) => match Message::decode_with_fds(b.freeze(), &f) {
                    Ok((m, _, _)) => regs[d] = Reg::M(m, hint),
                    Err(_) => return Ok("err"),
                },
            },
            _ => return Ok("skip"),
        },
        o @ ("ret" | "err" | "inv" | "uprop" | "upath" | "uif" | "umem") => {
            macro_rules! reply {
                ($m:expr) => {
                    match o {
                        "ret" => match $m.method_return() {
                            Ok(x) => ("ok", Some(x)),
                            Err(x) => ("refused", Some(x)),
                        },
                        "err" => ("ok", Some($m.error(name(op, "name")?, text(op, "text")?))),
                        "inv" => ("ok", Some($m.invalid_args(text(op, "text")?))),
                        "uprop" => ("ok", Some($m.unknown_property(&text(op, "text")?))),
                        "upath" => ("none", $m.unknown_path()),
                        "uif" => ("none", $m.unknown_interface()),
                        _ => ("none", $m.unknown_member()),
                    }
                };
            }
            let (st, x) = match &regs[a] {
                Reg::No => return Ok("skip"),
                Reg::M(m, _) => reply!(m),
                Reg::H(h, _) => reply!(h),
            };
            return Ok(match x {
                None => "none",
                Some(x) => {
                    regs[d] = Reg::M(x, (hint.0, 1, 1));
                    if st == "none" {
                        "ok"
                    } else {
                        st
                    }
                }
            });
        }
        o => panic!("operation {}", o),
    }
    Ok("ok")
}

pub fn rec_session(o: &mut Out, ops: &[J]) {
    let ops: Vec<J> = ops.iter().map(|x| parse(&x.text())).collect();
    let ops = &ops[..];
    o.about(|| obj(vec![("k", js("ses")), ("ops", J::A(ops.to_vec()))]));
    o.runs += ops.len();
    let mut regs: Vec<Reg> = vec![Reg::No; NREGS];
    let mut last: Vec<String> = vec![reg_obs(&Reg::No).text(); NREGS];
    let mut out = Vec::new();
    for op in ops {
        let r = guard(|| {
            let st = step(&mut regs, op);
            (st, regs.iter().map(reg_obs).collect::<Vec<J>>())
        });
        let (st, seen) = match r {
            Err(()) => {
                out.push(obj(vec![("st", js("panic")), ("regs", J::A(vec![J::A(vec![]); NREGS]))]));
                break;
            }
            Ok((Ok(st), s)) => (st.to_string(), s),
            Ok((Err(e), s)) => (if e == "bad" { e } else { "build".into() }, s),
        };
        let mut v = Vec::new();
        for (i, x) in seen.into_iter().enumerate() {
            let t = x.text();
            if t == last[i] {
                v.push(J::A(vec![]));
            } else {
                last[i] = t;
                v.push(J::A(vec![x]));
            }
        }
        out.push(obj(vec![("st", js(&st)), ("regs", J::A(v))]));
    }
    o.put(obj(vec![("k", js("ses")), ("ops", J::A(ops.to_vec())), ("out", J::A(out))]));
}

// --------------------------------------------------------------- generators
fn base(o: &str, a: usize, d: usize) -> Vec<(&str, J)> {
    vec![("o", js(o)), ("a", ji(a)), ("d", ji(d))]
}
fn mem(r: &mut Rng, v: Vec<u8>) -> Vec<u8> {
    // now and then something that is no name at all
    if r.chance(1, 60) {
        return r.pick(&[&b""[..], b"a b", b"1", b"a..b", b"//", b":", b"a.b.", b"/a/", b"."]).to_vec();
    }
    v
}
const ERRS: &[&str] = &["org.freedesktop.DBus.Error.Failed", "a.b", "x_.y9.Z"];

fn rnd_value(r: &mut Rng) -> V {
    let s = one_sig(r, GP);
    val_of(r, GP, &s, 8)
}

/// often one that was set before
fn serial(r: &mut Rng) -> u32 {
    if r.chance(1, 3) {
        r.below(3) as u32
    } else {
        edge32(r)
    }
}

pub fn rnd_op(r: &mut Rng, hdrs: bool) -> J {
    let a = r.range(1, NREGS);
    let d = r.range(1, NREGS);
    let parts = |r: &mut Rng, v: &mut Vec<(&'static str, J)>| {
        let x = gen_bus(r);
        v.push(("dest", jb(&mem(r, x))));
        let x = gen_path(r);
        v.push(("path", jb(&mem(r, x))));
        let x = gen_iface(r);
        v.push(("iface", jb(&mem(r, x))));
        let x = gen_member(r);
        v.push(("member", jb(&mem(r, x))));
    };
    let kinds: &[&'static str] = &[
        "call", "call", "signal", "pget", "pall", "pset", "hdr", "hdr", "hdr", "mk", "mk", "clone", "ser", "ser", "add", "add",
        "add", "split", "split", "swap", "rt", "ret", "ret", "err", "inv", "uprop", "upath", "uif", "umem",
    ];
    let k: &'static str = if hdrs && r.chance(1, 2) { "hdr" } else { *r.pick(kinds) };
    let mut v: Vec<(&'static str, J)> = vec![("o", js(k)), ("a", ji(a)), ("d", ji(d))];
    match k {
        "call" | "signal" | "pget" | "pall" => {
            parts(r, &mut v);
            v.push(("text", jb(&gen_text(r, 6))));
        }
        "pset" => {
            parts(r, &mut v);
            v.push(("text", jb(&gen_text(r, 6))));
            v.push(("v", toks_of(&[rnd_value(r)])));
        }
        "hdr" => {
            let ty = r.range(1, 4) as u8;
            let mut f = gen_fields(r, ty);
            if r.chance(1, 5) {
                f[r.below(9)] = None;
            }
            if r.chance(1, 2) {
                let mut s = Vec::new();
                for _ in 0..r.below(3) {
                    s.extend(one_sig(r, GP));
                }
                f[7] = Some(s);
            }
            if r.chance(1, 3) {
                f[8] = Some(edge32(r).to_le_bytes().to_vec());
            }
            v.push(("le", jbool(r.chance(1, 2))));
            v.push(("ty", ji(ty as usize)));
            v.push(("fl", ji(r.below(8))));
            v.push(("ver", ji(*r.pick(&[1usize, 1, 1, 0, 2, 255]))));
            v.push(("ser", jb(&serial(r).to_le_bytes())));
            v.push(("f", jf(&f)));
        }
        "mk" => {
            let n = if r.chance(1, 5) { r.range(3, 9) } else { r.below(3) };
            let b: Vec<V> = (0..n).map(|_| rnd_value(r)).collect();
            v.push(("v", toks_of(&b)));
        }
        "ser" => v.push(("ser", jb(&serial(r).to_le_bytes()))),
        "add" => v.push(("v", toks_of(&[rnd_value(r)]))),
        "err" => {
            v.push(("name", jb(&mem(r, r.clone().pick(ERRS).as_bytes().to_vec()))));
            v.push(("text", jb(&gen_text(r, 8))));
        }
        "inv" | "uprop" => v.push(("text", jb(&gen_text(r, 8)))),
        _ => (),
    }
    obj(v)
}

pub fn session_cases(o: &mut Out, r: &mut Rng, n: usize) {
    let _ = base;
    for _ in 0..n {
        let len = r.range(4, 12);
        let mut ops: Vec<J> = Vec::new();
        for j in 0..len {
            ops.push(rnd_op(r, j < 2));
        }
        rec_session(o, &ops);
    }
}

/// A call with every combination of present fields, and every reply to it, from
/// the message, from its header, from a copy, after further calls.
pub fn reply_cases(o: &mut Out, r: &mut Rng, all: bool) {
    const RE: [&str; 7] = ["ret", "err", "inv", "uprop", "upath", "uif", "umem"];
    for ty in 1..=4u8 {
        for (mask, same) in (0..128u32).flat_map(|m| (0..3).map(move |s| (m, s))) {
            // the same name in several places
            if same == 1 && mask & 0x60 != 0x60 || same == 2 && (mask & 0x6a).count_ones() < 2 {
                continue;
            }
            let mut f = NOF;
            for i in 0..7 {
                if mask >> i & 1 == 1 {
                    f[i] = Some(match i {
                        0 => gen_path(r),
                        1 | 3 => gen_iface(r),
                        2 => gen_member(r),
                        4 => edge32(r).to_le_bytes().to_vec(),
                        _ => gen_bus(r),
                    });
                }
            }
            // sent to itself
            if same == 1 {
                f[5] = f[6].clone();
            }
            let ser0 = edge32(r);
            if same == 2 {
                for i in [1usize, 3, 5, 6] {
                    f[i] = f[i].as_ref().map(|_| b"same.name".to_vec());
                }
                f[4] = f[4].as_ref().map(|_| ser0.to_le_bytes().to_vec());
            }
            if r.chance(1, 2) {
                f[7] = Some(b"as".to_vec());
            }
            if r.chance(1, 3) {
                f[8] = Some(vec![2, 0, 0, 0]);
            }
            let mut ops = Vec::new();
            let mut h = base("hdr", 1, 1);
            h.extend(vec![
                ("le", jbool(r.chance(1, 2))),
                ("ty", ji(ty as usize)),
                ("fl", ji(r.below(8))),
                ("ver", ji(*r.pick(&[1usize, 1, 0, 7, 255]))),
                ("ser", jb(&ser0.to_le_bytes())),
                ("f", jf(&f)),
            ]);
            ops.push(obj(h));
            let valid = match ty {
                1 => mask & 5 == 5,
                2 => mask & 16 == 16,
                3 => mask & 24 == 24,
                _ => mask & 7 == 7,
            };
            if !valid {
                // one of them is enough
                if same > 0 {
                    continue;
                }
                rec_session(o, &ops);
                continue;
            }
            let mut m = base("mk", 1, 2);
            let b: Vec<V> = (0..r.below(3)).map(|_| rnd_value(r)).collect();
            m.push(("v", toks_of(&b)));
            ops.push(obj(m));
            for re in RE {
                if !all && r.chance(1, if same == 0 { 2 } else { 4 }) {
                    continue;
                }
                let from = r.range(1, 2);
                let mut x = base(re, from, 3);
                x.push(("name", jb(r.pick(ERRS).as_bytes())));
                x.push(("text", jb(&gen_text(r, 5))));
                ops.push(obj(x));
                if r.chance(1, 3) {
                    // answer the answer
                    let mut y = base(*r.pick(&RE), 3, 3);
                    y.push(("name", jb(r.pick(ERRS).as_bytes())));
                    y.push(("text", jb(&gen_text(r, 5))));
                    ops.push(obj(y));
                }
            }
            rec_session(o, &ops);
        }
    }
}

/// Long walks: serials from every value to every other, bodies that grow past
/// what a signature can say, values that have no type.
pub fn walk_cases(o: &mut Out, r: &mut Rng, all: bool) {
    let edges: Vec<u32> = vec![0, 1, 2, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0x0102_0304, 0xffff_fffe, 0xffff_ffff];
    let parts = |o: &'static str, d: usize| {
        let mut v = base(o, 1, d);
        v.push(("dest", jb(b":1.5")));
        v.push(("path", jb(b"/a/b")));
        v.push(("iface", jb(b"c.d")));
        v.push(("member", jb(b"M")));
        v.push(("text", jb(b"p")));
        v.push(("v", toks_of(&[V::U(7)])));
        obj(v)
    };
    let ser = |a: usize, n: u32| {
        let mut v = base("ser", a, a);
        v.push(("ser", jb(&n.to_le_bytes())));
        obj(v)
    };
    let add = |a: usize, b: &[V]| {
        let mut v = base("add", a, a);
        v.push(("v", toks_of(b)));
        obj(v)
    };
    let two = |o: &'static str, a: usize, d: usize| {
        let mut v = base(o, a, d);
        v.push(("name", jb(b"e.f")));
        v.push(("text", jb(b"t")));
        obj(v)
    };
    let head = |r: &mut Rng, d: usize| {
        let ty = r.range(1, 4) as u8;
        let mut h = base("hdr", 1, d);
        h.extend(vec![
            ("le", jbool(r.chance(1, 2))),
            ("ty", ji(ty as usize)),
            ("fl", ji(r.below(8))),
            ("ver", ji(1)),
            ("ser", jb(&edge32(r).to_le_bytes())),
            ("f", jf(&gen_fields(r, ty))),
        ]);
        obj(h)
    };
    // serials
    for make in 0..7 {
        for a in 0..edges.len() {
            if !all && (a + make) % 3 != 0 {
                continue;
            }
            let mut ops = match make {
                0 => vec![parts("call", 1)],
                1 => vec![parts("signal", 1)],
                2 => vec![parts("pset", 1)],
                3 => vec![head(r, 2), { let mut m = base("mk", 2, 1); m.push(("v", toks_of(&[]))); obj(m) }],
                4 => vec![parts("call", 2), two("ret", 2, 1)],
                5 => vec![parts("call", 2), two("err", 2, 1)],
                _ => vec![parts("call", 2), two("rt", 2, 1)],
            };
            for b in &edges {
                ops.push(ser(1, edges[a]));
                ops.push(ser(1, *b));
                if r.chance(1, 4) {
                    ops.push(two(*r.pick(&["ret", "rt", "split", "clone", "upath"]), 1, 3));
                }
            }
            rec_session(o, &ops);
        }
    }
    // full and bare messages of any type with many values; what is given again
    // is what is there already
    for ty in 1..=4u8 {
        for n in 0..10usize {
            for full in [true, false] {
                if !all && (n + ty as usize) % 2 == full as usize && n > 4 {
                    continue;
                }
                let mut f = gen_fields(r, ty);
                if full {
                    f = [Some(b"/a/b".to_vec()), Some(b"c.d".to_vec()), Some(b"M".to_vec()), Some(b"e.f".to_vec()), Some(9u32.to_le_bytes().to_vec()), Some(b":1.5".to_vec()), Some(b":1.7".to_vec()), None, None];
                }
                let ser0 = *r.pick(&[9u32, 1, n as u32, 256]);
                let mut h = base("hdr", 1, 2);
                h.extend(vec![
                    ("le", jbool(r.chance(1, 2))),
                    ("ty", ji(ty as usize)),
                    ("fl", ji(r.below(8))),
                    ("ver", ji(1)),
                    ("ser", jb(&ser0.to_le_bytes())),
                    ("f", jf(&f)),
                ]);
                let vs: Vec<V> = (0..n).map(|i| if n % 3 == 0 { rnd_value(r) } else if n % 3 == 1 { V::S(b"M".to_vec()) } else { V::U(i as u32 / 2) }).collect();
                let first = vs.first().cloned().unwrap_or(V::S(b"M".to_vec()));
                let mut m = base("mk", 2, 1);
                m.push(("v", toks_of(&vs)));
                let named = |o: &'static str, d: usize, t: &str| {
                    let mut v = base(o, 1, d);
                    v.push(("name", jb(if full { b"e.f" } else { b"c.d" })));
                    v.push(("text", jb(t.as_bytes())));
                    obj(v)
                };
                let mut ops = vec![obj(h), obj(m), ser(1, ser0), ser(1, ser0), ser(1, 9), ser(1, n as u32), add(1, &[first.clone()]), ser(1, n as u32), ser(1, n as u32 + 1)];
                ops.push(named(["err", "inv", "uprop", "ret"][n % 4], 3, ["M", "/a/b", "c.d", ":1.7", "e.f"][n % 5]));
                ops.extend(vec![two("clone", 1, 2), two("split", 1, 2), add(1, &[first.clone(), first]), ser(1, 9), two("rt", 1, 3), ser(3, 9), two(["upath", "uif", "umem"][n % 3], 3, 2)]);
                rec_session(o, &ops);
            }
        }
    }
    // growing
    for (start, step) in [(0usize, 1usize), (120, 1), (250, 1), (60, 64), (0, 127), (254, 1), (255, 1), (256, 1)] {
        for v in [V::Y(1), V::W(Box::new(V::Y(1))), V::H(4), V::A(b"u".to_vec(), vec![])] {
            let w = v.sig().len();
            let mut ops = vec![if start % 2 == 0 { parts("call", 1) } else { parts("signal", 1) }];
            ops.push(add(1, &vec![v.clone(); start / w]));
            for i in 0..8 {
                ops.push(add(1, &vec![v.clone(); step]));
                if i % 3 == 2 {
                    ops.push(two(*r.pick(&["rt", "split", "ret", "clone"]), 1, 2));
                }
            }
            rec_session(o, &ops);
        }
    }
    // long texts
    let mut texts = wide_texts(&[12, 40, 140, 300, 700, 1300, 4200]);
    texts.extend(about_powers(6, if all { 17 } else { 16 }).into_iter().map(|n| vec![b'x'; n]));
    for (i, t) in texts.iter().enumerate() {
        let with = |o: &'static str, a: usize, d: usize| {
            let mut v = base(o, a, d);
            v.push(("dest", jb(b":1.5")));
            v.push(("path", jb(b"/a/b")));
            v.push(("iface", jb(b"c.d")));
            v.push(("member", jb(b"M")));
            v.push(("name", jb(b"e.f")));
            v.push(("text", jb(t)));
            v.push(("v", toks_of(&[V::S(t.clone())])));
            obj(v)
        };
        let mut ops = vec![with("call", 1, 1), with(["err", "inv", "uprop"][i % 3], 1, 2)];
        if t.len() < 2000 || all {
            ops.push(with(["pget", "pset", "pall"][i % 3], 1, 3));
            ops.push(with("inv", 1, 2));
            ops.push(with("uprop", 1, 2));
        }
        ops.push(with(["rt", "clone", "split"][i % 3], 2, 3));
        rec_session(o, &ops);
    }
    // values without a type, in front, behind and alone
    for n in [31usize, 32, 33, 40] {
        for kind in 0..4 {
            let mut q = V::Y(1);
            for i in 0..n {
                q = match kind {
                    0 => V::R(vec![q]),
                    1 => V::E(Box::new((V::Y(1), q))),
                    2 => V::E(Box::new((q, V::Y(1)))),
                    _ if i % 2 == 0 => V::R(vec![V::Y(3), q, V::Y(2)]),
                    _ => V::E(Box::new((V::Y(1), q))),
                };
            }
            for at in 0..3 {
                let mut ops = vec![parts("pget", 1), parts("signal", 2)];
                if at == 1 {
                    ops.push(add(1, &[q.clone(), V::T(9)]));
                } else if at == 2 {
                    ops.push(add(1, &[V::H(9), q.clone()]));
                } else {
                    ops.push(head(r, 3));
                    let mut m = base("mk", 3, 1);
                    m.push(("v", toks_of(&[q.clone()])));
                    ops.push(obj(m));
                }
                ops.push(add(2, &[V::U(5)]));
                ops.extend(vec![two("split", 1, 3), two("swap", 1, 2), two("swap", 2, 1), two("rt", 1, 3), two("ret", 1, 3), two("clone", 1, 3), add(1, &[V::Y(1)]), ser(1, 77), two("split", 2, 1)]);
                rec_session(o, &ops);
            }
        }
    }
}
