//! Match rules.
use crate::gen::*;
use crate::js::*;
use crate::msg::*;
use crate::plan::m_of;
use crate::rng::Rng;
use crate::text::{all_words, words};
use crate::val::*;
use crate::wire::shuffle;
use crate::Out;
use dbus_message_parser::match_rule::*;
use dbus_message_parser::message::MessageType;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

/// kind, index digits, value
#[derive(Clone, Debug, PartialEq)]
pub struct R {
    pub k: String,
    pub n: Vec<u8>,
    pub v: Vec<u8>,
}
pub fn rule(k: &str, n: &str, v: &[u8]) -> R {
    R { k: k.into(), n: n.as_bytes().to_vec(), v: v.to_vec() }
}
fn jr(r: &R) -> J {
    obj(vec![("k", js(&r.k)), ("n", jb(&r.n)), ("v", jb(&r.v))])
}
pub fn jrs(rs: &[R]) -> J {
    J::A(rs.iter().map(jr).collect())
}
fn r_of(j: &J) -> R {
    R { k: j.get("k").str().into(), n: j.get("n").bytes(), v: j.get("v").bytes() }
}
pub fn rs_of(j: &J) -> Vec<R> {
    j.arr().iter().map(r_of).collect()
}

pub fn to_lib_rule(r: &R) -> Result<MatchRule, String> {
    let s = std::str::from_utf8(&r.v).map_err(|_| "utf8".to_string())?;
    fn e<T: std::fmt::Debug>(x: T) -> String {
        format!("{:?}", x)
    }
    let n = || std::str::from_utf8(&r.n).unwrap().parse::<usize>().map_err(e);
    Ok(match r.k.as_str() {
        "type" => MatchRule::Type(MessageType::try_from(s).map_err(e)?),
        "sender" => MatchRule::Sender(Bus::try_from(s).map_err(e)?),
        "interface" => MatchRule::Interface(Interface::try_from(s).map_err(e)?),
        "member" => MatchRule::Member(Member::try_from(s).map_err(e)?),
        "path" => MatchRule::Path(ObjectPath::try_from(s).map_err(e)?),
        "path_namespace" => MatchRule::PathNamespace(ObjectPath::try_from(s).map_err(e)?),
        "destination" => MatchRule::Destination(UniqueConnectionName::try_from(s).map_err(e)?),
        "arg" => MatchRule::Arg(Arg::try_from((n()?, s.to_string())).map_err(e)?),
        "argpath" => MatchRule::ArgPath(ArgPath::from((n()?, ObjectPath::try_from(s).map_err(e)?))),
        "arg0namespace" => MatchRule::Arg0Namespace(Interface::try_from(s).map_err(e)?),
        "eavesdrop" => match s {
            "true" => MatchRule::Eavesdrop(true),
            "false" => MatchRule::Eavesdrop(false),
            _ => return Err("bool".into()),
        },
        k => panic!("kind {}", k),
    })
}
pub fn from_lib_rule(r: &MatchRule) -> R {
    match r {
        MatchRule::Type(t) => rule(
            "type",
            "",
            match t {
                MessageType::MethodCall => b"method_call",
                MessageType::MethodReturn => b"method_return",
                MessageType::Error => b"error",
                MessageType::Signal => b"signal",
            },
        ),
        MatchRule::Sender(x) => rule("sender", "", x.as_ref().as_bytes()),
        MatchRule::Interface(x) => rule("interface", "", x.as_ref().as_bytes()),
        MatchRule::Member(x) => rule("member", "", x.as_ref().as_bytes()),
        MatchRule::Path(x) => rule("path", "", x.as_ref().as_bytes()),
        MatchRule::PathNamespace(x) => rule("path_namespace", "", x.as_ref().as_bytes()),
        MatchRule::Destination(x) => rule("destination", "", x.as_ref().as_bytes()),
        MatchRule::Arg(x) => rule("arg", &x.get_index().to_string(), x.get_value().as_bytes()),
        MatchRule::ArgPath(x) => rule("argpath", &x.get_index().to_string(), x.get_value().as_ref().as_bytes()),
        MatchRule::Arg0Namespace(x) => rule("arg0namespace", "", x.as_ref().as_bytes()),
        MatchRule::Eavesdrop(true) => rule("eavesdrop", "", b"true"),
        MatchRule::Eavesdrop(false) => rule("eavesdrop", "", b"false"),
    }
}

/// What the error says; characters as their bytes, an index as its digits.
pub fn why(e: &MatchRuleError) -> J {
    fn w(name: &str, b: &[u8]) -> J {
        let mut v = vec![js(name)];
        v.extend(b.iter().map(|x| js(&x.to_string())));
        J::A(v)
    }
    crate::says::note(e);
    match e {
        MatchRuleError::KeyInvalidChar(c) => w("KeyInvalidChar", c.to_string().as_bytes()),
        MatchRuleError::ArgIndexTooBig(n) => w("ArgIndexTooBig", n.to_string().as_bytes()),
        MatchRuleError::ArgIndexError(e) => J::A(vec![js("ArgIndexError"), js(&format!("{:?}", e.kind()))]),
        e => words(&format!("{:?}", e)),
    }
}

fn parsed(r: Result<Result<Vec<MatchRule>, MatchRuleError>, ()>) -> J {
    match r {
        Err(()) => obj(vec![("st", js("panic")), ("rules", J::A(vec![])), ("why", J::A(vec![]))]),
        Ok(Err(e)) => obj(vec![("st", js("err")), ("rules", J::A(vec![])), ("why", why(&e))]),
        Ok(Ok(v)) => obj(vec![
            ("st", js("ok")),
            ("rules", J::A(v.iter().map(|x| jr(&from_lib_rule(x))).collect())),
            ("why", J::A(vec![])),
        ]),
    }
}
pub fn parse_all(t: &str) -> J {
    parsed(guard(|| MatchRule::decode(t)))
}
pub fn parse_one(t: &str) -> J {
    parsed(guard(|| MatchRule::try_from(t).map(|r| vec![r])))
}

pub fn rec_mtext(o: &mut Out, s: &[u8]) {
    let t = match std::str::from_utf8(s) {
        Ok(t) => t,
        Err(_) => return,
    };
    o.about(|| obj(vec![("k", js("mtext")), ("s", jb(s))]));
    o.put(obj(vec![("k", js("mtext")), ("s", jb(s)), ("d", parse_all(t)), ("one", parse_one(t))]));
}

fn build(rs: &[R]) -> Result<Result<Vec<MatchRule>, String>, ()> {
    guard(|| rs.iter().map(to_lib_rule).collect())
}

pub fn rec_mshow(o: &mut Out, rs: &[R]) {
    o.about(|| obj(vec![("k", js("mshow")), ("rules", jrs(rs))]));
    let mut p = vec![("k", js("mshow")), ("rules", jrs(rs))];
    let v = match build(rs) {
        Err(()) => {
            p.push(("st", js("panic")));
            return o.put(obj(p));
        }
        Ok(Err(_)) => {
            p.push(("st", js("err")));
            return o.put(obj(p));
        }
        Ok(Ok(v)) => v,
    };
    let shown = guard(|| {
        let t = MatchRule::encode(&v);
        let each: Vec<J> = v.iter().map(|r| jb(r.to_string().as_bytes())).collect();
        let keys: Vec<J> = v
            .iter()
            .map(|r| match r {
                MatchRule::Arg(a) => jb(a.get_key().as_bytes()),
                MatchRule::ArgPath(a) => jb(a.get_key().as_bytes()),
                _ => J::A(vec![]),
            })
            .collect();
        let back = MatchRule::decode(&t);
        let same = matches!(&back, Ok(b) if *b == v)
            && v.iter().all(|r| matches!(MatchRule::try_from(r.to_string().as_str()), Ok(x) if x == *r));
        let seen: Vec<R> = v.iter().map(from_lib_rule).collect();
        (t, each, keys, same, seen)
    });
    match shown {
        Err(()) => p.push(("st", js("panic"))),
        Ok((t, each, keys, same, seen)) => {
            p.push(("st", js("ok")));
            p.push(("t", jb(t.as_bytes())));
            p.push(("each", J::A(each)));
            p.push(("keys", J::A(keys)));
            p.push(("same", jbool(same)));
            p.push(("shown", jrs(&seen)));
            p.push(("back", parse_all(&t)));
        }
    }
    o.put(obj(p));
}

/// Every rule alone, and the lists made of the rules at the positions in subs.
pub fn rec_meval(o: &mut Out, m: &M, rs: &[R], subs: &[Vec<usize>]) {
    let jsub = |s: &Vec<usize>| J::A(s.iter().map(|i| ji(i + 1)).collect());
    let jsubs = J::A(subs.iter().map(jsub).collect());
    o.about(|| obj(vec![("k", js("meval")), ("m", m.js()), ("rules", jrs(rs)), ("subs", jsubs.clone())]));
    o.runs += rs.len() + subs.len();
    let mut p = vec![("k", js("meval")), ("m", m.js()), ("rules", jrs(rs)), ("subs", jsubs.clone())];
    let (msg, v) = match (guard(|| to_lib_msg(m)), build(rs)) {
        (Ok(Ok(m)), Ok(Ok(v))) => (m, v),
        (Err(()), _) | (_, Err(())) => {
            p.push(("st", js("panic")));
            return o.put(obj(p));
        }
        _ => {
            p.push(("st", js("build")));
            return o.put(obj(p));
        }
    };
    let r = guard(|| {
        let each: Vec<J> = v.iter().map(|r| jbool(r.matching_rule(&msg))).collect();
        let all = MatchRule::matching_rules(&v, &msg);
        let some: Vec<J> = subs
            .iter()
            .map(|s| {
                let l: Vec<MatchRule> = s.iter().map(|i| to_lib_rule(&rs[*i]).unwrap()).collect();
                jbool(MatchRule::matching_rules(&l, &msg))
            })
            .collect();
        (each, all, some)
    });
    match r {
        Err(()) => p.push(("st", js("panic"))),
        Ok((each, all, some)) => {
            p.push(("st", js("ok")));
            p.push(("each", J::A(each)));
            p.push(("all", jbool(all)));
            p.push(("some", J::A(some)));
        }
    }
    o.put(obj(p));
}
pub fn replay_meval(o: &mut Out, j: &J) {
    let subs: Vec<Vec<usize>> = j
        .get("subs")
        .arr()
        .iter()
        .map(|s| s.arr().iter().map(|x| x.int() as usize - 1).collect())
        .collect();
    rec_meval(o, &m_of(j.get("m")), &rs_of(j.get("rules")), &subs)
}

// ------------------------------------------------------------------- cases
pub const KEYS: &[&str] = &[
    "type", "sender", "interface", "member", "path", "path_namespace", "destination", "arg0", "arg0path",
    "arg0namespace", "eavesdrop",
];
const VALUES: &[&str] = &[
    "", "a", "a.b", "a.b.c", "A1._b", ":1.2", ":1", ":a.b", "a.b-c", "1.b", "a..b", ".a.b", "a.b.", "/", "/a", "/a/b",
    "/a/", "//", "a/b", "/a b", "a b", "é", "true", "false", "True", "1", "signal", "method_call", "method_return",
    "error", "Signal", "METHOD_CALL", "invalid", "signals", "sig'nal'", "'a'", "'a", "a'", "\\'", "\\", "''", "'\\'",
    "'/a'", "'a.b'", "\\'a.b", "a\\.b", "'tr'ue", "tru", " true", "'a,b'", "a=b", "=", "\0", "a\0", "😀", "'", "'''",
    "\\\\'", "a.b.c.d.e", "x-y.z", ":1.2.3-4", ":.", ":", ":1.2:", "-a.b", "_._", "0", "00",
];
const INDEXES: &[&str] = &[
    "", "0", "1", "00", "01", "000", "9", "10", "62", "63", "64", "65", "063", "064", "0000000000000000000000063",
    "99", "100", "127", "128", "255", "256", "319", "999", "4294967295", "4294967296", "4294967359",
    "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551679",
    "99999999999999999999999999", "-1", "+1", "-0", "+", "-", " 1", "1 ", "0x1", "a", "1a", "a1", "_", "1_0", "٣",
];
const NEAR: &[&str] = &[
    "", "Type", "types", "typ", "TYPE", "sender_", "_sender", "Sender", "send", "interfaces", "interfac", "members",
    "paths", "pat", "Path", "path_namespaces", "pathnamespace", "path_name", "namespace", "destinations", "dest", "arg",
    "args", "Arg0", "arg0_path", "arg0Path", "arg0paths", "arg0pathpath", "argpath", "arg0namespaces", "arg1namespace",
    "arg00namespace", "arg0_namespace", "namespace0", "arg0namespacepath", "eavesdropping", "eaves", "Eavesdrop", "error",
    "signature", "a", "0", "_", "é", "aé", "ty pe", " type", "type ", "ty-pe", "ty.pe", "arg-0", "arg0 ", "'", "\\",
    "ar\\g0", "'type'", "\u{ff11}", "arg\u{ff11}",
];

pub fn mtext_cases(o: &mut Out, r: &mut Rng, k: usize) {
    let pre = |p: &str, w: &[u8]| [p.as_bytes(), w].concat();
    // all short values
    for w in all_words(b"a',\\=", if k > 1 { 6 } else { 5 }) {
        rec_mtext(o, &pre("arg0=", &w));
    }
    // texts put together of pieces
    let pieces: &[&str] = &["arg0", "arg1=", "=", ",", "'", "\\", "x", "member=", " ", "é"];
    let n = pieces.len();
    for len in 0..=(if k > 1 { 5 } else { 4 }) {
        let total = n.pow(len as u32);
        for i in 0..total {
            if k == 1 && len == 4 && r.below(4) > 0 {
                continue;
            }
            let mut x = i;
            let mut t = String::new();
            for _ in 0..len {
                t.push_str(pieces[x % n]);
                x /= n;
            }
            rec_mtext(o, t.as_bytes());
        }
    }
    // every key with every value, alone and with neighbours
    for key in KEYS {
        for v in VALUES {
            rec_mtext(o, format!("{}={}", key, v).as_bytes());
            if r.chance(1, 3) {
                rec_mtext(o, format!("member=q,{}={},arg63='", key, v).as_bytes());
                rec_mtext(o, format!("{}={},eavesdrop=true", key, v).as_bytes());
                rec_mtext(o, format!("arg1=\\',{}={},", key, v).as_bytes());
                rec_mtext(o, format!("{}='{}'", key, v).as_bytes());
            }
        }
    }
    // a good rule with something odd in it
    for (key, v) in [
        ("type", "signal"), ("type", "method_call"), ("sender", ":1.2"), ("sender", "a.b"), ("interface", "a.b"), ("member", "Ab"), ("path", "/a/b"),
        ("path_namespace", "/a/b"), ("destination", ":1.2"), ("arg0", "ab"), ("arg12", "ab"), ("arg0path", "/a/b"), ("arg63path", "a"),
        ("arg0namespace", "a.b"), ("eavesdrop", "true"), ("eavesdrop", "false"),
    ] {
        let more = ["a", "A", "0", "_", "-", ".", "/", ":", ",", "=", ";", "''", "','", "\\'", "'\\'", "\\\\"];
        for c in ODD.iter().chain(&more) {
            let mid = v.len() / 2;
            for t in [
                format!("{}={}{}", key, v, c),
                format!("{}={}{}", key, c, v),
                format!("{}={}{}{}", key, c, v, c),
                format!("{}='{}'{}", key, v, c),
                format!("{}='{}{}'", key, v, c),
                format!("{}='{}'", key, v) + ",",
                format!("{}={}{}{}", key, &v[..mid], c, &v[mid..]),
                format!("{}{}={}", key, c, v),
                format!("{}{}={}", c, key, v),
                format!("{}={}", key, c),
            ] {
                rec_mtext(o, t.as_bytes());
            }
        }
        let t = format!("{}={}", key, v).into_bytes();
        for i in 0..t.len() {
            let mut x = t.clone();
            x[i] ^= 0x20;
            if std::str::from_utf8(&x).is_ok() {
                rec_mtext(o, &x);
            }
            let mut x = t.clone();
            x.remove(i);
            rec_mtext(o, &x);
            let mut x = t.clone();
            x.insert(i, t[i]);
            rec_mtext(o, &x);
        }
        rec_mtext(o, format!("{}={}", key.to_uppercase(), v).as_bytes());
        rec_mtext(o, format!("{}={}", key, v.to_uppercase()).as_bytes());
    }
    for key in NEAR {
        for v in ["a", "a.b", "/a", "true", ":1.2", "signal", ""] {
            rec_mtext(o, format!("{}={}", key, v).as_bytes());
        }
        rec_mtext(o, key.as_bytes());
        rec_mtext(o, format!("arg0=a,{}=/a", key).as_bytes());
    }
    for ix in INDEXES {
        for suf in ["", "path", "namespace", "Path", "pathx"] {
            for v in ["/a", "a.b", "x"] {
                rec_mtext(o, format!("arg{}{}={}", ix, suf, v).as_bytes());
            }
        }
        rec_mtext(o, format!("arg0=x,arg{}=y,arg{}path=/", ix, ix).as_bytes());
    }
    for i in 0..=130 {
        rec_mtext(o, format!("arg{}=v", i).as_bytes());
        rec_mtext(o, format!("arg{}path=/v", i).as_bytes());
    }
    // every character in every place
    for (a, b) in [
        ("", "rg0=x"), ("arg", "=x"), ("arg0", "=x"), ("arg0", "path=/x"), ("arg0=", ""), ("arg0=", "b"), ("arg0=a", "b"),
        ("arg0='", "'"), ("arg0='a", "b'"), ("arg0=\\", "b"), ("arg0=\\", ""), ("member=", "x"), ("member=x", ""),
        ("path=/", ""), ("member=x,", "rg0=x"), ("arg0=''", ""), ("arg0=x'", "'x"), ("", "arg0=x"), ("arg0path", "=/"),
        ("eavesdrop=", "true"), ("arg0", "namespace=a.b"), ("arg0=x", ""), ("sender=:1.", "2"), ("type=signa", ""),
    ] {
        for c in (0..256u32).chain([0x7ff, 0x800, 0x2028, 0xff0c, 0xff1d, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]) {
            if let Some(c) = char::from_u32(c) {
                rec_mtext(o, format!("{}{}{}", a, c, b).as_bytes());
            }
        }
    }
    // long texts, with something special at the end, in front, in the middle
    for b in 3..12 {
        for n in [(1usize << b) - 1, 1 << b, (1 << b) + 1] {
            for what in ["'", "\\'", "\\", ",", "=", "é", "''", "','", "\\\\", "'\\'", "a"] {
                let x = "x".repeat(n);
                let h = &x[..n / 2];
                for t in [format!("arg0={}{}", x, what), format!("arg0={}{}", what, x), format!("arg0={}{}{}", h, what, h), format!("arg0='{}{}{}'", h, what, x)] {
                    if b < 9 || r.chance(1, 3) {
                        rec_mtext(o, t.as_bytes());
                    }
                }
                if n < 600 {
                    rec_mtext(o, format!("arg0={}", what.repeat(n)).as_bytes());
                    rec_mtext(o, format!("arg0='{}", what.repeat(n)).as_bytes());
                }
            }
            rec_mtext(o, format!("{}=v", "k".repeat(n)).as_bytes());
            rec_mtext(o, format!("arg{}5=v", "0".repeat(n)).as_bytes());
            rec_mtext(o, format!("arg{}=v", "9".repeat(n)).as_bytes());
            rec_mtext(o, format!("arg1{}path=/v", "0".repeat(n)).as_bytes());
            rec_mtext(o, format!("path={}", "/ab".repeat(n)).as_bytes());
            rec_mtext(o, format!("path={}/", "/ab".repeat(n)).as_bytes());
            if n < 600 {
                let many: Vec<String> = (0..n).map(|i| format!("arg{}='{}'", i % 64, i)).collect();
                rec_mtext(o, many.join(",").as_bytes());
                rec_mtext(o, (many.join(",") + ",").as_bytes());
                rec_mtext(o, (many.join(",") + ",member='a b'").as_bytes());
                rec_mtext(o, (many.join(",") + ",type='x'").as_bytes());
                rec_mtext(o, "member=q,".repeat(n).as_bytes());
                rec_mtext(o, (",".repeat(n) + "member=q").as_bytes());
            }
        }
    }
    for t in wide_texts(&[12, 40, 140, 300, 700]) {
        for (a, b) in [("", ""), ("arg0=", ""), ("arg0='", "'"), ("arg0='", ""), ("sender=", ""), ("member='M',arg1=", ",type=error"), ("type=", ""),
                       ("path=/", ""), ("arg0path=", ""), ("eavesdrop=", ""), ("arg", "=x"), ("argé=", ""), ("arg0namespace=a.", ""), ("arg0=x,", "=y")] {
            rec_mtext(o, &[a.as_bytes(), &t, b.as_bytes()].concat());
        }
    }
    for n in about_powers(12, if k > 1 { 17 } else { 16 }) {
        for c in [&b"a"[..], b"'a'", b"\\'"] {
            rec_mtext(o, &[b"arg2=", &c.repeat(n / c.len())[..], b",member=M"].concat());
        }
    }
    // lists in random quotings, whole or with a character changed
    for _ in 0..(1200 * k) {
        let n = r.below(5);
        let rs: Vec<R> = (0..n).map(|_| gen_rule(r)).collect();
        let mut t: Vec<u8> = Vec::new();
        for (i, x) in rs.iter().enumerate() {
            if i > 0 {
                t.push(b',');
            }
            t.extend(quoted(r, x));
        }
        rec_mtext(o, &t);
        if !t.is_empty() {
            for _ in 0..2 {
                let mut u = t.clone();
                let at = r.below(u.len());
                match r.below(3) {
                    0 => {
                        u.remove(at);
                    }
                    1 => u.insert(at, *r.pick(b"',\\=a /0")),
                    _ => u[at] = *r.pick(b"',\\=a /0"),
                }
                rec_mtext(o, &u);
            }
        }
    }
}

/// One of the ways to write a rule.
fn quoted(r: &mut Rng, x: &R) -> Vec<u8> {
    let mut t: Vec<u8> = match x.k.as_str() {
        "arg" => b"arg".to_vec(),
        "argpath" => b"arg".to_vec(),
        k => k.as_bytes().to_vec(),
    };
    if !x.n.is_empty() && r.chance(1, 8) {
        t.push(b'0');
    }
    t.extend_from_slice(&x.n);
    if x.k == "argpath" {
        t.extend_from_slice(b"path");
    }
    t.push(b'=');
    let whole = r.chance(1, 3);
    let mut q = false;
    if whole {
        t.push(b'\'');
        q = true;
    }
    for &c in &x.v {
        if !whole && c < 128 && r.chance(1, 6) {
            t.push(b'\'');
            q = !q;
        }
        if c == b'\'' {
            t.extend_from_slice(if q { b"'\\''" } else { b"\\'" });
        } else if (c == b',' || c == b'\\') && !q {
            t.extend_from_slice(&[b'\'', c, b'\'']);
        } else {
            t.push(c);
        }
    }
    if q {
        t.push(b'\'');
    }
    t
}

pub fn gen_rule(r: &mut Rng) -> R {
    match r.below(14) {
        0 => {
            let v = *r.pick(&["method_call", "method_return", "error", "signal"]);
            rule("type", "", v.as_bytes())
        }
        1 => R { k: "sender".into(), n: vec![], v: gen_bus(r) },
        2 => R { k: "interface".into(), n: vec![], v: gen_iface(r) },
        3 => R { k: "member".into(), n: vec![], v: gen_member(r) },
        4 => R { k: "path".into(), n: vec![], v: gen_path(r) },
        5 => R { k: "path_namespace".into(), n: vec![], v: gen_path(r) },
        6 => R { k: "destination".into(), n: vec![], v: gen_unique(r) },
        7 => {
            let n = if r.chance(1, 6) { r.next() as usize } else { r.below(70) };
            R { k: "argpath".into(), n: n.to_string().into_bytes(), v: gen_path(r) }
        }
        8 => R { k: "arg0namespace".into(), n: vec![], v: gen_iface(r) },
        9 => rule("eavesdrop", "", if r.chance(1, 2) { b"true" } else { b"false" }),
        _ => {
            let n = r.below(64).to_string().into_bytes();
            let v = if r.chance(1, 2) {
                let w = r.below(7);
                (0..w).map(|_| *r.pick(b"a'\\,= ")).collect()
            } else {
                gen_text(r, 12)
            };
            R { k: "arg".into(), n, v }
        }
    }
}

pub fn mshow_cases(o: &mut Out, r: &mut Rng, k: usize) {
    rec_mshow(o, &[]);
    for w in all_words(b"a'\\,=", if k > 1 { 6 } else { 5 }) {
        let a = rule("arg", "0", &w);
        rec_mshow(o, &[a.clone()]);
        if w.len() <= 3 {
            rec_mshow(o, &[a.clone(), rule("arg", "1", b"z")]);
            rec_mshow(o, &[rule("member", "", b"m"), a.clone(), a]);
        }
    }
    for w1 in all_words(b"'\\,", 2) {
        for w2 in all_words(b"'\\,", 2) {
            rec_mshow(o, &[rule("arg", "3", &w1), rule("arg", "63", &w2)]);
        }
    }
    // every character
    for c in (0..0x180u32).chain([0x7ff, 0x800, 0x2028, 0xff0c, 0xfffd, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]) {
        if let Some(c) = char::from_u32(c) {
            rec_mshow(o, &[rule("arg", "7", c.to_string().as_bytes()), rule("arg", "8", format!("x{}'{},", c, c).as_bytes())]);
        }
    }
    for i in (0..=130usize).chain([255, 256, 319, 320, 4294967295, 4294967296, 4294967359, usize::MAX - 1, usize::MAX]) {
        let n = i.to_string();
        rec_mshow(o, &[rule("arg", &n, b"v,")]);
        rec_mshow(o, &[rule("argpath", &n, b"/v")]);
        rec_mshow(o, &[rule("argpath", &n, b"/"), rule("arg", "63", b""), rule("type", "", b"error")]);
    }
    for (kd, ok) in [
        ("type", "method_call"), ("type", "method_return"), ("type", "error"), ("type", "signal"), ("sender", ":1.2"),
        ("sender", "a.b-c"), ("interface", "a.b"), ("member", "M_1"), ("path", "/"), ("path", "/a/b"), ("path_namespace", "/"),
        ("path_namespace", "/a"), ("destination", ":1.2"), ("arg0namespace", "a.b.c"), ("eavesdrop", "true"),
        ("eavesdrop", "false"),
    ] {
        rec_mshow(o, &[rule(kd, "", ok.as_bytes())]);
        for v in VALUES {
            rec_mshow(o, &[rule(kd, "", v.as_bytes())]);
        }
    }
    for len in [253usize, 254, 255, 256, 1000] {
        let q = "q".repeat(len - 2);
        for (kd, v) in [
            ("interface", format!("{}.b", q)), ("sender", format!("{}.b", q)), ("sender", format!(":.{}", q)),
            ("destination", format!(":{}.", q)), ("destination", format!(":1.{}", &q[1..])), ("member", format!("{}ab", q)),
            ("arg0namespace", format!("a.{}", q)), ("path", format!("/{}a", q)), ("path_namespace", format!("/{}/a", &q[1..])),
        ] {
            rec_mshow(o, &[rule(kd, "", v.as_bytes())]);
        }
        rec_mshow(o, &[rule("arg", "1", "',\\".repeat(len / 3).as_bytes())]);
    }
    // long lists and values
    for b in 3..12 {
        for n in [(1usize << b) - 1, 1 << b, (1 << b) + 1] {
            if n < 600 {
                let mut rs: Vec<R> = (0..n).map(|i| rule("arg", &(i % 64).to_string(), if i % 3 == 0 { b"'" } else { b"a," })).collect();
                rec_mshow(o, &rs);
                rs.push(rule("type", "", b"error"));
                rec_mshow(o, &rs);
                rs[n / 2] = gen_rule(r);
                rec_mshow(o, &rs);
                rec_mshow(o, &vec![rule("eavesdrop", "", b"true"); n]);
                for c in ["'", "\\", "\\'", "',", "é"] {
                    rec_mshow(o, &[rule("arg", "1", c.repeat(n).as_bytes()), rule("arg", "2", b"z")]);
                }
            }
            for c in ["'", "\\", ",", "=", "é"] {
                let x = "x".repeat(n);
                for v in [format!("{}{}", x, c), format!("{}{}", c, x), format!("{}{}{}", x, c, x)] {
                    rec_mshow(o, &[rule("arg", "1", v.as_bytes())]);
                }
            }
            rec_mshow(o, &[rule("path", "", "/q".repeat(n).as_bytes()), rule("path_namespace", "", format!("/{}", "q".repeat(n)).as_bytes()), rule("argpath", "3", "/q".repeat(n).as_bytes())]);
        }
    }
    for t in wide_texts(&[12, 40, 140, 300, 700]) {
        rec_mshow(o, &[rule("arg", "0", &t)]);
        rec_mshow(o, &[rule("arg", "1", &[b"',", &t[..], b"\\'"].concat()), rule("arg", "2", &t)]);
    }
    for n in about_powers(12, if k > 1 { 17 } else { 16 }) {
        for c in [&b"a"[..], b",", b"'", b"\\"] {
            rec_mshow(o, &[rule("arg", "2", &c.repeat(n)), rule("member", "", b"M")]);
        }
    }
    for _ in 0..(1500 * k) {
        let n = r.below(9);
        let rs: Vec<R> = (0..n).map(|_| gen_rule(r)).collect();
        rec_mshow(o, &rs);
    }
}

/// Argument indexes and names about the limits.
pub fn limit_args(o: &mut Out, r: &mut Rng) {
    for i in (0..=140usize).chain([191, 192, 255, 256, 257, 319, 320, 1000, 65535, 65536, 65599, 4294967295, 4294967296, 4294967359, usize::MAX - 1, usize::MAX]) {
        let n = i.to_string();
        rec_mshow(o, &[rule("arg", &n, b"v,")]);
        rec_mshow(o, &[rule("argpath", &n, b"/v")]);
        for z in ["", "0", "00"] {
            for t in [format!("arg{}{}='v'", z, n), format!("arg{}{}path='/v'", z, n), format!("arg{}{}=v,member='M'", z, n), format!("type='signal',arg{}{}path=/v", z, n)] {
                rec_mtext(o, t.as_bytes());
            }
        }
        rec_mtext(o, format!("arg+{}='v'", n).as_bytes());
        rec_mtext(o, format!("arg-{}='v'", n).as_bytes());
    }
    for len in (250..260usize).chain([300, 511, 512, 1000]) {
        let q = "q".repeat(len - 2);
        for (kd, v) in [
            ("interface", format!("{}.b", q)), ("sender", format!("{}.b", q)), ("sender", format!(":.{}", q)), ("sender", format!(":1.{}", &q[1..])),
            ("destination", format!(":{}.", q)), ("destination", format!(":1.{}", &q[1..])), ("member", format!("{}ab", q)),
            ("arg0namespace", format!("a.{}", q)), ("path", format!("/{}a", q)), ("path_namespace", format!("/{}/a", &q[1..])),
            ("arg5path", format!("/{}a", q)), ("arg5", q.clone()),
        ] {
            if !kd.ends_with('5') && !kd.starts_with("arg5") {
                rec_mshow(o, &[rule(kd, "", v.as_bytes())]);
            }
            rec_mtext(o, format!("{}='{}'", kd, v).as_bytes());
            rec_mtext(o, format!("{}={},type=error", kd, v).as_bytes());
        }
    }
    // messages with about that many arguments
    for n in [1usize, 2, 62, 63, 64, 65, 66, 100] {
        for path in [false, true] {
            let mut m = blank(4);
            m.body = (0..n).map(|i| if path { V::O(format!("/a{}", i).into_bytes()) } else { V::S(format!("a{}", i).into_bytes()) }).collect();
            let mut rs = Vec::new();
            for i in [0usize, 1, 61, 62, 63, 64, 65, 99, 100] {
                if i < 64 {
                    rs.push(rule("arg", &i.to_string(), format!("a{}", i).as_bytes()));
                    rs.push(rule("arg", &i.to_string(), b"a0"));
                }
                rs.push(rule("argpath", &i.to_string(), format!("/a{}", i).as_bytes()));
                rs.push(rule("argpath", &i.to_string(), b"/"));
            }
            let subs = vec![vec![], vec![0, 1], vec![r.below(rs.len())]];
            rec_meval(o, &m, &rs, &subs);
        }
    }
}

fn blank(ty: u8) -> M {
    let mut f = NOF;
    match ty {
        1 => {
            f[0] = Some(b"/q".to_vec());
            f[2] = Some(b"Q".to_vec());
        }
        2 => f[4] = Some(vec![1, 0, 0, 0]),
        3 => {
            f[3] = Some(b"q.Q".to_vec());
            f[4] = Some(vec![1, 0, 0, 0]);
        }
        _ => {
            f[0] = Some(b"/q".to_vec());
            f[1] = Some(b"q.Q".to_vec());
            f[2] = Some(b"Q".to_vec());
        }
    }
    M { le: true, ty, fl: 0, ver: 1, ser: 1, f, body: vec![] }
}

fn s(x: &str) -> V {
    V::S(x.as_bytes().to_vec())
}
fn op(x: &str) -> V {
    V::O(x.as_bytes().to_vec())
}

pub fn meval_cases(o: &mut Out, r: &mut Rng, k: usize) {
    // related values against each other, kind by kind
    let paths = ["/", "/a", "/a/b", "/ab", "/a/b/c", "/a/bc", "/b", "/b/a", "/aa", "/a_", "/A", "/a/a"];
    let names = ["a.b", "a.b.c", "a.bc", "a.b_", "a.b.c.d", "b.a", "aa.b", "A.b", "a.b1", "a.B"];
    let buses = [":1.1", ":1.10", ":1.1.0", ":1.2", "a.b", "a.b.c", "a.b-c", ":a.b", "a.b_c"];
    let members = ["M", "m", "Mm", "M1", "_"];
    let texts = [
        "", "/", "a", "/a", "/a/", "/a/b", "/a/b/", "/ab", "//", "/a//b", "a/b", "a.b", "a.b.", "a.b.c", "a.bc", ".a.b",
        "a.b..", "a", ".", "/é", "/a/é", "a.b.é", "a.b/", "/a.b", " a.b", "/a/b/c", ":1.1",
    ];
    let mut pool: Vec<R> = Vec::new();
    for t in ["method_call", "method_return", "error", "signal"] {
        pool.push(rule("type", "", t.as_bytes()));
    }
    for p in paths {
        pool.push(rule("path", "", p.as_bytes()));
        pool.push(rule("path_namespace", "", p.as_bytes()));
    }
    for n in names {
        pool.push(rule("interface", "", n.as_bytes()));
        pool.push(rule("arg0namespace", "", n.as_bytes()));
    }
    for b in buses {
        pool.push(rule("sender", "", b.as_bytes()));
        if b.starts_with(':') {
            pool.push(rule("destination", "", b.as_bytes()));
        }
    }
    for m in members {
        pool.push(rule("member", "", m.as_bytes()));
    }
    pool.push(rule("eavesdrop", "", b"true"));
    pool.push(rule("eavesdrop", "", b"false"));
    let mut args: Vec<R> = Vec::new();
    for i in ["0", "1", "2"] {
        for t in texts {
            args.push(rule("arg", i, t.as_bytes()));
        }
        for p in paths {
            args.push(rule("argpath", i, p.as_bytes()));
        }
    }
    for n in names {
        args.push(rule("arg0namespace", "", n.as_bytes()));
    }
    for i in ["62", "63"] {
        args.push(rule("arg", i, b"a"));
    }
    for i in ["3", "62", "63", "64", "65", "100", "4294967296", "18446744073709551615"] {
        args.push(rule("argpath", i, b"/a"));
        args.push(rule("argpath", i, b"/"));
    }
    let go = |o: &mut Out, r: &mut Rng, m: &M, pool: &[R]| {
        let subs: Vec<Vec<usize>> = (0..6)
            .map(|i| {
                let n = if i == 0 { 0 } else { r.range(1, 3) };
                (0..n).map(|_| r.below(pool.len())).collect()
            })
            .collect();
        rec_meval(o, m, pool, &subs);
    };
    for ty in 1..=4u8 {
        go(o, r, &blank(ty), &pool);
        go(o, r, &blank(ty), &args);
        for p in paths {
            let mut m = blank(ty);
            m.f[0] = Some(p.as_bytes().to_vec());
            go(o, r, &m, &pool);
        }
        for n in names {
            let mut m = blank(ty);
            m.f[1] = Some(n.as_bytes().to_vec());
            m.f[3] = Some(b"a.b".to_vec());
            go(o, r, &m, &pool);
        }
        for b in buses {
            let mut m = blank(ty);
            m.f[5] = Some(b.as_bytes().to_vec());
            go(o, r, &m, &pool);
            m.f[5] = None;
            m.f[6] = Some(b.as_bytes().to_vec());
            go(o, r, &m, &pool);
        }
        for x in members {
            let mut m = blank(ty);
            m.f[2] = Some(x.as_bytes().to_vec());
            go(o, r, &m, &pool);
        }
    }
    for t in texts {
        let mut m = blank(1 + r.below(4) as u8);
        for body in [
            vec![s(t)],
            vec![V::Y(0), s(t), s("x")],
            vec![V::W(Box::new(s(t))), V::A(b"s".to_vec(), vec![s(t)]), V::R(vec![s(t)])],
            vec![s("x"), V::E(Box::new((s(t), s(t)))), s(t)],
            vec![V::W(Box::new(V::A(b"s".to_vec(), vec![s(t), s(t)]))), s(t)],
        ] {
            m.body = body;
            go(o, r, &m, &args);
        }
    }
    // every rule's text with one character another, longer one, and its prefixes
    for t in names.iter().chain(paths.iter()) {
        for i in 0..t.len() {
            for c in ["", "é", "€", "𝄞", "\0", "."] {
                for tail in [&t[i + 1..], ""] {
                    let mut m = blank(1 + r.below(4) as u8);
                    let x = format!("{}{}{}", &t[..i], c, tail);
                    m.body = vec![s(&x), s(&x)];
                    if i % 3 == 0 {
                        m.body[1] = V::O(b"/a".to_vec());
                    }
                    let some: Vec<R> = args.iter().filter(|_| r.chance(1, 4)).cloned().chain(names.iter().map(|n| rule("arg0namespace", "", n.as_bytes()))).chain(paths.iter().map(|p| rule("argpath", "0", p.as_bytes()))).collect();
                    go(o, r, &m, &some);
                }
            }
        }
    }
    for p in paths {
        let mut m = blank(1 + r.below(4) as u8);
        for body in [vec![op(p)], vec![V::U(1), op(p), op("/z")], vec![op("/x"), V::W(Box::new(op(p))), op(p)]] {
            m.body = body;
            go(o, r, &m, &args);
        }
    }
    for v in [V::G(b"s".to_vec()), V::Y(97), V::B(true), V::A(b"y".to_vec(), vec![V::Y(47), V::Y(97)])] {
        let mut m = blank(4);
        m.body = vec![v.clone(), v.clone(), v];
        go(o, r, &m, &args);
    }
    // many arguments
    for (n, same) in [(3usize, "/a"), (4, "a"), (62, "a"), (63, "a"), (64, "a"), (65, "/a"), (66, "a"), (101, "/a")] {
        let mut m = blank(4);
        m.body = (0..n).map(|i| if i % 5 == 1 { op("/a") } else { s(same) }).collect();
        let mut some = args.clone();
        for i in 55..70 {
            some.push(rule("argpath", &i.to_string(), b"/a"));
            if i < 64 {
                some.push(rule("arg", &i.to_string(), same.as_bytes()));
            }
        }
        go(o, r, &m, &some);
        // one argument differs from all others
        for _ in 0..3 {
            let mut m2 = m.clone();
            let at = r.below(n);
            m2.body[at] = s("b");
            let mut some = Vec::new();
            for i in 0..64.min(n + 2) {
                some.push(rule("arg", &i.to_string(), same.as_bytes()));
                some.push(rule("arg", &i.to_string(), b"b"));
            }
            go(o, r, &m2, &some);
        }
    }
    // long lists: all hold, or all but one
    let mut full = blank(4);
    full.f[0] = Some(b"/a/b".to_vec());
    full.f[1] = Some(b"a.b.c".to_vec());
    full.f[2] = Some(b"M".to_vec());
    full.f[5] = Some(b":1.2".to_vec());
    full.f[6] = Some(b":1.1".to_vec());
    full.body = (0..70).map(|i| if i % 4 == 3 { op("/a/b") } else { s("a.b") }).collect();
    let mut hold = vec![
        rule("type", "", b"signal"),
        rule("path", "", b"/a/b"),
        rule("path_namespace", "", b"/a"),
        rule("interface", "", b"a.b.c"),
        rule("member", "", b"M"),
        rule("sender", "", b":1.1"),
        rule("destination", "", b":1.2"),
        rule("arg0namespace", "", b"a.b"),
    ];
    for i in 0..64 {
        let t: &[u8] = if i % 4 == 3 { b"/a/b" } else { b"a.b" };
        if i % 4 != 3 {
            hold.push(rule("arg", &i.to_string(), t));
        } else {
            hold.push(rule("argpath", &i.to_string(), t));
        }
    }
    let mut fail = vec![
        rule("type", "", b"error"),
        rule("path", "", b"/a"),
        rule("path_namespace", "", b"/a/b/c"),
        rule("interface", "", b"a.b"),
        rule("member", "", b"m"),
        rule("sender", "", b":1.2"),
        rule("destination", "", b":1.1"),
        rule("arg0namespace", "", b"a.b.c"),
        rule("arg", "0", b"a"),
        rule("arg", "63", b"a"),
        rule("argpath", "3", b"/a"),
        rule("argpath", "69", b"/a"),
        rule("argpath", "4294967299", b"/a/b"),
    ];
    let nh = hold.len();
    let nf = fail.len();
    hold.append(&mut fail);
    for n in [0usize, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300] {
        let mut subs = Vec::new();
        let all: Vec<usize> = (0..n).map(|i| (i * 7 + n) % nh).collect();
        subs.push(all.clone());
        for f in 0..nf {
            // at the end, in front, somewhere
            for at in [n, 0, r.below(n + 1)] {
                if f % 3 == n % 3 || at == n {
                    let mut x = all.clone();
                    x.insert(at, nh + f);
                    subs.push(x);
                }
            }
        }
        rec_meval(o, &full, &hold, &subs);
    }
    // long values
    for b in 4..13 {
        for n in [(1usize << b) - 1, 1 << b, (1 << b) + 1] {
            let p = [&b"/"[..], &vec![b'p'; n - 1]].concat();
            let p1 = [&p[..], b"/q"].concat();
            let p2 = [&p[..], b"q"].concat();
            let mut rs = Vec::new();
            for x in [&p, &p1, &p2] {
                rs.push(rule("path", "", x));
                rs.push(rule("path_namespace", "", x));
                rs.push(rule("argpath", "0", x));
                rs.push(rule("argpath", "1", x));
                rs.push(rule("arg", "0", x));
            }
            let name = [&b"a."[..], &vec![b'n'; n.min(250) - 2]].concat();
            for x in [name.clone(), [&name[..], b".b"].concat(), [&name[..], b"b"].concat()] {
                rs.push(rule("interface", "", &x));
                rs.push(rule("arg0namespace", "", &x));
                rs.push(rule("sender", "", &x));
            }
            let unique = [&b":1."[..], &vec![b'7'; n.min(250) - 3]].concat();
            for x in [unique.clone(), [&unique[..], b"7"].concat(), [&unique[..unique.len() - 1], b"8"].concat()] {
                rs.push(rule("destination", "", &x));
                rs.push(rule("sender", "", &x));
            }
            let member = vec![b'm'; n.min(255)];
            rs.push(rule("member", "", &member));
            rs.push(rule("member", "", &member[1..]));
            rs.retain(|x| to_lib_rule(x).is_ok());
            for at in 0..4 {
                let mut m = blank(4);
                m.f[0] = Some(match at {
                    0 => p.clone(),
                    1 => p1.clone(),
                    2 => p2.clone(),
                    _ => b"/".to_vec(),
                });
                m.f[1] = Some(name.clone());
                m.f[2] = Some(member.clone());
                m.f[5] = Some(if at % 2 == 0 { unique.clone() } else { name.clone() });
                m.f[6] = Some(if at % 2 == 1 { unique.clone() } else { name.clone() });
                let (t, u) = match at {
                    0 => (V::S(p1.clone()), V::O(p1.clone())),
                    1 => (V::S([&p[..], b"/"].concat()), V::S(p.clone())),
                    2 => (V::S(name.clone()), V::S(p2.clone())),
                    _ => (V::S([&name[..], b".b.c"].concat()), V::S([&p[..p.len() - 1], b"z"].concat())),
                };
                m.body = vec![t, u];
                go(o, r, &m, &rs);
            }
        }
    }
    // values that differ a little, of any length
    for n in (3..12).chain([15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 99, 127, 128, 129, 200, 254, 255]) {
        for _ in 0..k {
            let fill = |r: &mut Rng, pre: &str, sep: u8| {
                let mut v = pre.as_bytes().to_vec();
                while v.len() < n {
                    let c = if v.len() + 1 < n && *v.last().unwrap() != sep && r.chance(1, 6) { sep } else { *r.pick(b"abcmnxyzABMZ_") };
                    v.push(c);
                }
                v
            };
            let (p, i, me, b, u, t) =
                (fill(r, "/", b'/'), fill(r, "a.b", b'.'), fill(r, "M", b'q'), fill(r, "c.d", b'.'), fill(r, ":1.", b'.'), fill(r, "t", b' '));
            let mut m = blank(4);
            m.f[0] = Some(p.clone());
            m.f[1] = Some(i.clone());
            m.f[2] = Some(me.clone());
            m.f[5] = Some(u.clone());
            m.f[6] = Some(if r.chance(1, 2) { u.clone() } else { b.clone() });
            m.body = vec![V::S(i.clone()), V::S(p.clone()), V::O(p.clone()), V::S(t.clone()), V::S([&p[..], b"/"].concat())];
            let mut rs = Vec::new();
            for (key, ix, v) in [
                ("path", "", &p), ("path_namespace", "", &p), ("interface", "", &i), ("member", "", &me), ("sender", "", &b), ("sender", "", &u),
                ("destination", "", &u), ("arg", "0", &i), ("arg", "1", &p), ("arg", "3", &t), ("argpath", "1", &p), ("argpath", "2", &p),
                ("argpath", "4", &p), ("arg0namespace", "", &i),
            ] {
                for x in near_texts(r, v, 2) {
                    rs.push(rule(key, ix, &x));
                }
            }
            rs.retain(|x| to_lib_rule(x).is_ok());
            shuffle(r, &mut rs);
            rs.truncate(320);
            go(o, r, &m, &rs);
        }
    }
    // long texts, with characters of several bytes
    for t in wide_texts(&[12, 40, 140, 300, 700]).into_iter().chain(about_powers(12, 16).into_iter().map(|n| vec![b'a'; n])) {
        let mut u = t.clone();
        u.push(b'x');
        let short: Vec<u8> = String::from_utf8(t.clone()).unwrap().chars().take(9).collect::<String>().into_bytes();
        let rs = vec![
            rule("arg", "0", &t), rule("arg", "0", &u), rule("arg", "0", &short), rule("arg", "1", &t), rule("argpath", "0", b"/a"), rule("argpath", "1", b"/a"),
            rule("argpath", "1", b"/"), rule("arg0namespace", "", b"a.b"), rule("arg", "2", &u),
        ];
        for (x, y) in [(t.clone(), [b"/", &t[..]].concat()), (u.clone(), [b"/a/", &t[..]].concat()), ([b"a.b.", &t[..]].concat(), t.clone())] {
            let mut m = blank(4);
            m.body = vec![V::S(x), V::S(y), V::S(u.clone())];
            go(o, r, &m, &rs);
        }
    }
    // random messages, rules drawn from them
    for _ in 0..(300 * k) {
        let m = gen_m(r, GP, 4);
        let mut rs = Vec::new();
        for _ in 0..24 {
            rs.push(drawn(r, &m));
        }
        go(o, r, &m, &rs);
    }
}

/// A rule that is likely to hold, or nearly to hold, of the message.
fn drawn(r: &mut Rng, m: &M) -> R {
    let near = |r: &mut Rng, v: Vec<u8>, sep: u8| {
        let mut v = v;
        match r.below(5) {
            0 => {
                if let Some(i) = v.iter().rposition(|c| *c == sep) {
                    v.truncate(i);
                }
            }
            1 => {
                v.push(sep);
                v.push(b'z');
            }
            2 => v.push(b'z'),
            _ => (),
        }
        v
    };
    let ok = |x: R| if to_lib_rule(&x).is_ok() { Some(x) } else { None };
    let i = r.below(m.body.len().max(1));
    let n = i.to_string();
    let c = match r.below(9) {
        0 => m.f[0].clone().and_then(|v| ok(rule("path", "", &near(r, v, b'/')))),
        1 => m.f[0].clone().and_then(|v| ok(rule("path_namespace", "", &near(r, v, b'/')))),
        2 => m.f[1].clone().and_then(|v| ok(rule("interface", "", &near(r, v, b'.')))),
        3 => m.f[2].clone().and_then(|v| ok(rule("member", "", &near(r, v, b'_')))),
        4 => m.f[5].clone().and_then(|v| ok(rule("destination", "", &near(r, v, b'.')))),
        5 => m.f[6].clone().and_then(|v| ok(rule("sender", "", &near(r, v, b'.')))),
        6 => match m.body.get(i) {
            Some(V::S(v)) | Some(V::O(v)) => ok(rule("arg", &n, &near(r, v.clone(), b'/'))),
            _ => None,
        },
        7 => match m.body.get(i) {
            Some(V::S(v)) | Some(V::O(v)) => ok(rule("argpath", &n, &near(r, v.clone(), b'/'))),
            _ => None,
        },
        _ => None,
    };
    c.unwrap_or_else(|| gen_rule(r))
}

pub fn replay_rules(o: &mut Out, j: &J) -> bool {
    match j.get("k").str() {
        "mtext" => rec_mtext(o, &j.get("s").bytes()),
        "mshow" => rec_mshow(o, &rs_of(j.get("rules"))),
        "meval" => replay_meval(o, j),
        _ => return false,
    }
    true
}
