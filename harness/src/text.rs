//! Names, object paths, signatures and containers.
use crate::gen::*;
use crate::js::*;
use crate::msg::{guard, head};
use crate::rng::Rng;
use crate::val::*;
use crate::Out;
use dbus_message_parser::value::*;
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::fmt::{Debug, Display};

pub const KINDS: [&str; 7] = ["interface", "error", "member", "wellknown", "unique", "bus", "path"];

/// What became of one text in one input form.
pub enum Got {
    Yes(Seen),
    No(String),
    Panic,
}
/// All the texts an accepted name shows, and what it compares equal to.
#[derive(Default, Debug)]
pub struct Seen {
    txt: BTreeSet<Vec<u8>>,
    eq: Vec<(Vec<u8>, bool)>,
    selfeq: bool,
}

fn try_name<'a, T, I>(x: I, others: &[Vec<u8>]) -> Got
where
    T: TryFrom<I> + AsRef<str> + ToString + Into<String> + PartialEq<str> + Clone + PartialEq,
    <T as TryFrom<I>>::Error: Debug + Display,
    I: 'a,
{
    let r = guard(|| match T::try_from(x) {
        Err(e) => Err(crate::says::debug(&e)),
        Ok(n) => {
            let mut s = Seen::default();
            let c = n.clone();
            s.selfeq = c == n;
            s.txt.insert(n.as_ref().as_bytes().to_vec());
            s.txt.insert(n.to_string().into_bytes());
            for o in others {
                if let Ok(t) = std::str::from_utf8(o) {
                    s.eq.push((o.clone(), n == *t));
                }
            }
            s.txt.insert(n.as_ref().as_bytes().to_vec());
            s.txt.insert(Into::<String>::into(c).into_bytes());
            s.txt.insert(Into::<String>::into(n).into_bytes());
            Ok(s)
        }
    });
    match r {
        Err(()) => Got::Panic,
        Ok(Ok(s)) => Got::Yes(s),
        Ok(Err(e)) => Got::No(e),
    }
}

/// form: 0 bytes, 1 borrowed text, 2 owned text.  None: the form cannot carry it.
pub fn name_in(kind: &str, form: usize, s: &[u8], others: &[Vec<u8>]) -> Option<Got> {
    macro_rules! go {
        ($t:ty) => {
            match form {
                0 => Some(try_name::<$t, &[u8]>(s, others)),
                1 => std::str::from_utf8(s).ok().map(|t| try_name::<$t, &str>(t, others)),
                _ => String::from_utf8(s.to_vec()).ok().map(|t| try_name::<$t, String>(t, others)),
            }
        };
    }
    match kind {
        "interface" => go!(Interface),
        "error" => go!(Error),
        "member" => go!(Member),
        "wellknown" => go!(WellKnownBusName),
        "unique" => go!(UniqueConnectionName),
        "bus" => go!(Bus),
        "path" => go!(ObjectPath),
        _ => panic!("kind {}", kind),
    }
}

/// Debug text of an error as a list of its words and numbers, outermost first.
pub fn words(e: &str) -> J {
    crate::msg::jwords(&crate::msg::split_words(e))
}

/// One text in all input forms.
pub fn rec_name(o: &mut Out, kind: &str, s: &[u8]) {
    o.about(|| obj(vec![("k", js("name")), ("t", js(kind)), ("s", jb(s))]));
    let mut others: Vec<Vec<u8>> = vec![s.to_vec(), Vec::new()];
    let mut a = s.to_vec();
    a.push(b'a');
    others.push(a);
    if !s.is_empty() {
        others.push(s[..s.len() - 1].to_vec());
        others.push(s[1..].to_vec());
        let mut a = s.to_vec();
        a[0] ^= 0x20;
        others.push(a);
        let mut a = s.to_vec();
        *a.last_mut().unwrap() ^= 1;
        others.push(a);
        let mut a = b":".to_vec();
        a.extend_from_slice(s);
        others.push(a);
        // elements fewer and more
        let seps: Vec<usize> = (0..s.len()).filter(|i| b"./:".contains(&s[*i])).collect();
        for i in seps.iter().take(3).chain(seps.iter().rev().take(2)) {
            others.push(s[..*i].to_vec());
            others.push(s[i + 1..].to_vec());
            others.push(s[*i..].to_vec());
            // other separators, other elements
            let mut a = s.to_vec();
            a[*i] = if s[*i] == b'.' { b'/' } else { b'.' };
            others.push(a);
            let mut a = s[..*i].to_vec();
            a.extend_from_slice(&s[i + 1..]);
            others.push(a);
        }
        for tail in [&b".a"[..], b"/a", b".", b"/", b"\0", b" "] {
            others.push([s, tail].concat());
        }
        others.push([s, s].concat());
        others.push(s.to_ascii_uppercase());
        others.push(s.to_ascii_lowercase());
        others.push(s.iter().rev().cloned().collect());
        let mid = s.len() / 2;
        let mut a = s.to_vec();
        a[mid] ^= 0x20;
        others.push(a);
        let mut a = s.to_vec();
        a[mid] ^= 1;
        others.push(a);
    }
    let mut acc = Vec::new();
    let mut txt = BTreeSet::new();
    let mut eq = BTreeSet::new();
    let mut why = BTreeSet::new();
    let mut selfeq = true;
    for form in 0..3 {
        match name_in(kind, form, s, &others) {
            None => acc.push(js("na")),
            Some(Got::Panic) => acc.push(js("panic")),
            Some(Got::No(e)) => {
                acc.push(js("no"));
                why.insert(e);
            }
            Some(Got::Yes(x)) => {
                acc.push(js("yes"));
                txt.extend(x.txt);
                eq.extend(x.eq);
                selfeq &= x.selfeq;
            }
        }
    }
    o.put(obj(vec![
        ("k", js("name")),
        ("t", js(kind)),
        ("s", jb(s)),
        ("acc", J::A(acc)),
        ("txt", J::A(txt.iter().map(|t| jb(t)).collect())),
        ("eq", J::A(eq.iter().map(|(t, b)| J::A(vec![jb(t), jbool(*b)])).collect())),
        ("self", jbool(selfeq)),
        ("why", J::A(why.iter().map(|e| words(e)).collect())),
    ]));
}

/// All 256 bytes between pre and suf: which are accepted, as bytes and as text.
pub fn rec_sweep(o: &mut Out, kind: &str, pre: &[u8], suf: &[u8]) {
    let mut by = Vec::new();
    let mut st = Vec::new();
    let mut diff = Vec::new();
    o.about(|| obj(vec![("k", js("sweep")), ("t", js(kind)), ("a", jb(pre)), ("b", jb(suf))]));
    o.runs += 255;
    for c in 0..=255u8 {
        let mut s = pre.to_vec();
        s.push(c);
        s.extend_from_slice(suf);
        let mut yes = Vec::new();
        for form in 0..3 {
            match name_in(kind, form, &s, &[]) {
                Some(Got::Yes(x)) => {
                    yes.push(form);
                    x.txt.iter().filter(|t| **t != s).for_each(|t| diff.push(jb(t)));
                }
                Some(Got::Panic) => diff.push(jb(b"panic")),
                _ => (),
            }
        }
        if yes.contains(&0) {
            by.push(ji(c as usize));
        }
        if yes.contains(&1) {
            st.push(ji(c as usize));
        }
        if yes.contains(&1) != yes.contains(&2) {
            diff.push(jb(b"forms"));
        }
    }
    o.put(obj(vec![
        ("k", js("sweep")),
        ("t", js(kind)),
        ("a", jb(pre)),
        ("b", jb(suf)),
        ("by", J::A(by)),
        ("st", J::A(st)),
        ("diff", J::A(diff)),
    ]));
}

/// Words over an alphabet, up to n letters.
pub fn all_words(alpha: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![Vec::new()];
    let mut from = 0;
    for _ in 0..n {
        let to = all.len();
        for i in from..to {
            for c in alpha {
                let mut w = all[i].clone();
                w.push(*c);
                all.push(w);
            }
        }
        from = to;
    }
    all
}

/// Texts of exactly n bytes for the kind (valid ones where the length allows).
fn long(kind: &str, n: usize) -> Vec<Vec<u8>> {
    let fill = |pre: &[u8]| {
        let mut v = pre.to_vec();
        while v.len() < n {
            v.push(b'a' + (v.len() % 26) as u8);
        }
        v.truncate(n);
        v
    };
    let dots = |pre: &[u8], sep: u8| {
        let mut v = pre.to_vec();
        while v.len() < n {
            v.push(if v.len() % 2 == 0 && v.len() + 1 < n { sep } else { b'x' });
        }
        v.truncate(n);
        v
    };
    match kind {
        "path" => vec![fill(b"/"), dots(b"/", b'/'), fill(b"/a/"), fill(b"/a")],
        "member" => vec![fill(b"M"), fill(b"_")],
        "unique" => vec![fill(b":1."), dots(b":1", b'.'), fill(b":a.b.")],
        "bus" => vec![fill(b":1."), fill(b"a."), dots(b":1", b'.'), dots(b"ab", b'.')],
        _ => vec![fill(b"a."), dots(b"ab", b'.'), fill(b"a.b.")],
    }
}

fn good(r: &mut Rng, kind: &str) -> Vec<u8> {
    match kind {
        "path" => gen_path(r),
        "member" => gen_member(r),
        "unique" => gen_unique(r),
        "bus" => gen_bus(r),
        "wellknown" => gen_wk(r),
        _ => gen_iface(r),
    }
}

pub const ODD: [&str; 14] = [
    "é", "ß", "İ", "日本", "\u{ff41}", "\u{0661}", "\u{200b}", "😀", "\u{7f}", "\u{0}", "\u{80}", "Å", "\u{2024}", "\u{ff0f}",
];

pub fn name_cases(o: &mut Out, r: &mut Rng, k: usize) {
    for kind in KINDS {
        let alpha: &[u8] = match kind {
            "path" => b"a0_/-.",
            "member" => b"aZ0_.-",
            _ => b"a0_-.:",
        };
        for w in all_words(alpha, if k > 1 { 5 } else { 4 }) {
            rec_name(o, kind, &w);
        }
        for n in (1..20).chain(63..66).chain(126..130).chain(250..262).chain([300, 511, 512, 513, 1000, 4096]) {
            for w in long(kind, n) {
                rec_name(o, kind, &w);
            }
        }
        for t in wide_texts(&[12, 40, 140, 300, 700]) {
            let pre = match kind {
                "path" => "/",
                "unique" => ":1.",
                "member" => "a",
                _ => "a.b",
            };
            rec_name(o, kind, &t);
            rec_name(o, kind, &[pre.as_bytes(), &t].concat());
        }
        if kind == "path" {
            for n in [8191usize, 65537] {
                rec_name(o, kind, &long(kind, n)[0]);
            }
        }
        for n in [252usize, 253, 254, 255, 256] {
            for w in long(kind, n) {
                for bad in [b'-', b'.', b'/', b' ', b':', 0xc3, 0] {
                    for p in [0, 1, n / 2, n - 2, n - 1] {
                        let mut x = w.clone();
                        x[p] = bad;
                        rec_name(o, kind, &x);
                    }
                }
                // characters of several bytes: the limit counts bytes
                let mut x = w.clone();
                x.truncate(n - 2);
                x.extend_from_slice("é".as_bytes());
                rec_name(o, kind, &x);
            }
        }
        // many elements, one of them odd
        let (lead, sep) = match kind {
            "path" => ("/", "/"),
            "unique" => (":", "."),
            _ => ("", "."),
        };
        for n in (2usize..=13).chain([16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127]) {
            for lead in if kind == "bus" { vec!["", ":"] } else { vec![lead] } {
                let e = many_elements(lead, n);
                rec_name(o, kind, e.join(sep).as_bytes());
                for odd in ["", "1", "9a", "-", "a-", "-a", "b:", ":", "/", ".", " ", "a a", "é", "\0", "a\x7f", "_", "X", "@", "[", "`", "{"] {
                    let mut at = vec![n - 1, n / 2, r.below(n)];
                    at.dedup();
                    for i in at {
                        let mut e = e.clone();
                        e[i] = if i == 0 { format!("{}{}", lead, odd) } else { odd.to_string() };
                        rec_name(o, kind, e.join(sep).as_bytes());
                    }
                }
            }
        }
        for _ in 0..400 * k {
            let mut s = good(r, kind);
            if r.chance(1, 4) {
                rec_name(o, kind, &s);
                continue;
            }
            for _ in 0..r.range(1, 3) {
                let p = r.below(s.len() + 1);
                match r.below(5) {
                    0 => s.insert(p, *r.pick(b".:/-_ 0a\0\x80\xff")),
                    1 if p < s.len() => {
                        s.remove(p);
                    }
                    2 if p < s.len() => s[p] = r.next() as u8,
                    3 => {
                        let t = *r.pick(&ODD);
                        s.splice(p..p, t.bytes());
                    }
                    _ => {
                        let t = good(r, *r.clone().pick(&KINDS));
                        s.splice(p..p, t);
                    }
                }
            }
            rec_name(o, kind, &s);
        }
        // runs of one character, elements of one character, long elements by their first character
        for c in b"abxzAQZ019_-" {
            let c = *c as char;
            let run = |n: usize| c.to_string().repeat(n);
            for n in [2usize, 3, 4, 5, 8, 9] {
                for e in [vec![run(n), "e".into()], vec!["e".into(), run(n)], vec![format!("p{}", run(n)), format!("p{}s", run(n))], vec![run(1); n], vec!["y".into(); n]] {
                    rec_name(o, kind, format!("{}{}", lead, e.join(sep)).as_bytes());
                    rec_name(o, kind, format!("{}{}", lead, e.join("")).as_bytes());
                }
            }
            for n in [15usize, 16, 31, 32, 33, 63, 64, 100] {
                let l: String = format!("{}{}", c, (1..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>());
                let t: String = format!("{}{}", l[1..].to_string(), c);
                for e in [vec![l.clone()], vec!["e".into(), l.clone()], vec![l.clone(), "e".into()], vec![t.clone()], vec!["e".into(), t.clone()], vec![l, t]] {
                    rec_name(o, kind, format!("{}{}", lead, e.join(sep)).as_bytes());
                }
            }
        }
        // names of any allowed characters, as they are and with one character exchanged
        let all: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";
        for i in 0..250 * k {
            let n = if kind == "member" { 1 } else { r.range(2, 2 + i % 9) };
            let e: Vec<Vec<u8>> = (0..n)
                .map(|_| {
                    let len = r.range(1, 1 + i % 40);
                    let mut w: Vec<u8> = (0..len).map(|_| *r.pick(if kind == "bus" || kind == "unique" || kind == "wellknown" { all } else { &all[..63] })).collect();
                    if kind != "path" && kind != "unique" && w[0].is_ascii_digit() && !r.chance(1, 30) {
                        w[0] = b'W';
                    }
                    w
                })
                .collect();
            let mut s = lead.as_bytes().to_vec();
            s.extend(e.join(sep.as_bytes()));
            rec_name(o, kind, &s);
            let p = r.below(s.len());
            s[p] = *r.pick(b" !\"#$%&'()*+,-./:;<=>?@[\\]^`{|}~\0\x01\x1f\x7f\x80\xc3\xff");
            rec_name(o, kind, &s);
        }
        for t in ODD {
            for s in [format!("{}", t), format!("a.{}", t), format!("{}.a", t), format!("/{}", t), format!(":1.{}", t), format!("a{}", t)] {
                rec_name(o, kind, s.as_bytes());
            }
        }
    }
}

pub fn sweep_cases(o: &mut Out, k: usize) {
    for kind in KINDS {
        let alpha: &[u8] = match kind {
            "path" => b"a/",
            "member" => b"a0",
            "unique" | "bus" => b"a0.:",
            _ => b"a0.",
        };
        let sufs: &[&[u8]] = match kind {
            "path" => &[b"", b"a", b"/a", b"/"],
            "member" => &[b"", b"a", b"0"],
            _ => &[b"", b"a", b".a", b"."],
        };
        for w in all_words(alpha, if k > 1 { 4 } else { 3 }) {
            for s in sufs {
                rec_sweep(o, kind, &w, s);
            }
        }
        let pre: &[u8] = match kind {
            "path" => b"/org/free",
            "member" => b"Get",
            "unique" => b":1.2",
            _ => b"org.free",
        };
        for s in [&b""[..], b"desk", b".x", b"/x"] {
            rec_sweep(o, kind, pre, s);
        }
        // every pair of a telling character and any character, at the end of short and of long names
        for c in b"-_09azAZ.:/ \0\x7f\xc3@[`{" {
            for len in if k > 1 { vec![0usize, 3, 10, 31, 200, 240] } else { vec![0, 10, 200] } {
                let mut w = pre.to_vec();
                w.extend((0..len).map(|i| b'a' + (i % 26) as u8));
                w.push(*c);
                for s in [&b""[..], b"Q", b"9"] {
                    rec_sweep(o, kind, &w, s);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ paths
/// A history over object paths: p is the current path.
///   app e    p.append(e)              -> r, text
///   new s    p = try_from(s)          -> r
///   def      p = default()
///   sw b     p.starts_with(b)         -> r
///   strip b  p.strip_prefix_elements  -> [] or [[elements]]
pub fn rec_path(o: &mut Out, ops: &[(String, Vec<u8>)]) {
    let mk = |ops: &[(String, Vec<u8>)]| {
        J::A(ops.iter().map(|(c, a)| obj(vec![("o", js(c)), ("a", jb(a))])).collect::<Vec<_>>())
    };
    o.about(|| obj(vec![("k", js("path")), ("ops", mk(ops))]));
    let mut p = ObjectPath::default();
    let mut out = Vec::new();
    for (c, a) in ops {
        let t = String::from_utf8(a.clone());
        let mut strip = J::A(vec![]);
        let r = match c.as_str() {
            "app" => match t {
                Ok(t) => guard(|| {
                    let mut q = p.clone();
                    let r = q.append(&t);
                    (r, q)
                })
                .map(|(r, q)| {
                    p = q;
                    r
                }),
                Err(_) => panic!("append takes text"),
            },
            "new" => guard(|| ObjectPath::try_from(&a[..])).map(|x| match x {
                Ok(q) => {
                    p = q;
                    true
                }
                Err(_) => false,
            }),
            "def" => {
                p = ObjectPath::default();
                Ok(true)
            }
            "sw" => {
                let b = ObjectPath::try_from(&a[..]).expect("base");
                guard(|| p.starts_with(&b))
            }
            "strip" => {
                let b = ObjectPath::try_from(&a[..]).expect("base");
                guard(|| p.strip_prefix_elements(&b).map(|x| x.map(|s| s.to_string()).collect::<Vec<_>>())).map(|x| match x {
                    Some(v) => {
                        strip = J::A(vec![J::A(v.iter().map(|s| jb(s.as_bytes())).collect())]);
                        true
                    }
                    None => false,
                })
            }
            _ => panic!("op {}", c),
        };
        let txt: &str = p.as_ref();
        out.push(obj(vec![
            ("r", match r {
                Ok(b) => jbool(b),
                Err(()) => J::I(-1),
            }),
            ("t", jb(txt.as_bytes())),
            ("x", strip),
        ]));
    }
    o.put(obj(vec![("k", js("path")), ("ops", mk(ops)), ("out", J::A(out))]));
}

pub fn path_ops_of(j: &J) -> Vec<(String, Vec<u8>)> {
    j.arr().iter().map(|x| (x.get("o").str().to_string(), x.get("a").bytes())).collect()
}

pub fn path_cases(o: &mut Out, r: &mut Rng, k: usize) {
    let op = |c: &str, a: &[u8]| (c.to_string(), a.to_vec());
    // every path against every base, over elements that share beginnings
    let els = ["a", "b", "ab", "a_", "A"];
    let mut paths: Vec<String> = vec!["/".into()];
    let mut from = 0;
    for _ in 0..2 {
        let to = paths.len();
        for i in from..to {
            for e in els {
                let p = if paths[i] == "/" { format!("/{}", e) } else { format!("{}/{}", paths[i], e) };
                paths.push(p);
            }
        }
        from = to;
    }
    for p in ["/a/b/ab", "/a/b/a", "/a/a/a", "/a/a/a/a", "/ab/ab/ab", "/a/b/a/b", "/a/b/a/b/a", "/b/a/b/a"] {
        paths.push(p.to_string());
    }
    for p in &paths {
        let mut ops = vec![op("new", p.as_bytes())];
        for b in &paths {
            ops.push(op("sw", b.as_bytes()));
            ops.push(op("strip", b.as_bytes()));
        }
        rec_path(o, &ops);
    }
    // long paths
    for n in [1usize, 2, 10, 100, 300] {
        let mut s = String::new();
        for i in 0..n {
            s += &format!("/e{}", i);
        }
        let mut ops = vec![op("new", s.as_bytes())];
        let mut b = String::new();
        ops.push(op("strip", b"/"));
        for i in 0..n + 1 {
            b += &format!("/e{}", i);
            if n <= 10 || i % 37 == 0 || i + 2 >= n {
                ops.push(op("sw", b.as_bytes()));
                ops.push(op("strip", b.as_bytes()));
            }
        }
        ops.push(op("app", b"x"));
        rec_path(o, &ops);
    }
    // long elements, whole paths of any length
    for b in 4..13 {
        for n in [(1usize << b) - 1, 1 << b, (1 << b) + 1] {
            let long = vec![b'e'; n];
            let path = [&b"/a/"[..], &long, b"/b"].concat();
            let end = path[..path.len() - 2].to_vec();
            let near = path[..path.len() - 3].to_vec();
            let bad = [&long[..n - 1], b"-"].concat();
            rec_path(o, &[op("def", b""), op("app", &long), op("app", b"x"), op("app", &long), op("strip", b"/"), op("app", &bad), op("app", b"y")]);
            rec_path(
                o,
                &[op("new", &path), op("sw", &end), op("sw", &near), op("strip", &end), op("strip", &near), op("strip", b"/a"), op("strip", b"/"),
                  op("app", &long), op("sw", &path), op("strip", &path)],
            );
            if n < 700 {
                let many = "/q".repeat(n);
                let most = "/q".repeat(n - 1);
                rec_path(o, &[op("new", many.as_bytes()), op("strip", most.as_bytes()), op("sw", most.as_bytes()), op("app", b"q"), op("sw", many.as_bytes()), op("strip", b"/q"), op("strip", b"/")]);
            }
        }
    }
    // something wrong, or merely a new element, far into a path
    for n in about_powers(4, 11).into_iter().chain([20, 40, 100]) {
        for at in [n - 2, n - 1, n, n + 1] {
            for what in ["/", "//", "-", "_", "/-", "/_", "//a", "/a", ".", "/0/0", "\u{e9}"] {
                if at % 2 == 1 && r.chance(1, 2) && n > 300 {
                    continue;
                }
                let mut t = b"/".to_vec();
                while t.len() < at {
                    t.push(if t.len() % 50 == 49 && t.len() + 1 < at { b'/' } else { b'k' });
                }
                t.extend_from_slice(what.as_bytes());
                let mut u = t.clone();
                u.extend_from_slice(b"/tail");
                let e = t[1..].iter().copied().filter(|c| *c != b'/').collect::<Vec<u8>>();
                rec_path(o, &[op("new", &t), op("new", b"/s"), op("app", &e), op("new", &u), op("new", b"/s"), op("app", &u[1..]), op("sw", b"/s")]);
            }
        }
    }
    // every byte as an element, alone and inside
    for c in 0..128u8 {
        for e in [vec![c], vec![b'a', c], vec![c, b'a'], vec![b'a', c, b'a']] {
            for s in [&b"/"[..], b"/q"] {
                rec_path(o, &[op("new", s), op("app", &e), op("app", b"z"), op("app", &e)]);
            }
        }
    }
    for t in ODD {
        rec_path(o, &[op("def", b""), op("app", t.as_bytes()), op("app", format!("a{}", t).as_bytes()), op("sw", b"/")]);
    }
    for t in wide_texts(&[12, 40, 140, 300]) {
        rec_path(o, &[op("new", b"/q"), op("app", &t), op("app", &[b"aaa", &t[..]].concat()), op("app", b"z")]);
    }
    for e in ["", "/", "//", "a/b", "/a", "a/", ".", "..", "-", " ", "a b", "\0", "é"] {
        rec_path(o, &[op("def", b""), op("app", e.as_bytes()), op("app", b"a"), op("app", e.as_bytes()), op("strip", b"/a"), op("app", b"b")]);
    }
    // random histories
    for _ in 0..300 * k {
        let mut ops = Vec::new();
        for _ in 0..r.range(3, 14) {
            let b = if r.chance(1, 2) { r.pick(&paths).clone().into_bytes() } else { gen_path(r) };
            ops.push(match r.below(9) {
                0 => op("new", &b),
                1 => {
                    let mut x = b.clone();
                    let p = r.below(x.len() + 1);
                    x.insert(p, *r.pick(b"/a.-_\xff"));
                    op("new", &x)
                }
                2 if r.chance(1, 3) => op("def", b""),
                3 => op("sw", &b),
                4 => op("strip", &b),
                5 => op("app", &gen_text(r, 6)),
                _ => op("app", els[r.below(els.len())].as_bytes()),
            });
        }
        rec_path(o, &ops);
    }
}

// -------------------------------------------------------------- signatures
fn why_of(e: &TypeError) -> J {
    words(&crate::says::debug(e))
}

/// A signature text through every parser and printer.
pub fn rec_sig(o: &mut Out, s: &[u8]) {
    o.about(|| obj(vec![("k", js("sig")), ("s", jb(s))]));
    let show = |v: &Vec<Type>| -> J {
        let pr = match guard(|| Type::from_signature_to_string(v)) {
            Ok(Ok(t)) => J::A(vec![jb(t.as_bytes())]),
            Ok(Err(_)) => J::A(vec![]),
            Err(()) => J::A(vec![jb(b"panic")]),
        };
        let disp: String = v.iter().map(|t| t.to_string()).collect();
        obj(vec![
            ("st", jb(&print_types(v))),
            ("pr", pr),
            ("disp", jb(disp.as_bytes())),
            ("al", J::A(v.iter().map(|t| ji(t.get_alignment())).collect())),
            ("sts", J::A(v.iter().map(|t| jb(&print_types(std::slice::from_ref(t)))).collect())),
        ])
    };
    let case = |r: Result<Result<Vec<Type>, TypeError>, ()>| -> J {
        match r {
            Err(()) => obj(vec![("st", js("panic"))]),
            Ok(Err(e)) => obj(vec![("st", js("err")), ("why", why_of(&e))]),
            Ok(Ok(v)) => obj(vec![("st", js("ok")), ("v", show(&v))]),
        }
    };
    let mut r = vec![
        case(guard(|| Type::from_bytes_to_signature(s))),
        case(guard(|| Type::try_from(s).map(|t| vec![t]))),
    ];
    if let Ok(t) = std::str::from_utf8(s) {
        r.push(case(guard(|| Type::from_string_to_signature(t))));
        r.push(case(guard(|| Type::try_from(t).map(|t| vec![t]))));
    }
    o.put(obj(vec![("k", js("sig")), ("s", jb(s)), ("r", J::A(r))]));
}

/// All 256 bytes between pre and suf.
pub fn rec_sigsweep(o: &mut Out, pre: &[u8], suf: &[u8]) {
    o.about(|| obj(vec![("k", js("sigsweep")), ("a", jb(pre)), ("b", jb(suf))]));
    o.runs += 255;
    let mut sg = Vec::new();
    let mut one = Vec::new();
    let mut diff = Vec::new();
    for c in 0..=255u8 {
        let mut s = pre.to_vec();
        s.push(c);
        s.extend_from_slice(suf);
        match guard(|| Type::from_bytes_to_signature(&s)) {
            Ok(Ok(v)) => {
                sg.push(ji(c as usize));
                if print_types(&v) != s {
                    diff.push(jb(&print_types(&v)));
                }
            }
            Ok(Err(_)) => (),
            Err(()) => diff.push(jb(b"panic")),
        }
        match guard(|| Type::try_from(&s[..])) {
            Ok(Ok(v)) => {
                one.push(ji(c as usize));
                if print_types(std::slice::from_ref(&v)) != s {
                    diff.push(jb(&print_types(std::slice::from_ref(&v))));
                }
            }
            Ok(Err(_)) => (),
            Err(()) => diff.push(jb(b"panic")),
        }
    }
    o.put(obj(vec![
        ("k", js("sigsweep")),
        ("a", jb(pre)),
        ("b", jb(suf)),
        ("sg", J::A(sg)),
        ("one", J::A(one)),
        ("diff", J::A(diff)),
    ]));
}

/// Types given as own text (may be inexpressible): printed, and encoded as a
/// value of type signature.
pub fn rec_type(o: &mut Out, s: &[u8]) {
    o.about(|| obj(vec![("k", js("type")), ("s", jb(s))]));
    let v = types_of(s).expect("harness: types");
    let pr = match guard(|| Type::from_signature_to_string(&v)) {
        Ok(Ok(t)) => obj(vec![("st", js("ok")), ("t", jb(t.as_bytes()))]),
        Ok(Err(e)) => obj(vec![("st", js("err")), ("why", why_of(&e))]),
        Err(()) => obj(vec![("st", js("panic"))]),
    };
    let mut m = dbus_message_parser::message::Message::signal(
        ObjectPath::try_from("/a").unwrap(),
        Interface::try_from("a.b").unwrap(),
        Member::try_from("M").unwrap(),
    );
    m.add_value(Value::Signature(v.clone()));
    let en = match guard(|| m.encode()) {
        Ok(Ok(_)) => js("ok"),
        Ok(Err(_)) => js("err"),
        Err(()) => js("panic"),
    };
    // printing and parsing again
    let back = match guard(|| Type::from_signature_to_string(&v).map(|t| Type::from_string_to_signature(&t))) {
        Ok(Ok(Ok(w))) => J::A(vec![jbool(w == v)]),
        Ok(Ok(Err(_))) => J::A(vec![J::I(-1)]),
        Ok(Err(_)) => J::A(vec![]),
        Err(()) => J::A(vec![J::I(-2)]),
    };
    let disp = match guard(|| v.iter().map(|t| t.to_string()).collect::<String>()) {
        Ok(t) => jb(t.as_bytes()),
        Err(()) => jb(b"panic!"),
    };
    let al = J::A(v.iter().map(|t| ji(t.get_alignment())).collect());
    o.put(obj(vec![
        ("k", js("type")),
        ("s", jb(s)),
        ("pr", pr),
        ("enc", en),
        ("back", back),
        ("disp", disp),
        ("al", al),
    ]));
}

fn nest(open: &[u8], n: usize, mid: &[u8], close: &[u8]) -> Vec<u8> {
    let mut s = Vec::new();
    (0..n).for_each(|_| s.extend_from_slice(open));
    s.extend_from_slice(mid);
    (0..n).for_each(|_| s.extend_from_slice(close));
    s
}

/// Texts about the limits.
pub fn limit_sigs() -> Vec<Vec<u8>> {
    limit_sigs_of(&[1usize, 2, 15, 16, 30, 31, 32, 33, 34, 40, 64, 84, 85, 100, 127, 128, 200, 254, 255, 256, 300])
}
fn limit_sigs_of(ns: &[usize]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for &n in ns {
        v.push(vec![b'y'; n]);
        v.push(nest(b"a", n, b"y", b""));
        v.push(nest(b"(", n, b"y", b")"));
        v.push(nest(b"{y", n, b"y", b"}"));
        v.push(nest(b"{", n, b"y", b"y}"));
        v.push(nest(b"a(", n, b"y", b")"));
        v.push(nest(b"a{y", n, b"y", b"}"));
        v.push(nest(b"({y", n, b"y", b"})"));
        v.push(nest(b"(a", n, b"v", b")"));
        v.push(nest(b"(y", n, b"t", b"q)"));
        v.push(nest(b"(", n, b"", b")"));
        v.push(nest(b"(", n, b"y", b""));
        v.push(nest(b"a", n, b"", b""));
        v.push(nest(b"{y", n, b"", b""));
        // the limits count per branch: a deep one after a deep one
        let mut s = nest(b"a", n, b"y", b"");
        s.extend(nest(b"a", n, b"y", b""));
        v.push(s);
        let mut s = b"(".to_vec();
        s.extend(nest(b"a", n, b"y", b""));
        s.extend(nest(b"a", n, b"y", b""));
        s.push(b')');
        v.push(s);
        let mut s = b"(".to_vec();
        s.extend(nest(b"(", n, b"y", b")"));
        s.extend(nest(b"(", n, b"y", b")"));
        s.push(b')');
        v.push(s);
        let mut s = b"a{y".to_vec();
        s.extend(nest(b"{y", n, b"y", b"}"));
        s.push(b'}');
        v.push(s);
        if n <= 40 {
            v.push(nest(b"a", n, &nest(b"(", n, &nest(b"{y", n, b"y", b"}"), b")"), b""));
            v.push(nest(b"a", 32, &nest(b"(", 32, &nest(b"{y", n, b"y", b"}"), b")"), b""));
            v.push(nest(b"a", 32, &nest(b"(", n, &nest(b"{y", 32, b"y", b"}"), b")"), b""));
            v.push(nest(b"a", n, &nest(b"(", 32, &nest(b"{y", 32, b"y", b"}"), b")"), b""));
            v.push(nest(b"(", 32, &nest(b"a", n, b"y", b""), b")"));
        }
    }
    v
}

/// Every pair of basic types in many surroundings.
fn letter_sigs() -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let shapes = [
        "((y))@#", "(@(y)#)", "((@))#", "((y)@)#", "(@)#", "a(@)#", "a{@#}", "a{y@}#", "a{y(@)}#", "a{y(@#)}", "a{ya{@#}}y", "aa@#", "(a@)#",
        "(aa@#)", "@(#)", "@a#", "v@v#", "(v@#)", "a{@v}#", "((@)(#))", "(((@)))#", "a(a(@))#", "@@@#", "@#@#@#@#", "a@a#a@", "(@#)(@#)",
        "a{@a#}", "a{@(#)}", "a{@a{#y}}", "@@@@@@@@#",
    ];
    for t in shapes {
        for c in b"ybnqiuxtdsoghv" {
            for d in b"ybnqiuxtdsoghv" {
                if t.len() > 5 && (*c as usize * 7 + *d as usize + t.len()) % 3 != 0 && c != d {
                    continue;
                }
                v.push(t.bytes().map(|x| if x == b'@' { *c } else if x == b'#' { *d } else { x }).collect());
            }
        }
    }
    v
}

/// The last level of nesting, in a late field of a struct.
fn late_depth_sigs(k: usize) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for n in if k > 1 { vec![0usize, 1, 2, 3, 7, 8, 11, 12, 15, 16, 20, 31, 32, 33, 64, 100, 120] } else { vec![0, 1, 3, 8, 16, 33, 64, 120] } {
        for p in [0usize, 1, 16, 31] {
            for q in [31 - p, 32 - p, 33 - p] {
                let ys = "y".repeat(n);
                v.push(format!("{}({}{}y)", "a".repeat(p), ys, "a".repeat(q)));
                v.push(format!("{}({}{}y)s", "a".repeat(p), ys, "a".repeat(q)));
                v.push(format!("{}{}{}y{}{}", "(".repeat(p), ys, "(".repeat(q), ")".repeat(q), ")".repeat(p)));
                v.push(format!("{}({}{}y{}){}", "{y".repeat(p), ys, "{y".repeat(q), "}".repeat(q), "}".repeat(p)));
                v.push(format!("a{{y{}({}{}y)}}", "a".repeat(p), ys, "a".repeat(q.max(1) - 1)));
                v.push(format!("{}{}{}y{}", ys, "a".repeat(p), "a".repeat(q), ys));
            }
        }
    }
    v.into_iter().map(|x| x.into_bytes()).collect()
}

pub fn sig_cases(o: &mut Out, r: &mut Rng, k: usize) {
    for w in all_words(b"ya(){}v", 4) {
        rec_sig(o, &w);
    }
    for w in all_words(b"a()", 6) {
        rec_sig(o, &w);
    }
    for w in all_words(b"y{}", 6) {
        rec_sig(o, &w);
    }
    for s in limit_sigs() {
        rec_sig(o, &s);
    }
    for c in b"ybnqiuxtdsoghv" {
        for d in b"ybnqiuxtdsoghv" {
            for s in [vec![*c, *d], vec![b'(', *c, *d, b')'], vec![b'a', b'{', *c, *d, b'}'], vec![b'a', *c, b'a', *d]] {
                rec_sig(o, &s);
            }
        }
    }
    for _ in 0..700 * k {
        let s = deep_sig(r);
        rec_sig(o, &s);
    }
    for _ in 0..800 * k {
        let mut s = one_sig(r, GP);
        for _ in 0..r.below(4) {
            s.extend(one_sig(r, GP));
        }
        if r.chance(1, 2) {
            rec_sig(o, &s);
        }
        for _ in 0..r.range(1, 2) {
            let p = r.below(s.len() + 1);
            match r.below(4) {
                0 => s.insert(p, *r.pick(b"()a{}yvzr e\0\x80")),
                1 if p < s.len() => {
                    s.remove(p);
                }
                2 if p < s.len() => s[p] = *r.pick(b"()a{}yv"),
                _ => {
                    let t = one_sig(r, GP);
                    s.splice(p..p, t);
                }
            }
        }
        rec_sig(o, &s);
    }
    for t in letter_sigs() {
        rec_sig(o, &t);
    }
    for t in late_depth_sigs(k) {
        rec_sig(o, &t);
    }
    for t in wide_texts(&[12, 40, 140, 300]) {
        rec_sig(o, &t);
        rec_sig(o, &[b"a{s", &t[..]].concat());
    }
    for n in about_powers(9, 16) {
        for c in [&b"y"[..], b"a", b"(", b"a{sv}"] {
            rec_sig(o, &c.repeat(n));
        }
    }
    // near 255 bytes
    for n in 245..262 {
        for _ in 0..2 {
            let mut s = Vec::new();
            while s.len() < n {
                let t = one_sig(r, GP);
                if s.len() + t.len() <= n {
                    s.extend(t);
                } else {
                    s.push(b'y');
                }
            }
            rec_sig(o, &s);
        }
        let mut s = vec![b'('];
        s.resize(n - 1, b'y');
        s.push(b')');
        rec_sig(o, &s);
    }
    for w in all_words(b"ya({", 2) {
        for s in [&b""[..], b"y", b"y)", b"y}", b")", b"}"] {
            rec_sigsweep(o, &w, s);
        }
    }
}

/// Texts of types, expressible in a signature or not.
fn type_texts(r: &mut Rng, k: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = Vec::new();
    for s in limit_sigs() {
        if types_of(&s).is_some() {
            all.push(s.clone());
        }
    }
    for w in all_words(b"ya(){}", 4) {
        if types_of(&w).is_some() {
            all.push(w.clone());
        }
    }
    for s in [&b"()"[..], b"a()", b"(())", b"(y())", b"{()y}", b"{y()}", b"a{s()}", b"y()y", b"(a())", b"((y)())"] {
        all.push(s.to_vec());
    }
    for c in b"ybnqiuxtdsoghv" {
        for s in [vec![*c], vec![b'a', *c], vec![b'(', *c, b')'], vec![b'a', b'{', *c, b'v', b'}'], vec![b'a', b'a', *c]] {
            all.push(s.clone());
        }
    }
    for n in 240..270 {
        all.push(vec![b'y'; n]);
        let mut s = vec![b'('];
        s.resize(n - 1, b'y');
        s.push(b')');
        all.push(s.clone());
        let mut s = b"ay".to_vec();
        s.resize(n - 4, b'u');
        s.extend_from_slice(b"(yv)");
        all.push(s.clone());
    }
    for _ in 0..k {
        let mut s = one_sig(r, GP);
        for _ in 0..r.below(4) {
            s.extend(one_sig(r, GP));
        }
        if r.chance(1, 4) {
            let p = (0..=s.len()).filter(|p| {
                let mut x = s.clone();
                x.splice(*p..*p, b"()".iter().cloned());
                types_of(&x).is_some()
            }).collect::<Vec<_>>();
            let p = *r.pick(&p);
            s.splice(p..p, b"()".iter().cloned());
        }
        all.push(s.clone());
    }
    all
}

pub fn type_cases(o: &mut Out, r: &mut Rng, k: usize) {
    for s in type_texts(r, 300 * k) {
        rec_type(o, &s);
    }
}

/// Names, signatures, types and containers about the limits.
pub fn limit_texts(o: &mut Out, r: &mut Rng, k: usize) {
    for kind in KINDS {
        let mut ns: Vec<usize> = (246..264).collect();
        ns.extend([1, 128, 511, 512, 1000, 4096]);
        for n in ns {
            for s in long(kind, n) {
                rec_name(o, kind, &s);
                if n >= 250 && n < 260 {
                    let mut x = s.clone();
                    let p = r.below(n);
                    x[p] = *r.pick(b".-_:/0");
                    rec_name(o, kind, &x);
                }
            }
        }
    }
    for n in 248..260usize {
        for _ in 0..4 * k {
            let mut s = Vec::new();
            while s.len() < n {
                let t = one_sig(r, GP);
                if s.len() + t.len() <= n {
                    s.extend(t);
                } else {
                    s.push(b'y');
                }
            }
            rec_sig(o, &s);
            rec_type(o, &s);
        }
    }
    for s in limit_sigs_of(if k > 1 { &[31, 32, 33, 63, 64, 127, 128, 253, 254, 255, 256, 257] } else { &[31, 32, 33, 255, 256] }) {
        rec_sig(o, &s);
        if types_of(&s).is_some() {
            rec_type(o, &s);
        }
    }
    for b in crate::wire::limit_bodies() {
        if b.len() > 3 {
            continue;
        }
        for v in b {
            rec_vty(o, &v);
        }
    }
}

/// Texts of types most of which have no signature.
pub fn bad_types(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let mut v = type_texts(r, 60);
    v.retain(|s| s.len() > 240 || s.windows(2).any(|w| w == b"()") || s.len() > 60);
    let mut u: Vec<Vec<u8>> = Vec::new();
    for _ in 0..n.min(v.len()) {
        u.push(r.pick(&v).clone());
    }
    u
}

// -------------------------------------------------------------- containers
/// Array::new of the values with the element type; what it holds afterwards.
pub fn rec_arr(o: &mut Out, elem: &[u8], vs: &[V]) {
    let case = || vec![("k", js("arr")), ("a", jb(elem)), ("m", toks_of(vs))];
    o.about(|| obj(case()));
    let libs: Vec<Value> = match vs.iter().map(to_lib).collect() {
        Ok(x) => x,
        Err(_) => return, // an element that cannot be built itself
    };
    let t = type_of(elem).expect("harness: type");
    let r = guard(|| match Array::new(libs.clone(), t.clone()) {
        Err(e @ ArrayError::TypeMismatch(..)) if crate::says::open() => js(&crate::says::debug(&e)),
        Err(ArrayError::TypeMismatch(x, y)) => obj(vec![
            ("st", js("err")),
            ("why", J::A(vec![js("TypeMismatch")])),
            ("xy", J::A(vec![jb(&print_types(&[x])), jb(&print_types(&[y]))])),
        ]),
        Err(e) => obj(vec![("st", js("err")), ("why", words(&crate::says::debug(&e)))]),
        Ok(a) => {
            let mut te = Vec::new();
            print_type(a.get_type(), &mut te);
            let held: Vec<V> = a.as_ref().iter().map(from_lib).collect();
            let ty = match Value::Array(a.clone()).get_type() {
                Ok(t) => J::A(vec![jb(&print_types(std::slice::from_ref(&t)))]),
                Err(_) => J::A(vec![]),
            };
            let out: Vec<Value> = a.into();
            let out: Vec<V> = out.iter().map(from_lib).collect();
            obj(vec![("st", js("ok")), ("e", jb(&te)), ("h", toks_of(&held)), ("o", toks_of(&out)), ("ty", ty)])
        }
    })
    .unwrap_or_else(|()| obj(vec![("st", js("panic"))]));
    let mut c = case();
    c.push(("r", r));
    o.put(obj(c));
}

pub fn rec_struct(o: &mut Out, vs: &[V]) {
    let case = || vec![("k", js("str")), ("m", toks_of(vs))];
    o.about(|| obj(case()));
    let libs: Vec<Value> = match vs.iter().map(to_lib).collect() {
        Ok(x) => x,
        Err(_) => return,
    };
    let r = guard(|| match Struct::try_from(libs.clone()) {
        Err(e) => obj(vec![("st", js("err")), ("why", words(&crate::says::debug(&e)))]),
        Ok(a) => {
            let held: Vec<V> = a.as_ref().iter().map(from_lib).collect();
            let ty = match Value::Struct(a.clone()).get_type() {
                Ok(t) => J::A(vec![jb(&print_types(std::slice::from_ref(&t)))]),
                Err(_) => J::A(vec![]),
            };
            let out: Vec<Value> = a.into();
            let out: Vec<V> = out.iter().map(from_lib).collect();
            obj(vec![("st", js("ok")), ("h", toks_of(&held)), ("o", toks_of(&out)), ("ty", ty)])
        }
    })
    .unwrap_or_else(|()| obj(vec![("st", js("panic"))]));
    let mut c = case();
    c.push(("r", r));
    o.put(obj(c));
}

/// The type a value reports.
pub fn rec_vty(o: &mut Out, v: &V) {
    let case = || vec![("k", js("vty")), ("m", toks_of(std::slice::from_ref(v)))];
    o.about(|| obj(case()));
    let l = match guard(|| to_lib(v)) {
        Ok(Ok(l)) => l,
        Ok(Err(_)) => {
            let mut c = case();
            c.push(("r", obj(vec![("st", js("build"))])));
            return o.put(obj(c));
        }
        Err(()) => {
            let mut c = case();
            c.push(("r", obj(vec![("st", js("panic"))])));
            return o.put(obj(c));
        }
    };
    let r = match guard(|| l.get_type()) {
        Ok(Ok(t)) => obj(vec![("st", js("ok")), ("ty", jb(&print_types(&[t])))]),
        Ok(Err(e)) => obj(vec![("st", js("err")), ("why", why_of(&e))]),
        Err(()) => obj(vec![("st", js("panic"))]),
    };
    let mut c = case();
    c.push(("r", r));
    o.put(obj(c));
}

/// One value of each type.
fn zoo() -> Vec<V> {
    let mut z = crate::wire::basics();
    z.extend(crate::wire::containers());
    z.extend(crate::wire::shapes());
    let mut seen = std::collections::HashSet::new();
    z.retain(|v| seen.insert(v.sig()));
    z
}

pub fn cont_cases(o: &mut Out, r: &mut Rng, k: usize) {
    let zoo = zoo();
    // every element type against every value
    let small: Vec<V> = zoo.iter().filter(|v| v.sig().len() <= 6).cloned().collect();
    for a in &small {
        for b in &small {
            let s = a.sig();
            rec_arr(o, &s, std::slice::from_ref(b));
            if r.chance(1, 4) {
                let p = r.below(4);
                let mut v = vec![a.clone(); 3];
                v.insert(p, b.clone());
                rec_arr(o, &s, &v);
            }
        }
    }
    // siblings: the same construct about different types
    let inner: Vec<V> = ["y", "n", "u", "t", "b", "d", "s", "o", "g", "h", "v", "ay", "an", "as", "aay", "av", "(y)", "(yu)", "((y))", "a{yy}", "a{ys}", "a(y)"]
        .iter()
        .map(|t| val_of(r, GP, t.as_bytes(), 3))
        .collect();
    type Wrap = fn(V) -> V;
    let wraps: [Wrap; 10] = [
        |v| V::A(v.sig(), vec![]),
        |v| V::A(v.sig(), vec![v]),
        |v| V::R(vec![V::Y(1), v]),
        |v| V::R(vec![v, V::Y(1)]),
        |v| V::E(Box::new((V::Y(1), v))),
        |v| V::E(Box::new((v, V::Y(1)))),
        |v| V::E(Box::new((V::Y(1), V::A(v.sig(), vec![])))),
        |v| V::E(Box::new((V::Y(1), V::R(vec![v])))),
        |v| V::R(vec![V::A(v.sig(), vec![])]),
        |v| V::A(V::A(v.sig(), vec![]).sig(), vec![V::A(v.sig(), vec![])]),
    ];
    for w in wraps {
        for a in &inner {
            for b in &inner {
                let (x, y) = (w(a.clone()), w(b.clone()));
                let s = if r.chance(4, 5) { x.sig() } else { y.sig() };
                match r.below(4) {
                    0 => rec_arr(o, &s, &[x, y]),
                    1 => rec_arr(o, &s, &[x.clone(), x, y]),
                    2 => rec_arr(o, &s, &[x.clone(), y, x]),
                    _ => rec_arr(o, &s, &[x.clone(), x.clone(), x.clone(), y, x]),
                }
            }
        }
    }
    for a in &zoo {
        let s = a.sig();
        rec_arr(o, &s, &[]);
        rec_arr(o, &s, &[a.clone(), a.clone()]);
        rec_struct(o, &[a.clone()]);
        rec_struct(o, &[a.clone(), V::Y(1), a.clone()]);
        rec_vty(o, a);
        rec_vty(o, &V::W(Box::new(a.clone())));
        rec_vty(o, &V::E(Box::new((V::Y(1), a.clone()))));
    }
    rec_struct(o, &[]);
    rec_arr(o, b"()", &[]);
    rec_arr(o, b"a()", &[]);
    // the odd one out, in every position of long arrays
    for n in [1usize, 2, 3, 7, 16, 17, 64, 257] {
        for p in 0..n {
            if n > 8 && p % 7 != 0 && p + 1 != n {
                continue;
            }
            let mut v = vec![V::U(1); n];
            v[p] = V::I(1);
            rec_arr(o, b"u", &v);
            let mut v = vec![V::R(vec![V::Y(1), V::S(b"x".to_vec())]); n];
            v[p] = V::R(vec![V::Y(1), V::O(b"/x".to_vec())]);
            rec_arr(o, b"(ys)", &v);
            let mut v = vec![V::A(b"y".to_vec(), vec![]); n];
            v[p] = V::A(b"n".to_vec(), vec![]);
            rec_arr(o, b"ay", &v);
        }
        rec_arr(o, b"v", &(0..n).map(|i| V::W(Box::new(zoo[i % zoo.len()].clone()))).collect::<Vec<_>>());
        rec_struct(o, &(0..n).map(|i| zoo[i % zoo.len()].clone()).collect::<Vec<_>>());
    }
    // ... and of arrays that are longer than any fixed limit one might think of
    for n in about_powers(9, if k > 1 { 15 } else { 13 }) {
        for (i, p) in [n - 1, n - 2, r.below(n), n].into_iter().enumerate() {
            let (g, b) = match (n + i) % 3 {
                0 => (V::U(1), V::I(1)),
                1 => (V::Y(1), V::T(1)),
                _ => (V::B(true), V::Y(1)),
            };
            let mut v = vec![g.clone(); n];
            if p < n {
                v[p] = b;
            }
            rec_arr(o, &g.sig(), &v);
        }
    }
    // nesting up to and beyond the limits
    for n in [1usize, 2, 31, 32, 33, 34, 40, 100] {
        let mut x = V::Y(1);
        let mut y = V::T(1);
        let mut z = V::Y(2);
        let mut w = V::Y(3);
        for _ in 0..n {
            x = V::A(x.sig(), vec![x]);
            y = V::R(vec![V::Y(3), y]);
            z = V::E(Box::new((V::Y(4), z)));
            w = V::W(Box::new(w));
        }
        for v in [x, y, z, w] {
            rec_vty(o, &v);
            rec_vty(o, &V::R(vec![v.clone()]));
            rec_vty(o, &V::W(Box::new(v.clone())));
            rec_arr(o, &v.sig(), &[v.clone()]);
            rec_struct(o, &[v.clone(), v.clone()]);
        }
    }
    // random
    for _ in 0..500 * k {
        let s = one_sig(r, GP);
        let mut vs: Vec<V> = (0..r.below(5)).map(|_| val_of(r, GP, &s, 12)).collect();
        if r.chance(1, 3) && !vs.is_empty() {
            // exchange one for a value of a similar type
            let mut t = s.clone();
            let p = r.below(t.len());
            t[p] = *r.pick(b"ybnqiuxtdsoghv");
            if types_of(&t).map(|x| x.len()) == Some(1) && type_of(&t).is_some() {
                let p = r.below(vs.len());
                vs[p] = val_of(r, GP, &t, 12);
            }
        }
        rec_arr(o, &s, &vs);
        rec_vty(o, &val_of(r, GP, &s, 12));
        let b = gen_body(r, GP, 5);
        rec_struct(o, &b);
    }
}

#[allow(dead_code)]
pub fn err_head<T: Debug>(e: &T) -> String {
    head(e)
}
