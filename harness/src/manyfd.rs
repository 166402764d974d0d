//! Messages with many file descriptors.
use crate::js::*;
use crate::msg::guard;
use crate::Out;
use dbus_message_parser::message::*;
use dbus_message_parser::value::*;
use std::convert::TryFrom;

fn at(pat: &str, n: usize, d: usize, i: usize) -> usize {
    match pat {
        "round" => i % d,
        "back" => {
            let r = i % (2 * d);
            if r < d { r } else { 2 * d - 1 - r }
        }
        _ => if i < n - d { 0 } else { i - (n - d) },
    }
}

/// The places looked at.
fn sample(n: usize, d: usize) -> Vec<usize> {
    if n <= 300 {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, n - 1, n - 2, n / 2, n / 3];
    for k in 2..24 {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1]);
    }
    for e in [d, 2 * d, n - d.min(n)] {
        v.extend([e.saturating_sub(1), e, e + 1]);
    }
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}

fn two(i: usize, x: i64) -> J {
    J::A(vec![ji(i), J::I(x)])
}

pub fn rec_manyfd(o: &mut Out, pat: &str, n: usize, d: usize, shape: &str, le: bool, extra: usize) {
    o.about(|| {
        obj(vec![
            ("k", js("mfd")), ("pat", js(pat)), ("n", ji(n)), ("d", ji(d)),
            ("shape", js(shape)), ("le", jbool(le)), ("extra", ji(extra)),
        ])
    });
    let vs: Vec<Value> = (0..n).map(|i| Value::UnixFD((3 * at(pat, n, d, i) + 5) as i32)).collect();
    let (body, first, stride) = match shape {
        "args" => (vs, 0, 4),
        "ah" => (vec![Value::Array(Array::new(vs, Type::UnixFD).unwrap())], 4, 4),
        "st" => {
            let t = Type::Struct(vec![Type::Byte, Type::UnixFD]);
            let e = vs.into_iter().map(|v| Value::Struct(Struct::try_from(vec![Value::Byte(7), v]).unwrap())).collect();
            (vec![Value::Array(Array::new(e, t).unwrap())], 12, 8)
        }
        "di" => {
            let t = Type::DictEntry(Box::new((Type::Uint32, Type::UnixFD)));
            let e = vs.into_iter().enumerate().map(|(i, v)| Value::DictEntry(Box::new((Value::Uint32(i as u32), v)))).collect();
            (vec![Value::Array(Array::new(e, t).unwrap())], 12, 8)
        }
        _ => {
            let e = vs.into_iter().map(|v| Value::Variant(Box::new(v))).collect();
            (vec![Value::Array(Array::new(e, Type::Variant).unwrap())], 8, 8)
        }
    };
    let f = MessageHeaderFields { reply_serial: Some(4), ..Default::default() };
    let h = MessageHeader::new(le, MessageType::MethodReturn, MessageFlags::empty(), 1, 9, f).unwrap();
    let m = Message::new(h, body);
    let places = sample(n, d);
    let num = |b: &[u8]| {
        let b = [b[0], b[1], b[2], b[3]];
        if le { u32::from_le_bytes(b) } else { u32::from_be_bytes(b) }
    };
    let r = match guard(|| m.encode_with_fds()) {
        Err(()) => obj(vec![("st", js("panic"))]),
        Ok(Err(_)) => obj(vec![("st", js("err"))]),
        Ok(Ok((out, fds))) => {
            let beg = out.len() - num(&out[4..8]) as usize;
            let words = places.iter().map(|i| {
                let p = beg + first + stride * i;
                let w = if p + 4 <= out.len() { num(&out[p..p + 4]) as i64 } else { -1 };
                two(*i, w.min(1 << 30))
            });
            let words = J::A(words.collect());
            let list = J::A(sample(fds.len(), d).iter().map(|j| two(*j, fds[*j] as i64)).collect());
            let nfds = fds.len();
            let mut given = fds;
            given.extend((0..extra).map(|i| -(i as i32) - 7));
            let bytes = out.freeze();
            let mut c = vec![("st", js("ok")), ("fds", ji(nfds)), ("list", list), ("words", words)];
            match guard(|| Message::decode_with_fds(bytes.clone(), &given)) {
                Err(()) => c.push(("d", js("panic"))),
                Ok(Err(_)) => c.push(("d", js("err"))),
                Ok(Ok((m, _, used))) => {
                    c.push(("d", js("ok")));
                    c.push(("used", ji(used)));
                    c.push(("count", J::A(m.get_unix_fds().into_iter().map(|x| ji(x as usize)).collect())));
                    let b = m.get_body();
                    let vs: &[Value] = match b.first() {
                        Some(Value::Array(a)) => a.as_ref(),
                        _ => b,
                    };
                    let fd = |v: &Value| match v {
                        Value::UnixFD(x) => *x as i64,
                        Value::Struct(s) => match s.as_ref() {
                            [_, Value::UnixFD(x)] => *x as i64,
                            _ => -1,
                        },
                        Value::DictEntry(e) => match &e.1 {
                            Value::UnixFD(x) => *x as i64,
                            _ => -1,
                        },
                        Value::Variant(v) => match &**v {
                            Value::UnixFD(x) => *x as i64,
                            _ => -1,
                        },
                        _ => -1,
                    };
                    c.push(("vals", ji(vs.len())));
                    c.push(("read", J::A(places.iter().map(|i| two(*i, vs.get(*i).map(fd).unwrap_or(-1))).collect())));
                }
            }
            obj(c)
        }
    };
    o.put(obj(vec![
        ("k", js("mfd")), ("pat", js(pat)), ("n", ji(n)), ("d", ji(d)),
        ("shape", js(shape)), ("le", jbool(le)), ("extra", ji(extra)), ("r", r),
    ]));
}

pub fn manyfd_cases(o: &mut Out, thorough: bool) {
    let mut le = false;
    for n in [0usize, 1, 2, 3, 5, 8, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 3000] {
        for d in [1usize, 2, 7, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400, 512, 1000, n / 2 + 1, n] {
            if d == 0 || d > n.max(1) {
                continue;
            }
            for pat in ["round", "back", "late"] {
                if pat == "late" && d > n {
                    continue;
                }
                for shape in ["args", "ah", "st", "di", "av"] {
                    if shape == "args" && n > 254 {
                        continue;
                    }
                    if shape == "args" && n == 0 {
                        continue;
                    }
                    if n > 300 && shape == "av" && !thorough {
                        continue;
                    }
                    le = !le;
                    rec_manyfd(o, pat, n, d, shape, le, [0, 1, 5, 300][(n + d) % 4]);
                    if n < 130 || thorough {
                        rec_manyfd(o, pat, n, d, shape, !le, 2);
                    }
                }
            }
        }
    }
    // past two bytes
    for (n, d) in [(65536usize, 65536usize), (65537, 65537), (70000, 300)] {
        for shape in if thorough { vec!["ah", "st", "di", "av"] } else { vec!["ah"] } {
            le = !le;
            rec_manyfd(o, "round", n, d, shape, le, 1);
        }
    }
    if thorough {
        rec_manyfd(o, "late", 140_000, 131_073, "ah", true, 0);
        rec_manyfd(o, "back", 140_000, 66_000, "ah", false, 9);
    }
}
