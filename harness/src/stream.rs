//! Receivers on a byte stream, and the two byte orders of one message.
use crate::gen::*;
use crate::js::*;
use crate::msg::*;
use crate::plan::fds_of;
use crate::rng::Rng;
use crate::val::*;
use crate::wire::*;
use crate::Out;
use bytes::{Bytes, BytesMut};
use dbus_message_parser::decode::DecodeError;
use dbus_message_parser::message::Message;

/// A way to cut the stream: sizes of the pieces.
#[derive(Clone)]
struct Plan {
    cuts: Vec<usize>,
    patient: bool,
    /// all descriptors arrive first
    early: bool,
    /// decode a slice of one big buffer (true) or a buffer that is cut off
    slice: bool,
    /// without descriptors: the call that takes none
    bare: bool,
}

fn ev(v: &[usize]) -> J {
    J::A(v.iter().map(|x| ji((*x).min(1 << 30))).collect())
}

fn seen(m: &Message, input: &[u8]) -> J {
    let hint = (input[0] == b'l', input[2], input[3]);
    match guard(|| obs(m, hint)) {
        Ok(o) => obj(vec![("st", js("ok")), ("m", o)]),
        Err(()) => obj(vec![("st", js("panic")), ("m", ji(0))]),
    }
}

fn receive(ms: &[Vec<u8>], fd: &[Vec<i32>], p: &Plan, obs: &mut Vec<(String, J)>) -> J {
    let all: Vec<u8> = ms.concat();
    let whole = Bytes::from(all.clone());
    let mut ends = Vec::new();
    let mut t = 0;
    for m in ms {
        ends.push((t, t + m.len()));
        t += m.len();
    }
    let mut evs = Vec::new();
    let (mut arr, mut used, mut need, mut got) = (0usize, 0usize, 0usize, 0usize);
    let mut queue: Vec<i32> = Vec::new();
    let mut sent = 0;
    let mut rest = BytesMut::new();
    if p.early {
        let f: Vec<i32> = fd.concat();
        sent = fd.len();
        if !f.is_empty() {
            evs.push(ev(&[0, 0, f.len()]));
            queue.extend(f);
        }
    }
    'run: for &n in &p.cuts {
        let n = n.min(all.len() - arr);
        if n == 0 {
            continue;
        }
        rest.extend_from_slice(&all[arr..arr + n]);
        arr += n;
        let mut nf = 0;
        while sent < ms.len() && ends[sent].0 < arr {
            queue.extend(&fd[sent]);
            nf += fd[sent].len();
            sent += 1;
        }
        evs.push(ev(&[0, n, nf]));
        loop {
            if p.patient && (arr - used < need || arr == used) {
                break;
            }
            let buf = if p.slice { whole.slice(used..arr) } else { Bytes::copy_from_slice(&rest) };
            let bare = p.bare && fd.iter().all(|f| f.is_empty());
            match guard(|| if bare {
                Message::decode(buf).map(|(m, n)| (m, n, 0))
            } else {
                Message::decode_with_fds(buf, &queue)
            }) {
                Ok(Ok((m, off, ofd))) => {
                    let o = seen(&m, &all[used..]);
                    let tx = o.text();
                    let at = if got < obs.len() && obs[got].0 == tx {
                        got
                    } else {
                        obs.push((tx, o));
                        obs.len() - 1
                    };
                    evs.push(ev(&[2, at + 1, off, ofd]));
                    if off == 0 || off > arr - used || ofd > queue.len() {
                        break 'run;
                    }
                    let _ = rest.split_to(off);
                    used += off;
                    queue.drain(..ofd);
                    got += 1;
                    need = 0;
                }
                Ok(Err(DecodeError::NotEnoughBytes(h, n))) => {
                    evs.push(ev(&[1, h, n]));
                    need = n;
                    break;
                }
                _ => {
                    evs.push(ev(&[3]));
                    break 'run;
                }
            }
        }
    }
    J::A(evs)
}

fn plans(r: &mut Rng, ms: &[Vec<u8>], every: bool) -> Vec<Plan> {
    let total: usize = ms.iter().map(|m| m.len()).sum();
    let mut v = Vec::new();
    let mut flip = 0;
    let mut add = |cuts: Vec<usize>, v: &mut Vec<Plan>| {
        flip += 1;
        v.push(Plan { cuts, patient: flip % 2 == 0, early: flip % 3 == 0, slice: flip % 4 < 2, bare: (flip / 2) % 2 == 0 });
    };
    add(vec![total], &mut v);
    add(vec![total], &mut v);
    add(vec![1; total], &mut v);
    add(vec![1; total], &mut v);
    // at the ends of messages, one less, one more
    for d in [-1i64, 0, 1] {
        let mut c = Vec::new();
        let (mut t, mut at) = (0i64, 0i64);
        for m in ms {
            t += m.len() as i64;
            c.push((t + d - at) as usize);
            at = t + d;
        }
        c.push(total);
        add(c.clone(), &mut v);
        add(c, &mut v);
    }
    for k in [2usize, 3, 5, 7, 8, 16, 64] {
        add(vec![k; total / k + 1], &mut v);
    }
    for _ in 0..8 {
        let big = r.range(1, total);
        let mut c = Vec::new();
        let mut t = 0;
        while t < total {
            let n = r.range(1, big);
            c.push(n);
            t += n;
        }
        add(c, &mut v);
    }
    if every {
        for i in 1..total {
            add(vec![i, total - i], &mut v);
        }
    }
    v
}

pub fn rec_stream(o: &mut Out, r: &mut Rng, ms: &[Vec<u8>], fd: &[Vec<i32>], every: bool) {
    o.about(|| {
        obj(vec![
            ("k", js("stm")),
            ("ms", J::A(ms.iter().map(|m| jb(m)).collect())),
            ("fd", J::A(fd.iter().map(|f| jfds(f)).collect())),
        ])
    });
    let mut obs = Vec::new();
    let mut runs = Vec::new();
    for p in plans(r, ms, every) {
        o.runs += 1;
        runs.push(receive(ms, fd, &p, &mut obs));
    }
    o.put(obj(vec![
        ("k", js("stm")),
        ("ms", J::A(ms.iter().map(|m| jb(m)).collect())),
        ("fd", J::A(fd.iter().map(|f| jfds(f)).collect())),
        ("obs", J::A(obs.into_iter().map(|x| x.1).collect())),
        ("runs", J::A(runs)),
    ]));
}

pub fn replay_stream(o: &mut Out, j: &J) {
    let ms: Vec<Vec<u8>> = j.get("ms").arr().iter().map(|x| x.bytes()).collect();
    let fd: Vec<Vec<i32>> = j.get("fd").arr().iter().map(fds_of).collect();
    rec_stream(o, &mut Rng::new(1, "replay"), &ms, &fd, true);
}

/// A message as bytes with exactly the descriptors it uses.
fn one(r: &mut Rng, m: &M) -> (Vec<u8>, Vec<i32>) {
    if r.chance(1, 2) {
        if let Ok(Ok(Ok((b, f)))) = guard(|| to_lib_msg(m).map(|x| x.encode_with_fds())) {
            return (b.to_vec(), f);
        }
    }
    let mut raw = m.raw();
    shuffle(r, &mut raw.fields);
    let mk = raw.marshal();
    (mk.out, mk.fds)
}

pub fn stream_cases(o: &mut Out, r: &mut Rng, k: usize) {
    // pairs, cut at every place
    for i in 0..20 * k {
        let mut ms = Vec::new();
        let mut fd = Vec::new();
        for j in 0..2 {
            let body = match (i + j) % 5 {
                0 => vec![],
                1 => vec![V::H(3), V::Y(1), V::H(4), V::H(3)],
                2 => vec![V::S(b"abc".to_vec()), V::T(7)],
                _ => gen_body(r, GP, 2),
            };
            let mut m = if r.chance(1, 2) { plain(r.chance(1, 2), body) } else { sized(r.chance(1, 2), r.range(2, 9), body) };
            if r.chance(1, 3) {
                // a header that counts them differently
                m.f[8] = Some((r.below(4) as u32).to_le_bytes().to_vec());
            }
            let (b, f) = one(r, &m);
            ms.push(b);
            fd.push(f);
        }
        rec_stream(o, r, &ms, &fd, true);
    }
    // longer streams
    for _ in 0..50 * k {
        let n = r.range(1, 5);
        let mut ms = Vec::new();
        let mut fd = Vec::new();
        for _ in 0..n {
            let mut m = gen_m(r, GP, 3);
            if r.chance(1, 3) {
                m.body = vec![V::H(r.below(9) as i32), V::R(vec![V::H(r.below(9) as i32), V::Y(1)])];
            }
            if r.chance(1, 4) {
                m.f[8] = Some((r.below(4) as u32).to_le_bytes().to_vec());
            }
            let (b, f) = one(r, &m);
            ms.push(b);
            fd.push(f);
        }
        rec_stream(o, r, &ms, &fd, false);
    }
}

// ------------------------------------------------------------- byte orders
fn side(input: &[u8], fds: &[i32]) -> J {
    obj(vec![("in", jb(input)), ("fds", jfds(fds)), ("r", decode_js(input, fds))])
}

/// lib: both sides were written by the library from the same message.
pub fn rec_pair(o: &mut Out, lib: bool, a: (&[u8], &[i32]), b: (&[u8], &[i32])) {
    let mk = |r: bool| {
        let f = |x: (&[u8], &[i32])| if r { side(x.0, x.1) } else { obj(vec![("in", jb(x.0)), ("fds", jfds(x.1))]) };
        obj(vec![("k", js("pair")), ("lib", jbool(lib)), ("a", f(a)), ("b", f(b))])
    };
    o.about(|| mk(false));
    both(o, a.1.is_empty() && b.1.is_empty(), || mk(true));
}

pub fn replay_pair(o: &mut Out, j: &J) {
    let s = |k: &str| (j.get(k).get("in").bytes(), fds_of(j.get(k).get("fds")));
    let (a, b) = (s("a"), s("b"));
    rec_pair(o, j.get("lib").int() != 0, (&a.0, &a.1), (&b.0, &b.1));
}

fn lib_pair(o: &mut Out, m: &M) {
    let enc = |le: bool| {
        let mut m = m.clone();
        m.le = le;
        match guard(|| to_lib_msg(&m).map(|x| x.encode_with_fds())) {
            Ok(Ok(Ok((b, f)))) => Some((b.to_vec(), f)),
            _ => None,
        }
    };
    match (enc(true), enc(false)) {
        (Some(a), Some(b)) => rec_pair(o, true, (&a.0, &a.1), (&b.0, &b.1)),
        (None, None) => (),
        (a, b) => {
            let a = a.unwrap_or_default();
            let b = b.unwrap_or_default();
            rec_pair(o, true, (&a.0, &a.1), (&b.0, &b.1))
        }
    }
}

/// The bytes with the numbers of the given places turned round.
fn turned(mk: &Mk) -> Vec<u8> {
    let mut raw = mk.out.clone();
    for (a, n) in &mk.nums {
        raw[*a..*a + *n].reverse();
    }
    raw[0] = if raw[0] == b'l' { b'B' } else { b'l' };
    raw
}

pub fn endian_cases(o: &mut Out, r: &mut Rng, k: usize) {
    for b in systematic(8) {
        lib_pair(o, &plain(true, b));
    }
    for b in grid(r, false) {
        lib_pair(o, &plain(true, b));
    }
    for v in specials() {
        let m = plain(true, vec![V::Y(1), v]);
        lib_pair(o, &m);
        let mk = m.raw().marshal();
        let (fds, t) = (mk.fds.clone(), turned(&mk));
        rec_pair(o, false, (&mk.out, &fds), (&t, &fds));
    }
    for m in scale(false) {
        if toks_of(&m.body).text().len() < 6000 {
            lib_pair(o, &m);
        }
    }
    for _ in 0..700 * k {
        lib_pair(o, &gen_m(r, GP, 4));
    }
    // written independently, also with faults in the same places
    for i in 0..500 * k {
        let m = gen_m(r, GP, 3);
        let mut raw = m.raw();
        shuffle(r, &mut raw.fields);
        let mut mk = raw.marshal();
        let fds = mk.fds.clone();
        if i % 2 == 1 {
            let fs = faults(r, &mk, fds.len());
            if !fs.is_empty() {
                mk.out = r.pick(&fs).1.clone();
            }
        }
        let t = turned(&mk);
        rec_pair(o, false, (&mk.out, &fds), (&t, &fds));
    }
}

/// Messages whose byte order mark is the other one: read as such.
pub fn flip_cases(o: &mut Out, r: &mut Rng, k: usize) {
    for b in systematic(1) {
        for le in [true, false] {
            let mut mk = raw_of(le, b.clone()).marshal();
            mk.out[0] = if le { b'B' } else { b'l' };
            rec_dec(o, &mk.out, &mk.fds);
        }
    }
    for i in 0..500 * k {
        let (mut b, f, mk) = valid(r, GP, 3);
        b[0] = if b[0] == b'l' { b'B' } else { b'l' };
        if i % 2 == 0 {
            // the fixed part turned, the rest not
            for n in &mk.nums {
                if n.0 < 16 {
                    b[n.0..n.0 + n.1].reverse();
                }
            }
        }
        rec_dec(o, &b, &f);
    }
}
