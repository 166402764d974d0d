//! Which cases are run for which property.
use crate::big::*;
use crate::compare::*;
use crate::gen::*;
use crate::header::*;
use crate::js::*;
use crate::manyfd::*;
use crate::msg::*;
use crate::pure::*;
use crate::rng::Rng;
use crate::rules::*;
use crate::session::*;
use crate::stream::*;
use crate::text::*;
use crate::val::*;
use crate::wire::*;
use crate::Out;

pub fn fds_of(j: &J) -> Vec<i32> {
    j.arr()
        .iter()
        .map(|x| {
            let b = x.bytes();
            i32::from_le_bytes([b[0], b[1], b[2], b[3]])
        })
        .collect()
}

/// Token list back to values.
pub fn untok(t: &[J], i: &mut usize) -> V {
    let b = t[*i].bytes();
    *i += 1;
    let p = &b[1..];
    fn n<const N: usize>(p: &[u8]) -> [u8; N] {
        let mut a = [0; N];
        a.copy_from_slice(p);
        a
    }
    match b[0] {
        b'y' => V::Y(p[0]),
        b'b' => V::B(p[0] != 0),
        b'n' => V::N(i16::from_le_bytes(n(p))),
        b'q' => V::Q(u16::from_le_bytes(n(p))),
        b'i' => V::I(i32::from_le_bytes(n(p))),
        b'u' => V::U(u32::from_le_bytes(n(p))),
        b'x' => V::X(i64::from_le_bytes(n(p))),
        b't' => V::T(u64::from_le_bytes(n(p))),
        b'd' => V::D(u64::from_le_bytes(n(p))),
        b's' => V::S(p.to_vec()),
        b'o' => V::O(p.to_vec()),
        b'g' => V::G(p.to_vec()),
        b'h' => V::H(i32::from_le_bytes(n(p))),
        b'a' => {
            let mut v = Vec::new();
            while t[*i].bytes() != [b']'] {
                v.push(untok(t, i));
            }
            *i += 1;
            V::A(p.to_vec(), v)
        }
        b'(' => {
            let mut v = Vec::new();
            while t[*i].bytes() != [b')'] {
                v.push(untok(t, i));
            }
            *i += 1;
            V::R(v)
        }
        b'{' => {
            let k = untok(t, i);
            let v = untok(t, i);
            *i += 1;
            V::E(Box::new((k, v)))
        }
        b'v' => V::W(Box::new(untok(t, i))),
        c => panic!("token {}", c),
    }
}
pub fn untoks(j: &J) -> Vec<V> {
    let t = j.arr();
    let mut i = 0;
    let mut v = Vec::new();
    while i < t.len() {
        v.push(untok(t, &mut i));
    }
    v
}
pub fn m_of(j: &J) -> M {
    let mut f = NOF;
    for (i, x) in j.get("f").arr().iter().enumerate() {
        if let Some(b) = x.arr().first() {
            f[i] = Some(b.bytes());
        }
    }
    let s = j.get("ser").bytes();
    M {
        le: j.get("le").int() != 0,
        ty: j.get("ty").int() as u8,
        fl: j.get("fl").int() as i32,
        ver: j.get("ver").int() as i32,
        ser: u32::from_le_bytes([s[0], s[1], s[2], s[3]]),
        f,
        body: untoks(j.get("b")),
    }
}

/// Run the case of a record again.
pub fn replay(o: &mut Out, j: &J) {
    match j.get("k").str() {
        "dec" => rec_dec(o, &j.get("in").bytes(), &fds_of(j.get("fds"))),
        "rec" => rec_rec(o, &j.get("in").bytes(), &fds_of(j.get("fds"))),
        "pre" => rec_pre(o, &mut Rng::new(1, "replay"), &j.get("in").bytes(), &fds_of(j.get("fds"))),
        "enc" => rec_enc(o, &m_of(j.get("m"))),
        "name" => rec_name(o, j.get("t").str(), &j.get("s").bytes()),
        "sweep" => rec_sweep(o, j.get("t").str(), &j.get("a").bytes(), &j.get("b").bytes()),
        "path" => rec_path(o, &path_ops_of(j.get("ops"))),
        "sig" => rec_sig(o, &j.get("s").bytes()),
        "sigsweep" => rec_sigsweep(o, &j.get("a").bytes(), &j.get("b").bytes()),
        "type" => rec_type(o, &j.get("s").bytes()),
        "arr" => rec_arr(o, &j.get("a").bytes(), &untoks(j.get("m"))),
        "str" => rec_struct(o, &untoks(j.get("m"))),
        "vty" => rec_vty(o, &untoks(j.get("m"))[0]),
        "ses" => rec_session(o, j.get("ops").arr()),
        "hnew" => rec_hnew(o, &m_of(j.get("m"))),
        "hfld" => rec_hfld(o, &untoks(j.get("v"))),
        "mty" => rec_mty(o, &mut Rng::new(1, "replay")),
        "fresh" | "hist" | "par" => {
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            std::env::set_var("VERIF_SEED", j.get("seed").int().to_string());
            std::env::remove_var("VH_REPLAY");
            pure_cases(o, j.get("seed").int() as u64, thorough)
        }
        "cmp" => rec_cmp(o, j.get("t").str(), j.get("src").arr()),
        "benc" => rec_bigenc(o, &Big::of(j)),
        "bdec" => rec_bigdec(o, &Big::of(j)),
        "says" => crate::says::replay_says(o, j),
        "mfd" => rec_manyfd(
            o,
            j.get("pat").str(),
            j.get("n").int() as usize,
            j.get("d").int() as usize,
            j.get("shape").str(),
            j.get("le").int() == 1,
            j.get("extra").int() as usize,
        ),
        "stm" => replay_stream(o, j),
        "pair" => replay_pair(o, j),
        k => {
            if !replay_rules(o, j) {
                panic!("cannot replay {}", k)
            }
        }
    }
}

/// Malformed inputs: planted faults, ill-formed values, header faults, noise.
fn malformed(o: &mut Out, r: &mut Rng, msgs: usize, keep: usize, f: &mut dyn FnMut(&mut Out, &[u8], &[i32])) {
    let mut nov = Novel::new();
    for v in bad_values() {
        for le in [true, false] {
            for c in contexts(&v) {
                let mk = raw_of(le, c).marshal();
                f(o, &mk.out, &mk.fds);
            }
        }
    }
    for h in header_cases(r) {
        if nov.see(format!("{:?}", h.fields.iter().map(|x| (x.0, x.1.sig())).collect::<Vec<_>>())) || r.chance(1, 3) {
            f(o, &h.marshal().out, &[]);
        }
    }
    // faults in every place of every construct
    let mut sys: Vec<Mk> = Vec::new();
    for c in containers().into_iter().chain(basics()) {
        for le in [true, false] {
            let p = r.below(8);
            let mut b: Vec<V> = (0..p).map(|_| V::Y(0)).collect();
            b.push(c.clone());
            sys.push(raw_of(le, b).marshal());
        }
    }
    for mk in &sys {
        let fds = mk.fds.clone();
        for (what, b) in faults(r, mk, fds.len()) {
            let k = kind(&b, &fds);
            if nov.see(format!("{}{}", k, what)) || r.chance(1, keep) {
                f(o, &b, &fds);
            }
        }
    }
    for _ in 0..msgs {
        let (b, fds, mk) = valid(r, GP, 3);
        for (_, x) in faults(r, &mk, fds.len()) {
            if r.chance(1, keep) {
                f(o, &x, &fds);
            }
        }
        for x in bytewise(r, &b) {
            let k = kind(&x, &fds);
            if nov.see(k) || r.chance(1, keep * 4) {
                f(o, &x, &fds);
            }
        }
        for _ in 0..40 {
            let x = coarse(r, &b);
            let k = kind(&x, &fds);
            if nov.see(k) || r.chance(1, keep * 2) {
                f(o, &x, &fds);
            }
        }
    }
}

/// Bodies with values some code may take for others.
fn special_bodies() -> Vec<Vec<V>> {
    specials()
        .into_iter()
        .enumerate()
        .map(|(i, v)| match i % 3 {
            0 => vec![v],
            1 => vec![V::A(v.sig(), vec![v.clone(), v])],
            _ => vec![V::Y(1), V::W(Box::new(v))],
        })
        .collect()
}

/// Random order and signature position for the fields.
fn foreign(r: &mut Rng, m: &M) -> Mk {
    let mut raw = m.raw();
    shuffle(r, &mut raw.fields);
    raw.marshal()
}

pub fn run(fam: &str, o: &mut Out, seed: u64, thorough: bool) {
    let mut rng = Rng::new(seed, fam);
    let r = &mut rng;
    let k = if thorough { 4 } else { 1 };
    match fam {
        // systematic messages, encoded
        "enc" => {
            for b in special_bodies() {
                let m = plain(r.chance(1, 2), b);
                rec_enc(o, &m);
            }
            for b in systematic(8) {
                for le in [true, false] {
                    rec_enc(o, &plain(le, b.clone()));
                }
            }
            for n in 2..20 {
                for le in [true, false] {
                    rec_enc(o, &sized(le, n, vec![V::T(1)]));
                    rec_enc(o, &sized(le, n, vec![]));
                }
            }
            for b in grid(r, false) {
                rec_enc(o, &plain(r.chance(1, 2), b));
            }
        }
        // random messages, encoded
        "encr" => {
            for _ in 0..3000 * k {
                rec_enc(o, &gen_m(r, GP, 4));
            }
        }
        "dec" => {
            for b in special_bodies() {
                let m = plain(r.chance(1, 2), b);
                let mk = m.raw().marshal();
                rec_dec(o, &mk.out, &mk.fds);
            }
            for b in systematic(8) {
                for le in [true, false] {
                    let mk = raw_of(le, b.clone()).marshal();
                    rec_dec(o, &mk.out, &mk.fds);
                }
            }
            for n in 2..20 {
                for le in [true, false] {
                    rec_dec(o, &sized(le, n, vec![V::T(1)]).raw().marshal().out, &[]);
                    rec_dec(o, &sized(le, n, vec![]).raw().marshal().out, &[]);
                }
            }
            for b in grid(r, false) {
                let mk = raw_of(r.chance(1, 2), b).marshal();
                rec_dec(o, &mk.out, &mk.fds);
            }
        }
        "decr" => {
            for _ in 0..3000 * k {
                let (b, fds, _) = valid(r, GP, 4);
                rec_dec(o, &b, &fds);
            }
        }
        "scale" => {
            for m in scale(thorough) {
                rec_enc(o, &m);
            }
            for t in wide_texts(&[12, 40, 140, 300, 700, 1300, 4200]) {
                rec_enc(o, &plain(r.chance(1, 2), vec![V::Y(1), V::S(t)]));
            }
        }
        "scaled" => {
            for m in scale(thorough) {
                let mk = foreign(r, &m);
                rec_dec(o, &mk.out, &mk.fds);
            }
            for t in wide_texts(&[12, 40, 140, 300, 700, 1300, 4200]) {
                let m = plain(r.chance(1, 2), vec![V::Y(1), V::S(t)]);
                let mk = foreign(r, &m);
                rec_dec(o, &mk.out, &mk.fds);
            }
        }
        "bad" => malformed(o, r, 60 * k, 24, &mut |o, b, f| rec_dec(o, b, f)),
        "rec" => {
            for b in special_bodies() {
                let m = plain(r.chance(1, 2), b);
                let mk = foreign(r, &m);
                if matches!(decode(&mk.out, &mk.fds), Ok(Ok(_))) {
                    rec_rec(o, &mk.out, &mk.fds);
                }
            }
            for b in systematic(3) {
                let m = if r.chance(1, 2) { plain(r.chance(1, 2), b) } else { sized(r.chance(1, 2), r.range(2, 20), b) };
                let mk = foreign(r, &m);
                rec_rec(o, &mk.out, &mk.fds);
            }
            for _ in 0..700 * k {
                let (b, fds, mk) = valid(r, GP, 3);
                rec_rec(o, &b, &fds);
                // mutated, still accepted
                let mut n = 0;
                for x in bytewise(r, &b).into_iter().chain(faults(r, &mk, fds.len()).into_iter().map(|x| x.1)) {
                    if r.chance(1, 12) && n < 3 && matches!(decode(&x, &fds), Ok(Ok(_))) {
                        rec_rec(o, &x, &fds);
                        n += 1;
                    }
                }
            }
            for h in header_cases(r) {
                let b = h.marshal().out;
                if matches!(decode(&b, &[]), Ok(Ok(_))) && r.chance(1, 2) {
                    rec_rec(o, &b, &[]);
                }
            }
        }
        "pre" => {
            let mut all = basics();
            all.extend(containers());
            for v in all {
                let le = r.chance(1, 2);
                let b: Vec<V> = (0..r.below(8)).map(|_| V::Y(0)).chain(std::iter::once(v)).collect();
                let m = if r.chance(1, 2) { plain(le, b) } else { sized(le, r.range(2, 12), b) };
                let mk = foreign(r, &m);
                rec_pre(o, r, &mk.out, &mk.fds);
            }
            for _ in 0..500 * k {
                let (b, fds, _) = valid(r, GP, 3);
                rec_pre(o, r, &b, &fds);
            }
            for b in grid(r, false) {
                if r.chance(1, 3) {
                    let mk = raw_of(r.chance(1, 2), b).marshal();
                    rec_pre(o, r, &mk.out, &mk.fds);
                }
            }
        }
        "fde" => {
            for b in fd_bodies(r, 500 * k) {
                let mut m = gen_m(r, GP, 0);
                m.body = b;
                rec_enc(o, &m);
            }
            for m in scale(thorough) {
                if m.body.iter().any(V::has_fd) {
                    rec_enc(o, &m);
                }
            }
        }
        "fdd" => {
            for (b, f) in fd_cases(r, 150 * k) {
                rec_dec(o, &b, &f);
            }
        }
        "hdr" => {
            for h in header_cases(r) {
                rec_dec(o, &h.marshal().out, &[]);
            }
        }
        "lim" => {
            for (i, b) in limit_bodies().into_iter().enumerate() {
                rec_enc(o, &plain(i % 2 == 0, b.clone()));
                let mk = raw_of(i % 2 == 1, b).marshal();
                rec_dec(o, &mk.out, &mk.fds);
            }
            for h in limit_headers() {
                rec_dec(o, &h.marshal().out, &[]);
            }
            for i in 0..500 * k {
                let b = vec![deep_val(r)];
                if i % 4 == 0 {
                    rec_enc(o, &plain(i % 8 == 0, b.clone()));
                }
                let mk = raw_of(i % 2 == 1, b).marshal();
                rec_dec(o, &mk.out, &mk.fds);
            }
        }
        "says" => crate::says::says_cases(o, seed),
        "limtext" => limit_texts(o, r, k),
        "limargs" => limit_args(o, r),
        "big" => big_cases(o, thorough),
        "mid" => mid_cases(o, thorough),
        "mfd" => manyfd_cases(o, thorough),
        "pure" => pure_cases(o, seed, thorough),
        "pure1" => pure_one(seed, thorough),
        "compare" => compare_cases(o, r, k),
        "head" => head_cases(o, r, k),
        "name" => name_cases(o, r, k),
        "sweep" => sweep_cases(o, k),
        "path" => path_cases(o, r, k),
        "sig" => sig_cases(o, r, k),
        "type" => type_cases(o, r, k),
        "cont" => cont_cases(o, r, k),
        "mtext" => mtext_cases(o, r, k),
        "mshow" => mshow_cases(o, r, k),
        "meval" => meval_cases(o, r, k),
        "ses" => session_cases(o, r, 700 * k),
        "walk" => walk_cases(o, r, thorough),
        "gses" => {
            let p = std::env::var("VH_SCRIPT").expect("VH_SCRIPT");
            for line in std::fs::read_to_string(p).unwrap().lines() {
                rec_session(o, parse(line).arr());
            }
        }
        // messages the specification made up
        "gwire" | "grec" | "gpre" | "gbad" | "gpair" => {
            let p = std::env::var("VH_SCRIPT").expect("VH_SCRIPT");
            for line in std::fs::read_to_string(p).unwrap().lines() {
                let j = parse(line);
                let (b, fds) = (j.get("in").bytes(), fds_of(j.get("fds")));
                match fam {
                    "gwire" => {
                        rec_enc(o, &m_of(j.get("m")));
                        rec_dec(o, &b, &fds);
                    }
                    "grec" => rec_rec(o, &b, &fds),
                    "gpre" => rec_pre(o, r, &b, &fds),
                    "gpair" => rec_pair(o, false, (&b, &fds), (&j.get("turned").bytes(), &fds)),
                    _ => {
                        let all = bytewise(r, &b);
                        for _ in 0..10 {
                            rec_dec(o, r.pick(&all), &fds);
                        }
                        rec_dec(o, &coarse(r, &b), &fds);
                    }
                }
            }
        }
        "reply" => reply_cases(o, r, thorough),
        // messages whose header carries some other signature or count
        "stale" => {
            for _ in 0..1200 * k {
                let mut m = gen_m(r, GP, 3);
                if r.chance(1, 4) {
                    m.body.clear();
                }
                let mut s = Vec::new();
                for _ in 0..r.below(4) {
                    s.extend(one_sig(r, GP));
                }
                if r.chance(1, 5) {
                    s = body_sig(&m.body);
                }
                m.f[7] = Some(s);
                if r.chance(1, 2) {
                    m.f[8] = Some(edge32(r).to_le_bytes().to_vec());
                }
                rec_enc(o, &m);
            }
        }
        // refused messages with one and with several defects, and bodies that
        // cannot be encoded
        "num" => {
            for (b, f) in numbers(r, k > 1) {
                rec_dec(o, &b, &f);
            }
            for (b, f) in broken(r, k > 1) {
                rec_dec(o, &b, &f);
            }
        }
        "why" => {
            let mut n = 0;
            malformed(o, r, 25 * k, 40, &mut |o, b, f| {
                n += 1;
                if n % 3 == 0 {
                    rec_dec(o, b, f)
                }
            });
            for _ in 0..900 * k {
                let (mut b, fds, mk) = valid(r, GP, 3);
                for _ in 0..r.range(2, 4) {
                    let m2 = Mk { out: b.clone(), le: mk.le, fds: vec![], sites: mk.sites.clone(), nums: vec![] };
                    let fs = faults(r, &m2, fds.len());
                    if !fs.is_empty() {
                        b = r.pick(&fs).1.clone();
                    }
                }
                if r.chance(1, 3) {
                    b.truncate(r.range(0, b.len()));
                }
                if r.chance(1, 3) {
                    b = coarse(r, &b);
                }
                let nf = r.below(fds.len() + 1);
                rec_dec(o, &b, &fds[..nf]);
            }
            for n in 0..40usize {
                rec_dec(o, &vec![n as u8; n], &[]);
            }
            for s in bad_types(r, 150 * k) {
                rec_enc(o, &plain(r.chance(1, 2), vec![V::Y(1), V::G(s)]));
            }
        }
        "stream" => stream_cases(o, r, k),
        "endian" => endian_cases(o, r, k),
        "flip" => flip_cases(o, r, k),
        _ => panic!("unknown family {}", fam),
    }
}
