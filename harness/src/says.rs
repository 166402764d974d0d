//! What errors print as.  While the sink is open every error the library returns
//! is noted with its two texts; each text is recorded once.
use crate::js::*;
use crate::msg::guard;
use crate::{plan, Out};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::{Debug, Display};

#[derive(Default)]
struct Sink {
    src: String,
    /// by shape of the debug text: how many, then the texts
    seen: BTreeMap<String, Vec<(String, Option<String>, String)>>,
}
thread_local! {
    static SINK: RefCell<Option<Sink>> = const { RefCell::new(None) };
}
const EACH: usize = 12;
const LONGEST: usize = 600;

pub fn open() -> bool {
    SINK.with(|s| s.borrow().is_some())
}
/// the case whose errors come next
pub fn about(case: String) {
    SINK.with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            s.src = case;
        }
    })
}
fn shape(d: &str) -> String {
    let mut s = String::new();
    for w in d.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()) {
        if s.len() < 120 {
            // of numbers how long they are
            if w.bytes().all(|b| b.is_ascii_digit()) {
                s.push((b'0' + w.len().min(20) as u8) as char);
            } else {
                s.push_str(w);
            }
            s.push(' ');
        }
    }
    s
}
pub fn note<E: Debug + Display>(e: &E) {
    if !open() {
        return;
    }
    let d = match guard(|| format!("{:?}", e)) {
        Ok(d) => d,
        Err(()) => "unprintable".to_string(),
    };
    if d.len() > LONGEST {
        return;
    }
    let k = shape(&d);
    let full = SINK.with(|s| s.borrow().as_ref().map_or(false, |s| s.seen.get(&k).map_or(false, |v| v.len() >= EACH || v.iter().any(|x| x.0 == d))));
    if full {
        return;
    }
    let t = guard(|| e.to_string()).ok();
    SINK.with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            let src = s.src.clone();
            s.seen.entry(k).or_default().push((d, t, src));
        }
    });
}
/// The debug text of an error, which is noted.
pub fn debug<E: Debug + Display>(e: &E) -> String {
    note(e);
    format!("{:?}", e)
}
fn emit(o: &mut Out, f: impl FnOnce(&mut Out)) {
    SINK.with(|s| *s.borrow_mut() = Some(Sink::default()));
    let mut null = Out::null();
    f(&mut null);
    o.runs += null.runs;
    let s = SINK.with(|s| s.borrow_mut().take()).unwrap();
    for (_, v) in s.seen {
        for (d, t, src) in v {
            o.put(obj(vec![
                ("k", js("says")),
                ("st", js(if t.is_some() { "ok" } else { "panic" })),
                ("d", jb(d.as_bytes())),
                ("t", jb(t.unwrap_or_default().as_bytes())),
                ("src", J::Raw(src)),
            ]));
        }
    }
}
pub fn says_cases(o: &mut Out, seed: u64) {
    emit(o, |n| {
        for f in ["why", "num", "hdr", "head", "name", "sig", "type", "cont", "mtext", "lim", "limargs", "limtext"] {
            plan::run(f, n, seed, false);
        }
    });
}
pub fn replay_says(o: &mut Out, j: &J) {
    let src = parse(&j.get("src").text());
    emit(o, |n| plan::replay(n, &src));
}
