//! Walks along routes, see Walk.tla.
use rustful::context::MaybeUtf8Owned;
use rustful::handler::routing::{Route, RouteState};
use serde_json::{json, Value};

use crate::util::*;

fn collected<'a, R: Route<'a> + ?Sized>(route: &'a R) -> Value {
    let all: Vec<&[u8]> = route.segments().collect();
    let mut one = vec![];
    let mut i = route.segments();
    while let Some(s) = i.next() {
        let (low, high) = i.size_hint();
        let left = all.len() - one.len() - 1;
        if low > left || high.map_or(false, |h| h < left) {
            return json!(format!("{} segments are left, and not {:?}", left, (low, high)));
        }
        one.push(s);
    }
    if one != all {
        return json!("the segments changed");
    }
    json!(all.iter().map(|s| jb(s)).collect::<Vec<_>>())
}

fn see(state: &RouteState, names: &[MaybeUtf8Owned]) -> Value {
    let get: Vec<Value> = state.get().iter().map(|s| jb(s)).collect();
    let mut rest = vec![];
    let mut walker = state.clone();
    // one more step than there is room for shouldn't matter
    while let Some(s) = walker.get() {
        rest.push(jb(s));
        walker.skip();
    }
    let mut vars: Vec<(Vec<u8>, Vec<u8>)> = state.variables(names).into_iter().map(|(k, v)| (k.as_ref().to_vec(), v.as_ref().to_vec())).collect();
    vars.sort();
    json!({"get": get, "empty": state.is_empty(), "rest": rest, "vars": vars.iter().map(|(k, v)| json!([jb(k), jb(v)])).collect::<Vec<_>>()})
}

fn walk<'a>(mut state: RouteState<'a>, ops: &[Value], names: &[MaybeUtf8Owned]) -> Value {
    let mut saved = vec![];
    let mut seen = vec![];
    let mut clones: Vec<(RouteState<'a>, Value)> = vec![(state.clone(), see(&state, names))];
    for o in ops {
        match st(&o[0]) {
            "skip" => state.skip(),
            "keep" => state.keep(),
            "fuse" => state.fuse(),
            "save" => saved.push(state.snapshot()),
            "back" => state.go_to(saved[int(&o[1]) as usize - 1]),
            o => panic!("unknown step {}", o),
        }
        let now = see(&state, names);
        // the walk goes on with either of them
        if clones.len() % 2 == 0 {
            let other = state.clone();
            clones.push((std::mem::replace(&mut state, other), now.clone()));
        } else {
            clones.push((state.clone(), now.clone()));
        }
        seen.push(now);
    }
    for (c, was) in &clones {
        if see(c, names) != *was {
            return json!("a copy was changed");
        }
    }
    json!(seen)
}

fn names(v: &Value) -> Vec<MaybeUtf8Owned> {
    arr(v).iter().map(|n| MaybeUtf8Owned::from(bytes(n))).collect()
}

/// The same walk with the route given in every possible form.
fn run(parts: &Value, ops: &[Value], given: &Value) -> Value {
    let parts: Vec<Vec<u8>> = arr(parts).iter().map(bytes).collect();
    let names = names(given);
    let texts: Option<Vec<&str>> = parts.iter().map(|p| std::str::from_utf8(p).ok()).collect();
    let result = guarded(|| {
        let slices: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
        let halves = [slices[..slices.len() / 2].to_vec(), slices[slices.len() / 2..].to_vec()];
        let nested: Vec<&Vec<&[u8]>> = halves.iter().collect();
        let mut all = vec![
            (collected(&slices), walk((&slices).into(), ops, &names)),
            (collected(&parts), walk((&parts).into(), ops, &names)),
            (collected(&nested), walk((&nested).into(), ops, &names)),
        ];
        if parts.len() == 1 {
            all.push((collected(&parts[0][..]), walk((&parts[0][..]).into(), ops, &names)));
        }
        if let Some(ref texts) = texts {
            let strings: Vec<String> = texts.iter().map(|t| t.to_string()).collect();
            let list: std::collections::LinkedList<&str> = texts.iter().cloned().collect();
            all.push((collected(texts), walk(texts.into(), ops, &names)));
            all.push((collected(&strings), walk((&strings).into(), ops, &names)));
            all.push((collected(&list), walk((&list).into(), ops, &names)));
            if texts.len() == 1 {
                all.push((collected(texts[0]), walk(texts[0].into(), ops, &names)));
            }
        }
        let alike = match all.iter().find(|a| **a != all[0]) {
            Some(other) => format!("{:?} and {:?}", all[0], other),
            None => String::new(),
        };
        let (segs, seen) = all.swap_remove(0);
        json!({"panic": false, "segs": segs, "seen": seen, "alike": alike})
    });
    result.unwrap_or_else(|_| json!({"panic": true, "segs": [], "seen": [], "alike": ""}))
}

pub fn replay(vectors: &str, report: &str) {
    replay_all(vectors, report, |rep, v| {
        let o = run(&v["parts"], arr(&v["ops"]), &v["names"]);
        rep.check("panic", v, &json!(false), &o["panic"]);
        if o["panic"] == true {
            return;
        }
        rep.check("segments", v, &v["segs"], &o["segs"]);
        let mut expected = v["seen"].clone();
        for e in expected.as_array_mut().unwrap() {
            e["vars"] = sorted(&e["vars"]);
        }
        let mut observed = o["seen"].clone();
        if let Some(all) = observed.as_array_mut() {
            for e in all {
                e["vars"] = sorted(&e["vars"]);
            }
        }
        rep.check("seen", v, &expected, &observed);
        rep.check("alike", v, &json!(""), &o["alike"]);
    })
}

/// The places that may be gone back to, which are those that were saved after the same steps.
struct Marks {
    at: usize,
    count: usize,
    marks: Vec<usize>,
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let mut parts = vec![];
        for _ in 0..*r.pick(&[1, 1, 1, 0, 2, 3, 5]) {
            let mut p = vec![];
            if r.chance(1, 2) {
                p.push(b'/');
            }
            let most = if r.chance(1, 20) { 40 } else { 5 };
            for i in 0..r.below(most) {
                if i > 0 {
                    p.push(b'/');
                }
                for _ in 0..r.below(4) {
                    p.extend_from_slice(*r.pick(&[&b"a"[..], b"b", b":", b"*", b"%2f", b"\xc3\xa5", b"\xff", b".", b"?", b"\\"]));
                }
            }
            if r.chance(1, 3) {
                p.push(b'/');
            }
            parts.push(p);
        }
        let length: usize = parts.iter().map(|p| p.split(|c| *c == b'/').count()).sum();
        let mut ops = vec![];
        let mut now = Marks { at: 0, count: 0, marks: vec![] };
        let mut saved: Vec<Marks> = vec![];
        let mut keeps = 0;
        for _ in 0..r.below(2 * length + 6) {
            let valid: Vec<usize> = (0..saved.len()).filter(|&i| saved[i].marks.len() <= now.marks.len() && now.marks[..saved[i].marks.len()] == saved[i].marks[..]).collect();
            match r.below(8) {
                0 | 1 => {
                    ops.push(json!(["skip"]));
                    now.marks.push(0);
                    now.at += 1;
                }
                2 | 3 => {
                    ops.push(json!(["keep"]));
                    now.count += 1;
                    keeps += 1;
                    now.marks.push(now.count);
                    now.at += 1;
                }
                4 | 5 => {
                    ops.push(json!(["fuse"]));
                    now.marks.push(now.count + 1);
                    now.at += 1;
                }
                6 => {
                    ops.push(json!(["save"]));
                    saved.push(Marks { at: now.at, count: now.count, marks: now.marks.clone() });
                }
                _ => {
                    if !valid.is_empty() {
                        let i = *r.pick(&valid);
                        ops.push(json!(["back", i + 1]));
                        now = Marks { at: saved[i].at, count: saved[i].count, marks: saved[i].marks.clone() };
                    }
                }
            }
        }
        let names: Vec<Value> = (0..keeps + 2).map(|_| jb(*r.pick(&[&b"a"[..], b"b", b"c", b"d", b"e", b"", b"\xff", b"long name"]))).collect();
        let parts = json!(parts.iter().map(|p| jb(p)).collect::<Vec<_>>());
        let names = json!(names);
        let mut line = run(&parts, &ops, &names);
        line["parts"] = parts;
        line["names"] = names;
        line["ops"] = json!(ops);
        out.line(&line);
    }
}
