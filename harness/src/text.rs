//! Values that may be text, see Utf8.tla.
use rustful::context::{MaybeUtf8, MaybeUtf8Owned, MaybeUtf8Slice};
use rustful::response::Data;
use serde_json::{json, Value};
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::util::*;

pub fn ch(c: &Value) -> char {
    std::char::from_u32(int(c) as u32).unwrap()
}

fn text(d: &Value) -> String {
    String::from_utf8(bytes(d)).unwrap()
}

/// A value made in one of the ways to make one.
pub fn make(how: &str, d: Vec<u8>) -> MaybeUtf8Owned {
    match how {
        "new" => MaybeUtf8Owned::new(),
        "vec" => d.into(),
        "string" => String::from_utf8(d).unwrap().into(),
        "str" => (&*String::from_utf8(d).unwrap()).into(),
        "buffer" => {
            let mut v = MaybeUtf8Owned::new();
            v.as_buffer().extend(d);
            v
        }
        h => panic!("no such way: {}", h),
    }
}

pub fn edit(v: &mut MaybeUtf8Owned, e: &Value) {
    match st(&e["op"]) {
        "push_char" => v.push_char(ch(&e["c"])),
        "push_byte" => v.push_byte(int(&e["b"]) as u8),
        "push_str" => v.push_str(&text(&e["d"])),
        "push_bytes" => v.push_bytes(&bytes(&e["d"])),
        "clone" => *v = v.clone(),
        // through another value that borrows it
        "reborrow" => {
            let again = match v.as_slice() {
                MaybeUtf8::Utf8(s) => MaybeUtf8Owned::from(s),
                MaybeUtf8::NotUtf8(b) => {
                    let b: &[u8] = b;
                    MaybeUtf8Owned::from(b.to_vec())
                }
            };
            *v = again;
        }
        "buffer" => {
            let mut b = v.as_buffer();
            for e in arr(&e["edits"]) {
                let n = e.get("n").map_or(0, |n| int(n) as usize);
                match st(&e["op"]) {
                    "bytes" => b.push_bytes(&bytes(&e["d"])),
                    "char" => b.push_char(ch(&e["c"])),
                    "pop" => {
                        b.pop();
                    }
                    "truncate" => b.truncate(n),
                    "clear" => b.clear(),
                    "remove" => {
                        if n < b.len() {
                            b.remove(n);
                        }
                    }
                    "insert" => {
                        if n <= b.len() {
                            b.insert(n, int(&e["b"]) as u8)
                        }
                    }
                    "set" => {
                        if n < b.len() {
                            b[n] = int(&e["b"]) as u8
                        }
                    }
                    "reverse" => b.reverse(),
                    o => panic!("no such edit: {}", o),
                }
            }
        }
        o => panic!("no such edit: {}", o),
    }
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Everything that can be asked about a value in more than one way.
fn unlike(v: &MaybeUtf8Owned) -> Vec<&'static str> {
    let mut bad = vec![];
    let d: Vec<u8> = v.as_bytes().to_vec();
    let slice: MaybeUtf8Slice = v.as_slice();
    let as_ref: &[u8] = v.as_ref();
    let borrowed: &[u8] = v.borrow();
    let deref: &[u8] = &**v;
    let direct = MaybeUtf8Owned::NotUtf8(d.clone());
    let direct_slice = MaybeUtf8Slice::NotUtf8(&d);
    let s: String = v.clone().into();
    let vec: Vec<u8> = v.clone().into();
    let slice_s: String = v.as_slice::<str, [u8]>().into();
    let slice_vec: Vec<u8> = v.as_slice::<str, [u8]>().into();
    let direct_s: String = direct.clone().into();
    let direct_vec: Vec<u8> = direct.clone().into();
    let lossy = v.as_utf8_lossy();
    let mut is = |name, ok: bool| if !ok { bad.push(name) };
    is("as_ref", as_ref == &d[..]);
    is("borrow", borrowed == &d[..]);
    is("deref", deref == &d[..]);
    is("as_slice", slice.as_bytes() == &d[..] && slice.is_utf8() == v.is_utf8() && slice.as_utf8() == v.as_utf8() && slice.as_utf8_lossy() == lossy);
    is("as_utf8", v.as_utf8().map(|s| s.as_bytes()) == if v.is_utf8() { Some(&d[..]) } else { None });
    is("variant", match *v {
        MaybeUtf8::Utf8(ref s) => v.is_utf8() && s.as_bytes() == &d[..],
        MaybeUtf8::NotUtf8(ref b) => !v.is_utf8() && *b == d,
    });
    is("into string", lossy == &*s && s == slice_s && s == direct_s);
    is("into vec", vec == d && slice_vec == d && direct_vec == d);
    is("hash", hash(v) == hash(&d[..]) && hash(v) == hash(&direct) && hash(v) == hash(&direct_slice) && hash(v) == hash(&slice));
    is("equal", *v == direct && direct == *v && *v == direct_slice && direct_slice == *v && v.cmp(&direct) == Ordering::Equal && direct.cmp(v) == Ordering::Equal);
    // as what is sent in a response
    let mut all: Vec<Data> = vec![d.clone().into(), (&d[..]).into()];
    if let Some(s) = v.as_utf8() {
        all.push(s.into());
        all.push(s.to_string().into());
    }
    is("data", all.iter().all(|a| a.as_bytes() == &d[..] && a.clone().into_bytes() == d));
    is("data text", all.iter().all(|a| a.as_string().ok() == v.as_utf8()));
    is("data into text", all.into_iter().all(|a| match a.into_string() {
        Ok(s) => v.as_utf8() == Some(&*s),
        Err(e) => !v.is_utf8() && e.into_bytes() == d,
    }));
    // as a key
    let mut map = HashMap::new();
    map.insert(v.clone(), 1);
    is("hashed key", map.get(&direct) == Some(&1) && map.get(&d[..]) == Some(&1) && map.insert(direct.clone(), 2) == Some(1) && map.len() == 1);
    let mut map = BTreeMap::new();
    map.insert(v.clone(), 1);
    is("ordered key", map.get(&direct) == Some(&1) && map.insert(direct.clone(), 2) == Some(1) && map.len() == 1);
    bad
}

pub fn facts(v: &MaybeUtf8Owned) -> Value {
    json!({"bytes": jb(v.as_bytes()), "text": v.is_utf8(), "lossy": jb(v.as_utf8_lossy().as_bytes())})
}

fn n(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

/// How the value compares, in every way to compare it. Each is the order of the value relative to d.
fn orders(v: &MaybeUtf8Owned, d: &[u8]) -> Vec<(&'static str, i64)> {
    let mut out = vec![];
    macro_rules! both {
        ($name: expr, $other: expr, $t: ty) => {{
            let other: &$t = $other;
            let o = PartialOrd::<$t>::partial_cmp(v, other).map_or(9, n);
            out.push(($name, o));
            out.push(($name, PartialOrd::<MaybeUtf8Owned>::partial_cmp(other, v).map_or(9, |o| -n(o))));
            let lt = PartialOrd::<$t>::lt(v, other);
            let gt = PartialOrd::<MaybeUtf8Owned>::lt(other, v);
            let eq = PartialEq::<$t>::eq(v, other);
            let qe = PartialEq::<MaybeUtf8Owned>::eq(other, v);
            out.push(($name, if lt { -1 } else if gt { 1 } else { 0 }));
            out.push(($name, if eq { 0 } else if o == 0 { 7 } else { o }));
            out.push(($name, if qe { 0 } else if o == 0 { 7 } else { o }));
            let ne = PartialEq::<$t>::ne(v, other) || PartialEq::<MaybeUtf8Owned>::ne(other, v);
            out.push(($name, if !ne { 0 } else if o == 0 { 7 } else { o }));
        }};
    }
    let vec = d.to_vec();
    both!("[u8]", d, [u8]);
    both!("Vec", &vec, Vec<u8>);
    both!("slice", &d, &[u8]);
    let owned = MaybeUtf8Owned::from(d.to_vec());
    let direct = MaybeUtf8Owned::NotUtf8(d.to_vec());
    both!("MaybeUtf8Owned", &owned, MaybeUtf8Owned);
    both!("NotUtf8", &direct, MaybeUtf8Owned);
    both!("MaybeUtf8Slice", &owned.as_slice(), MaybeUtf8Slice);
    out.push(("cmp", n(v.cmp(&owned))));
    out.push(("cmp", -n(owned.cmp(v))));
    out.push(("cmp", n(v.cmp(&direct))));
    if let Ok(s) = std::str::from_utf8(d) {
        let string = s.to_string();
        both!("str", s, str);
        both!("String", &string, String);
        both!("&str", &s, &str);
        // a Cow isn't AsRef<[u8]>, so only one direction
        for cow in &[Cow::Borrowed(s), Cow::Owned(string.clone())] {
            let o = PartialOrd::<MaybeUtf8Owned>::partial_cmp(cow, v).map_or(9, |o| -n(o));
            out.push(("Cow", o));
            out.push(("Cow", if *cow == *v { 0 } else if o == 0 { 7 } else { o }));
        }
    }
    out
}

fn order(v: &MaybeUtf8Owned, d: &[u8]) -> Value {
    let all = orders(v, d);
    if all.iter().all(|o| o.1 == all[0].1) {
        json!(all[0].1)
    } else {
        json!(format!("{:?}", all))
    }
}

pub fn replay(vectors: &str, report: &str) {
    replay_all(vectors, report, |rep, v| {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut value = make(st(&v["start"]["how"]), bytes(&v["start"]["d"]));
            let mut out = vec![(v["first"].clone(), facts(&value), unlike(&value))];
            for (e, x) in arr(&v["edits"]).iter().zip(arr(&v["after"])) {
                edit(&mut value, e);
                out.push((x.clone(), facts(&value), unlike(&value)));
            }
            let orders: Vec<_> = arr(&v["compared"]).iter().map(|c| (c["order"].clone(), order(&value, &bytes(&c["with"])))).collect();
            (out, orders)
        }));
        match r {
            Err(_) => rep.fail("panic", v, &json!(false), &json!(true)),
            Ok((facts, orders)) => {
                for (x, o, bad) in facts {
                    for f in &["bytes", "text", "lossy"] {
                        rep.check(f, v, &x[*f], &o[*f]);
                    }
                    rep.check("alike", v, &json!([]), &json!(bad));
                }
                for (x, o) in orders {
                    rep.check("order", v, &x, &o);
                }
            }
        }
    })
}

const CHARS: &[u32] = &[0, 97, 127, 128, 229, 0x7ff, 0x800, 8364, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 128150, 0x10ffff];

fn rand_char(r: &mut Rng) -> u32 {
    *r.pick(CHARS)
}

/// Pieces that are likely to complete or break a character.
pub fn rand_bytes(r: &mut Rng, utf8: bool) -> Vec<u8> {
    let mut d = vec![];
    for _ in 0..r.below(4) {
        let c = std::char::from_u32(rand_char(r)).unwrap();
        let mut buf = [0; 4];
        let c = c.encode_utf8(&mut buf).as_bytes();
        if utf8 {
            d.extend_from_slice(c);
            continue;
        }
        match r.below(4) {
            0 => d.extend_from_slice(c),
            1 => d.extend_from_slice(&c[..r.below(c.len() + 1)]),
            2 => d.extend_from_slice(&c[r.below(c.len() + 1)..]),
            _ => d.push(*r.pick(&[0, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xa0, 0x9f, 0xed, 0xf0, 0x90, 0x8f, 0xf4, 0xf5, 0xff, 97])),
        }
    }
    d
}

fn rand_buffer_edit(r: &mut Rng) -> Value {
    let n = r.below(8);
    let b = *r.pick(&[0u8, 97, 128, 165, 172, 195, 226, 255]);
    match r.below(10) {
        0 | 1 => json!({"op": "bytes", "d": jb(&rand_bytes(r, false))}),
        2 => json!({"op": "char", "c": rand_char(r)}),
        3 => json!({"op": "pop"}),
        4 => json!({"op": "truncate", "n": n}),
        5 => json!({"op": (if r.chance(1, 4) { "clear" } else { "reverse" })}),
        6 | 7 => json!({"op": "remove", "n": n}),
        8 => json!({"op": "insert", "n": n, "b": b}),
        _ => json!({"op": "set", "n": n, "b": b}),
    }
}

pub fn rand_edit(r: &mut Rng) -> Value {
    match r.below(12) {
        0 => json!({"op": "push_char", "c": rand_char(r)}),
        1 | 2 => json!({"op": "push_byte", "b": *r.pick(&[97u8, 128, 165, 172, 195, 226, 130, 240, 159, 255])}),
        3 => json!({"op": "push_str", "d": jb(&rand_bytes(r, true))}),
        4 | 5 | 6 => json!({"op": "push_bytes", "d": jb(&rand_bytes(r, false))}),
        7 => json!({"op": "clone"}),
        8 => json!({"op": "reborrow"}),
        _ => {
            let n = r.below(4);
            json!({"op": "buffer", "edits": (0..n).map(|_| rand_buffer_edit(r)).collect::<Vec<_>>()})
        }
    }
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let how = *r.pick(&["new", "vec", "vec", "buffer", "str", "string"]);
        let d = if how == "new" { vec![] } else { rand_bytes(&mut r, how != "vec" && how != "buffer") };
        let len = if r.chance(1, 10) { r.below(40) } else { r.below(6) };
        let edits: Vec<_> = (0..len).map(|_| rand_edit(&mut r)).collect();
        let others: Vec<_> = (0..3).map(|_| rand_bytes(&mut r, false)).collect();
        let (start, es) = (d.clone(), edits.clone());
        let o = catch_unwind(AssertUnwindSafe(move || {
            let mut value = make(how, start);
            let mut after = vec![facts(&value)];
            let mut bad = unlike(&value);
            for e in &es {
                edit(&mut value, e);
                after.push(facts(&value));
                bad.extend(unlike(&value));
            }
            let mut with = others;
            let b = value.as_bytes().to_vec();
            with.push(b[..b.len() - b.len() / 3].to_vec());
            with.push(b);
            let compared: Vec<_> = with.iter().map(|d| json!({"with": jb(d), "order": match order(&value, d) { Value::String(_) => json!(99), o => o }})).collect();
            json!({"panic": false, "after": after, "compared": compared, "alike": bad.is_empty()})
        }));
        let mut line = o.unwrap_or_else(|_| json!({"panic": true, "after": [], "compared": [], "alike": true}));
        line["start"] = json!({"how": how, "d": jb(&d)});
        line["edits"] = json!(edits);
        out.line(&line);
    }
}
