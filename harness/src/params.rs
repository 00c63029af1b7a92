//! Collections of parameters, see Params.tla.
use rustful::context::{MaybeUtf8Owned, Parameters};
use serde_json::{json, Value};
use std::collections::hash_map::Entry;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

use crate::text::{make, rand_bytes};
use crate::util::*;

/// The ways to give a name or a value, as far as they can express it.
fn ways(d: &[u8]) -> &'static [&'static str] {
    if std::str::from_utf8(d).is_ok() {
        &["str", "string", "vec", "maybe", "not"]
    } else {
        &["vec", "maybe", "not"]
    }
}

fn owned(way: &str, d: &[u8]) -> MaybeUtf8Owned {
    match way {
        "maybe" => make("vec", d.to_vec()),
        "not" => MaybeUtf8Owned::NotUtf8(d.to_vec()),
        w => make(w, d.to_vec()),
    }
}

/// Call a generic method with the name in some way.
macro_rules! with_key {
    ($way: expr, $d: expr, $k: ident => $e: expr) => {{
        let d: &[u8] = $d;
        match $way {
            "str" => {
                let $k: &str = std::str::from_utf8(d).unwrap();
                $e
            }
            "string" => {
                let $k: &String = &String::from_utf8(d.to_vec()).unwrap();
                $e
            }
            "vec" => {
                let $k: &Vec<u8> = &d.to_vec();
                $e
            }
            "maybe" => {
                let $k: &MaybeUtf8Owned = &MaybeUtf8Owned::from(d.to_vec());
                $e
            }
            "not" => {
                let $k: &[u8] = d;
                $e
            }
            w => panic!("no such way: {}", w),
        }
    }};
}

fn maybe(v: Option<&MaybeUtf8Owned>) -> Value {
    Value::Array(v.iter().map(|v| jb(v.as_bytes())).collect())
}

fn pairs(v: &Value) -> Vec<(Vec<u8>, Vec<u8>)> {
    arr(v).iter().map(|p| (bytes(&p[0]), bytes(&p[1]))).collect()
}

/// One operation. What it returns, and whether other ways to look at it disagree.
fn run(p: &mut Parameters, o: &Value, way: usize, bad: &mut Vec<String>) -> Value {
    let k = o.get("k").map(bytes).unwrap_or_default();
    let v = o.get("v").map(bytes).unwrap_or_default();
    let (kw, vw) = (ways(&k), ways(&v));
    let (kw, vw) = (kw[way % kw.len()], vw[way / 5 % vw.len()]);
    match st(&o["op"]) {
        "insert" => {
            let old = if vw == "str" {
                let s = std::str::from_utf8(&v).unwrap();
                match kw {
                    "str" => p.insert(std::str::from_utf8(&k).unwrap(), s),
                    "string" => p.insert(String::from_utf8(k).unwrap(), s),
                    "vec" => p.insert(k, s),
                    w => p.insert(owned(w, &k), s),
                }
            } else {
                match kw {
                    "str" => p.insert(std::str::from_utf8(&k).unwrap(), v),
                    "string" => p.insert(String::from_utf8(k).unwrap(), String::from_utf8(v).map_err(|e| e.into_bytes()).map(MaybeUtf8Owned::from).unwrap_or_else(|d| d.into())),
                    "vec" => p.insert(k, v),
                    w => p.insert(owned(w, &k), owned(vw, &v)),
                }
            };
            maybe(old.as_ref())
        }
        "remove" => maybe(with_key!(kw, &k, k => p.remove(k)).as_ref()),
        "entry" => {
            let key = owned(kw, &k);
            let value = owned(vw, &v);
            if way % 2 == 0 {
                maybe(Some(p.entry(key).or_insert(value)))
            } else {
                match p.entry(key) {
                    Entry::Occupied(e) => {
                        if e.key().as_bytes() != &k[..] {
                            bad.push("entry key".into())
                        }
                        maybe(Some(e.get()))
                    }
                    Entry::Vacant(e) => maybe(Some(e.insert(value))),
                }
            }
        }
        "push" => {
            if let Some(x) = with_key!(kw, &k, k => p.get_mut(k)) {
                if way % 2 == 0 {
                    x.push_bytes(&v)
                } else {
                    x.as_buffer().push_bytes(&v)
                }
            }
            json!([])
        }
        "push_all" => {
            if way % 2 == 0 {
                for (_, x) in &mut *p {
                    x.push_bytes(&v)
                }
            } else {
                for x in p.values_mut() {
                    x.push_bytes(&v)
                }
            }
            json!([])
        }
        "extend" => {
            let all = pairs(&o["pairs"]);
            if way % 2 == 0 {
                p.extend(all)
            } else {
                p.extend(all.into_iter().map(|(k, v)| (MaybeUtf8Owned::from(k), v)))
            }
            json!([])
        }
        "from" => {
            let all = pairs(&o["pairs"]);
            *p = if way % 2 == 0 {
                all.into_iter().collect()
            } else {
                let mut map = HashMap::new();
                for (k, v) in all {
                    map.insert(k.into(), v.into());
                }
                Parameters::from(map)
            };
            json!([])
        }
        "clear" => {
            match way % 3 {
                0 => p.clear(),
                1 => *p = Parameters::new(),
                _ => *p = Default::default(),
            }
            json!([])
        }
        "clone" => {
            let mut copy = p.clone();
            if copy != *p {
                bad.push("a clone is equal".into())
            }
            // the copies are independent
            copy.insert("other", "value");
            copy.remove("");
            let second = p.clone();
            *p = second;
            json!([])
        }
        "convert" => {
            let map: HashMap<MaybeUtf8Owned, MaybeUtf8Owned> = p.clone().into();
            *p = map.into();
            json!([])
        }
        "collect" => {
            let all: Vec<_> = p.clone().into_iter().collect();
            *p = all.into_iter().collect();
            json!([])
        }
        op => panic!("no such operation: {}", op),
    }
}

fn content(p: &Parameters, bad: &mut Vec<String>) -> Value {
    let mut all: Vec<Value> = p.iter().map(|(k, v)| json!([jb(k.as_bytes()), jb(v.as_bytes())])).collect();
    let by_ref: Vec<Value> = p.into_iter().map(|(k, v)| json!([jb(k.as_bytes()), jb(v.as_bytes())])).collect();
    let by_value: Vec<Value> = p.clone().into_iter().map(|(k, v)| json!([jb(k.as_bytes()), jb(v.as_bytes())])).collect();
    let as_ref: Vec<Value> = AsRef::<HashMap<_, _>>::as_ref(p).iter().map(|(k, v)| json!([jb(k.as_bytes()), jb(v.as_bytes())])).collect();
    let all_ = sorted(&Value::Array(all.clone()));
    if sorted(&Value::Array(by_ref)) != all_ || sorted(&Value::Array(by_value)) != all_ || sorted(&Value::Array(as_ref)) != all_ || p.len() != all.len() || p.is_empty() != all.is_empty() {
        bad.push("ways to iterate".into());
    }
    let mut again = Parameters::new();
    for (k, v) in p.iter() {
        again.insert(k.as_bytes().to_vec(), v.as_bytes().to_vec());
    }
    if again != *p || *p != again {
        bad.push("the same content is equal".into());
    }
    if let Some(k) = p.keys().next().cloned() {
        again.get_mut(&k).unwrap().push_byte(0);
        if again == *p || *p == again {
            bad.push("another value isn't equal".into());
        }
        again.get_mut(&k).unwrap().as_buffer().pop();
    }
    again.insert("a name that is new", "");
    if again == *p || *p == again {
        bad.push("other content isn't equal".into());
    }
    all.sort_by_key(|x| x.to_string());
    Value::Array(all)
}

trait Shown: FromStr + Clone {
    fn shown(&self) -> Value;
}
macro_rules! shown_number { ($($t: ty),+) => { $(impl Shown for $t { fn shown(&self) -> Value { json!(*self) } })+ } }
shown_number!(u8, u16, i8);
impl Shown for bool {
    fn shown(&self) -> Value {
        json!(*self as u8)
    }
}
impl Shown for char {
    fn shown(&self) -> Value {
        jb(self.to_string().as_bytes())
    }
}
impl Shown for String {
    fn shown(&self) -> Value {
        jb(self.as_bytes())
    }
}

fn parsed<T: Shown>(p: &Parameters, k: &[u8], way: &str, name: &str, default: T, bad: &mut Vec<String>) -> Value {
    let r: Result<T, Option<T::Err>> = with_key!(way, k, k => p.parse(k));
    let (is, value) = match r {
        Ok(ref v) => ("ok", v.shown()),
        Err(None) => ("missing", default.shown()),
        Err(Some(_)) => ("bad", default.shown()),
    };
    let or = with_key!(way, k, k => p.parse_or(k, default.clone())).shown();
    let mut called = 0;
    let mut with = "ok";
    let or_else = with_key!(way, k, k => p.parse_or_else(k, |e| {
        called += 1;
        with = if e.is_some() { "bad" } else { "missing" };
        default
    }))
    .shown();
    if value != or || or_else != or || with != is || called != (is != "ok") as usize {
        bad.push(format!("parse as {} of {:?}: {} {}, or {}, or else {} with {}", name, k, is, value, or, or_else, with));
    }
    json!({"type": name, "is": is, "or": or})
}

/// Everything that's known about a name, for each way to give it.
fn access(p: &mut Parameters, k: &[u8], bad: &mut Vec<String>) -> Value {
    let mut all = vec![];
    for &way in ways(k) {
        let raw = maybe(with_key!(way, k, k => p.get_raw(k)));
        let mutable = maybe(with_key!(way, k, k => p.get_mut(k)).as_ref().map(|v| &**v));
        let lossy: Vec<_> = with_key!(way, k, k => p.get(k)).iter().map(|v| jb(v.as_bytes())).collect();
        let has = with_key!(way, k, k => p.contains_key(k));
        if raw != mutable {
            bad.push("get_mut".into());
        }
        let types = json!([
            parsed::<u8>(p, k, way, "u8", 7, bad),
            parsed::<u16>(p, k, way, "u16", 7, bad),
            parsed::<i8>(p, k, way, "i8", 7, bad),
            parsed::<bool>(p, k, way, "bool", true, bad),
            parsed::<char>(p, k, way, "char", 'd', bad),
            parsed::<String>(p, k, way, "string", "d".into(), bad),
        ]);
        all.push(json!({"raw": raw, "lossy": lossy, "has": has, "parsed": types}));
    }
    if all.iter().any(|a| *a != all[0]) {
        bad.push(format!("ways to name {:?}: {:?}", k, all));
    }
    all.swap_remove(0)
}

fn course(ops: &[Value], keys: &[Vec<u8>], way: &mut dyn FnMut() -> usize) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut bad = vec![];
        let mut p = Parameters::new();
        let mut after = vec![];
        for o in ops {
            let r = run(&mut p, o, way(), &mut bad);
            after.push(json!({"r": r, "m": content(&p, &mut bad)}));
        }
        let access: Vec<_> = keys.iter().map(|k| json!({"k": jb(k), "a": access(&mut p, k, &mut bad)})).collect();
        (after, access, bad)
    }));
    match r {
        Ok((after, access, bad)) => json!({"panic": false, "after": after, "access": access, "unlike": bad}),
        Err(_) => json!({"panic": true, "after": [], "access": [], "unlike": []}),
    }
}

pub fn replay(vectors: &str, report: &str) {
    let mut n = 0;
    replay_all(vectors, report, |rep, v| {
        let keys: Vec<_> = arr(&v["access"]).iter().map(|a| bytes(&a["k"])).collect();
        // each history in several ways
        for _ in 0..3 {
            let o = course(arr(&v["ops"]), &keys, &mut || {
                n += 1;
                n * 7 % 25
            });
            rep.check("panic", v, &json!(false), &o["panic"]);
            if o["panic"] == true {
                continue;
            }
            for (x, o) in arr(&v["after"]).iter().zip(arr(&o["after"])) {
                rep.check("returned", v, &x["r"], &o["r"]);
                rep.check("content", v, &sorted(&x["m"]), &sorted(&o["m"]));
            }
            for (x, o) in arr(&v["access"]).iter().zip(arr(&o["access"])) {
                for f in &["raw", "lossy", "has"] {
                    rep.check("access", v, &x["a"][*f], &o["a"][*f]);
                }
                rep.check("parsed", v, &x["a"]["parsed"], &o["a"]["parsed"]);
            }
            rep.check("alike", v, &json!([]), &o["unlike"]);
        }
    })
}

fn rand_name(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => vec![b'a'],
        2 => vec![b'a', b'a'],
        3 => vec![255],
        4 => "å".into(),
        5 => vec![0xc3],
        6 => vec![b'A'],
        _ => rand_bytes(r, false),
    }
}

fn rand_value(r: &mut Rng) -> Vec<u8> {
    let number = match r.below(6) {
        0 => r.below(300) as i64,
        1 => r.below(70000) as i64,
        2 => -(r.below(300) as i64),
        3 => *r.pick(&[0, 1, 127, 128, -128, -129, 255, 256, 65535, 65536, 1 << 40]),
        4 => r.below(10) as i64,
        _ => r.next() as i64 % 1000,
    };
    match r.below(10) {
        0 | 1 | 2 => number.to_string().into_bytes(),
        3 => format!("{}{}", *r.pick(&["+", " ", "0", "-", "00000000000000000000000"]), number).into_bytes(),
        4 => r.pick(&["true", "false", "True", "true ", "1", "yes", "0x1", "1.0", "1e1", "+", "-", "--1", "+-1", "٣"]).as_bytes().to_vec(),
        5 => vec![*r.pick(&[b'a', 0, 127, 255, b' '])],
        6 => {
            let mut d = number.to_string().into_bytes();
            d.push(255);
            d
        }
        _ => rand_bytes(r, false),
    }
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let len = if r.chance(1, 10) { r.below(30) } else { r.range(1, 8) };
        let mut names: Vec<_> = (0..r.range(1, 4)).map(|_| rand_name(&mut r)).collect();
        let mut ops = vec![];
        for _ in 0..len {
            let k = r.pick(&names).clone();
            let v = rand_value(&mut r);
            ops.push(match r.below(14) {
                0 | 1 | 2 | 3 => json!({"op": "insert", "k": jb(&k), "v": jb(&v)}),
                4 | 5 => json!({"op": "remove", "k": jb(&k)}),
                6 => json!({"op": "entry", "k": jb(&k), "v": jb(&v)}),
                7 => json!({"op": "push", "k": jb(&k), "v": jb(&v)}),
                8 => json!({"op": "push_all", "v": jb(&v)}),
                9 | 10 => {
                    let n = r.below(5);
                    let all: Vec<_> = (0..n).map(|_| json!([jb(r.clone().pick(&names)), jb(&rand_value(&mut r))])).collect();
                    json!({"op": (if r.chance(1, 3) { "from" } else { "extend" }), "pairs": all})
                }
                _ => json!({"op": *r.pick(&["clear", "clone", "convert", "collect"])}),
            });
        }
        names.push(rand_name(&mut r));
        names.sort();
        names.dedup();
        let mut w = r.clone();
        let o = course(&ops, &names, &mut || w.below(25));
        out.line(&json!({"ops": ops, "panic": o["panic"], "after": o["after"], "access": o["access"], "alike": o["unlike"] == json!([])}));
    }
}
