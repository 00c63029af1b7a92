//! Global data, see Global.tla.
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::Global;
use rustful::{Context, Handler, Response, Server, StatusCode};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use crate::net::*;
use crate::util::*;

/// Counts the values that exist.
struct Token(Arc<AtomicUsize>);

impl Token {
    fn new(count: &Arc<AtomicUsize>) -> Token {
        count.fetch_add(1, Ordering::SeqCst);
        Token(count.clone())
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

struct Zero;
struct Nothing;

/// The types, of different sizes.
struct T<const N: usize> {
    _padding: [[u8; 16]; N],
    value: i64,
    _token: Token,
}

const TYPES: usize = 14;

fn new<const N: usize>(v: &Value, count: &Arc<AtomicUsize>) -> T<N> {
    T { _padding: [[N as u8; 16]; N], value: int(v), _token: Token::new(count) }
}

macro_rules! with_type {
    ($t: expr, $N: ident => $e: expr) => {
        with_type!(@ $t, $N, $e, 0 1 2 3 4 5 6 7 8 9 10 11 12 13)
    };
    (@ $t: expr, $N: ident, $e: expr, $($n: tt)+) => {
        match $t {
            $($n => {
                const $N: usize = $n;
                $e
            })+
            t => panic!("no such type: {}", t),
        }
    };
}

macro_rules! tuples {
    ($pairs: expr, $count: expr, $([$($n: tt,)+],)+) => {{
        let pairs: &[Value] = $pairs;
        let types: Vec<i64> = pairs.iter().map(|p| int(&p[0])).collect();
        let mut values = pairs.iter().map(|p| &p[1]);
        match &types[..] {
            $([$($n),+] => Global::from(($(new::<$n>(values.next().unwrap(), $count),)+)),)+
            t => panic!("no such tuple: {:?}", t),
        }
    }};
}

fn build(b: &Value, count: &Arc<AtomicUsize>) -> Global {
    let pairs = arr(&b["pairs"]);
    match st(&b["how"]) {
        "default" => Global::default(),
        "unit" => ().into(),
        "box" => with_type!(int(&pairs[0][0]), N => Box::new(new::<N>(&pairs[0][1], count)).into()),
        "tuple" => tuples!(pairs, count,
        [0,],
        [0, 0,],
        [0, 0, 0,],
        [0, 0, 0, 0,],
        [0, 0, 0, 0, 0,],
        [0, 0, 0, 0, 0, 0,],
        [0, 0, 0, 0, 0, 0, 0,],
        [0, 0, 0, 0, 0, 0, 0, 0,],
        [0, 0, 0, 0, 0, 0, 0, 0, 0,],
        [0, 0, 0, 0, 0, 0, 0, 0, 0, 0,],
        [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,],
        [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,],
        [0, 1,],
        [0, 1, 0,],
        [0, 1, 2,],
        [0, 1, 2, 0,],
        [0, 1, 2, 3,],
        [0, 1, 2, 3, 0,],
        [0, 1, 2, 3, 4,],
        [0, 1, 2, 3, 4, 0,],
        [0, 1, 2, 3, 4, 5,],
        [0, 1, 2, 3, 4, 5, 0,],
        [0, 1, 2, 3, 4, 5, 6,],
        [0, 1, 2, 3, 4, 5, 6, 0,],
        [0, 1, 2, 3, 4, 5, 6, 7,],
        [0, 1, 2, 3, 4, 5, 6, 7, 0,],
        [0, 1, 2, 3, 4, 5, 6, 7, 8,],
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 0,],
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9,],
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0,],
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10,],
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0,],
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11,],
        [1,],
        [1, 0,],
        [1, 0, 1,],
        [1, 0, 1, 0,],
        [1, 0, 1, 0, 1,],
        [1, 0, 1, 0, 1, 0,],
        [1, 0, 1, 0, 1, 0, 1,],
        [1, 0, 1, 0, 1, 0, 1, 0,],
        [1, 0, 1, 0, 1, 0, 1, 0, 1,],
        [1, 0, 1, 0, 1, 0, 1, 0, 1, 0,],
        [1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1,],
        [1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0,],
        [2, 1, 0,],
        [3, 2, 1, 0,],
        [4, 3, 2, 1, 0,],
        [5, 4, 3, 2, 1, 0,],
        [6, 5, 4, 3, 2, 1, 0,],
        [7, 6, 5, 4, 3, 2, 1, 0,],
        [8, 7, 6, 5, 4, 3, 2, 1, 0,],
        [9, 8, 7, 6, 5, 4, 3, 2, 1, 0,],
        [10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0,],
        [11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0,],
        ),
        h => panic!("no such way: {}", h),
    }
}

fn content(g: &Global) -> Value {
    let mut all = vec![];
    for t in 0..TYPES as i64 {
        with_type!(t, N => if let Some(v) = g.get::<T<N>>() {
            all.push(json!([t, v.value]))
        });
    }
    // types that are never stored
    if g.get::<i64>().is_some() || g.get::<Token>().is_some() || g.get::<()>().is_some() || g.get::<Box<T<0>>>().is_some() || g.get::<(T<0>,)>().is_some() {
        all.push(json!("something else"));
    }
    Value::Array(all)
}

/// What everything sees that handles a request.
#[derive(Clone)]
struct Looks(Arc<Mutex<Vec<(&'static str, Value)>>>);

impl Looks {
    fn look(&self, who: &'static str, g: &Global) {
        self.0.lock().unwrap().push((who, content(g)));
    }
}

impl Handler for Looks {
    fn handle(&self, context: Context, response: Response) {
        self.look("handler", context.global);
        let mut r = response.into_chunked();
        let _ = r.try_send("content");
        let _ = r.end();
    }
}

impl ContextFilter for Looks {
    fn modify(&self, c: FilterContext, context: &mut Context) -> ContextAction {
        self.look("context filter", c.global);
        self.look("its request", context.global);
        ContextAction::next()
    }
}

impl ResponseFilter for Looks {
    fn begin(&self, c: FilterContext, status: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        self.look("begin", c.global);
        (status, ResponseAction::next(None::<&str>))
    }
    fn write<'a>(&'a self, c: FilterContext, data: Option<Data<'a>>) -> ResponseAction {
        self.look("write", c.global);
        ResponseAction::next(data)
    }
    fn end(&self, c: FilterContext) -> ResponseAction {
        self.look("end", c.global);
        ResponseAction::next(None::<&str>)
    }
}

/// Empty if everything saw the same data, and the data is dropped with the server.
fn served(g: Global, count: &Arc<AtomicUsize>) -> String {
    let expected = content(&g);
    let looks = Looks(Arc::new(Mutex::new(vec![])));
    {
        let server = Server {
            threads: Some(1),
            context_filters: vec![Box::new(looks.clone())],
            response_filters: vec![Box::new(looks.clone())],
            global: g,
            ..Server::new(looks.clone())
        }
        .build();
        for _ in 0..2 {
            serve(&server, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
        }
    }
    let seen = looks.0.lock().unwrap();
    for s in seen.iter() {
        if s.1 != expected {
            return format!("{} saw {} instead of {}", s.0, s.1, expected);
        }
    }
    for who in &["context filter", "its request", "handler", "begin", "write", "end"] {
        if !seen.iter().any(|s| s.0 == *who) {
            return format!("{} wasn't called", who);
        }
    }
    if count.load(Ordering::SeqCst) != 0 {
        return "not dropped with the server".into();
    }
    String::new()
}

fn run(built: &Value, inserts: &[Value], serve: bool) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let count = Arc::new(AtomicUsize::new(0));
        let mut g = build(built, &count);
        let first = content(&g);
        let mut after = vec![];
        for i in inserts {
            let old: Vec<i64> = with_type!(int(&i[0]), N => g.insert(new::<N>(&i[1], &count)).iter().map(|o| o.value).collect());
            after.push(json!({"old": old, "m": content(&g), "alive": count.load(Ordering::SeqCst)}));
        }
        let mut text = String::new();
        // values without a size
        let before = content(&g);
        let some = json!({"zero": [g.get::<Zero>().is_some(), g.insert(Zero).is_some(), g.get::<Zero>().is_some(), g.insert(Zero).is_some(), g.get::<Zero>().is_some(), g.get::<Nothing>().is_some()]});
        if some["zero"] != json!([false, false, true, true, true, false]) || content(&g) != before {
            text = format!("{} in {} which became {}", some, before, content(&g));
        }
        if text != "" {
        } else if serve {
            text = served(g, &count);
        } else {
            drop(g);
        }
        json!({"panic": false, "first": first, "after": after, "left": count.load(Ordering::SeqCst), "served": text})
    }));
    r.unwrap_or_else(|_| json!({"panic": true, "first": [], "after": [], "left": 0, "served": ""}))
}

pub fn replay(vectors: &str, report: &str) {
    let mut n = 0;
    replay_all(vectors, report, |rep, v| {
        n += 1;
        let o = run(&v["built"], arr(&v["inserts"]), n % 4 == 0);
        rep.check("panic", v, &json!(false), &o["panic"]);
        if o["panic"] == true {
            return;
        }
        rep.check("first", v, &sorted(&v["first"]), &sorted(&o["first"]));
        for (x, o) in arr(&v["after"]).iter().zip(arr(&o["after"])) {
            rep.check("old", v, &x["old"], &o["old"]);
            rep.check("content", v, &sorted(&x["m"]), &sorted(&o["m"]));
            rep.check("alive", v, &json!(arr(&x["m"]).len()), &o["alive"]);
        }
        rep.check("dropped", v, &json!(0), &o["left"]);
        rep.check("served", v, &json!(""), &o["served"]);
    })
}

fn types_of(pattern: usize, n: usize) -> Vec<usize> {
    (1..=n)
        .map(|i| match pattern {
            0 => i - 1,
            1 => n - i,
            2 => 0,
            3 => i % 2,
            _ => if i == n { 0 } else { i - 1 },
        })
        .collect()
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let mut v = || r.next() as i32;
        let built = match v() % 6 {
            0 => json!({"how": "default", "pairs": []}),
            1 => json!({"how": "unit", "pairs": []}),
            2 => json!({"how": "box", "pairs": [[v().rem_euclid(14), v()]]}),
            _ => {
                let n = v().rem_euclid(12) as usize + 1;
                let types = types_of(v().rem_euclid(5) as usize, n);
                json!({"how": "tuple", "pairs": types.iter().map(|t| json!([t, v()])).collect::<Vec<_>>()})
            }
        };
        let some = v().rem_euclid(14) + 1;
        let len = v().rem_euclid(if v() % 5 == 0 { 60 } else { 10 });
        let inserts: Vec<_> = (0..len).map(|_| json!([v().rem_euclid(some), v()])).collect();
        let serve = v() % 4 == 0;
        let mut line = run(&built, &inserts, serve);
        line["built"] = built;
        line["inserts"] = json!(inserts);
        out.line(&line);
    }
}
