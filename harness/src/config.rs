//! Host addresses and the settings of a server, see Config.tla.
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::{Host, KeepAlive};
use rustful::{Context, Handler, Response, Server, StatusCode};
use hyper::server::Handler as HyperHandler;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

use crate::net::*;
use crate::util::*;

fn ip4(v: &Value) -> Ipv4Addr {
    let n: Vec<u8> = arr(v).iter().map(|n| int(n) as u8).collect();
    Ipv4Addr::new(n[0], n[1], n[2], n[3])
}

fn ip6(v: &Value) -> Ipv6Addr {
    let mut n = [0u16; 8];
    for (n, v) in n.iter_mut().zip(arr(v)) {
        *n = int(v) as u16;
    }
    Ipv6Addr::from(n)
}

pub fn show(a: SocketAddr) -> Value {
    match a {
        SocketAddr::V4(a) => json!({"v6": false, "ip": a.ip().octets(), "port": a.port(), "flow": 0, "scope": 0}),
        SocketAddr::V6(a) => json!({"v6": true, "ip": a.ip().segments(), "port": a.port(), "flow": a.flowinfo(), "scope": a.scope_id()}),
    }
}

fn make(b: &Value) -> Host {
    let port = int(&b["port"]) as u16;
    let v4 = || SocketAddrV4::new(ip4(&b["ip"]), port);
    let v6 = || SocketAddrV6::new(ip6(&b["ip"]), port, int(&b["flow"]) as u32, int(&b["scope"]) as u32);
    let mut host: Host = match st(&b["how"]) {
        "number" => port.into(),
        "any" => Host::any_v4(port),
        "pair" => (ip4(&b["ip"]), port).into(),
        "v4" => v4().into(),
        "socket4" => SocketAddr::V4(v4()).into(),
        "text4" => {
            let ip: Vec<String> = arr(&b["ip"]).iter().map(|n| int(n).to_string()).collect();
            format!("{}:{}", ip.join("."), port).parse().expect("the text isn't parsed")
        }
        "v6" => v6().into(),
        "socket6" => SocketAddr::V6(v6()).into(),
        "text6" => {
            let ip: Vec<String> = arr(&b["ip"]).iter().map(|n| format!("{:x}", int(n))).collect();
            format!("[{}]:{}", ip.join(":"), port).parse().expect("the text isn't parsed")
        }
        h => panic!("no such way: {}", h),
    };
    for p in arr(&b["ports"]) {
        host.port(int(p) as u16);
    }
    host
}

fn hash(h: &Host) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

fn hosts(a: &Value, b: &Value) -> Value {
    let r = guarded(|| {
        let (a, b) = (make(a), make(b));
        let before = a;
        let mut changed = a.clone();
        changed.port(1234);
        let copy = a == before && SocketAddr::from(a) == SocketAddr::from(before) && SocketAddr::from(changed).port() == 1234;
        json!({
            "panic": false, "a_seen": show(a.into()), "b_seen": show(b.into()),
            "equal": a == b && !(a != b), "hash": hash(&a) == hash(&b), "copy": copy,
        })
    });
    r.unwrap_or_else(|_| json!({"panic": true, "a_seen": 0, "b_seen": 0, "equal": false, "hash": false, "copy": false}))
}

fn text(t: &Value) -> Value {
    let r = guarded(|| match String::from_utf8(bytes(t)).unwrap().parse::<Host>() {
        Ok(h) => json!({"ok": true, "addr": show(h.into())}),
        Err(_) => json!({"ok": false}),
    });
    match r {
        Ok(seen) => json!({"panic": false, "seen": seen}),
        Err(_) => json!({"panic": true, "seen": {}}),
    }
}

#[derive(Default)]
struct Answering;

impl Handler for Answering {
    fn handle(&self, context: Context, response: Response) {
        let empty = context.global.get::<u8>().is_none() && context.global.get::<String>().is_none();
        response.send(if empty { "empty" } else { "something" });
    }
}

struct Counting(Arc<AtomicUsize>);

impl ContextFilter for Counting {
    fn modify(&self, _: FilterContext, _: &mut Context) -> ContextAction {
        self.0.fetch_add(1, Ordering::SeqCst);
        ContextAction::next()
    }
}

impl ResponseFilter for Counting {
    fn begin(&self, _: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        self.0.fetch_add(1, Ordering::SeqCst);
        (s, ResponseAction::next(None::<Vec<u8>>))
    }
    fn write<'a>(&'a self, _: FilterContext, d: Option<Data<'a>>) -> ResponseAction<'a> {
        ResponseAction::next(d)
    }
    fn end(&self, _: FilterContext) -> ResponseAction<'_> {
        ResponseAction::next(None::<Vec<u8>>)
    }
}

fn configured(c: &Value, free: i64, counts: &[Arc<AtomicUsize>; 2]) -> Server<Answering> {
    let mut s: Server<Answering> = if c["base"] == "new" { Server::new(Answering) } else { Server::default() };
    if let Some(h) = arr(&c["host"]).first() {
        s.host = make(h);
    }
    if let Some(n) = arr(&c["server"]).first() {
        s.server = st(n).into();
    }
    if let Some(t) = arr(&c["ctype"]).first() {
        s.content_type = st(t).parse().unwrap();
    }
    if int(&c["threads"]) >= 0 {
        s.threads = Some(int(&c["threads"]) as usize);
    }
    if free >= 0 {
        s.keep_alive = Some(KeepAlive { timeout: Duration::from_secs(5), free_threads: free as usize });
    }
    for _ in 0..int(&c["cf"]) {
        s.context_filters.push(Box::new(Counting(counts[0].clone())));
    }
    for _ in 0..int(&c["rf"]) {
        s.response_filters.push(Box::new(Counting(counts[1].clone())));
    }
    s
}

/// One request, with as many open connections
fn ask(s: Server<Answering>, open: i64) -> Wire {
    let instance = s.build();
    for _ in 0..open {
        instance.on_connection_start();
    }
    let served = serve(&instance, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    if let Some(p) = served.panic {
        panic!("{}", p);
    }
    parse_wire(&served.written)
}

fn closes(w: &Wire) -> bool {
    w.header("connection").iter().any(|v| v.eq_ignore_ascii_case(b"close"))
}

fn settings(c: &Value) -> Value {
    let r = guarded(|| {
        let counts = [Arc::default(), Arc::default()];
        let open = int(&c["open"]);
        let s = configured(c, int(&c["free"]), &counts);
        let mut seen = json!({
            "host": show(s.host.into()), "server": s.server, "ctype": s.content_type.to_string(),
            "threads": s.threads.map(|t| t as i64).unwrap_or(-1),
            "free": s.keep_alive.as_ref().map(|k| k.free_threads as i64).unwrap_or(-1),
            "cf": s.context_filters.len(), "rf": s.response_filters.len(),
        });
        let w = ask(s, open);
        seen["answered_server"] = json!(w.header1("server"));
        seen["answered_ctype"] = json!(w.header1("content-type"));
        seen["global"] = json!(w.body == b"empty");
        seen["wire"] = wellformed(&w);
        seen["cf_ran"] = json!(counts[0].load(Ordering::SeqCst));
        seen["rf_ran"] = json!(counts[1].load(Ordering::SeqCst));
        seen["closes"] = json!(int(&c["free"]) >= 0 && closes(&w));
        // the first number of free threads that is too large
        let (mut low, mut high) = (0, 1000);
        while low < high {
            let middle = (low + high) / 2;
            if closes(&ask(configured(c, middle, &counts), open)) {
                high = middle;
            } else {
                low = middle + 1;
            }
        }
        seen["limit"] = json!(low - 1);
        seen
    });
    match r {
        Ok(seen) => json!({"panic": false, "seen": seen}),
        Err(_) => json!({"panic": true, "seen": {}}),
    }
}

pub fn replay(vectors: &str, report: &str) {
    replay_all(vectors, report, |rep, v| match st(&v["kind"]) {
        "hosts" => {
            let o = hosts(&v["a"], &v["b"]);
            if rep.check("panic", v, &json!(false), &o["panic"]) {
                rep.check("address", v, &v["addr"], &o["a_seen"]);
                rep.check("equal", v, &v["same"], &o["equal"]);
                rep.check("copy", v, &json!(true), &o["copy"]);
                if v["same"] == true {
                    rep.check("hash", v, &json!(true), &o["hash"]);
                }
            }
        }
        "text" => {
            let o = text(&v["text"]);
            if rep.check("panic", v, &json!(false), &o["panic"]) {
                rep.check("parsed", v, &v["parsed"], &o["seen"]);
            }
        }
        _ => {
            let o = settings(&v["c"]);
            if rep.check("panic", v, &json!(false), &o["panic"]) {
                let o = &o["seen"];
                for f in ["host", "server", "ctype", "threads", "free", "cf", "rf"] {
                    rep.check(f, v, &v[f], &o[f]);
                }
                rep.check("wire", v, &json!("ok"), &o["wire"]);
                rep.check("global", v, &json!(true), &o["global"]);
                rep.check("answered", v, &json!([v["server"], v["ctype"]]), &json!([o["answered_server"], o["answered_ctype"]]));
                rep.check("filtered", v, &json!([v["cf"], v["rf"]]), &json!([o["cf_ran"], o["rf_ran"]]));
                if int(&v["c"]["threads"]) >= 0 {
                    rep.check("limit", v, &v["limit"], &o["limit"]);
                    rep.check("closes", v, &v["closes"], &o["closes"]);
                }
            }
        }
    })
}

extern "C" {
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

/// Do something with a part of the cores, and tell how many there were
fn with_cores<T, F: FnOnce() -> T>(n: usize, f: F) -> (usize, T) {
    const WORDS: usize = 64;
    let mut all = [0u64; WORDS];
    let known = unsafe { sched_getaffinity(0, WORDS * 8, all.as_mut_ptr()) } > 0 || all.iter().any(|w| *w != 0);
    if known {
        let mut some = [0u64; WORDS];
        let mut left = n;
        for i in (0..WORDS * 64).filter(|i| all[i / 64] >> (i % 64) & 1 == 1) {
            if left > 0 {
                some[i / 64] |= 1 << (i % 64);
                left -= 1;
            }
        }
        unsafe { sched_setaffinity(0, WORDS * 8, some.as_ptr()) };
    }
    let cores = num_cpus::get();
    let r = f();
    if known {
        unsafe { sched_setaffinity(0, WORDS * 8, all.as_ptr()) };
    }
    (cores, r)
}

fn any_host(r: &mut Rng) -> Value {
    let port = |r: &mut Rng| if r.chance(1, 2) { *r.pick(&[0, 1, 80, 255, 256, 8080, 65535]) } else { r.below(65536) };
    let how = *r.pick(&["number", "any", "pair", "v4", "socket4", "text4", "v6", "socket6", "text6"]);
    let six = how.ends_with('6');
    let ip: Vec<usize> = match how {
        "number" | "any" => vec![0; 4],
        _ if six => (0..8).map(|_| if r.chance(1, 2) { *r.pick(&[0, 1, 65535]) } else { r.below(65536) }).collect(),
        _ => (0..4).map(|_| if r.chance(1, 2) { *r.pick(&[0, 127, 255]) } else { r.below(256) }).collect(),
    };
    let ports: Vec<usize> = (0..*r.pick(&[0, 0, 0, 1, 1, 2, 3])).map(|_| port(r)).collect();
    let mut extra = |n| if how == "v6" || how == "socket6" { r.below(n) } else { 0 };
    let (flow, scope) = (extra(1 << 20), extra(1 << 30));
    let port = port(r);
    json!({"how": how, "ip": ip, "port": port, "flow": flow, "scope": scope, "ports": ports})
}

fn any_text(r: &mut Rng) -> Value {
    let mut t = String::new();
    for i in 0..4 {
        if i > 0 {
            t.push('.');
        }
        t += &if r.chance(1, 12) { r.below(2000).to_string() } else { r.below(256).to_string() };
    }
    if !r.chance(1, 15) {
        t.push(':');
    }
    t += &if r.chance(1, 4) { r.below(100000).to_string() } else { r.below(65536).to_string() };
    let mut t = t.into_bytes();
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) {
            let i = r.below(t.len() + 1);
            match r.below(3) {
                0 => t.insert(i, *r.pick(b"0123456789.: ax-+/")),
                1 if i < t.len() => {
                    t.remove(i);
                }
                _ if i < t.len() => t[i] = *r.pick(b"0123456789.: ax-+/"),
                _ => {}
            }
        }
    }
    jb(&t)
}

fn any_settings(r: &mut Rng) -> Value {
    let host = if r.chance(1, 2) { json!([any_host(r)]) } else { json!([]) };
    let server = if r.chance(1, 2) { json!([*r.pick(&["", "a", "rustful", "some/1.2 (x; y)", "Server: no"])]) } else { json!([]) };
    let ctype = if r.chance(1, 2) { json!([*r.pick(&["text/plain", "text/html", "text/html; charset=utf-8", "a/b; c=d", "application/json", "image/png"])]) } else { json!([]) };
    let threads = if r.chance(1, 2) { r.below(20) as i64 } else { -1 };
    let free = if r.chance(1, 2) { r.below(12) as i64 } else { -1 };
    let open = if r.chance(1, 4) { num_cpus::get() + r.below(num_cpus::get()) } else { r.below(12) };
    json!({
        "base": *r.pick(&["new", "default"]), "host": host, "server": server, "ctype": ctype, "threads": threads, "free": free,
        "cf": r.below(4), "rf": r.below(4), "open": open,
    })
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for i in 0..count {
        let line = match i % 5 {
            0 | 1 => {
                let a = any_host(&mut r);
                let b = if r.chance(1, 3) {
                    let mut b = a.clone();
                    if r.chance(1, 2) {
                        b["port"] = json!(80);
                        b["ports"] = json!([a["ports"].as_array().unwrap().last().unwrap_or(&a["port"])]);
                    }
                    b
                } else {
                    any_host(&mut r)
                };
                let mut line = hosts(&a, &b);
                line["kind"] = json!("hosts");
                line["a"] = a;
                line["b"] = b;
                line
            }
            2 | 3 => {
                let t = any_text(&mut r);
                let mut line = text(&t);
                line["kind"] = json!("text");
                line["text"] = t;
                line
            }
            _ => {
                let c = any_settings(&mut r);
                let (cores, mut line) = with_cores(r.range(1, 12), || settings(&c));
                line["kind"] = json!("settings");
                line["c"] = c;
                line["cores"] = json!(cores);
                line
            }
        };
        out.line(&line);
    }
}
