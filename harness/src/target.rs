//! Request targets and parameters, see Target.tla.
use rustful::filter::{ContextAction, ContextFilter, FilterContext};
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response, Server};
use rustful::context::Parameters;
use serde_json::{json, Value};
use std::cell::RefCell;

use crate::net::*;
use crate::util::*;

thread_local! {
    static SEEN: RefCell<Vec<Value>> = RefCell::new(vec![]);
    static BODY: RefCell<Value> = RefCell::new(Value::Null);
}

struct Recorder;

pub fn params(p: &Parameters) -> Value {
    let mut all: Vec<(Vec<u8>, Vec<u8>)> = p.iter().map(|(k, v)| (k.as_ref().to_vec(), v.as_ref().to_vec())).collect();
    all.sort();
    json!(all.iter().map(|p| json!([jb(&p.0), jb(&p.1)])).collect::<Vec<_>>())
}

fn see(context: &Context) -> Value {
    let path = context.uri_path.as_path().map(|p| p.as_ref().to_vec());
    let host = context.headers.get::<rustful::header::Host>();
    json!({
        "asterisk": context.uri_path.is_asterisk(),
        "views": json!([{
            "path": context.uri_path.is_path(),
            "text": context.uri_path.as_utf8_path().map(|p| json!([jb(p.as_bytes())])).unwrap_or(json!([])),
            "lossy": context.uri_path.as_utf8_path_lossy().map(|p| json!([jb(p.as_bytes())])).unwrap_or(json!([])),
            "shown": jb(context.uri_path.to_string().as_bytes()),
        }]),
        "path": path.map(|p| jb(&p)).unwrap_or(json!([])),
        "query": params(&context.query),
        "fragment": context.fragment.as_ref().map(|f| json!([jb(f.as_ref())])).unwrap_or(json!([])),
        "host": {"name": host.map(|h| h.hostname.clone()), "port": host.and_then(|h| h.port.map(|p| p as i64)).unwrap_or(-1)},
        "uris": context.headers.get_raw("host").map(|h| h.len()).unwrap_or(0),
    })
}

impl ContextFilter for Recorder {
    fn modify(&self, _: FilterContext, context: &mut Context) -> ContextAction {
        let mut v = see(context);
        v["by"] = json!("filter");
        SEEN.with(|s| s.borrow_mut().push(v));
        ContextAction::Next
    }
}

impl Handler for Recorder {
    fn handle(&self, mut context: Context, response: Response) {
        let mut v = see(&context);
        v["by"] = json!("handler");
        SEEN.with(|s| s.borrow_mut().push(v));
        let body = context.body.read_query_body().map(|p| params(&p)).unwrap_or(json!("error"));
        BODY.with(|b| *b.borrow_mut() = body);
        response.send("ok");
    }
}

pub fn server() -> ServerInstance<impl Fn(Context, Response) + Send + Sync> {
    Server {
        threads: Some(1),
        context_filters: vec![Box::new(Recorder)],
        ..Server::new(|context: Context, response: Response| Recorder.handle(context, response))
    }
    .build()
}

pub struct Seen {
    pub by: Vec<Value>,
    pub status: u16,
    pub body: Value,
    pub wire: Value,
}

pub fn ask<H: hyper::server::Handler>(server: &H, target: &[u8], host: &str, body: Option<&[u8]>) -> Seen {
    SEEN.with(|s| s.borrow_mut().clear());
    BODY.with(|b| *b.borrow_mut() = Value::Null);
    let mut raw = vec![];
    // which method it is makes no difference
    let sum: usize = target.iter().map(|&b| b as usize).sum();
    let method = if body.is_some() { "POST" } else { ["GET", "GET", "POST", "DELETE", "OPTIONS", "PUT", "BREW", "PATCH"][sum % 8] };
    raw.extend_from_slice(format!("{} ", method).as_bytes());
    raw.extend_from_slice(target);
    raw.extend_from_slice(format!(" HTTP/1.1\r\nHost: {}\r\n", host).as_bytes());
    match body {
        Some(b) => {
            raw.extend_from_slice(format!("Content-Length: {}\r\n\r\n", b.len()).as_bytes());
            raw.extend_from_slice(b);
        }
        None => raw.extend_from_slice(b"\r\n"),
    }
    let served = serve(server, &raw);
    let wire = parse_wire(&served.written);
    Seen {
        by: SEEN.with(|s| s.borrow_mut().drain(..).collect()),
        status: wire.status,
        body: BODY.with(|b| b.replace(Value::Null)),
        wire: if served.unparsed {
            json!("not parsed")
        } else if let Some(p) = served.panic {
            json!(format!("panic: {}", p))
        } else {
            wellformed(&wire)
        },
    }
}

pub fn target_text(t: &Value) -> Vec<u8> {
    let mut text = vec![];
    if t["form"] == "absolute" {
        text.extend_from_slice(format!("{}://{}{}", st(&t["scheme"]), t["user"].as_str().unwrap_or(""), st(&t["name"])).as_bytes());
        if int(&t["port"]) >= 0 {
            text.extend_from_slice(format!(":{}", int(&t["port"])).as_bytes());
        }
    }
    text.extend(bytes(&t["rest"]));
    text
}

/// The host of requests in origin form.
pub const HOST: &str = "as.sent:99";

pub fn observed(o: &Seen, t: &Value) -> Value {
    let filter = o.by.iter().find(|s| s["by"] == "filter").cloned().unwrap_or(Value::Null);
    let handler = o.by.iter().find(|s| s["by"] == "handler").cloned().unwrap_or(Value::Null);
    let same = handler.is_null() || ["asterisk", "views", "path", "query", "fragment", "host", "uris"].iter().all(|k| filter[k] == handler[k]);
    let form = if t["form"] == "authority" {
        o.by.is_empty()
    } else {
        o.by.len() == if t["form"] == "asterisk" { 1 } else { 2 } && boolean(&filter["asterisk"]) == (t["form"] == "asterisk")
    };
    let host = if t["form"] == "origin" || t["form"] == "asterisk" {
        if filter["host"] == json!({"name": "as.sent", "port": 99}) { json!({"name": "", "port": -1}) } else { filter["host"].clone() }
    } else {
        filter["host"].clone()
    };
    let e = json!([]);
    let or = |v: &Value| if v.is_null() { e.clone() } else { v.clone() };
    json!({
        "wire": o.wire, "form": form, "same": same, "status": o.status, "handled": !handler.is_null(),
        "path": or(&filter["path"]), "views": or(&filter["views"]), "query": or(&filter["query"]), "fragment": or(&filter["fragment"]),
        "host": if host.is_null() { json!({"name": "", "port": -1}) } else { host },
    })
}

/// The text of the query, if there is any.
fn query_of(rest: &[u8]) -> Option<Vec<u8>> {
    let whole: Vec<u8> = rest.iter().cloned().take_while(|&b| b != b'#').collect();
    whole.iter().position(|&b| b == b'?').map(|i| whole[i + 1..].to_vec())
}

pub fn replay(vectors: &str, report: &str) {
    let server = server();
    replay_all(vectors, report, |rep, v| {
        let (t, x) = (&v["target"], &v["decoded"]);
        let o = observed(&ask(&server, &target_text(t), HOST, None), t);
        rep.check("wire", v, &json!("ok"), &o["wire"]);
        rep.check("form", v, &json!(true), &o["form"]);
        rep.check("same", v, &json!(true), &o["same"]);
        rep.check("status", v, &x["status"], &o["status"]);
        rep.check("handled", v, &x["handled"], &o["handled"]);
        rep.check("path", v, &x["parts"]["path"], &o["path"]);
        rep.check("views", v, &x["views"], &o["views"]);
        rep.check("fragment", v, &x["parts"]["fragment"], &o["fragment"]);
        rep.check("host", v, &x["host"], &o["host"]);
        let query = sorted(&x["parts"]["query"]);
        rep.check("query", v, &query, &sorted(&o["query"]));
        if let Some(q) = query_of(&bytes(&t["rest"])) {
            let o = ask(&server, b"/", HOST, Some(&q));
            rep.check("body", v, &query, &sorted(&o.body));
        }
    })
}

pub fn replay_encoding(vectors: &str, report: &str) {
    let server = server();
    replay_all(vectors, report, |rep, v| {
        let text = bytes(&v["text"]);
        let x = sorted(&v["params"]);
        let o = ask(&server, &[b"/p?", &text[..]].concat(), HOST, Some(&text));
        rep.check("wire", v, &json!("ok"), &o.wire);
        rep.check("query", v, &x, &sorted(o.by.get(0).map(|s| &s["query"]).unwrap_or(&json!([]))));
        rep.check("body", v, &x, &sorted(&o.body));
        let o = ask(&server, &[b"http://h?", &text[..], b"#x"].concat(), HOST, None);
        rep.check("query", v, &x, &sorted(o.by.get(0).map(|s| &s["query"]).unwrap_or(&json!([]))));
    })
}

fn rand_rest(r: &mut Rng, absolute: bool) -> Vec<u8> {
    let mut s = vec![];
    if absolute {
        match r.below(6) {
            0 => return s,
            1 => s.push(b'?'),
            2 => s.push(b'#'),
            _ => s.push(b'/'),
        }
    } else {
        s.push(b'/');
    }
    let n = if r.chance(1, 30) { r.below(600) } else { r.below(25) };
    for _ in 0..n {
        match r.below(14) {
            0..=3 => s.push(*r.pick(b"/?#&=%+")),
            4..=5 => {
                let b = *r.pick(b"/?#&=%+ \0\r\n\x7f\xff\xc3a0~");
                s.extend_from_slice(if r.chance(1, 2) { format!("%{:02X}", b) } else { format!("%{:02x}", b) }.as_bytes());
            }
            6 => {
                let b = r.below(256) as u8;
                if b != b'.' && b != b'\\' || !absolute {
                    s.extend_from_slice(format!("%{:02X}", b).as_bytes());
                }
            }
            7 => s.extend_from_slice(*r.pick(&["å", "日", "€", "ñ"].map(|x| x.as_bytes()))),
            8 => s.extend_from_slice(*r.pick(&[&b"%"[..], b"%4", b"%g1", b"%%", b"%2"])),
            9 => {
                let b = 33 + r.below(94) as u8;
                if !absolute || (b != b'.' && b != b'\\') {
                    s.push(b);
                }
            }
            _ => s.push(b'a' + r.below(26) as u8),
        }
    }
    s
}

fn rand_bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.below(max + 1);
    (0..n)
        .map(|_| match r.below(4) {
            0 => r.below(256) as u8,
            1 => *r.pick(b"&=+% ?#/;\0\n"),
            _ => *r.pick(b"abcXYZ019-._~*"),
        })
        .collect()
}

fn encode(r: &mut Rng, b: &[u8], text: &mut Vec<u8>, query: bool) {
    for &b in b {
        let plain = b.is_ascii_alphanumeric() || b"-._~*!$'(),:@/?".contains(&b) || (!query && b >= 128);
        if b == b' ' && r.chance(1, 2) {
            text.push(b'+');
        } else if plain && r.chance(3, 4) {
            text.push(b);
        } else if r.chance(1, 2) {
            text.extend_from_slice(format!("%{:02X}", b).as_bytes());
        } else {
            text.extend_from_slice(format!("%{:02x}", b).as_bytes());
        }
    }
}

/// Parameters encoded by an encoder that's independent of what decodes them.
fn rand_encoded(r: &mut Rng) -> (Vec<(Vec<u8>, Vec<u8>)>, Vec<u8>) {
    let mut plain: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut text = vec![];
    // quite a lot of parameters every now and then
    let count = if r.chance(1, 150) { r.range(100, 1500) } else { r.below(7) };
    for i in 0..count {
        let name = if i > 0 && r.chance(1, 4) { plain[r.below(i)].0.clone() } else { rand_bytes(r, 6) };
        let long = if count > 7 { 3 } else if r.chance(1, 25) { 800 } else if r.chance(1, 300) { 9000 } else { 12 };
        let value = rand_bytes(r, long);
        if i > 0 {
            text.push(b'&');
        }
        encode(r, &name, &mut text, true);
        if !(value.is_empty() && !name.is_empty() && r.chance(1, 2)) {
            text.push(b'=');
            encode(r, &value, &mut text, true);
        }
        plain.push((name, value));
    }
    (plain, text)
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    let server = server();
    for _ in 0..count {
        if r.chance(1, 2) {
            let (mut t, absolute) = match r.below(20) {
                0 => (json!({"form": "asterisk", "rest": jb(b"*")}), false),
                1 => {
                    let n = r.range(1, 8);
                    let mut s: Vec<u8> = (0..n).map(|_| b'a' + r.below(26) as u8).collect();
                    if r.chance(1, 2) {
                        s.extend_from_slice(b":80");
                    }
                    (json!({"form": "authority", "rest": jb(&s)}), false)
                }
                2..=9 => {
                    let mut t = json!({
                        "form": "absolute",
                        "scheme": *r.pick(&["http", "https"]),
                        "name": *r.pick(&["example.com", "h", "a.b.c", "example.com.", "127.0.0.1", "xn--bcher-kva.ch", "localhost", "under_score", "[::1]", "[2001:db8::7]"]),
                        "port": *r.pick(&[-1, -1, 80, 443, 8080, 1, 65535]),
                    });
                    if r.chance(1, 6) {
                        t["user"] = json!("someone:secret@");
                    }
                    (t, true)
                }
                _ => (json!({"form": "origin"}), false),
            };
            if t["rest"].is_null() {
                t["rest"] = jb(&rand_rest(&mut r, absolute));
            }
            if t["scheme"].is_null() {
                t["scheme"] = json!("");
                t["name"] = json!("");
                t["port"] = json!(-1);
            }
            let o = observed(&ask(&server, &target_text(&t), HOST, None), &t);
            out.line(&json!({"kind": "target", "target": t, "seen": o}));
        } else {
            let (plain, text) = rand_encoded(&mut r);
            let (text, plain) = if r.chance(1, 4) { (rand_bytes(&mut r, 40), Value::Null) } else { (text, json!(plain.iter().map(|p| json!([jb(&p.0), jb(&p.1)])).collect::<Vec<_>>())) };
            let body = ask(&server, b"/", HOST, Some(&text)).body;
            // malformed text isn't always possible in a target
            let query = if plain.is_null() {
                body.clone()
            } else {
                ask(&server, &[b"/?", &text[..]].concat(), HOST, None).by.get(0).map(|s| s["query"].clone()).unwrap_or(json!("none"))
            };
            out.line(&json!({"kind": "params", "text": jb(&text), "encoded": !plain.is_null(), "plain": if plain.is_null() { json!([]) } else { plain }, "body": body, "query": query}));
        }
    }
}
