//! Reading request bodies, see Body.tla.
use hyper::buffer::BufReader;
use hyper::net::NetworkStream;
use rustful::filter::{ContextAction, ContextFilter, FilterContext};
use rustful::{Context, Handler, Response, Server};
use serde_json::{json, Value};
use std::io::Read;
use std::sync::{Arc, Mutex};

use crate::net::*;
use crate::util::*;

struct Script {
    ops: Vec<Value>,
    /// this many are done by a context filter
    filtered: usize,
    done: Mutex<Vec<Value>>,
    paths: Mutex<Vec<String>>,
}

fn params(p: &rustful::context::Parameters) -> Value {
    let all: Vec<Value> = p.iter().map(|(k, v)| json!([jb(k.as_ref()), jb(v.as_ref())])).collect();
    sorted(&json!(all))
}

impl Script {
    /// Returns whether to go on.
    fn exec(&self, context: &mut Context, op: &Value) -> bool {
        let mut o = json!({"op": op["op"], "n": op["n"], "got": [], "end": "more", "params": [], "offered": false, "entries": []});
        let n = int(&op["n"]) as usize;
        let mut go_on = true;
        match st(&op["op"]) {
            "read" => {
                let mut buf = vec![0xEE; n + 3];
                match context.body.read(&mut buf[..n]) {
                    Ok(k) if k > n => o["end"] = json!("more than asked for"),
                    Ok(k) => {
                        o["got"] = jb(&buf[..k]);
                        if k == 0 && n > 0 {
                            o["end"] = json!("end");
                        }
                    }
                    Err(_) => {
                        o["end"] = json!("error");
                        go_on = false;
                    }
                }
            }
            "fill" => {
                let mut got = vec![];
                let mut end = "more";
                loop {
                    let mut buf = vec![0xEE; n - got.len()];
                    match context.body.read(&mut buf) {
                        Ok(0) if n > got.len() => {
                            end = "end";
                            break;
                        }
                        Ok(k) => got.extend(&buf[..k]),
                        Err(_) => {
                            end = "error";
                            go_on = false;
                            break;
                        }
                    }
                    if got.len() >= n {
                        break;
                    }
                }
                o["got"] = jb(&got);
                o["end"] = json!(end);
            }
            "all" => {
                let mut got = b"before".to_vec();
                match context.body.read_to_end(&mut got) {
                    Ok(k) if k + 6 == got.len() => o["end"] = json!("end"),
                    Ok(_) => o["end"] = json!("another number"),
                    Err(_) => {
                        o["end"] = json!("error");
                        go_on = false;
                    }
                }
                o["got"] = jb(&got[6..]);
            }
            "form" => match context.body.read_query_body() {
                Ok(p) => {
                    o["params"] = params(&p);
                    o["end"] = json!("end");
                }
                Err(_) => {
                    o["end"] = json!("error");
                    go_on = false;
                }
            },
            "offer" => o["offered"] = json!(context.body.as_multipart().is_some()),
            "multi" => {
                if let Some(mut m) = context.body.as_multipart() {
                    o["offered"] = json!(true);
                    go_on = false;
                    let mut entries = vec![];
                    let r = m.foreach_entry(|mut f| {
                        let mut d = vec![];
                        let ok = f.data.read_to_end(&mut d).is_ok();
                        let file: Vec<Value> = f.headers.filename.iter().map(|n| jb(n.as_bytes())).collect();
                        if ok {
                            entries.push(json!({"name": jb(f.headers.name.as_bytes()), "file": file, "data": jb(&d)}));
                        } else {
                            entries.push(json!({"failed": true}));
                        }
                    });
                    if r.is_err() {
                        entries.push(json!({"failed": true}));
                    }
                    o["entries"] = json!(entries);
                }
            }
            x => panic!("no such operation: {}", x),
        }
        self.done.lock().unwrap().push(o);
        go_on
    }

    fn exec_all(&self, context: &mut Context, from: usize, to: usize) {
        for op in &self.ops[from..to] {
            if !self.exec(context, op) {
                return;
            }
        }
    }

    /// the reading ended with the filter
    fn ended(&self) -> bool {
        self.done.lock().unwrap().len() < self.filtered || self.done.lock().unwrap().last().map_or(false, |o| o["end"] == "error" || o["op"] == "multi" && o["offered"] == true)
    }
}

struct Shared(Arc<Script>);

impl ContextFilter for Shared {
    fn modify(&self, _: FilterContext, context: &mut Context) -> ContextAction {
        if context.uri_path.as_path().map_or(false, |p| p.as_utf8_lossy() == "/first") {
            self.0.exec_all(context, 0, self.0.filtered);
        }
        ContextAction::next()
    }
}

impl Handler for Shared {
    fn handle(&self, mut context: Context, response: Response) {
        let path = context.uri_path.as_path().map_or(String::new(), |p| p.as_utf8_lossy().into_owned());
        if path == "/first" && !self.0.ended() {
            self.0.exec_all(&mut context, self.0.filtered, self.0.ops.len());
        }
        self.0.paths.lock().unwrap().push(path);
        response.send("done");
    }
}

fn render_type(t: &Value, spaced: bool) -> Vec<u8> {
    let mut d = bytes(&t["top"]);
    d.push(b'/');
    d.extend(bytes(&t["sub"]));
    for p in arr(&t["params"]) {
        d.extend_from_slice(if spaced { b"; " } else { b";" });
        d.extend(bytes(&p["n"]));
        d.push(b'=');
        if boolean(&p["quoted"]) {
            d.push(b'"');
            d.extend(bytes(&p["v"]));
            d.push(b'"');
        } else {
            d.extend(bytes(&p["v"]));
        }
    }
    d
}

/// The request, and whether it's complete.
fn request(q: &Value, r: &mut Rng) -> (Vec<u8>, bool) {
    let content = bytes(&q["content"]);
    let cut = int(&q["cut"]);
    let mut d = b"POST /first HTTP/1.1\r\nHost: h\r\n".to_vec();
    if let Some(t) = arr(&q["ctype"]).first() {
        d.extend_from_slice(*r.pick(&[&b"Content-Type: "[..], b"content-type: "]));
        d.extend(render_type(t, r.chance(1, 2)));
        d.extend_from_slice(b"\r\n");
    }
    match st(&q["framing"]) {
        "none" => d.extend_from_slice(b"\r\n"),
        "length" => {
            d.extend(format!("Content-Length: {}\r\n\r\n", content.len()).into_bytes());
            d.extend(if cut < 0 { &content[..] } else { &content[..cut as usize] });
        }
        _ => {
            d.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            let ext = r.chance(1, 4);
            let mut at = 0;
            for s in arr(&q["sizes"]) {
                let s = int(s) as usize;
                if cut >= 0 && at >= cut as usize {
                    break;
                }
                let size = if r.chance(1, 2) { format!("{:x}", s) } else { format!("{:03X}", s) };
                d.extend(size.into_bytes());
                if ext {
                    d.extend_from_slice(b" ;x=1");
                }
                d.extend_from_slice(b"\r\n");
                if cut >= 0 && at + s > cut as usize {
                    d.extend(&content[at..cut as usize]);
                    return (d, false);
                }
                d.extend(&content[at..at + s]);
                d.extend_from_slice(b"\r\n");
                at += s;
            }
            if cut < 0 {
                d.extend_from_slice(b"0\r\n\r\n");
            }
        }
    }
    (d, cut < 0)
}

struct Seen {
    panic: bool,
    done: Vec<Value>,
    next: bool,
    wire: Value,
}

fn run(q: &Value, ops: Vec<Value>, filtered: usize, step: usize, r: &mut Rng) -> Seen {
    let (mut input, complete) = request(q, r);
    if complete {
        input.extend_from_slice(b"GET /next HTTP/1.1\r\nHost: h\r\n\r\n");
    }
    let script = Arc::new(Script { ops, filtered, done: Mutex::new(vec![]), paths: Mutex::new(vec![]) });
    let server = Server { threads: Some(1), context_filters: vec![Box::new(Shared(script.clone()))], ..Server::new(Shared(script.clone())) }.build();
    let mut stream = MemStream::new(input);
    stream.step = step;
    let stream: &mut dyn NetworkStream = &mut stream;
    let mut reader = BufReader::new(stream);
    let mut written = vec![];
    let (panic, unparsed) = serve_one(&server, &mut reader, &mut written);
    let wire = wellformed(&parse_wire(&written));
    let done = match script.done.lock() {
        Ok(d) => d.clone(),
        Err(e) => e.into_inner().clone(),
    };
    let mut next = false;
    if panic.is_none() && !unparsed {
        let mut written = vec![];
        let (panic, unparsed) = serve_one(&server, &mut reader, &mut written);
        next = panic.is_none() && !unparsed && script.paths.lock().map_or(false, |p| *p == ["/first", "/next"]);
    }
    Seen { panic: panic.is_some() || unparsed, done, next, wire }
}

pub fn replay(vectors: &str, report: &str) {
    let mut r = Rng::new(7);
    replay_all(vectors, report, |rep, v| {
        let q = &v["q"];
        let history = arr(&v["history"]);
        let ops: Vec<Value> = history.iter().map(|h| h["op"].clone()).collect();
        for &step in &[1, 7, usize::MAX] {
            let filtered = r.below(ops.len() + 1);
            let seen = run(q, ops.clone(), filtered, step, &mut r);
            rep.check("panic", v, &json!(false), &json!(seen.panic));
            rep.check("wire", v, &json!("ok"), &seen.wire);
            rep.check("got", v, &json!(history.len()), &json!(seen.done.len()));
            for (x, o) in history.iter().zip(&seen.done) {
                rep.check("got", v, &json!([x["got"], x["end"]]), &json!([o["got"], o["end"]]));
                rep.check("params", v, &sorted(&x["params"]), &o["params"]);
                rep.check("offered", v, &x["offered"], &o["offered"]);
                if !entries_fine(arr(&x["entries"]), arr(&o["entries"]), step == usize::MAX) {
                    rep.fail("entries", v, &x["entries"], &o["entries"]);
                }
            }
            if boolean(&v["drained"]) {
                rep.check("next", v, &json!(true), &json!(seen.next));
            }
        }
    })
}

/// The multipart parser may give up when it gets its input in small pieces, but
/// what it gave until then has to be right.
fn entries_fine(expected: &[Value], observed: &[Value], exact: bool) -> bool {
    match observed.split_last() {
        Some((e, rest)) if !exact && e["failed"] == true => expected.starts_with(rest),
        _ => expected == observed,
    }
}

const NAME: &[u8] = b"abcxyz019.+_-";

fn word(r: &mut Rng, most: usize) -> Vec<u8> {
    let mut w = vec![*r.pick(b"abcdefXYZ0189")];
    for _ in 0..r.below(most) {
        w.push(*r.pick(NAME));
    }
    w
}

fn rand_case(r: &mut Rng, s: &[u8]) -> Vec<u8> {
    if r.chance(1, 2) {
        return s.to_vec();
    }
    s.iter().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { *c }).collect()
}

fn rand_type(r: &mut Rng) -> Value {
    if r.chance(1, 8) {
        return json!([]);
    }
    let top = if r.chance(5, 6) { rand_case(r, b"multipart") } else { r.pick(&[&b"text"[..], b"application", b"multipar", b"x-multipart"]).to_vec() };
    let sub = if r.chance(5, 6) { rand_case(r, b"form-data") } else { r.pick(&[&b"mixed"[..], b"x-www-form-urlencoded", b"form", b"form-data2"]).to_vec() };
    let mut params: Vec<Value> = vec![];
    for _ in 0..r.below(3) {
        let n = match r.below(4) {
            0 => b"charset".to_vec(),
            1 => b"q".to_vec(),
            2 => b"xboundary".to_vec(),
            _ => b"p1".to_vec(),
        };
        let v = if r.chance(1, 3) { b"boundary".to_vec() } else { word(r, 5) };
        params.push(json!({"n": jb(&n), "v": jb(&v), "quoted": false}));
    }
    if r.chance(5, 6) {
        let quoted = r.chance(1, 4);
        let v = match r.below(4) {
            0 => b"utf-8".to_vec(),
            1 => b"----WebKitFormBoundary7MA4YWxkTrZu0gW".to_vec(),
            2 if quoted => b"gc0pJq0M:08jU534c0p='/?(),;".to_vec(),
            _ => word(r, 20),
        };
        let at = if quoted { params.len() } else { r.below(params.len() + 1) };
        let n = rand_case(r, b"boundary");
        params.insert(at, json!({"n": jb(&n), "v": jb(&v), "quoted": quoted}));
    }
    json!([{"top": jb(&top), "sub": jb(&sub), "params": params}])
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let ctype = rand_type(&mut r);
        let multi = r.chance(1, 4);
        let mut parts = vec![];
        let content: Vec<u8> = if multi {
            // encoded with the boundary in the header, if there's one
            let b = arr(&ctype).first().and_then(|t| arr(&t["params"]).iter().find(|p| bytes(&p["n"]).eq_ignore_ascii_case(b"boundary"))).map_or(b"b".to_vec(), |p| bytes(&p["v"]));
            let mut d = vec![];
            for _ in 0..r.below(4) {
                let name = word(&mut r, 6);
                let file = if r.chance(1, 3) { vec![word(&mut r, 6)] } else { vec![] };
                let n = if r.chance(1, 20) { r.below(4000) } else { r.below(40) };
                let data: Vec<u8> = (0..n).map(|_| if r.chance(1, 4) { *r.pick(b"\r\n\0;: ") } else { 97 + r.below(140) as u8 }).collect();
                d.extend_from_slice(b"--");
                d.extend(&b);
                d.extend_from_slice(b"\r\nContent-Disposition: form-data; name=\"");
                d.extend(&name);
                d.push(b'"');
                if let Some(f) = file.first() {
                    d.extend_from_slice(b"; filename=\"");
                    d.extend(f);
                    d.push(b'"');
                }
                d.extend_from_slice(b"\r\n\r\n");
                d.extend(&data);
                d.extend_from_slice(b"\r\n");
                parts.push(json!({"name": jb(&name), "file": file.iter().map(|f| jb(f)).collect::<Vec<_>>(), "data": jb(&data)}));
            }
            d.extend_from_slice(b"--");
            d.extend(&b);
            d.extend_from_slice(b"--\r\n");
            d
        } else {
            let n = match r.below(12) {
                _ if r.chance(1, 250) => *r.pick(&[65535, 65536, 65537, 100000, 132000]),
                0 => 0,
                1 if r.chance(1, 4) => r.range(3000, 9000),
                1 => r.range(200, 1000),
                _ => r.below(40),
            };
            (0..n).map(|_| if r.chance(1, 4) { *r.pick(b"&=+%=&\r\n0") } else { r.below(256) as u8 }).collect()
        };
        let framing = if content.is_empty() { *r.pick(&["none", "length", "chunked"]) } else { *r.pick(&["length", "chunked"]) };
        let mut sizes = vec![];
        if framing == "chunked" {
            let mut left = content.len();
            let most = if left > 9000 || r.chance(1, 2) { left } else { 20 };
            while left > 0 {
                let s = r.range(1, most.min(left).max(1));
                sizes.push(s);
                left -= s;
            }
        }
        let cut = if multi || framing == "none" || r.chance(4, 5) {
            -1
        } else if framing == "length" {
            if content.is_empty() { -1 } else { r.below(content.len()) as i64 }
        } else {
            r.below(content.len() + 1) as i64
        };
        let mut ops = vec![];
        if multi && r.chance(3, 4) {
            if r.chance(1, 3) {
                ops.push(json!({"op": "offer", "n": 0}));
            }
            ops.push(json!({"op": "multi", "n": 0}));
        } else {
            for _ in 0..r.below(10) {
                let n = match r.below(4) {
                    0 => 0,
                    1 => 1,
                    2 => r.below(20),
                    _ => r.below(content.len() + 20),
                };
                ops.push(match r.below(14) {
                    0 => json!({"op": "all", "n": 0}),
                    1 => json!({"op": "form", "n": 0}),
                    2 => json!({"op": "offer", "n": 0}),
                    3 | 4 | 5 => json!({"op": "fill", "n": n}),
                    _ => json!({"op": "read", "n": n}),
                });
            }
        }
        let q = json!({"framing": framing, "content": jb(&content), "sizes": sizes, "cut": cut, "ctype": ctype, "parts": parts});
        let filtered = if r.chance(1, 2) { 0 } else { r.below(ops.len() + 1) };
        let step = *r.pick(&[1, 2, 5, 17, 1000, usize::MAX]);
        let seen = run(&q, ops, filtered, step, &mut r);
        // see entries_fine
        let exact = step == usize::MAX && framing == "length";
        let mut done = seen.done;
        let mut gave_up = false;
        if let Some(o) = done.last_mut() {
            if let Some(entries) = o["entries"].as_array_mut() {
                while entries.last().map_or(false, |e| e["failed"] == true) {
                    entries.pop();
                    gave_up = true;
                }
            }
        }
        out.line(&json!({"q": q, "exact": exact, "gaveup": gave_up, "ops": done, "next": seen.next, "wire": seen.wire, "panic": seen.panic}));
    }
}
