//! Requests and responses without a connection, see Mock.tla.
use rustful::header::Headers;
use rustful::response::FileError;
use rustful::server::Global;
use rustful::{Context, Handler, Method, Response, StatusCode};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::path::PathBuf;
use std::rc::Rc;

use crate::router::vars_json;
use crate::util::*;

#[derive(Debug, PartialEq)]
struct Stored(i64);

struct Marker(u32);

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let dir = std::env::temp_dir().join(format!("rfh-mock-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.0.join("content.bin"));
        let _ = std::fs::remove_dir(&self.0);
    }
}

fn headers_json(h: &Headers) -> Value {
    let mut all: Vec<(String, String)> = h.iter().map(|h| (h.name().to_lowercase(), h.value_string())).collect();
    all.sort();
    json!(all)
}

/// The harmless names that the specification uses.
fn name(n: i64) -> String {
    format!("x-{}", n)
}

fn open_json(r: &Response) -> Value {
    let mut headers: Vec<(i64, Vec<u8>)> = r.headers().iter()
        .map(|h| (h.name().trim_start_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(-1), h.value_string().into_bytes()))
        .collect();
    headers.sort();
    json!({
        "status": r.status().to_u16(),
        "headers": headers.iter().map(|(n, v)| json!([n, jb(v)])).collect::<Vec<_>>(),
        "stored": r.filter_storage().get::<Stored>().map_or(0, |s| s.0),
    })
}

fn gone() -> Value {
    json!({"status": 0, "headers": [], "stored": 0})
}

macro_rules! streamed {
    ($w: expr, $ops: expr, $seen: expr, $storage: expr) => ({
        let mut w = $w;
        while let Some(op) = $ops.next() {
            let d = bytes(&op["d"]);
            let storage: &dyn Fn(&mut _, Option<i64>) -> Value = &$storage;
            let (ok, n): (bool, usize) = match st(&op["o"]) {
                "try" => (w.try_send(&d[..]).is_ok(), 0),
                "quiet" => {
                    w.send(&d[..]);
                    (true, 0)
                }
                "write" => w.write(&d).map(|n| (true, n)).unwrap_or((false, 0)),
                "write_all" => (w.write_all(&d).is_ok(), 0),
                "flush" => (w.flush().is_ok(), 0),
                "store" => {
                    storage(&mut w, Some(int(&op["n"])));
                    (true, 0)
                }
                "copy" => (io::copy(&mut &d[..], &mut w).is_ok(), 0),
                "end" => {
                    $seen.push(json!({"ok": w.end().is_ok(), "n": 0, "seen": gone()}));
                    return;
                }
                "drop" => {
                    drop(w);
                    $seen.push(json!({"ok": true, "n": 0, "seen": gone()}));
                    return;
                }
                o => panic!("no such operation: {}", o),
            };
            let seen = storage(&mut w, None);
            $seen.push(json!({"ok": ok, "n": n, "seen": seen}));
        }
    })
}

/// Do everything, and tell what was seen.
fn respond(mut r: Response, ops: &[Value], dir: &PathBuf, seen: &mut Vec<Value>) {
    let mut ops = ops.iter();
    while let Some(op) = ops.next() {
        let d = bytes(&op["d"]);
        let n = int(&op["n"]);
        let text = String::from_utf8_lossy(&d).into_owned();
        let last = |ok: bool| json!({"ok": ok, "n": 0, "seen": gone()});
        match st(&op["o"]) {
            "status" => r.set_status(StatusCode::from_u16(n as u16)),
            "header" => r.headers_mut().set_raw(name(n), vec![d]),
            "unheader" => {
                r.headers_mut().remove_raw(&name(n));
            }
            "store" => {
                r.filter_storage_mut().insert(Stored(n));
            }
            "nofile" => {
                match r.try_send(&*dir.join("nothing")) {
                    Err(e @ FileError::Open(..)) => r = e.recover_response().expect("the response"),
                    _ => return seen.push(last(true)),
                }
                seen.push(json!({"ok": false, "n": 0, "seen": open_json(&r)}));
                continue;
            }
            "data" => return seen.push(last(r.try_send(d).is_ok())),
            "ok" => return seen.push(last(r.try_send(Ok::<_, String>(d)).is_ok())),
            "err" => return seen.push(last(r.try_send(Err::<String, _>(text)).is_ok())),
            "none" => return seen.push(last(r.try_send(None::<String>).is_ok())),
            "io" => return seen.push(last(r.try_send(io::Error::new(io::ErrorKind::NotFound, text)).is_ok())),
            "file" => {
                let file = dir.join("content.bin");
                std::fs::write(&file, &d).unwrap();
                return seen.push(last(r.try_send(file).is_ok()));
            }
            "drop" => {
                drop(r);
                return seen.push(last(true));
            }
            "chunked" => {
                let w = r.into_chunked();
                let storage = |w: &mut rustful::response::Chunked, set: Option<i64>| {
                    if let Some(n) = set {
                        w.filter_storage_mut().insert(Stored(n));
                    }
                    json!({"status": 0, "headers": [], "stored": w.filter_storage().get::<Stored>().map_or(0, |s| s.0)})
                };
                let first = json!({"status": 0, "headers": [], "stored": w.filter_storage().get::<Stored>().map_or(0, |s| s.0)});
                seen.push(json!({"ok": true, "n": 0, "seen": first}));
                streamed!(w, ops, seen, storage);
                return;
            }
            "raw" => {
                seen.push(json!({"ok": true, "n": 0, "seen": gone()}));
                let w = unsafe { r.into_raw(n as u64) };
                streamed!(w, ops, seen, |_: &mut rustful::response::Raw, _| gone());
                return;
            }
            o => panic!("no such operation: {}", o),
        }
        seen.push(json!({"ok": true, "n": 0, "seen": open_json(&r)}));
    }
}

fn look(mut context: Context, is_global: bool) -> Value {
    let mut body = vec![];
    let mut buffer = [1; 7];
    let multipart = context.body.as_multipart().is_some();
    let form = context.body.read_query_body().map(|p| vars_json(&p)).unwrap_or(json!("failed"));
    let none = context.body.read(&mut buffer).unwrap_or(100);
    body.extend(std::iter::repeat(0).take(none));
    context.body.read_to_end(&mut body).unwrap();
    json!({
        "method": context.method.to_string(),
        "path": context.uri_path.as_path().map(|p| jb(&p)).unwrap_or(json!("asterisk")),
        "headers": headers_json(&context.headers),
        "query": vars_json(&context.query),
        "variables": vars_json(&context.variables),
        "links": context.hyperlinks.len(),
        "fragment": context.fragment.is_some(),
        "body": jb(&body),
        "multipart": multipart,
        "form": form,
        "version": context.http_version.to_string(),
        "global": is_global,
    })
}

struct Program<'a> {
    ops: &'a [Value],
    dir: &'a PathBuf,
    seen: Rc<RefCell<Vec<Value>>>,
}

impl<'a> Program<'a> {
    fn run(&self, context: Context, response: Response) -> Value {
        let is_global = context.global.get::<Marker>().map(|m| m.0) == Some(7) && context.global.get::<Stored>().is_none();
        respond(response, self.ops, self.dir, &mut self.seen.borrow_mut());
        look(context, is_global)
    }
}

fn run(v: &Value, dir: &PathBuf) -> Value {
    let seen = Rc::new(RefCell::new(vec![]));
    let sees = guarded(|| {
        let global: Global = Box::new(Marker(7)).into();
        let mut headers = Headers::new();
        for h in arr(&v["context"]["headers"]) {
            headers.set_raw(st(&h[0]).to_string(), vec![st(&h[1]).as_bytes().to_vec()]);
        }
        let method: Method = st(&v["context"]["method"]).parse().unwrap();
        let path = String::from_utf8(bytes(&v["context"]["path"])).unwrap();
        let context = Context::mock(method, path, headers, &global);
        let response = Response::mock(&global);
        // also as a handler that isn't told which it is
        let handler: Box<dyn Handler> = Box::new(|_: Context, response: Response| response.send("anything"));
        handler.handle(Context::mock(Method::Get, "", Headers::new(), &global), Response::mock(&global));
        Program { ops: arr(&v["ops"]), dir, seen: seen.clone() }.run(context, response)
    });
    let seen = json!(*seen.borrow());
    match sees {
        Ok(mut sees) => {
            let global = sees["global"].take();
            sees.as_object_mut().unwrap().remove("global");
            json!({"panic": false, "seen": seen, "sees": sees, "global": global})
        }
        Err(_) => json!({"panic": true, "seen": seen, "sees": {}, "global": false}),
    }
}

fn ordered(seen: &Value) -> Value {
    let mut seen = seen.clone();
    for s in seen.as_array_mut().unwrap() {
        s["seen"]["headers"] = sorted(&s["seen"]["headers"]);
    }
    seen
}

pub fn replay(vectors: &str, report: &str) {
    let scratch = Scratch::new();
    replay_all(vectors, report, |rep, v| {
        let o = run(v, &scratch.0);
        rep.check("panic", v, &json!(false), &o["panic"]);
        if o["panic"] == true {
            return;
        }
        rep.check("results", v, &ordered(&v["seen"]), &ordered(&o["seen"]));
        let mut x = v["sees"].clone();
        x["headers"] = sorted(&x["headers"]);
        rep.check("context", v, &x, &o["sees"]);
        rep.check("global", v, &json!(true), &o["global"]);
    })
}

const TYPES: &'static [&'static str] = &[
    "multipart/form-data; boundary=b",
    "multipart/form-data; charset=utf-8; boundary=b",
    "multipart/form-data",
    "multipart/form-data; charset=utf-8",
    "multipart/mixed; boundary=b",
    "text/plain; boundary=b",
    "application/x-www-form-urlencoded",
];

pub fn record(seed: u64, count: usize, path: &str) {
    let scratch = Scratch::new();
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let piece = |r: &mut Rng| -> Vec<u8> {
            let n = match r.below(12) {
                0 => 0,
                1 => r.range(1000, 20000),
                _ => r.range(1, 20),
            };
            (0..n).map(|_| r.below(256) as u8).collect()
        };
        let op = |o: &str, n: i64, d: &[u8]| json!({"o": o, "n": n, "d": jb(d)});
        let mut ops = vec![];
        for _ in 0..r.below(8) {
            ops.push(match r.below(5) {
                0 => op("status", *r.pick(&[100, 200, 204, 304, 404, 500, 599]), b""),
                1 => op("header", r.below(5) as i64, *r.pick(&[&b"a"[..], b"b c", b"\"", b"1,2"])),
                2 => op("unheader", r.below(5) as i64, b""),
                3 => op("store", r.range(1, 100) as i64, b""),
                _ => op("nofile", 0, b""),
            });
        }
        match r.below(6) {
            0 => {
                let d = piece(&mut r);
                ops.push(op(*r.pick(&["data", "ok", "err", "io", "file"]), 0, &d));
            }
            1 => ops.push(op(*r.pick(&["none", "drop"]), 0, b"")),
            k => {
                let raw = k < 4;
                let at = ops.len();
                let mut total = 0;
                for _ in 0..r.below(9) {
                    let d = piece(&mut r);
                    let o = *r.pick(&["try", "quiet", "write", "write_all", "flush", "store"]);
                    if o == "flush" {
                        ops.push(op("flush", 0, b""));
                    } else if o != "store" {
                        total += d.len();
                        ops.push(op(o, 0, &d));
                    } else if !raw {
                        ops.push(op("store", r.range(1, 100) as i64, b""));
                    }
                }
                ops.push(op(*r.pick(&["end", "drop"]), 0, b""));
                let start = if raw { op("raw", total as i64 + if r.chance(1, 2) { 0 } else { r.below(10) as i64 }, b"") } else { op("chunked", 0, b"") };
                ops.insert(at, start);
            }
        }
        let mut headers: Vec<Value> = (0..r.below(4)).map(|i| json!([format!("x-{}", i), format!("{}", r.below(10))])).collect();
        if r.chance(1, 3) {
            headers.insert(0, json!(["content-type", *r.pick(TYPES)]));
        }
        let letters: Vec<u8> = (0..r.below(20)).flat_map(|_| r.pick(&["/", "a", "?", "#", "%41", "å", "+", "&", "*", "="]).as_bytes().to_vec()).collect();
        let mut line = json!({
            "context": {"method": *r.pick(&["GET", "POST", "OPTIONS", "PURGE"]), "path": jb(&letters), "headers": headers},
            "ops": ops,
        });
        let o = run(&line, &scratch.0);
        for (k, v) in o.as_object().unwrap() {
            line[k] = v.clone();
        }
        out.line(&line);
    }
}
