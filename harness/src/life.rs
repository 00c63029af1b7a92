//! Handler programs and scripted response filters, see Life.tla.
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::{Chunked, Data, Error, Raw};
use rustful::{Context, Handler, Response, Server, StatusCode};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{self, Write};

use crate::net::*;
use crate::util::*;

struct StorageLog(Vec<usize>);

#[derive(Default)]
struct Observed {
    calls: Vec<Vec<Value>>,
    results: Vec<Value>,
    /// Everything that was put in the storage, in order
    stored: Vec<usize>,
    storage_ok: bool,
}

thread_local! {
    static OBS: RefCell<Observed> = RefCell::new(Observed::default());
    /// The header that's observed and changed, and when it was set if it's the date
    static HEADER: RefCell<(String, i64)> = RefCell::new(("x-h".into(), 0));
    /// What stops at each touch of the storage
    static GATE: RefCell<Option<Box<dyn Fn()>>> = RefCell::new(None);
}

pub const SERVER_NAME: &'static str = "configured/1.2";
pub const CONTENT_TYPE: &'static str = "text/x-default; charset=utf-8";

pub fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

pub fn observe_header(name: &str) {
    HEADER.with(|h| *h.borrow_mut() = (name.into(), now()));
}

fn header_name() -> String {
    HEADER.with(|h| h.borrow().0.clone())
}

/// The value of the observed header, where the configured one is "default".
pub fn header_value(raw: Option<&[u8]>) -> String {
    HEADER.with(|h| {
        let h = h.borrow();
        let value = match raw {
            Some(raw) => String::from_utf8_lossy(raw).into_owned(),
            None => return String::new(),
        };
        let default = match &*h.0 {
            "Server" => value == SERVER_NAME,
            "Content-Type" => value == CONTENT_TYPE,
            "Date" => value.ends_with(" GMT") && value.parse::<rustful::header::HttpDate>().map(|d| {
                let t = d.0.to_timespec().sec;
                h.1 - 2 <= t && t <= now() + 2
            }).unwrap_or(false),
            _ => false,
        };
        if default { "default".into() } else { value }
    })
}

pub fn header_on_wire(wire: &Wire) -> String {
    let all = wire.header(&header_name().to_lowercase());
    if all.len() > 1 {
        return format!("{} headers", all.len());
    }
    header_value(all.first().map(|v| &v[..]))
}

pub fn set_gate(gate: Option<Box<dyn Fn()>>) {
    GATE.with(|g| *g.borrow_mut() = gate);
}

pub fn start_observing(filters: usize) {
    OBS.with(|o| *o.borrow_mut() = Observed { calls: vec![vec![]; filters], storage_ok: true, ..Observed::default() });
}

/// Every stage adds something to the storage, and expects to find what the previous ones added.
pub fn touch(storage: &mut anymap::AnyMap, what: usize) {
    GATE.with(|g| if let Some(ref g) = *g.borrow() { g() });
    OBS.with(|o| {
        let mut o = o.borrow_mut();
        let found = storage.get::<StorageLog>().map(|l| l.0.clone()).unwrap_or_default();
        if found != o.stored {
            o.storage_ok = false;
        }
        o.stored.push(what);
    });
    storage.entry::<StorageLog>().or_insert_with(|| StorageLog(vec![])).0.push(what);
}

pub struct Scripted {
    index: usize,
    begin: (u16, String, Value),
    writes: Vec<(String, Vec<u8>, Vec<u8>)>,
    end: Value,
}

impl Scripted {
    pub fn new(index: usize, v: &Value) -> Scripted {
        Scripted {
            index,
            begin: (int(&v["begin"]["st"]) as u16, st(&v["begin"]["hdr"]).into(), v["begin"]["act"].clone()),
            writes: arr(&v["writes"]).iter().map(|w| (st(&w["t"]).into(), bytes(&w["p"]), bytes(&w["s"]))).collect(),
            end: v["end"].clone(),
        }
    }

    fn log(&self, context: &mut FilterContext, call: Value) -> usize {
        touch(context.storage, self.index);
        OBS.with(|o| {
            let c = &mut o.borrow_mut().calls[self.index];
            c.push(call);
            c.iter().filter(|c| c["c"] == "w").count()
        })
    }

    fn act<'a>(&self, v: &Value) -> ResponseAction<'a> {
        match st(&v["t"]) {
            "next" => if boolean(&v["some"]) {
                ResponseAction::next(Some(bytes(&v["d"])))
            } else {
                ResponseAction::Next(None)
            },
            "silent" => ResponseAction::silent_abort(),
            "abort" => ResponseAction::abort(self.message()),
            "panic" => panic!("scripted"),
            t => panic!("no such action: {}", t),
        }
    }

    fn message(&self) -> String {
        format!("abort:{}", self.index + 1)
    }
}

impl ResponseFilter for Scripted {
    fn begin(&self, mut context: FilterContext, status: StatusCode, headers: &mut Headers) -> (StatusCode, ResponseAction) {
        let name = header_name();
        let seen = header_value(headers.get_raw(&name).map(|h| &h[0][..]));
        self.log(&mut context, json!({"c": "b", "status": status.to_u16(), "hdr": seen}));
        match &*self.begin.1 {
            "" => {}
            "-" => {
                headers.remove_raw(&name);
            }
            h => headers.set_raw(name, vec![h.as_bytes().to_vec()]),
        }
        let status = if self.begin.0 == 0 { status } else { StatusCode::from_u16(self.begin.0) };
        (status, self.act(&self.begin.2))
    }

    fn write<'a>(&'a self, mut context: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        let d = content.as_ref().map(|c| jb(c.as_bytes())).unwrap_or(json!([]));
        let n = self.log(&mut context, json!({"c": "w", "some": content.is_some(), "d": d}));
        let (ref t, ref p, ref s) = self.writes[(n - 1) % self.writes.len()];
        match &**t {
            "id" => ResponseAction::Next(content),
            "wrap" => ResponseAction::next(content.map(|c| [p, c.as_bytes(), s].concat())),
            "twice" => ResponseAction::next(content.map(|c| [c.as_bytes(), c.as_bytes()].concat())),
            "drop" => ResponseAction::Next(None),
            "put" => ResponseAction::next(Some(&p[..])),
            "silent" => ResponseAction::silent_abort(),
            "abort" => ResponseAction::abort(self.message()),
            "panic" => panic!("scripted"),
            t => panic!("no such write: {}", t),
        }
    }

    fn end(&self, mut context: FilterContext) -> ResponseAction {
        self.log(&mut context, json!({"c": "e"}));
        self.act(&self.end)
    }
}

#[derive(Clone)]
struct Op {
    op: String,
    n: u64,
    d: Vec<u8>,
    h: String,
}

pub struct Program(Vec<Op>);

impl Program {
    pub fn new(prog: &Value) -> Program {
        Program(arr(prog).iter().map(|o| Op { op: st(&o["op"]).into(), n: int(&o["n"]) as u64, d: bytes(&o["d"]), h: st(&o["h"]).into() }).collect())
    }
}

fn result(op: &Op, res: &str, n: usize, err: u64) {
    OBS.with(|o| o.borrow_mut().results.push(json!({"op": op.op, "res": res, "n": n, "err": err})));
}

fn message(op: &Op, m: &str) {
    match m.find("abort:") {
        Some(i) => result(op, "filter", 0, m[i + 6..].parse().unwrap_or(0)),
        None => result(op, "io", 0, 0),
    }
}

fn report(op: &Op, r: Result<usize, Error>) {
    match r {
        Ok(n) => result(op, "ok", n, 0),
        Err(Error::Filter(m)) => message(op, &m),
        Err(Error::Io(_)) => result(op, "io", 0, 0),
    }
}

fn report_io(op: &Op, r: io::Result<usize>) {
    match r {
        Ok(n) => result(op, "ok", n, 0),
        Err(e) => message(op, &e.to_string()),
    }
}

impl Program {
    fn chunked(&self, mut c: Chunked, ops: &[Op]) {
        for (i, op) in ops.iter().enumerate() {
            touch(c.filter_storage_mut(), 100);
            match &*op.op {
                "panic" => panic!("scripted"),
                // the number is about the filtered content
                "send" => {
                    let r = if i % 2 == 0 { c.try_send(&op.d[..]) } else { c.try_send(op.d.clone()) };
                    report(op, r)
                }
                "quiet" => {
                    c.send(&op.d[..]);
                    result(op, "quiet", 0, 0)
                }
                "write" => report_io(op, c.write(&op.d)),
                "write_all" => report_io(op, c.write_all(&op.d).map(|_| 0)),
                "flush" => report_io(op, c.flush().map(|_| 0)),
                "end" => return report(op, c.end().map(|_| 0)),
                "drop" => {
                    drop(c);
                    return result(op, "quiet", 0, 0);
                }
                o => panic!("no such operation: {}", o),
            }
        }
    }

    fn raw(&self, mut c: Raw, ops: &[Op]) {
        for op in ops {
            match &*op.op {
                "panic" => panic!("scripted"),
                "send" => report_io(op, c.try_send(&op.d[..]).map(|_| 0)),
                "quiet" => {
                    c.send(&op.d[..]);
                    result(op, "quiet", 0, 0)
                }
                "write" => report_io(op, c.write(&op.d)),
                "write_all" => report_io(op, c.write_all(&op.d).map(|_| 0)),
                "flush" => report_io(op, c.flush().map(|_| 0)),
                "end" => return report_io(op, c.end().map(|_| 0)),
                "drop" => {
                    drop(c);
                    return result(op, "quiet", 0, 0);
                }
                o => panic!("no such operation: {}", o),
            }
        }
    }
}

impl Handler for Program {
    fn handle(&self, _: Context, mut response: Response) {
        for (i, op) in self.0.iter().enumerate() {
            touch(response.filter_storage_mut(), 200);
            match &*op.op {
                "panic" => panic!("scripted"),
                "status" => response.set_status(StatusCode::from_u16(op.n as u16)),
                "header" => if op.h == "-" {
                    response.headers_mut().remove_raw(&header_name());
                } else {
                    response.headers_mut().set_raw(header_name(), vec![op.h.as_bytes().to_vec()]);
                },
                "length" => if op.n % 2 == 0 {
                    response.headers_mut().set_raw("Content-Length", vec![op.n.to_string().into_bytes()]);
                } else {
                    response.headers_mut().set(rustful::header::ContentLength(op.n));
                },
                "send" => {
                    let r = match (op.d.len() % 3, String::from_utf8(op.d.clone())) {
                        (0, _) => response.try_send_data(&op.d[..]),
                        (1, Ok(s)) => response.try_send_data(s),
                        _ => response.try_send(op.d.clone()),
                    };
                    return report(op, r.map(|_| 0));
                }
                "quiet" => {
                    if op.d.len() % 2 == 0 {
                        response.send(&op.d[..]);
                    } else {
                        response.send_data(op.d.clone());
                    }
                    return result(op, "quiet", 0, 0);
                }
                "chunked" => {
                    let c = response.into_chunked();
                    result(op, "quiet", 0, 0);
                    return self.chunked(c, &self.0[i + 1..]);
                }
                "raw" => {
                    let c = unsafe { response.into_raw(op.n) };
                    result(op, "quiet", 0, 0);
                    return self.raw(c, &self.0[i + 1..]);
                }
                "drop" => {
                    drop(response);
                    return result(op, "quiet", 0, 0);
                }
                o => panic!("no such operation: {}", o),
            }
            result(op, "quiet", 0, 0);
        }
    }
}

pub struct Life {
    pub wire: Wire,
    pub well: Value,
    pub hdr: String,
    pub panicked: bool,
    /// a panic that isn't in the script
    pub unexpected: Option<String>,
    pub storage: bool,
    pub calls: Value,
    pub results: Vec<Value>,
}

/// What was observed of a request on this thread
pub fn finish_observing(written: &[u8], panic: Option<String>) -> Life {
    let o = OBS.with(|o| o.replace(Observed::default()));
    let wire = parse_wire(written);
    Life {
        well: wellformed(&wire),
        hdr: header_on_wire(&wire),
        wire,
        panicked: panic.is_some(),
        unexpected: panic.filter(|p| p != "scripted"),
        storage: o.storage_ok,
        calls: json!(o.calls),
        results: o.results,
    }
}

pub fn live(filters: &Value, prog: &Value, header: &str) -> Life {
    let filters: Vec<Box<dyn ResponseFilter>> =
        arr(filters).iter().enumerate().map(|(i, f)| Box::new(Scripted::new(i, f)) as Box<dyn ResponseFilter>).collect();
    start_observing(filters.len());
    observe_header(header);
    let server = Server {
        threads: Some(1),
        server: SERVER_NAME.into(),
        content_type: CONTENT_TYPE.parse().unwrap(),
        response_filters: filters,
        ..Server::new(Program::new(prog))
    }.build();
    let served = serve(&server, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    finish_observing(&served.written, served.panic)
}

pub fn replay(vectors: &str, report: &str) {
    replay_all(vectors, report, |rep, v| {
        let l = live(&v["filters"], &v["prog"], "x-h");
        compare(rep, v, &v["seen"], &l);
    })
}

pub fn compare(rep: &mut Report, v: &Value, x: &Value, l: &Life) {
    rep.check("storage", v, &json!(true), &json!(l.storage));
    if let Some(ref p) = l.unexpected {
        return rep.fail("panic", v, &json!("no panic"), &json!(p));
    }
    rep.check("crashed", v, &x["crashed"], &json!(l.panicked));
    compare_results(rep, v, &x["results"], &l.results);
    let started = x["status"] != 500 || boolean(&x["whole"]) || arr(&x["body"]).len() > 0;
    if boolean(&x["crashed"]) && !started {
        // no success, whatever else
        rep.check("crashstatus", v, &json!(true), &json!(l.wire.status >= 400));
        return;
    }
    rep.check("status", v, &x["status"], &json!(l.wire.status));
    let bodyless = l.wire.framing == "none";
    if boolean(&x["crashed"]) && !boolean(&x["whole"]) {
        rep.check("cutoff", v, &json!(true), &json!(bodyless || l.well != json!("ok")));
    } else if boolean(&x["whole"]) {
        rep.check("wire", v, &json!("ok"), &l.well);
    }
    rep.check("body", v, &x["body"], &jb(&l.wire.body));
    if !boolean(&x["aborted"]) {
        rep.check("hdr", v, &x["hdr"], &json!(l.hdr));
        rep.check("calls", v, &x["calls"], &l.calls);
    }
}

fn compare_results(rep: &mut Report, v: &Value, expected: &Value, observed: &[Value]) {
    let e = arr(expected);
    if !rep.check("results", v, &json!(e.len()), &json!(observed.len())) {
        return;
    }
    for (e, o) in e.iter().zip(observed) {
        let same = e["op"] == o["op"] && e["res"] == o["res"];
        let from = e["res"] != "filter" || arr(&e["errs"]).contains(&o["err"]);
        let field = if e["op"] == "write" || e["op"] == "write_all" { "written" } else { "results" };
        if !same || !from {
            rep.fail(field, v, expected, &json!(observed));
            return;
        }
        // how much was accounted for
        if e["n"] != o["n"] {
            rep.fail("written", v, expected, &json!(observed));
            return;
        }
    }
}

fn rand_data(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0..=2 => 0,
        3..=8 => r.range(1, 4),
        9..=10 => r.range(5, 40),
        _ => match r.below(60) {
            0 => *r.pick(&[4096, 8191, 8192, 8193, 16385, 65535, 65537]),
            1..=10 => r.range(500, 3000),
            _ => r.range(40, 300),
        },
    };
    (0..n).map(|_| r.below(256) as u8).collect()
}

fn rand_act(r: &mut Rng, wild: bool) -> Value {
    match if wild { r.below(12) } else { r.below(9) } {
        0..=3 => json!({"t": "next", "some": false, "d": []}),
        4..=7 => json!({"t": "next", "some": true, "d": jb(&rand_data(r))}),
        8..=9 => json!({"t": "silent"}),
        10 => json!({"t": "abort"}),
        _ => if r.chance(1, 3) { json!({"t": "panic"}) } else { json!({"t": "abort"}) },
    }
}

const STATUSES: &[u16] = &[200, 201, 202, 204, 206, 301, 304, 400, 404, 418, 500, 503, 299, 599, 100, 101, 205, 199, 302, 401, 410, 499, 600, 999];

pub fn rand_filter(r: &mut Rng, wild: bool) -> Value {
    let writes: Vec<_> = (0..r.range(1, 5))
        .map(|_| {
            let t = match if wild { r.below(16) } else { r.below(13) } {
                0..=3 => "id",
                4..=6 => "wrap",
                7 => "twice",
                8..=9 => "drop",
                10 => "put",
                11..=12 => "silent",
                13..=14 => "abort",
                _ => if r.chance(1, 3) { "panic" } else { "abort" },
            };
            json!({"t": t, "p": jb(&rand_data(r)), "s": jb(&rand_data(r))})
        })
        .collect();
    let status = if r.chance(1, 3) { rand_status(r) } else { 0 };
    let hdr = *r.pick(&["", "", "", "-", "f", "gg"]);
    json!({"begin": {"st": status, "hdr": hdr, "act": rand_act(r, wild)}, "writes": writes, "end": rand_act(r, wild)})
}

pub fn rand_prog(r: &mut Rng, wild: bool) -> Value {
    let op = |o: &str, n: usize, d: Vec<u8>, h: &str| json!({"op": o, "n": n, "d": jb(&d), "h": h});
    let mut prog = vec![];
    for _ in 0..r.below(4) {
        prog.push(match r.below(3) {
            0 => op("status", rand_status(r) as usize, vec![], ""),
            1 => op("header", 0, vec![], *r.pick(&["-", "h", "i", "a longer value"])),
            _ => op("length", r.below(20), vec![], ""),
        });
    }
    let crash = wild && r.chance(1, 8);
    match r.below(10) {
        0 => prog.push(op("drop", 0, vec![], "")),
        1..=2 => prog.push(op(if r.chance(1, 4) { "quiet" } else { "send" }, 0, rand_data(r), "")),
        k => {
            if k < 8 {
                prog.push(op("chunked", 0, vec![], ""));
            }
            let mut ops = vec![];
            let mut total = 0;
            for _ in 0..if r.chance(1, 20) { r.below(30) } else { r.below(9) } {
                let d = rand_data(r);
                let o = *r.pick(&["send", "send", "quiet", "write", "write_all", "flush"]);
                if o == "flush" {
                    ops.push(op(o, 0, vec![], ""));
                } else {
                    total += d.len();
                    ops.push(op(o, 0, d, ""));
                }
            }
            if k >= 8 {
                let n = match r.below(4) {
                    0 => total + r.below(4),
                    1 => r.below(total + 1),
                    _ => total,
                };
                prog.push(op("raw", n, vec![], ""));
            }
            prog.extend(ops);
            prog.push(op(if r.chance(1, 2) { "drop" } else { "end" }, 0, vec![], ""));
        }
    }
    if crash {
        let at = r.below(prog.len() + 1);
        prog.truncate(at);
        prog.push(op("panic", 0, vec![], ""));
    }
    json!(prog)
}

fn rand_status(r: &mut Rng) -> u16 {
    if r.chance(1, 4) { r.range(100, 999) as u16 } else { *r.pick(STATUSES) }
}

pub const HEADERS: &[&str] = &["x-h", "Server", "Content-Type", "Date"];

/// The date can't be removed
pub fn keep_date(v: &mut Value) {
    match v {
        Value::Object(o) => for (k, v) in o.iter_mut() {
            if (k == "h" || k == "hdr") && v == "-" {
                *v = json!("kept");
            } else {
                keep_date(v);
            }
        },
        Value::Array(a) => for v in a {
            keep_date(v);
        },
        _ => {}
    }
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for i in 0..count {
        let wild = r.chance(1, 2);
        let n = if r.chance(1, 20) { r.below(13) } else if r.chance(1, 100) { r.range(13, 80) } else { r.below(6) };
        let mut filters = json!((0..n).map(|_| rand_filter(&mut r, wild)).collect::<Vec<_>>());
        if n > 5 {
            // so many have to be calmer to come to an end
            for f in filters.as_array_mut().unwrap() {
                for k in ["begin", "end"] {
                    let act = if k == "begin" { &mut f["begin"]["act"] } else { &mut f["end"] };
                    if r.chance(29, 30) {
                        let some = r.chance(2, 3);
                        *act = json!({"t": "next", "some": some, "d": if some { jb(&[b'a' + r.below(26) as u8]) } else { json!([]) }});
                    }
                }
                for w in f["writes"].as_array_mut().unwrap() {
                    if r.chance(39, 40) {
                        *w = json!({"t": *r.pick(&["id", "id", "id", "put", "wrap"]), "p": jb(&[b'0' + r.below(10) as u8]), "s": []});
                    }
                }
            }
        }
        let mut prog = rand_prog(&mut r, wild);
        let hname = if i % 3 == 0 { *r.pick(HEADERS) } else { "x-h" };
        if hname == "Date" {
            keep_date(&mut filters);
            keep_date(&mut prog);
        }
        let l = live(&filters, &prog, hname);
        out.line(&json!({
            "filters": filters, "prog": prog, "hname": hname, "status": l.wire.status, "hdr": l.hdr, "body": jb(&l.wire.body),
            "well": l.well, "bodyless": l.wire.framing == "none", "crashed": l.panicked, "unexpected": l.unexpected.is_some(),
            "storage": l.storage, "calls": l.calls, "results": l.results,
        }));
    }
}
