//! Histories of connections and requests, see Server.tla.
use rustful::context::UriPath;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::handler::{MethodRouter, TreeRouter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::{Global, KeepAlive, ServerInstance};
use rustful::{Context, Handler, HttpVersion, Method, Response, Server, StatusCode};
use hyper::buffer::BufReader;
use hyper::net::NetworkStream;
use hyper::server::Handler as HyperHandler;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Condvar, Mutex};
use std::thread::JoinHandle;
use std::time::Duration;

use crate::life::{self, Life, Program, Scripted};
use crate::net::*;
use crate::util::*;

/// What is done in the request on this thread
#[derive(Default)]
struct Script {
    cf: Vec<Value>,
    rf: Vec<&'static Scripted>,
    prog: Option<Program>,
    events: Vec<Value>,
    truth: bool,
    from: Option<SocketAddr>,
}

thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
}

#[derive(PartialEq, Debug)]
struct Configured(u64);

fn globals() -> Global {
    (Configured(4711), "global".to_string()).into()
}

fn check_global(global: &Global) {
    let ok = global.get::<Configured>() == Some(&Configured(4711)) && global.get::<String>().map(|s| &s[..]) == Some("global") && global.get::<u8>().is_none();
    SCRIPT.with(|s| s.borrow_mut().truth &= ok);
}

fn look(who: usize, context: &Context) {
    check_global(context.global);
    let path = match context.uri_path {
        UriPath::Asterisk => "*".to_string(),
        UriPath::Path(ref p) => p.as_utf8_lossy().into_owned(),
    };
    let version = match context.http_version {
        HttpVersion::Http11 => "1.1",
        HttpVersion::Http10 => "1.0",
        _ => "?",
    };
    let event = json!({
        "who": who,
        "method": context.method.to_string(),
        "path": path,
        "hdr": context.headers.get_raw("x-r").map(|h| String::from_utf8_lossy(&h[0]).into_owned()).unwrap_or_default(),
        "query": context.query.get("k").map(|k| k.into_owned()).unwrap_or_default(),
        "version": version,
    });
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        s.truth &= Some(context.address) == s.from;
        s.events.push(event);
    });
}

/// Does what the script of the request says
struct DynContext(usize);

impl ContextFilter for DynContext {
    fn modify(&self, filter: FilterContext, context: &mut Context) -> ContextAction {
        let f = SCRIPT.with(|s| s.borrow().cf[self.0].clone());
        life::touch(filter.storage, 300 + self.0);
        check_global(filter.global);
        look(self.0 + 1, context);
        let boom = context.headers.get_raw("x-r").map_or(false, |h| &h[0][..] == b"boom");
        match st(&f["method"]) {
            "" => {}
            m => context.method = m.parse().unwrap(),
        }
        match st(&f["path"]) {
            "" => {}
            "*" => context.uri_path = UriPath::Asterisk,
            p => context.uri_path = UriPath::Path(p.to_string().into()),
        }
        match st(&f["hdr"]) {
            "" => {}
            "-" => {
                context.headers.remove_raw("x-r");
            }
            h => context.headers.set_raw("x-r", vec![h.into()]),
        }
        match st(&f["query"]) {
            "" => {}
            q => {
                context.query.insert("k", q.to_string());
            }
        }
        match st(&f["act"]) {
            "next" => ContextAction::next(),
            "boom" if !boom => ContextAction::next(),
            "abort" => ContextAction::abort(StatusCode::from_u16(int(&f["st"]) as u16)),
            _ => panic!("scripted"),
        }
    }
}

struct DynResponse(usize);

impl DynResponse {
    fn script(&self, context: &FilterContext) -> &'static Scripted {
        check_global(context.global);
        SCRIPT.with(|s| s.borrow().rf[self.0])
    }
}

impl ResponseFilter for DynResponse {
    fn begin(&self, context: FilterContext, status: StatusCode, headers: &mut Headers) -> (StatusCode, ResponseAction) {
        self.script(&context).begin(context, status, headers)
    }
    fn write<'a>(&'a self, context: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        self.script(&context).write(context, content)
    }
    fn end(&self, context: FilterContext) -> ResponseAction {
        self.script(&context).end(context)
    }
}

#[derive(Clone)]
struct DynHandler;

impl Handler for DynHandler {
    fn handle(&self, context: Context, response: Response) {
        look(0, &context);
        let prog = SCRIPT.with(|s| s.borrow_mut().prog.take());
        match prog {
            Some(p) => p.handle(context, response),
            None => SCRIPT.with(|s| s.borrow_mut().events.push(json!("handled twice"))),
        }
    }
}

type Router = TreeRouter<MethodRouter<DynHandler>>;

fn router() -> Router {
    let mut router = Router::new();
    router.build().many(|n| {
        n.then().on(Method::Delete, DynHandler);
        n.path("a").then().on_get(DynHandler);
        n.path("a").then().on_post(DynHandler);
        n.path("b/c").then().on_get(DynHandler);
    });
    router
}

fn instance(threads: usize, free: i64, cf: usize, rf: usize) -> Server<Router> {
    Server {
        threads: Some(threads),
        keep_alive: if free < 0 { None } else { Some(KeepAlive { timeout: Duration::from_secs(60), free_threads: free as usize }) },
        server: life::SERVER_NAME.into(),
        content_type: life::CONTENT_TYPE.parse().unwrap(),
        global: globals(),
        context_filters: (0..cf).map(|i| Box::new(DynContext(i)) as Box<dyn ContextFilter>).collect(),
        response_filters: (0..rf).map(|i| Box::new(DynResponse(i)) as Box<dyn ResponseFilter>).collect(),
        ..Server::new(router())
    }
}

pub struct Gate {
    state: Mutex<GateState>,
    changed: Condvar,
}

struct GateState {
    allowed: usize,
    free: bool,
    waiting: bool,
    done: bool,
}

impl Gate {
    pub fn new() -> Arc<Gate> {
        Arc::new(Gate { state: Mutex::new(GateState { allowed: 0, free: false, waiting: false, done: false }), changed: Condvar::new() })
    }
    pub fn pass(&self) {
        let mut s = self.state.lock().unwrap();
        if s.free {
            return;
        }
        s.waiting = true;
        self.changed.notify_all();
        while s.allowed == 0 && !s.free {
            s = self.changed.wait(s).unwrap();
        }
        if !s.free {
            s.allowed -= 1;
        }
        s.waiting = false;
    }
    pub fn done(&self) {
        self.state.lock().unwrap().done = true;
        self.changed.notify_all();
    }
    pub fn is_done(&self) -> bool {
        self.state.lock().unwrap().done
    }
    /// wait until it waits or is done
    pub fn settle(&self) {
        let mut s = self.state.lock().unwrap();
        while !((s.waiting && s.allowed == 0) || s.done) {
            s = self.changed.wait(s).unwrap();
        }
    }
    /// wait until it waits or is done, for a while
    pub fn wait_for(&self, patience: Duration) -> bool {
        let s = self.state.lock().unwrap();
        !self.changed.wait_timeout_while(s, patience, |s| !(s.waiting || s.done)).unwrap().1.timed_out()
    }
    /// let it go on once, without waiting for it
    pub fn allow(&self) {
        {
            let mut s = self.state.lock().unwrap();
            if s.done {
                return;
            }
            s.allowed += 1;
            s.waiting = false;
        }
        self.changed.notify_all();
    }
    pub fn step(&self) {
        self.allow();
        self.settle();
    }
    pub fn release(&self) {
        self.state.lock().unwrap().free = true;
        self.changed.notify_all();
    }
}

pub struct Finished {
    pub life: Life,
    pub events: Value,
    pub truth: bool,
    pub close: bool,
    pub unparsed: bool,
}

fn request(q: &Value) -> Vec<u8> {
    let mut target = st(&q["path"]).to_string();
    if boolean(&q["bad"]) {
        target = "h:80".into();
    } else if target != "*" && st(&q["query"]) != "" {
        target = format!("{}?k={}", target, st(&q["query"]));
    }
    let mut raw = format!("{} {} HTTP/{}\r\nHost: h\r\n", st(&q["method"]), target, st(&q["version"]));
    if st(&q["hdr"]) != "" {
        raw += &format!("X-R: {}\r\n", st(&q["hdr"]));
    }
    if boolean(&q["close"]) && q["version"] == "1.1" {
        raw += "Connection: close\r\n";
    }
    if !boolean(&q["close"]) && q["version"] == "1.0" {
        raw += "Connection: keep-alive\r\n";
    }
    raw += "\r\n";
    raw.into_bytes()
}

fn from(c: i64) -> SocketAddr {
    format!("10.9.{}.{}:{}", c / 200, c % 200 + 1, 2000 + c).parse().unwrap()
}

fn serve_scripted<H: HyperHandler>(server: &H, cf: &Value, rf: &Value, hname: &str, q: &Value, c: i64, keep_alive: bool, gate: Option<Arc<Gate>>) -> Finished {
    life::start_observing(arr(rf).len());
    life::observe_header(hname);
    SCRIPT.with(|s| {
        *s.borrow_mut() = Script {
            cf: arr(cf).clone(),
            rf: arr(rf).iter().enumerate().map(|(i, f)| &*Box::leak(Box::new(Scripted::new(i, f)))).collect(),
            prog: Some(Program::new(&q["prog"])),
            events: vec![],
            truth: true,
            from: Some(from(c)),
        }
    });
    life::set_gate(gate.map(|g| Box::new(move || g.pass()) as Box<dyn Fn()>));
    let mut stream = MemStream::new(request(q));
    let mut written = vec![];
    let (panic, unparsed) = {
        let stream: &mut dyn NetworkStream = &mut stream;
        let mut reader = BufReader::new(stream);
        serve_from(server, &mut reader, &mut written, from(c), keep_alive)
    };
    life::set_gate(None);
    let script = SCRIPT.with(|s| s.replace(Script::default()));
    for f in script.rf {
        // nothing else refers to them
        unsafe { drop(Box::from_raw(f as *const Scripted as *mut Scripted)) }
    }
    let life = life::finish_observing(&written, panic);
    let close = life.wire.header("connection").iter().any(|v| v.eq_ignore_ascii_case(b"close"));
    Finished { close, events: json!(script.events), truth: script.truth, life, unparsed }
}

/// A server with the connections of a history.
struct History {
    server: Arc<ServerInstance<Router>>,
    config: Value,
    taken: BTreeMap<i64, (Arc<Gate>, JoinHandle<Finished>)>,
}

impl History {
    fn new(config: &Value) -> History {
        let server = instance(int(&config["threads"]) as usize, int(&config["free"]), arr(&config["cf"]).len(), arr(&config["rf"]).len()).build();
        History { server: Arc::new(server), config: config.clone(), taken: BTreeMap::new() }
    }
    fn open(&self) {
        self.server.on_connection_start();
    }
    fn close(&self) {
        self.server.on_connection_end();
    }
    fn take(&mut self, c: i64, q: &Value) {
        let gate = Gate::new();
        let (server, g, config, q) = (self.server.clone(), gate.clone(), self.config.clone(), q.clone());
        let thread = std::thread::spawn(move || {
            let f = serve_scripted(&*server, &config["cf"], &config["rf"], st(&config["hname"]), &q, c, int(&config["free"]) >= 0, Some(g.clone()));
            g.done();
            f
        });
        gate.settle();
        self.taken.insert(c, (gate, thread));
    }
    fn touch(&mut self, c: i64) {
        self.taken[&c].0.step();
    }
    fn is_done(&self, c: i64) -> bool {
        self.taken[&c].0.is_done()
    }
    fn finish(&mut self, c: i64) -> Finished {
        let (gate, thread) = self.taken.remove(&c).unwrap();
        gate.release();
        thread.join().unwrap()
    }
}

impl Drop for History {
    fn drop(&mut self) {
        let all: Vec<_> = self.taken.keys().cloned().collect();
        for c in all {
            self.finish(c);
        }
    }
}

fn compare(rep: &mut Report, v: &Value, x: &Value, f: &Finished) {
    if f.unparsed {
        return rep.fail("unparsed", v, &json!("a request"), &json!("an error from hyper"));
    }
    rep.check("events", v, &x["events"], &f.events);
    rep.check("truth", v, &json!(true), &json!(f.truth));
    if !boolean(&x["seen"]["crashed"]) {
        rep.check("close", v, &x["close"], &json!(f.close));
    }
    let mut seen = x["seen"].clone();
    if !boolean(&x["handled"]) {
        seen["results"] = json!([]);
    }
    // a crash before the response leaves the rest to hyper
    life::compare(rep, v, &seen, &f.life);
}

pub fn replay(vectors: &str, report: &str) {
    replay_with(vectors, report, |_| ())
}

/// The histories come after many other connections.
pub fn replay_stress(vectors: &str, report: &str) {
    let rounds = if std::env::var("RFH_TIER").ok() == Some("thorough".into()) { 20000 } else { 2000 };
    replay_with(vectors, report, |h| {
        let threads: Vec<_> = (0..8)
            .map(|i| {
                let (server, config) = (h.server.clone(), h.config.clone());
                std::thread::spawn(move || {
                    let q = |panics: bool| {
                        let op = if panics { "panic" } else { "drop" };
                        json!({"method": "GET", "path": "/a", "hdr": "", "query": "", "version": "1.1", "bad": false, "close": false,
                               "prog": [{"op": op, "n": 0, "d": [], "h": ""}]})
                    };
                    for n in 0..rounds {
                        server.on_connection_start();
                        let mut crashed = false;
                        if n % 16 == i {
                            let f = serve_scripted(&*server, &config["cf"], &config["rf"], "x-h", &q(n % 32 == i), i as i64, true, None);
                            crashed = f.life.panicked;
                        }
                        if !crashed {
                            server.on_connection_end();
                        }
                    }
                })
            })
            .collect();
        for t in threads {
            t.join().unwrap();
        }
    })
}

fn replay_with<F: Fn(&History)>(vectors: &str, report: &str, prelude: F) {
    replay_all(vectors, report, |rep, v| {
        let mut h = History::new(v);
        prelude(&h);
        for step in arr(&v["steps"]) {
            let c = int(&step["c"]);
            match st(&step["a"]) {
                "open" => h.open(),
                "close" => h.close(),
                "take" => h.take(c, &step["q"]),
                "touch" => h.touch(c),
                "finish" => compare(rep, v, &step["seen"], &h.finish(c)),
                a => panic!("no such step: {}", a),
            }
        }
    })
}

fn rand_context_filter(r: &mut Rng) -> Value {
    let act = match r.below(12) {
        0 => "panic",
        1 => "abort",
        2 => "boom",
        _ => "next",
    };
    json!({
        "method": *r.pick(&["", "", "", "", "GET", "POST", "PUT", "BREW", "HEAD", "OPTIONS"]),
        "path": *r.pick(&["", "", "", "/a", "/b/c", "/c", "/", "*"]),
        "hdr": *r.pick(&["", "", "f", "ff", "-"]),
        "query": *r.pick(&["", "", "f", "ff"]),
        "act": act,
        "st": if r.chance(1, 4) { r.range(100, 999) as i64 } else { *r.pick(&[200, 204, 302, 400, 401, 403, 404, 405, 500, 503, 299]) },
    })
}

fn rand_request(r: &mut Rng, wild: bool, date: bool) -> Value {
    let bad = r.chance(1, 16);
    let mut prog = life::rand_prog(r, wild);
    if date {
        life::keep_date(&mut prog);
    }
    json!({
        "method": if bad { "CONNECT" } else { *r.pick(&["GET", "GET", "GET", "GET", "POST", "POST", "PUT", "BREW", "DELETE", "OPTIONS", "TRACE", "PATCH"]) },
        "path": *r.pick(&["/a", "/a", "/a", "/b/c", "/b/c", "/c", "/", "*"]),
        "hdr": *r.pick(&["", "q", "qq", "boom"]),
        "query": *r.pick(&["", "q", "qq"]),
        "bad": bad,
        "close": r.chance(1, 8),
        "version": *r.pick(&["1.1", "1.1", "1.1", "1.0"]),
        "prog": prog,
    })
}

fn recorded(f: &Finished) -> Value {
    json!({
        "events": f.events, "truth": f.truth && !f.unparsed, "close": f.close,
        "status": f.life.wire.status, "hdr": f.life.hdr, "body": jb(&f.life.wire.body),
        "well": f.life.well, "bodyless": f.life.wire.framing == "none", "crashed": f.life.panicked,
        "unexpected": f.life.unexpected.is_some(), "storage": f.life.storage, "calls": f.life.calls, "results": f.life.results,
    })
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let wild = r.chance(1, 3);
        let hname = if r.chance(1, 6) { "Connection" } else { *r.pick(life::HEADERS) };
        let date = hname == "Date";
        let mut rf = json!((0..r.below(4)).map(|_| life::rand_filter(&mut r, wild)).collect::<Vec<_>>());
        if date {
            life::keep_date(&mut rf);
        }
        let cf: Vec<_> = if r.chance(1, 20) {
            // many filters, where a few do something
            (0..r.range(5, 50)).map(|_| if r.chance(1, 12) { rand_context_filter(&mut r) } else { json!({"method": "", "path": "", "hdr": "", "query": "", "act": "next", "st": 200}) }).collect()
        } else {
            (0..r.below(4)).map(|_| rand_context_filter(&mut r)).collect()
        };
        let config = json!({"threads": r.range(1, 8), "free": r.below(6) as i64 - 1, "hname": hname, "cf": cf, "rf": rf});
        let mut h = History::new(&config);
        let mut steps = vec![];
        let mut idle: Vec<i64> = vec![];
        let mut over: Vec<i64> = vec![];
        let mut next = 0;
        for _ in 0..r.range(2, 40) {
            let taken: Vec<i64> = h.taken.keys().cloned().collect();
            let (mut ended, mut finished) = (None, None);
            match r.below(10) {
                0..=1 if idle.len() + over.len() + taken.len() < 8 => {
                    next += 1;
                    h.open();
                    idle.push(next);
                    steps.push(json!({"a": "open", "c": next}));
                }
                2 if over.len() > 0 || idle.len() > 0 => {
                    let from = if over.len() > 0 && (idle.len() == 0 || r.chance(2, 3)) { &mut over } else { &mut idle };
                    let at = r.below(from.len());
                    let c = from.remove(at);
                    h.close();
                    steps.push(json!({"a": "close", "c": c}));
                }
                3..=5 if idle.len() > 0 => {
                    let c = idle.remove(r.below(idle.len()));
                    let mut q = rand_request(&mut r, wild, date);
                    // without a body
                    if arr(&config["rf"]).is_empty() && !boolean(&q["bad"]) && r.chance(1, 8) {
                        q["method"] = json!("HEAD");
                        q["prog"] = json!([{"op": "drop", "n": 0, "d": [], "h": ""}]);
                    }
                    h.take(c, &q);
                    steps.push(json!({"a": "take", "c": c, "q": q}));
                    ended = Some(c);
                }
                6..=7 if taken.len() > 0 => {
                    let c = *r.pick(&taken);
                    h.touch(c);
                    steps.push(json!({"a": "touch", "c": c}));
                    ended = Some(c);
                }
                8..=9 if taken.len() > 0 => finished = Some(*r.pick(&taken)),
                _ => {}
            }
            // it may have come to its end by itself
            if let Some(c) = ended {
                if h.is_done(c) {
                    finished = Some(c);
                }
            }
            if let Some(c) = finished {
                let f = h.finish(c);
                steps.push(json!({"a": "finish", "c": c, "seen": recorded(&f)}));
                if !f.life.panicked {
                    if f.close { over.push(c) } else { idle.push(c) }
                }
            }
        }
        let taken: Vec<i64> = h.taken.keys().cloned().collect();
        for c in taken {
            let f = h.finish(c);
            steps.push(json!({"a": "finish", "c": c, "seen": recorded(&f)}));
        }
        let mut line = config;
        line["steps"] = json!(steps);
        out.line(&line);
    }
}
