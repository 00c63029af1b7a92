//! Tree routers: replay of RouterMachine's behaviours and recording of random dispatches.
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::sync::Arc;

use rustful::context::hypermedia::{Link, LinkSegment, SegmentType};
use rustful::context::{MaybeUtf8Slice, Parameters, UriPath};
use rustful::handler::{ApplyContext, BuilderContext, CreateContent, Environment, FromHandler, HandleRequest, Merge, MethodRouter, OrElse, StatusRouter, TreeRouter, Variables};
use rustful::header::Headers;
use rustful::server::Global;
use rustful::response::{Error, SendResponse};
use rustful::{Context, Handler, Method, Response, Server, StatusCode};
use serde_json::{json, Value};

use crate::net::*;
use crate::server::Gate;
use crate::util::*;

thread_local! {
    static GATE: RefCell<Option<Arc<Gate>>> = RefCell::new(None);
    static LOG: RefCell<Vec<Value>> = RefCell::new(vec![]);
    static LINKS: RefCell<Vec<Value>> = RefCell::new(vec![]);
    static TARGETS: RefCell<Vec<Value>> = RefCell::new(vec![]);
    static PATHS: RefCell<Vec<Value>> = RefCell::new(vec![]);
}

/// Where offered requests of this thread wait.
pub fn wait_at(gate: Option<Arc<Gate>>) {
    GATE.with(|g| *g.borrow_mut() = gate)
}

pub fn take_log() -> Vec<Value> {
    LOG.with(|l| l.borrow_mut().drain(..).collect())
}

pub fn log(v: Value) {
    LOG.with(|l| l.borrow_mut().push(v))
}

pub fn vars_json(p: &Parameters) -> Value {
    let v: Vec<Value> = p.into_iter().map(|(k, v)| json!([jb(k.as_ref()), jb(v.as_ref())])).collect();
    sorted(&json!(v))
}

/// A link as <<method, kind, label>>; anything else is given away as it is.
pub fn link_json(l: &Link) -> Value {
    let m = l.method.as_ref().map(|m| m.to_string()).unwrap_or_default();
    match l.path.len() {
        0 => json!([m, "", []]),
        1 => {
            let k = match l.path[0].ty {
                SegmentType::Static => "s",
                SegmentType::VariableSegment => "v",
                SegmentType::VariableSequence => "w",
            };
            json!([m, k, jb(l.path[0].label.as_ref())])
        }
        n => json!([m, "long", [n]]),
    }
}

/// A link as a method and a path of kinds and labels
fn link_path_json(l: &Link) -> Value {
    let path: Vec<Value> = l.path.iter().map(|s| {
        let k = match s.ty {
            SegmentType::Static => "s",
            SegmentType::VariableSegment => "v",
            SegmentType::VariableSequence => "w",
        };
        json!([k, jb(s.label.as_ref())])
    }).collect();
    json!({"m": l.method.as_ref().map_or(String::new(), |m| m.to_string()), "p": path})
}

/// What to put in a route.
#[derive(Clone, Debug)]
pub struct PArgs {
    pub id: i64,
    pub accept: bool,
    pub rej: u16,
}

/// A real handler that can be told from others.
struct Described(i64);

impl Handler for Described {
    fn handle(&self, _: Context, _: Response) {}
    fn description(&self) -> Option<Cow<'static, str>> {
        Some(self.0.to_string().into())
    }
}

/// A handler that logs what it sees and may reject the request.
///
/// It also keeps what a builder has to say about it, and adds it to its number.
#[derive(Clone)]
pub struct Probe(pub PArgs, Target, i64);

/// Something for the handlers from whoever builds a router.
#[derive(Clone)]
pub struct Tag(pub i64);

/// A plain handler, which is able to be in a place by default.
#[derive(Clone)]
pub struct Real(pub i64);

impl Default for Real {
    fn default() -> Real {
        Real(999)
    }
}

impl Handler for Real {
    fn handle(&self, context: Context, mut response: Response) {
        log(json!({"id": self.0, "vars": vars_json(&context.variables), "status": response.status().to_u16()}));
        see_links(&context.hyperlinks);
        response.headers_mut().set_raw("x-id", vec![self.0.to_string().into_bytes()]);
        response.send("");
    }
}

/// The handler of the links, in several ways to have one.
#[derive(Clone)]
enum Target {
    Shared(Arc<Described>),
    Nested(Arc<Box<dyn Handler>>),
    Inside(Arc<Arc<Described>>),
}

impl Probe {
    pub fn new(args: PArgs) -> Probe {
        let target = match args.id % 3 {
            0 => Target::Shared(Arc::new(Described(args.id))),
            1 => Target::Nested(Arc::new(Box::new(Described(args.id)))),
            _ => Target::Inside(Arc::new(Arc::new(Described(args.id)))),
        };
        Probe(args, target, 0)
    }
}

/// What the links without paths lead to.
fn targets_json(links: &[Link]) -> Value {
    json!(links
        .iter()
        .filter(|l| l.path.is_empty())
        .map(|l| {
            let id: i64 = l.handler.and_then(|h| h.description()).map_or(-1, |d| d.parse().unwrap());
            json!([l.method.as_ref().map_or(String::new(), |m| m.to_string()), id])
        })
        .collect::<Vec<_>>())
}

fn see_links(links: &[Link]) {
    LINKS.with(|l| l.borrow_mut().push(json!(links.iter().map(link_json).collect::<Vec<_>>())));
    PATHS.with(|l| l.borrow_mut().push(json!(links.iter().map(link_path_json).collect::<Vec<_>>())));
    TARGETS.with(|l| l.borrow_mut().push(targets_json(links)));
}

/// A handler that only makes the content, which is where the status is known.
#[derive(Clone)]
pub struct Maker(pub i64);

pub struct Made {
    id: i64,
    vars: Value,
}

impl CreateContent for Maker {
    type Output = Made;

    fn create_content(&self, context: Context) -> Made {
        see_links(&context.hyperlinks);
        Made { id: self.0, vars: vars_json(&context.variables) }
    }
}

impl<'a, 'b> SendResponse<'a, 'b> for Made {
    type Error = Error;

    fn send_response(self, mut response: Response<'a, 'b>) -> Result<(), Error> {
        log(json!({"id": self.id, "vars": self.vars, "status": response.status().to_u16()}));
        response.headers_mut().set_raw("x-id", vec![self.id.to_string().into_bytes()]);
        response.try_send("")
    }
}

impl HandleRequest for Probe {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut env: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        log(json!({
            "id": self.0.id + 1000 * self.2,
            "vars": vars_json(&env.context.variables),
            "status": env.response.status().to_u16(),
        }));
        see_links(&env.context.hyperlinks);
        let gate = GATE.with(|g| g.borrow().clone());
        if let Some(gate) = gate {
            gate.pass();
        }
        if self.0.accept {
            env.response.headers_mut().set_raw("x-id", vec![(self.0.id + 1000 * self.2).to_string().into_bytes()]);
            env.response.send("");
            Ok(())
        } else {
            if self.0.rej != 0 {
                env.response.set_status(StatusCode::from_u16(self.0.rej));
            }
            Err(env)
        }
    }

    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        // some of them have a continuation
        let mut links = vec![];
        if self.0.id % 2 == 0 {
            let mut link = base.clone();
            link.path.push(LinkSegment { label: MaybeUtf8Slice::from(">>"), ty: SegmentType::Static });
            links.push(link);
        }
        links.extend(match self.1 {
            Target::Shared(ref t) => (**t).hyperlinks(base),
            Target::Nested(ref t) => (**t).hyperlinks(base),
            Target::Inside(ref t) => (**t).hyperlinks(base),
        });
        links
    }
}

impl FromHandler<PArgs> for Probe {
    fn from_handler(context: BuilderContext, args: PArgs) -> Probe {
        let mut probe = Probe::new(args);
        probe.apply_context(context);
        probe
    }
}

impl ApplyContext for Probe {
    fn apply_context(&mut self, context: BuilderContext) {
        if let Some(&Tag(tag)) = context.get() {
            self.2 = tag;
        }
    }
    fn prepend_context(&mut self, _: BuilderContext) {}
}

impl Merge for Probe {
    fn merge(&mut self, other: Probe) {
        *self = other;
    }
}

/// Gives the inner router a context with hyperlinks and a status, and observes
/// what is handed back.
pub struct Outer<R> {
    pub inner: R,
}

thread_local! {
    static RETURNED: RefCell<Option<Value>> = RefCell::new(None);
}

impl<R: HandleRequest> HandleRequest for Outer<R> {
    fn handle_request<'a, 'b, 'l, 'g>(&self, env: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let outer_link = Link {
            method: Some(Method::Trace),
            path: vec![LinkSegment { label: MaybeUtf8Slice::from("outer"), ty: SegmentType::Static }],
            handler: None,
        };
        let (mut env, old) = env.replace_hyperlinks(vec![outer_link.clone()]);
        env.response.set_status(StatusCode::from_u16(STATUS0.with(|s| s.get())));
        env.context.variables.insert("outer", "kept");
        let position = env.route_state.snapshot();
        match self.inner.handle_request(env) {
            Ok(()) => {
                RETURNED.with(|r| *r.borrow_mut() = None);
                Ok(())
            }
            Err(env) => {
                let mut expected_vars = Parameters::new();
                expected_vars.insert("outer", "kept");
                RETURNED.with(|r| {
                    *r.borrow_mut() = Some(json!({
                        "status": env.response.status().to_u16(),
                        "position": env.route_state.snapshot() == position,
                        "links": env.context.hyperlinks == vec![outer_link],
                        "vars": env.context.variables == expected_vars,
                    }))
                });
                Err(env.replace_hyperlinks(old).0)
            }
        }
    }

    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.inner.hyperlinks(base)
    }
}

pub fn method(s: &str) -> Method {
    s.parse().unwrap()
}

/// Percent encode everything that isn't obviously harmless.
pub fn encode_path(path: &[u8]) -> String {
    let mut s = String::new();
    for &b in path {
        if b.is_ascii_alphanumeric() || b == b'/' {
            s.push(b as char);
        } else {
            s.push_str(&format!("%{:02X}", b));
        }
    }
    s
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub pat: Vec<u8>,
    pub method: String,
    /// the status, or the alternative
    pub on: i64,
    pub args: PArgs,
}

pub fn entry(v: &Value) -> Entry {
    Entry {
        pat: bytes(&v["pat"]),
        method: st(&v["method"]).to_string(),
        on: int(&v["on"]),
        args: PArgs { id: int(&v["id"]), accept: boolean(&v["accept"]), rej: int(&v["rej"]) as u16 },
    }
}

pub fn entry_json(e: &Entry) -> Value {
    json!({"pat": jb(&e.pat), "method": e.method, "on": e.on, "id": e.args.id, "accept": e.args.accept, "rej": e.args.rej})
}

/// The observations of one request.
pub struct Dispatched {
    pub offers: Value,
    pub winner: i64,
    pub status: i64,
    /// the status that was sent
    pub sent: i64,
    /// links seen by each offered handler
    pub links: Vec<Value>,
    /// the handlers that those without a path lead to
    pub targets: Vec<Value>,
    /// the same links, with all of their paths
    pub paths: Vec<Value>,
    /// outer state given back; `true` if answered
    pub restored: Value,
    pub wire: Value,
    /// what happens without a connection
    pub mock: Value,
}

pub type Serving<R> = rustful::server::ServerInstance<Outer<R>>;

/// What happens when a mocked request is given to the router: the offers, the
/// one who took it, and otherwise the status and if everything was restored.
pub fn dispatch_mock<R: HandleRequest>(outer: &Outer<R>, m: &str, path: &[u8], status: u16) -> Value {
    STATUS0.with(|s| s.set(status));
    take_log();
    RETURNED.with(|r| *r.borrow_mut() = None);
    let result = guarded(|| {
        let global = Global::default();
        let mut context = Context::mock(method(m), "", Headers::new(), &global);
        context.uri_path = UriPath::Path(path.to_vec().into());
        let env = Environment { context, response: Response::mock(&global), route_state: path.into() };
        let answered = outer.handle_request(env).is_ok();
        answered
    });
    let offers = take_log();
    LINKS.with(|l| l.borrow_mut().clear());
    TARGETS.with(|l| l.borrow_mut().clear());
    PATHS.with(|l| l.borrow_mut().clear());
    let returned = RETURNED.with(|r| r.borrow_mut().take());
    match (result, returned) {
        (Ok(true), _) => {
            let winner = offers.last().map_or(json!("nobody"), |o| o["id"].clone());
            json!([offers, winner, 0, true])
        }
        (Ok(false), Some(r)) => json!([offers, 0, r["status"], r["position"] == true && r["links"] == true && r["vars"] == true]),
        (Ok(false), None) => json!("lost"),
        (Err(e), _) => json!(format!("panic: {}", e)),
    }
}

pub fn serving<R: HandleRequest>(inner: R) -> Serving<R> {
    Server::new(Outer { inner }).build()
}

thread_local! {
    static STATUS0: Cell<u16> = Cell::new(200);
}

/// Send a request to a router, that is given a response with some status.
pub fn dispatch<R: HandleRequest>(server: &Serving<R>, m: &str, path: &[u8], status: u16) -> Dispatched {
    STATUS0.with(|s| s.set(status));
    take_log();
    LINKS.with(|l| l.borrow_mut().clear());
    TARGETS.with(|l| l.borrow_mut().clear());
    PATHS.with(|l| l.borrow_mut().clear());
    RETURNED.with(|r| *r.borrow_mut() = None);
    let raw = format!("{} {} HTTP/1.1\r\nHost: h\r\n\r\n", m, encode_path(path));
    let served = serve(server, raw.as_bytes());
    let offers = take_log();
    let links = LINKS.with(|l| l.borrow_mut().drain(..).collect());
    let targets = TARGETS.with(|l| l.borrow_mut().drain(..).collect());
    let paths = PATHS.with(|l| l.borrow_mut().drain(..).collect());
    let returned = RETURNED.with(|r| r.borrow_mut().take());
    let wire = parse_wire(&served.written);
    let winner = wire.header1("x-id").parse().unwrap_or(0);
    let (status, restored) = match returned {
        Some(r) => {
            let expected = if r["status"] == 200 { json!(404) } else { r["status"].clone() };
            let ok = json!({"position": r["position"], "links": r["links"], "vars": r["vars"], "answered": json!(wire.status) == expected});
            (r["status"].as_i64().unwrap(), ok)
        }
        None => (wire.status as i64, json!(true)),
    };
    let problem = match served.panic {
        Some(p) => json!(format!("panic: {}", p)),
        None => wellformed(&wire),
    };
    Dispatched { offers: json!(offers), winner, status, sent: wire.status as i64, links, targets, paths, restored, wire: problem, mock: json!(null) }
}

pub type OptRouter = TreeRouter<Option<Variables<Probe>>>;
pub type MethRouter = TreeRouter<MethodRouter<Variables<Probe>>>;

pub fn build_opt(table: &[Entry]) -> OptRouter {
    let mut r = OptRouter::new();
    for e in table {
        r.build().path(&e.pat).handler(e.args.clone());
    }
    r
}

pub fn build_meth(table: &[Entry]) -> MethRouter {
    let mut r = MethRouter::new();
    for e in table {
        r.build().path(&e.pat).then().on(method(&e.method), e.args.clone());
    }
    r
}

pub type Table = MethodRouter<Variables<Probe>>;
pub type StatRouter = TreeRouter<StatusRouter<Table>>;
pub type OrRouter = TreeRouter<OrElse<Table, Table>>;

pub fn build_stat(table: &[Entry]) -> StatRouter {
    let mut r = StatRouter::new();
    for e in table {
        r.build().path(&e.pat).then().status(StatusCode::from_u16(e.on as u16)).on(method(&e.method), e.args.clone());
    }
    r
}

pub fn build_or(table: &[Entry]) -> OrRouter {
    let mut r = OrRouter::new();
    for e in table {
        if e.on == 0 {
            r.build().path(&e.pat).then().primary().on(method(&e.method), e.args.clone());
        } else {
            r.build().path(&e.pat).then().secondary().on(method(&e.method), e.args.clone());
        }
    }
    r
}

pub fn run(kind: &str, linking: bool, table: &[Entry], m: &str, path: &[u8], status: u16) -> Dispatched {
    fn go<T: HandleRequest>(mut r: TreeRouter<T>, linking: bool, m: &str, path: &[u8], status: u16) -> Dispatched {
        r.find_hyperlinks = linking;
        let outer = Outer { inner: r };
        let mock = dispatch_mock(&outer, m, path, status);
        Dispatched { mock, ..dispatch(&serving(outer.inner), m, path, status) }
    }
    match kind {
        "opt" => go(build_opt(table), linking, m, path, status),
        "meth" => go(build_meth(table), linking, m, path, status),
        "stat" => go(build_stat(table), linking, m, path, status),
        "or" => go(build_or(table), linking, m, path, status),
        k => panic!("no such kind: {}", k),
    }
}

fn ids(offers: &Value) -> Value {
    json!(arr(offers).iter().map(|o| o["id"].clone()).collect::<Vec<_>>())
}

pub fn all_restored() -> Value {
    json!({"position": true, "links": true, "vars": true, "answered": true})
}

/// Are the links as in the documentation: by method (none first), then by label.
pub fn strictly_sorted(links: &Value) -> bool {
    let key = |l: &Value| -> (String, Vec<(Vec<u8>, u8)>) {
        let k = match st(&l[1]) {
            "" => vec![],
            "s" => vec![(bytes(&l[2]), 0)],
            "v" => vec![(bytes(&l[2]), 1)],
            _ => vec![(bytes(&l[2]), 2)],
        };
        (st(&l[0]).to_string(), k)
    };
    let l = arr(links);
    (1..l.len()).all(|i| key(&l[i - 1]) < key(&l[i]))
}

/// Do the links lead to handlers that they may lead to?
pub fn right_targets(expected: &Value, observed: &Value) -> bool {
    let (expected, observed) = (arr(expected), arr(observed));
    observed.len() == expected.len() && observed.iter().all(|t| expected.iter().any(|x| x[0] == t[0] && arr(&x[1]).contains(&t[1])))
}

pub fn replay(vectors: &str, report: &str) {
    replay_all(vectors, report, |rep, v| {
        let table: Vec<Entry> = arr(&v["table"]).iter().map(entry).collect();
        let linking = boolean(&v["linking"]);
        let path = bytes(&v["path"]);
        let kind = st(&v["kind"]);
        let m = st(&v["method"]);
        let status0 = int(&v["status0"]) as u16;
        let d = run(kind, linking, &table, m, &path, status0);
        let expected: Vec<Value> = arr(&v["offers"]).iter().map(|o| json!({"id": o["id"], "vars": sorted(&o["vars"]), "status": o["status"]})).collect();
        let expected = json!(expected);
        rep.check("wire", v, &json!("ok"), &d.wire);
        rep.check("order", v, &ids(&expected), &ids(&d.offers));
        rep.check("winner", v, &v["winner"], &json!(d.winner));
        rep.check("status", v, &v["status"], &json!(d.status));
        rep.check("vars", v, &expected, &d.offers);
        if d.winner == 0 {
            rep.check("restored", v, &all_restored(), &d.restored);
        }
        for l in &d.links {
            rep.check("links", v, &sorted(&v["links"]), &sorted(l));
            rep.check("links", v, &json!("sorted"), &json!(if strictly_sorted(l) { "sorted".to_string() } else { format!("{}", l) }));
        }
        for t in &d.targets {
            rep.check("targets", v, &v["targets"], if right_targets(&v["targets"], t) { &v["targets"] } else { t });
        }
        let unanswered = if d.winner == 0 { v["status"].clone() } else { json!(0) };
        rep.check("mock", v, &json!([expected, v["winner"], unanswered, true]), &d.mock);
        // the other mode must not differ
        let o = run(kind, !linking, &table, m, &path, status0);
        rep.check("modes", v, &json!([&d.offers, d.winner, d.status]), &json!([&o.offers, o.winner, o.status]));
    });
}

// --- recording -----------------------------------------------------------

/// Long things that often differ only at the end.
fn rand_long(rng: &mut Rng) -> Vec<u8> {
    let mut l = vec![b'a'; *rng.pick(&[31, 63, 64, 127, 128, 254, 255, 256, 300, 1000])];
    l.push(b'a' + rng.below(2) as u8);
    l
}

fn rand_label(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 40) {
        return rand_long(rng);
    }
    match rng.below(10) {
        0..=3 => vec![b'a' + rng.below(3) as u8],
        4 => vec![b'A' + rng.below(3) as u8],
        5 => vec![b'a', b'a' + rng.below(3) as u8],
        6 => vec![0xff, rng.below(256) as u8 | 0x80],
        7 => vec![b'a' + rng.below(3) as u8, b':', b'*'],
        8 => "å∫c".as_bytes()[..rng.range(1, 3)].to_vec(),
        _ => (0..rng.range(1, 40)).map(|_| *rng.pick(b"abc%:*? ")).map(|c| if c == b':' || c == b'*' { b'c' } else { c }).collect(),
    }
}

fn rand_var(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 40) {
        return rand_long(rng);
    }
    match rng.below(6) {
        0 => vec![],
        1 | 2 => vec![b'x' + rng.below(3) as u8],
        3 => vec![0xfe, 0x41],
        4 => b":x".to_vec(),
        _ => (0..rng.range(1, 12)).map(|_| *rng.pick(b"abcxyz*:")).collect(),
    }
}

pub fn rand_pat(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = rng.below(max + 1);
    let mut p = vec![];
    if rng.chance(3, 4) {
        p.push(b'/');
    }
    for i in 0..n {
        if i > 0 {
            p.push(b'/');
        }
        match rng.below(8) {
            0 | 1 | 2 => {
                p.push(b':');
                let v = rand_var(rng);
                p.extend(v);
            }
            3 | 4 => {
                p.push(b'*');
                let v = rand_var(rng);
                p.extend(v);
            }
            5 if rng.chance(1, 4) => {}
            _ => {
                let l = rand_label(rng);
                p.extend(l);
            }
        }
    }
    if rng.chance(1, 4) {
        p.push(b'/');
    }
    p
}

/// A pattern for paths with many segments, with few ways to match it.
fn long_pat(rng: &mut Rng, i: usize) -> Vec<u8> {
    let mut p = vec![];
    let n = if i == 0 { 0 } else if rng.chance(1, 4) { rng.range(100, 280) } else { rng.range(10, 90) };
    for _ in 0..n {
        p.push(b'/');
        p.push(if rng.chance(1, 4) { b':' } else { b'a' });
    }
    if i == 0 || rng.chance(1, 2) {
        p.extend(b"/*w");
    }
    p
}

/// A path that has something to do with the patterns.
pub fn rand_path(rng: &mut Rng, table: &[Entry]) -> Vec<u8> {
    let mut p = vec![b'/'];
    if !table.is_empty() && rng.chance(4, 5) {
        let e = rng.pick(table).clone();
        for seg in e.pat.split(|&b| b == b'/') {
            if seg.is_empty() && rng.chance(9, 10) {
                continue;
            }
            let n = match seg.get(0) {
                Some(b':') => 1,
                Some(b'*') => rng.range(1, 3),
                _ => 0,
            };
            if n == 0 {
                p.extend(seg);
                p.push(b'/');
            }
            for _ in 0..n {
                if !rng.chance(1, 12) {
                    let l = if rng.chance(1, 2) { rand_label(rng) } else {
                        let t = rng.pick(table).clone();
                        let segs: Vec<&[u8]> = t.pat.split(|&b| b == b'/').collect();
                        rng.pick(&segs).to_vec()
                    };
                    p.extend(l);
                }
                p.push(b'/');
            }
        }
        if rng.chance(4, 5) && p.len() > 1 {
            p.pop();
        }
        if rng.chance(1, 6) {
            p.push(b'/');
            let l = rand_label(rng);
            p.extend(l);
        }
    } else {
        for i in 0..rng.below(6) {
            if i > 0 {
                p.push(b'/');
            }
            let l = rand_label(rng);
            p.extend(l);
        }
    }
    p
}

const METHODS: &'static [&'static str] = &["GET", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "PURGE", "get", "Post", "VERSION-CONTROL-OF-EVERYTHING", "VERSION-CONTROL-OF-EVERYONE"];

/// A kind of router, what's in it, and methods.
pub fn rand_table(rng: &mut Rng) -> (&'static str, Vec<Entry>, &'static [&'static str]) {
    let kind = *rng.pick(&["opt", "opt", "meth", "meth", "stat", "or"]);
    let long = rng.chance(1, 60);
    let large = rng.chance(1, 25);
    let n = if long { rng.range(1, 4) } else if large { rng.range(10, 40) } else { rng.below(11) };
    let depth = if large { rng.range(3, 10) } else { rng.range(1, 6) };
    let methods = rng.range(1, METHODS.len());
    let rejecting = rng.below(4);
    let mut table: Vec<Entry> = vec![];
    for i in 0..n {
        let pat = if long { long_pat(rng, i) } else if i > 0 && rng.chance(1, 5) { rng.pick(&table).pat.clone() } else { rand_pat(rng, depth) };
        table.push(Entry {
            pat,
            method: METHODS[rng.below(methods)].to_string(),
            on: match kind {
                "stat" => *rng.pick(&[200, 200, 503, 299]),
                "or" => *rng.pick(&[0, 1]),
                _ => 200,
            },
            args: PArgs { id: i as i64 + 1, accept: !rng.chance(rejecting, 3), rej: *rng.pick(&[0, 0, 410, 503, 200, 204, 299, 799]) },
        });
    }
    (kind, table, &METHODS[..methods])
}

pub fn record(seed: u64, count: usize, out: &str) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    for _ in 0..count {
        let (kind, table, methods) = rand_table(&mut rng);
        for _ in 0..rng.range(1, 3) {
            let path = rand_path(&mut rng, &table);
            let linking = rng.chance(1, 2);
            let m = *rng.pick(methods);
            let status0 = *rng.pick(&[200u16, 200, 503, 418, 299, 101]);
            let d = run(kind, linking, &table, m, &path, status0);
            let e = run(kind, !linking, &table, m, &path, status0);
            o.line(&json!({
                "kind": kind, "linking": linking, "method": m, "path": jb(&path), "status0": status0,
                "table": table.iter().map(entry_json).collect::<Vec<_>>(),
                "offers": d.offers, "winner": d.winner, "status": d.status,
                "links": d.links, "targets": d.targets, "sorted": d.links.iter().all(strictly_sorted),
                "restored": d.winner != 0 || d.restored == all_restored(),
                "mock": d.mock == json!([d.offers, d.winner, if d.winner == 0 { d.status } else { 0 }, true]),
                "modes": d.offers == e.offers && d.winner == e.winner && d.status == e.status,
                "wire": d.wire,
            }));
        }
    }
}

