//! Compositions of routers, see Compose.tla.
use std::sync::Arc;

use rustful::context::hypermedia::Link;
use rustful::handler::{ApplyContext, BuilderContext, Environment, FromHandler, HandleRequest, MethodRouter, OrElse, StatusRouter, TreeRouter, VariableNames, Variables};
use rustful::{ContentFactory, StatusCode};
use serde_json::{json, Value};

use crate::router::*;
use crate::util::*;

/// The real routers, boxed to allow any nesting.
pub enum Dyn {
    Handler(Probe),
    Content(ContentFactory<Maker>),
    Option(Option<Bx>),
    OrElse(OrElse<Bx, Bx>),
    Status(StatusRouter<Bx>),
    Method(MethodRouter<Bx>),
    Variables(Variables<Bx>),
    Tree(TreeRouter<Option<Bx>>),
}

pub struct Bx(Box<Dyn>);

impl Bx {
    fn inner(&self) -> &Dyn {
        &self.0
    }
}

impl HandleRequest for Bx {
    fn handle_request<'a, 'b, 'l, 'g>(&self, env: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        match *self.inner() {
            Dyn::Handler(ref r) => r.handle_request(env),
            Dyn::Content(ref r) => r.handle_request(env),
            Dyn::Option(ref r) => r.handle_request(env),
            Dyn::OrElse(ref r) => r.handle_request(env),
            Dyn::Status(ref r) => r.handle_request(env),
            Dyn::Method(ref r) => r.handle_request(env),
            Dyn::Variables(ref r) => r.handle_request(env),
            Dyn::Tree(ref r) => r.handle_request(env),
        }
    }

    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        match *self.inner() {
            Dyn::Handler(ref r) => r.hyperlinks(base),
            Dyn::Content(ref r) => r.hyperlinks(base),
            Dyn::Option(ref r) => r.hyperlinks(base),
            Dyn::OrElse(ref r) => r.hyperlinks(base),
            Dyn::Status(ref r) => r.hyperlinks(base),
            Dyn::Method(ref r) => r.hyperlinks(base),
            Dyn::Variables(ref r) => r.hyperlinks(base),
            Dyn::Tree(ref r) => r.hyperlinks(base),
        }
    }
}

impl Default for Bx {
    fn default() -> Bx {
        Bx(Box::new(Dyn::Option(None)))
    }
}

impl FromHandler<Bx> for Bx {
    fn from_handler(_: BuilderContext, handler: Bx) -> Bx {
        handler
    }
}

impl ApplyContext for Bx {
    fn apply_context(&mut self, _: BuilderContext) {}
    fn prepend_context(&mut self, _: BuilderContext) {}
}

fn make(v: &Value) -> Bx {
    Bx(Box::new(match st(&v["t"]) {
        "h" => Dyn::Handler(Probe::new(PArgs { id: int(&v["id"]), accept: boolean(&v["accept"]), rej: int(&v["rej"]) as u16 })),
        "content" => Dyn::Content(Maker(int(&v["id"])).into()),
        "none" => Dyn::Option(None),
        "some" => Dyn::Option(Some(make(&v["r"]))),
        "or" if v["a"]["t"] == "none" => Dyn::OrElse(OrElse::with_secondary(make(&v["b"]))),
        "or" if v["b"]["t"] == "none" => Dyn::OrElse(OrElse::with_primary(make(&v["a"]))),
        "or" => Dyn::OrElse(OrElse::new(make(&v["a"]), make(&v["b"]))),
        "status" => {
            let mut r = StatusRouter::new();
            for e in arr(&v["m"]) {
                r.insert(StatusCode::from_u16(int(&e["on"]) as u16), make(&e["r"]));
            }
            Dyn::Status(r)
        }
        "method" => {
            let mut r = MethodRouter::new();
            for e in arr(&v["m"]) {
                r.insert(method(st(&e["method"])), make(&e["r"]));
            }
            Dyn::Method(r)
        }
        "vars" => {
            let mut context = BuilderContext::new();
            context.insert(VariableNames(arr(&v["names"]).iter().map(|n| bytes(n).into()).collect()));
            Dyn::Variables(Variables::from_handler(context, make(&v["r"])))
        }
        "tree" => {
            let mut r = TreeRouter::new();
            r.find_hyperlinks = boolean(&v["linking"]);
            for e in arr(&v["e"]) {
                r.build().path(bytes(&e["pat"])).handler(make(&e["r"]));
            }
            Dyn::Tree(r)
        }
        t => panic!("no such router: {}", t),
    }))
}

struct Observed {
    log: Value,
    answered: bool,
    status: i64,
    sent: i64,
    restored: bool,
    links: Vec<Value>,
    targets: Vec<Value>,
    wire: Value,
}

fn ask(router: &Value, m: &str, path: &[u8], status0: u16) -> Observed {
    observed(dispatch(&serving(make(router)), m, path, status0))
}

fn observed(d: Dispatched) -> Observed {
    Observed {
        answered: d.winner != 0,
        restored: d.winner != 0 || d.restored == json!({"position": true, "links": true, "vars": true, "answered": true}),
        log: d.offers,
        status: d.status,
        sent: d.sent,
        links: d.paths,
        targets: d.targets,
        wire: d.wire,
    }
}

/// Are the links sorted by method (none first) and then by path, each of them once?
fn in_order(links: &Value) -> bool {
    let rank = |s: &Value| ["s", "v", "w"].iter().position(|k| *k == st(s));
    let key = |l: &Value| (st(&l["m"]).to_string(), arr(&l["p"]).iter().map(|s| (bytes(&s[1]), rank(&s[0]))).collect::<Vec<_>>());
    let l = arr(links);
    (1..l.len()).all(|i| key(&l[i - 1]) < key(&l[i]))
}

pub fn replay(vectors: &str, report: &str) {
    replay_all(vectors, report, |rep, v| {
        let o = ask(&v["router"], st(&v["method"]), &bytes(&v["path"]), int(&v["status0"]) as u16);
        let x = &v["outcome"];
        let log: Vec<Value> = arr(&x["log"]).iter().map(|o| json!({"id": o["id"], "vars": sorted(&o["vars"]), "status": o["status"]})).collect();
        rep.check("wire", v, &json!("ok"), &o.wire);
        rep.check("log", v, &json!(log), &o.log);
        rep.check("answered", v, &x["answered"], &json!(o.answered));
        rep.check("status", v, &x["status"], &json!(o.status));
        rep.check("sent", v, &x["sent"], &json!(o.sent));
        rep.check("restored", v, &json!(true), &json!(o.restored));
        if arr(&x["log"]).len() == o.links.len() {
            for ((x, links), targets) in arr(&x["log"]).iter().zip(&o.links).zip(&o.targets) {
                let x = &x["links"];
                rep.check("links", v, &sorted(&x["all"]), &sorted(links));
                rep.check("links", v, &json!("sorted"), &json!(if in_order(links) { "sorted".to_string() } else { format!("{}", links) }));
                let right = arr(targets).len() == arr(&x["targets"]).len()
                    && arr(targets).iter().all(|t| arr(&x["targets"]).iter().any(|x| x[0] == t[0] && arr(&x[1]).contains(&t[1])));
                rep.check("targets", v, &x["targets"], if right { &x["targets"] } else { targets });
            }
        }
    });
}

const METHODS: &'static [&'static str] = &["GET", "POST", "PUT", "HEAD", "VERSION-CONTROL-OF-EVERYTHING"];
const STATUSES: &'static [u16] = &[200, 404, 405, 410, 503, 201, 302, 299];

fn rand_router(rng: &mut Rng, depth: usize, id: &mut i64) -> Value {
    if depth == 0 || rng.chance(1, 8) {
        if rng.chance(1, 8) {
            return json!({"t": "none"});
        }
        *id += 1;
        if rng.chance(1, 12) {
            return json!({"t": "content", "id": *id});
        }
        return json!({"t": "h", "id": *id, "accept": rng.chance(1, 4), "rej": *rng.pick(&[0, 0, 200, 404, 405, 410, 503, 201, 302])});
    }
    let d = depth - 1;
    match rng.below(8) {
        0 => json!({"t": "some", "r": rand_router(rng, d, id)}),
        1 | 2 => json!({"t": "or", "a": rand_router(rng, d, id), "b": rand_router(rng, d, id)}),
        3 => {
            let n = rng.range(0, 4);
            json!({"t": "status", "m": (0..n).map(|_| json!({"on": *rng.pick(STATUSES), "r": rand_router(rng, d, id)})).collect::<Vec<_>>()})
        }
        4 => {
            let n = rng.range(0, 3);
            json!({"t": "method", "m": (0..n).map(|_| json!({"method": *rng.pick(METHODS), "r": rand_router(rng, d, id)})).collect::<Vec<_>>()})
        }
        5 => {
            let mut names = vec![];
            for i in 0..12u8 {
                names.push(if rng.chance(1, 4) { json!([]) } else { json!([b'a' + i, 200 + rng.below(2)]) });
            }
            json!({"t": "vars", "names": names, "r": rand_router(rng, d, id)})
        }
        _ => {
            let n = rng.range(0, 4);
            json!({"t": "tree", "linking": rng.chance(1, 2), "e": (0..n).map(|_| {
                let p = rand_pat(rng, 3);
                json!({"pat": jb(&p), "r": rand_router(rng, d, id)})
            }).collect::<Vec<_>>()})
        }
    }
}

fn patterns(r: &Value, found: &mut Vec<Entry>) {
    match *r {
        Value::Object(ref o) => {
            for (k, v) in o {
                if k == "pat" {
                    found.push(Entry { pat: bytes(v), method: "GET".into(), on: 200, args: PArgs { id: 0, accept: true, rej: 0 } });
                } else {
                    patterns(v, found);
                }
            }
        }
        Value::Array(ref a) => for v in a {
            patterns(v, found);
        },
        _ => {}
    }
}

/// A router, and something to ask it for.
fn rand_asks(rng: &mut Rng, n: usize) -> (Value, Vec<Vec<u8>>) {
    let mut id = 0;
    let depth = rng.range(1, 5);
    let router = if rng.chance(1, 2) {
        rand_router(rng, depth, &mut id)
    } else {
        // something with plenty of links
        let n = rng.range(1, 6);
        let linked = json!({"t": "tree", "linking": true, "e": (0..n).map(|_| {
            let p = rand_pat(rng, 2);
            json!({"pat": jb(&p), "r": rand_router(rng, depth.min(3), &mut id)})
        }).collect::<Vec<_>>()});
        if rng.chance(1, 3) { json!({"t": "or", "a": rand_router(rng, 2, &mut id), "b": linked}) } else { linked }
    };
    let mut table = vec![];
    patterns(&router, &mut table);
    let paths = (0..n)
        .map(|_| {
            let path = rand_path(rng, &table);
            if path.split(|&b| b == b'/').count() > 11 { b"/a".to_vec() } else { path }
        })
        .collect();
    (router, paths)
}

fn line(router: &Value, path: &[u8], m: &str, status0: u16, line: &Result<Observed, String>) -> Value {
    match *line {
        Ok(ref d) => json!({"router": router, "path": jb(path), "method": m, "status0": status0, "offers": d.log, "answered": d.answered,
                        "status": d.status, "sent": d.sent, "restored": d.restored, "links": d.links, "ordered": d.links.iter().all(in_order), "targets": d.targets, "wire": d.wire}),
        Err(ref e) => json!({"router": router, "path": jb(path), "method": m, "status0": status0, "offers": [], "answered": false,
                         "status": 0, "sent": 0, "restored": false, "links": [], "ordered": true, "targets": [], "wire": e}),
    }
}

pub fn record(seed: u64, count: usize, out: &str) {
    let mut rng = Rng::new(seed ^ 0x6);
    let mut o = Out::new(out);
    for _ in 0..count {
        let (router, paths) = rand_asks(&mut rng, 1);
        let m = *rng.pick(METHODS);
        let status0 = *rng.pick(STATUSES);
        let d = guarded(|| ask(&router, m, &paths[0], status0));
        o.line(&line(&router, &paths[0], m, status0, &d));
    }
}

/// Requests to the same router, from several threads at once.
pub fn record_shared(seed: u64, count: usize, out: &str) {
    let mut rng = Rng::new(seed ^ 0x36);
    let mut o = Out::new(out);
    let mut n = 0;
    while n < count {
        let (router, paths) = rand_asks(&mut rng, 3);
        let server = Arc::new(serving(make(&router)));
        let threads: Vec<_> = (0..*rng.pick(&[1, 2, 4, 8]))
            .map(|_| {
                let server = server.clone();
                let qs: Vec<_> = (0..rng.range(1, 6)).map(|_| (*rng.pick(METHODS), rng.pick(&paths).clone(), *rng.pick(STATUSES))).collect();
                std::thread::spawn(move || {
                    qs.into_iter()
                        .map(|(m, path, status0)| {
                            let d = guarded(|| observed(dispatch(&server, m, &path, status0)));
                            (m, path, status0, d)
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        for t in threads {
            for (m, path, status0, d) in t.join().unwrap() {
                o.line(&line(&router, &path, m, status0, &d));
                n += 1;
            }
        }
    }
}
