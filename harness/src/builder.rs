//! Histories of building steps, see Builder.tla.
use std::cell::{Cell, RefCell};

use rustful::handler::{method_router, status_router, tree_router, ApplyContext, Build, BuilderContext, ContentFactory, FromHandler, HandleRequest, Merge, MethodRouter, OrElse, StatusRouter, TreeRouter, Variables};
use rustful::{Method, StatusCode};
use serde_json::{json, Value};

use crate::router::*;
use crate::util::*;

type MTop = MethodRouter<OptRouter>;
type STop = StatusRouter<OptRouter>;

fn args(v: &Value) -> PArgs {
    PArgs { id: int(&v["id"]), accept: true, rej: 0 }
}

fn stat(v: &Value) -> StatusCode {
    StatusCode::from_u16(int(v) as u16)
}

thread_local! {
    static WARM: RefCell<Vec<Value>> = RefCell::new(vec![]);
}

/// Build a router, and maybe use it between the steps.
fn grow<R: HandleRequest, F: Fn(&mut R, &Value)>(mut r: R, ops: &Value, steps: F) -> R {
    let warm = WARM.with(|w| w.replace(vec![]));
    if warm.is_empty() {
        steps(&mut r, ops);
    } else {
        for o in arr(ops) {
            let outer = Outer { inner: r };
            for p in &warm {
                dispatch_mock(&outer, st(&p["method"]), &bytes(&p["path"]), int(&p["status0"]) as u16);
            }
            r = outer.inner;
            steps(&mut r, &json!([o]));
        }
    }
    r
}

/// The same, with requests between the steps.
fn make_warmed(kind: &str, item: &str, ops: &Value, tag: i64, probes: &[Value]) -> AnyRouter {
    let mut seen = vec![];
    for p in probes {
        if !seen.iter().any(|x: &Value| x["path"] == p["path"]) && seen.len() < 6 {
            seen.push(p.clone());
        }
    }
    WARM.with(|w| *w.borrow_mut() = seen);
    let r = make(kind, item, ops, tag);
    WARM.with(|w| w.borrow_mut().clear());
    r
}

/// What a builder is given for its handlers.
fn ctx(tag: i64) -> BuilderContext {
    let mut c = BuilderContext::new();
    if tag != 0 {
        c.insert(Tag(tag));
    }
    c
}

/// The tag of a router that is built to be merged.
fn tag(o: &Value) -> i64 {
    int(&o["tag"])
}

/// The different things that a request can end up in.
trait Item: HandleRequest + FromHandler<<Self as Item>::H> + ApplyContext + Merge + Sized {
    type H: Clone;
    fn put(a: PArgs) -> Self::H;
}

impl Item for Probe {
    type H = PArgs;
    fn put(a: PArgs) -> PArgs {
        a
    }
}

impl Item for Real {
    type H = Real;
    fn put(a: PArgs) -> Real {
        Real(a.id)
    }
}

impl Item for ContentFactory<Maker> {
    type H = Maker;
    fn put(a: PArgs) -> Maker {
        Maker(a.id)
    }
}

/// What to have in the places of a tree
trait Place: HandleRequest + FromHandler<<Self as Place>::H> + ApplyContext + Merge + Default {
    type H;
    fn put(a: PArgs) -> Self::H;
}

impl<I: Item> Place for Option<Variables<I>> {
    type H = I::H;
    fn put(a: PArgs) -> I::H {
        I::put(a)
    }
}

impl Place for Variables<Real> {
    type H = Real;
    fn put(a: PArgs) -> Real {
        Real(a.id)
    }
}

// --- TreeRouter<Option<Variables<Probe>>> ---

fn opt_steps<T: Place>(b: &mut tree_router::Builder<T>, ops: &Value) {
    for o in arr(ops) {
        opt_step(b, o);
    }
}

fn opt_step<T: Place>(b: &mut tree_router::Builder<T>, o: &Value) {
    match st(&o["op"]) {
        "path" => opt_steps(&mut b.path(bytes(&o["p"])), &o["sub"]),
        "get" => {
            if let Some(mut n) = b.get_path(bytes(&o["p"])) {
                opt_steps(&mut n, &o["sub"])
            }
        }
        "on_path" => {
            b.on_path(bytes(&o["p"]), T::put(args(o))).many(|b| opt_steps(b, &o["sub"]));
        }
        "on_route" => {
            b.on_route(bytes(&o["p"]), T::put(args(o))).many(|b| opt_steps(b, &o["sub"]));
        }
        "handler" => {
            b.handler(T::put(args(o))).many(|b| opt_steps(b, &o["sub"]));
        }
        "merge" => {
            b.merge(opt_router(&o["other"], tag(o)));
        }
        x => panic!("no such step: {}", x),
    }
}

fn opt_router<T: Place>(ops: &Value, tag: i64) -> TreeRouter<T> {
    let r = TreeRouter::new();
    grow(r, ops, |r, ops| opt_steps(&mut r.get_builder(ctx(tag)), ops))
}

// --- TreeRouter<MethodRouter<Variables<Probe>>> ---

type MethBuilder<'a, I> = tree_router::Builder<'a, MethodRouter<Variables<I>>>;

fn on<I: Item>(b: &mut method_router::Builder<Variables<I>>, how: &str, m: Method, a: PArgs) {
    let a = I::put(a);
    match how {
        "on" => b.on(m, a),
        "on_get" => b.on_get(a),
        "on_post" => b.on_post(a),
        "on_patch" => b.on_patch(a),
        "on_put" => b.on_put(a),
        "on_delete" => b.on_delete(a),
        "on_options" => b.on_options(a),
        "on_head" => b.on_head(a),
        "on_connect" => b.on_connect(a),
        "merge" => {
            let mut r = MethodRouter::new();
            r.build().on(m, a);
            b.merge(r);
        }
        x => panic!("no such function: {}", x),
    }
}

fn meth_steps<I: Item>(b: &mut MethBuilder<I>, ops: &Value) {
    for o in arr(ops) {
        match st(&o["op"]) {
            "path" => meth_steps(&mut b.path(bytes(&o["p"])), &o["sub"]),
            "get" => {
                if let Some(mut n) = b.get_path(bytes(&o["p"])) {
                    n.many(|n| meth_steps(n, &o["sub"]));
                }
            }
            "then" => on(&mut b.then(), st(&o["how"]), method(st(&o["method"])), args(o)),
            "then_merge" => {
                let mut r = MethodRouter::new();
                r.build().many(|r| {
                    for e in arr(&o["entries"]) {
                        r.on(method(st(&e["method"])), I::put(args(e)));
                    }
                });
                b.then().merge(r);
            }
            "merge" => {
                b.merge(meth_router(&o["other"], tag(o)));
            }
            x => panic!("no such step: {}", x),
        }
    }
}

fn meth_router<I: Item>(ops: &Value, tag: i64) -> TreeRouter<MethodRouter<Variables<I>>> {
    let r = TreeRouter::new();
    grow(r, ops, |r, ops| meth_steps(&mut r.get_builder(ctx(tag)), ops))
}

// --- TreeRouter<StatusRouter<MethodRouter<Variables<Probe>>>> ---

type StatBuilder<'a> = tree_router::Builder<'a, StatusRouter<MethodRouter<Variables<Probe>>>>;

fn stat_steps(b: &mut StatBuilder, ops: &Value) {
    for o in arr(ops) {
        match st(&o["op"]) {
            "path" => stat_steps(&mut b.path(bytes(&o["p"])), &o["sub"]),
            "get" => {
                if let Some(mut n) = b.get_path(bytes(&o["p"])) {
                    stat_steps(&mut n, &o["sub"])
                }
            }
            "then" => {
                b.then().many(|t: &mut status_router::Builder<_>| {
                    on(&mut t.status(stat(&o["on"])), st(&o["how"]), method(st(&o["method"])), args(o))
                });
            }
            "then_merge" => {
                let mut r = StatusRouter::<MethodRouter<Variables<Probe>>>::new();
                for e in arr(&o["entries"]) {
                    r.build().status(stat(&e["on"])).on(method(st(&e["method"])), args(e));
                }
                b.then().merge(r);
            }
            "merge" => {
                b.merge(stat_router(&o["other"], tag(o)));
            }
            x => panic!("no such step: {}", x),
        }
    }
}

fn stat_router(ops: &Value, tag: i64) -> StatRouter {
    let r = StatRouter::new();
    grow(r, ops, |r, ops| stat_steps(&mut r.get_builder(ctx(tag)), ops))
}

// --- TreeRouter<OrElse<MethodRouter<Variables<Probe>>, MethodRouter<Variables<Probe>>>> ---

type OrBuilder<'a> = tree_router::Builder<'a, OrElse<Table, Table>>;

fn or_steps(b: &mut OrBuilder, ops: &Value) {
    for o in arr(ops) {
        match st(&o["op"]) {
            "path" => or_steps(&mut b.path(bytes(&o["p"])), &o["sub"]),
            "get" => {
                if let Some(mut n) = b.get_path(bytes(&o["p"])) {
                    or_steps(&mut n, &o["sub"])
                }
            }
            "then" => {
                let mut t = b.then();
                if o["on"] == 0 {
                    t.many(|t| on(&mut t.primary(), st(&o["how"]), method(st(&o["method"])), args(o)));
                } else {
                    on(&mut t.secondary(), st(&o["how"]), method(st(&o["method"])), args(o))
                }
            }
            "merge" => {
                b.merge(or_router(&o["other"], tag(o)));
            }
            x => panic!("no such step: {}", x),
        }
    }
}

fn or_router(ops: &Value, tag: i64) -> OrRouter {
    let r = OrRouter::new();
    grow(r, ops, |r, ops| or_steps(&mut r.get_builder(ctx(tag)), ops))
}

// --- TreeRouter<StatusRouter<OrElse<MethodRouter<Variables<Probe>>, MethodRouter<Variables<Probe>>>>> ---

type SOrTable = StatusRouter<OrElse<Table, Table>>;
type SOrRouter = TreeRouter<SOrTable>;
type SOrBuilder<'a> = tree_router::Builder<'a, SOrTable>;

/// `on` is twice the status, and one more for the other one.
fn sor_on(t: &mut status_router::Builder<OrElse<Table, Table>>, o: &Value, how: &str) {
    let n = int(&o["on"]) as u16;
    let mut e = t.status(StatusCode::from_u16(n / 2));
    if n % 2 == 0 {
        on(&mut e.primary(), how, method(st(&o["method"])), args(o))
    } else {
        on(&mut e.secondary(), how, method(st(&o["method"])), args(o))
    }
}

fn sor_steps(b: &mut SOrBuilder, ops: &Value) {
    for o in arr(ops) {
        match st(&o["op"]) {
            "path" => sor_steps(&mut b.path(bytes(&o["p"])), &o["sub"]),
            "get" => {
                if let Some(mut n) = b.get_path(bytes(&o["p"])) {
                    sor_steps(&mut n, &o["sub"])
                }
            }
            "then" => sor_on(&mut b.then(), o, st(&o["how"])),
            "then_merge" => {
                let mut r = SOrTable::new();
                for e in arr(&o["entries"]) {
                    sor_on(&mut r.build(), e, "on");
                }
                b.then().merge(r);
            }
            "merge" => {
                b.merge(sor_router(&o["other"], tag(o)));
            }
            x => panic!("no such step: {}", x),
        }
    }
}

fn sor_router(ops: &Value, tag: i64) -> SOrRouter {
    let r = SOrRouter::new();
    grow(r, ops, |r, ops| sor_steps(&mut r.get_builder(ctx(tag)), ops))
}

// --- TreeRouter<TreeRouter<Option<Variables<Probe>>>> ---

type TTop = TreeRouter<OptRouter>;
type TTopBuilder<'a> = tree_router::Builder<'a, OptRouter>;

fn ttop_steps(b: &mut TTopBuilder, ops: &Value) {
    for o in arr(ops) {
        match st(&o["op"]) {
            "path" => ttop_steps(&mut b.path(bytes(&o["p"])), &o["sub"]),
            "get" => {
                if let Some(mut n) = b.get_path(bytes(&o["p"])) {
                    ttop_steps(&mut n, &o["sub"])
                }
            }
            "on_path" => ttop_steps(&mut b.on_path(bytes(&o["p"]), args(o)), &o["sub"]),
            "on_route" => ttop_steps(&mut b.on_route(bytes(&o["p"]), args(o)), &o["sub"]),
            "handler" => ttop_steps(&mut b.handler(args(o)), &o["sub"]),
            "inner" => opt_steps(&mut b.then(), &o["sub"]),
            "merge" => {
                b.merge(ttop_router(&o["other"], tag(o)));
            }
            x => panic!("no such step: {}", x),
        }
    }
}

fn ttop_router(ops: &Value, tag: i64) -> TTop {
    let r = TTop::new();
    grow(r, ops, |r, ops| ttop_steps(&mut r.get_builder(ctx(tag)), ops))
}

// --- tables of trees ---

fn mkey(v: &Value) -> Method {
    match bytes(v)[0] {
        1 => Method::Get,
        2 => Method::Post,
        3 => Method::Patch,
        4 => Method::Put,
        5 => Method::Delete,
        6 => Method::Options,
        7 => Method::Head,
        8 => Method::Connect,
        _ => Method::Trace,
    }
}

fn mtop_router(ops: &Value, t: i64) -> MTop {
    let mut r = MTop::new();
    for o in arr(ops) {
        match st(&o["op"]) {
            "top" => {
                let sub = &o["sub"];
                let mut b = r.get_builder(ctx(t));
                match st(&o["how"]) {
                    "method" => opt_steps(&mut b.method::<PArgs>(mkey(&o["key"])), sub),
                    "get" => opt_steps(&mut b.get::<PArgs>(), sub),
                    "post" => opt_steps(&mut b.post::<PArgs>(), sub),
                    "patch" => opt_steps(&mut b.patch::<PArgs>(), sub),
                    "put" => opt_steps(&mut b.put::<PArgs>(), sub),
                    "delete" => opt_steps(&mut b.delete::<PArgs>(), sub),
                    "options" => opt_steps(&mut b.options::<PArgs>(), sub),
                    "head" => opt_steps(&mut b.head::<PArgs>(), sub),
                    "connect" => opt_steps(&mut b.connect::<PArgs>(), sub),
                    x => panic!("no such function: {}", x),
                }
            }
            "top_on" => r.get_builder(ctx(t)).on(mkey(&o["key"]), args(o)),
            "top_merge" => {
                let other = mtop_router(&o["other"], tag(o));
                r.get_builder(ctx(t)).merge(other);
            }
            x => panic!("no such step: {}", x),
        }
    }
    r
}

fn skey(v: &Value) -> StatusCode {
    StatusCode::from_u16(int(&arr(v)[0]) as u16)
}

fn stop_router(ops: &Value, t: i64) -> STop {
    let mut r = STop::new();
    for o in arr(ops) {
        match st(&o["op"]) {
            "top" => opt_steps(&mut r.get_builder(ctx(t)).status(skey(&o["key"])), &o["sub"]),
            "top_on" => r.get_builder(ctx(t)).on(skey(&o["key"]), args(o)),
            "top_merge" => {
                let other = stop_router(&o["other"], tag(o));
                r.get_builder(ctx(t)).merge(other);
            }
            x => panic!("no such step: {}", x),
        }
    }
    r
}

// --- observing ---

enum AnyRouter {
    Opt(OptRouter),
    Meth(MethRouter),
    Stat(StatRouter),
    Or(OrRouter),
    SOr(SOrRouter),
    MTop(MTop),
    STop(STop),
    TTop(TTop),
    Def(TreeRouter<Variables<Real>>),
    OptReal(TreeRouter<Option<Variables<Real>>>),
    OptContent(TreeRouter<Option<Variables<ContentFactory<Maker>>>>),
    MethReal(TreeRouter<MethodRouter<Variables<Real>>>),
    MethContent(TreeRouter<MethodRouter<Variables<ContentFactory<Maker>>>>),
}

/// All steps of "meth" that only register handlers at absolute paths can also be a collection.
fn collected(ops: &Value) -> Option<MethRouter> {
    let mut routes = vec![];
    for o in arr(ops) {
        if o["op"] != "path" {
            return None;
        }
        for s in arr(&o["sub"]) {
            if s["op"] != "then" {
                return None;
            }
            routes.push((method(st(&s["method"])), bytes(&o["p"]), args(s)));
        }
        if arr(&o["sub"]).is_empty() {
            return None;
        }
    }
    Some(routes.into_iter().collect())
}

fn make(kind: &str, item: &str, ops: &Value, tag: i64) -> AnyRouter {
    match (kind, item) {
        ("opt", "real") => AnyRouter::OptReal(opt_router(ops, tag)),
        ("opt", "content") => AnyRouter::OptContent(opt_router(ops, tag)),
        ("meth", "real") => AnyRouter::MethReal(meth_router(ops, tag)),
        ("meth", "content") => AnyRouter::MethContent(meth_router(ops, tag)),
        ("opt", _) => AnyRouter::Opt(opt_router(ops, tag)),
        ("meth", _) => AnyRouter::Meth(meth_router(ops, tag)),
        ("def", _) => AnyRouter::Def(opt_router(ops, tag)),
        ("stat", _) => AnyRouter::Stat(stat_router(ops, tag)),
        ("or", _) => AnyRouter::Or(or_router(ops, tag)),
        ("sor", _) => AnyRouter::SOr(sor_router(ops, tag)),
        ("mtop", _) => AnyRouter::MTop(mtop_router(ops, tag)),
        ("stop", _) => AnyRouter::STop(stop_router(ops, tag)),
        ("ttop", _) => AnyRouter::TTop(ttop_router(ops, tag)),
        (k, _) => panic!("no such kind: {}", k),
    }
}

fn ask_one<R: HandleRequest>(r: R, probes: &[Value]) -> Vec<Value> {
    let server = serving(r);
    probes
        .iter()
        .map(|p| {
            let d = dispatch(&server, st(&p["method"]), &bytes(&p["path"]), int(&p["status0"]) as u16);
            let mut o = p.clone();
            o["offers"] = d.offers;
            o["winner"] = json!(d.winner);
            o["status"] = json!(d.status);
            o
        })
        .collect()
}

fn ask(r: AnyRouter, probes: &[Value]) -> Vec<Value> {
    match r {
        AnyRouter::Opt(r) => ask_one(r, probes),
        AnyRouter::Meth(r) => ask_one(r, probes),
        AnyRouter::Stat(r) => ask_one(r, probes),
        AnyRouter::Or(r) => ask_one(r, probes),
        AnyRouter::SOr(r) => ask_one(r, probes),
        AnyRouter::MTop(r) => ask_one(r, probes),
        AnyRouter::STop(r) => ask_one(r, probes),
        AnyRouter::TTop(r) => ask_one(r, probes),
        AnyRouter::Def(r) => ask_one(r, probes),
        AnyRouter::OptReal(r) => ask_one(r, probes),
        AnyRouter::OptContent(r) => ask_one(r, probes),
        AnyRouter::MethReal(r) => ask_one(r, probes),
        AnyRouter::MethContent(r) => ask_one(r, probes),
    }
}

fn lookup(r: &mut AnyRouter, p: &[u8]) -> bool {
    match *r {
        AnyRouter::Opt(ref mut r) => r.build().get_path(p).is_some(),
        AnyRouter::Meth(ref mut r) => r.build().get_path(p).is_some(),
        AnyRouter::Stat(ref mut r) => r.build().get_path(p).is_some(),
        AnyRouter::Or(ref mut r) => r.build().get_path(p).is_some(),
        AnyRouter::SOr(ref mut r) => r.build().get_path(p).is_some(),
        AnyRouter::TTop(ref mut r) => r.build().get_path(p).is_some(),
        AnyRouter::Def(ref mut r) => r.build().get_path(p).is_some(),
        AnyRouter::OptReal(ref mut r) => r.build().get_path(p).is_some(),
        AnyRouter::OptContent(ref mut r) => r.build().get_path(p).is_some(),
        AnyRouter::MethReal(ref mut r) => r.build().get_path(p).is_some(),
        AnyRouter::MethContent(ref mut r) => r.build().get_path(p).is_some(),
        _ => panic!("no lookup"),
    }
}

/// No tags in any part of a history; only `Probe` shows them.
fn untagged(v: &Value) -> bool {
    match *v {
        Value::Object(ref m) => m.iter().all(|(k, v)| if k == "tag" { v == 0 } else { untagged(v) }),
        Value::Array(ref a) => a.iter().all(untagged),
        _ => true,
    }
}

fn normal(p: &Value) -> Value {
    let offers: Vec<Value> = arr(&p["offers"]).iter().map(|o| json!({"id": o["id"], "vars": sorted(&o["vars"]), "status": o["status"]})).collect();
    json!({"path": p["path"], "method": p["method"], "status0": p["status0"], "offers": offers, "winner": p["winner"], "status": p["status"]})
}

pub fn replay(vectors: &str, report: &str) {
    replay_all(vectors, report, |rep, v| {
        let kind = st(&v["kind"]);
        let ops = &v["ops"];
        let t = tag(v);
        let mut router = make(kind, "probe", ops, t);
        let mut brief = v.clone();
        brief["probes"] = json!([]);
        brief["lookups"] = json!([]);
        for l in arr(&v["lookups"]) {
            let mut b = brief.clone();
            b["lookups"] = json!([l]);
            rep.check("lookups", &b, &l["found"], &json!(lookup(&mut router, &bytes(&l["p"]))));
        }
        let probes = arr(&v["probes"]);
        let mut compare = |observed: Vec<Value>, field: &str| {
            for (p, o) in probes.iter().zip(observed) {
                let x = normal(p);
                let o = normal(&o);
                if x != o {
                    let mut b = brief.clone();
                    b["probes"] = json!([p]);
                    rep.fail(field, &b, &x, &o);
                }
                rep.compared += 1;
            }
        };
        compare(ask(router, probes), "probes");
        compare(ask(make_warmed(kind, "probe", ops, t, probes), probes), "warmed");
        if untagged(v) && (kind == "opt" || kind == "meth") {
            let item = if arr(ops).len() % 2 == 0 { "real" } else { "content" };
            compare(ask(make(kind, item, ops, 0), probes), "items");
        }
        if kind == "meth" && t == 0 {
            if let Some(r) = collected(ops) {
                compare(ask(AnyRouter::Meth(r), probes), "collected");
            }
        }
    });
}

/// The finding that isn't repaired: merging an empty node into a node with a
/// handler, when variables are collected outside of the option.
pub fn known(report: &str) {
    type VarOpt = TreeRouter<Variables<Option<Probe>>>;
    let mut rep = Report::new();
    let result = guarded(|| {
        let mut r = VarOpt::new();
        r.build().path(":a").handler(PArgs { id: 1, accept: true, rej: 0 });
        let mut other = VarOpt::new();
        other.build().path(":b");
        r.build().merge(other);
        let server = serving(r);
        let d = dispatch(&server, "GET", b"/v", 200);
        json!([d.offers, d.winner])
    });
    let expected = json!([[{"id": 1, "vars": [[[97], [118]]], "status": 200}], 1]);
    let known = json!([[{"id": 1, "vars": [[[98], [118]]], "status": 200}], 1]);
    let vector = json!({"scenario": "TreeRouter<Variables<Option<Probe>>>: path(\":a\").handler(1), then merge a router with only path(\":b\"), then GET /v"});
    rep.sample(&vector);
    rep.compared += 1;
    match result {
        Ok(ref o) if *o == expected => {}
        Ok(ref o) if *o == known => rep.known.push(json!({"property": "R05", "key": "merge-empty-node-names", "vector": vector, "expected": expected, "observed": o})),
        Ok(o) => rep.fail("probes", &vector, &expected, &o),
        Err(e) => rep.fail("panic", &vector, &expected, &json!(e)),
    }
    rep.write(report);
}

// --- recording ---

thread_local! {
    /// tags are only seen by `Probe`
    static TAGS: Cell<bool> = Cell::new(false);
}

fn rand_tag(rng: &mut Rng) -> i64 {
    if TAGS.with(|t| t.get()) && rng.chance(1, 3) { rng.range(1, 9) as i64 } else { 0 }
}

fn rand_ops(rng: &mut Rng, kind: &str, depth: usize, n: usize, id: &mut i64) -> Value {
    let mut ops = vec![];
    for _ in 0..n {
        let mut next = || {
            *id += 1;
            *id
        };
        let sub = |rng: &mut Rng, id: &mut i64, max: usize| -> Value {
            if depth == 0 { json!([]) } else { let n = rng.below(max + 1); rand_ops(rng, kind, depth - 1, n, id) }
        };
        if kind == "opt" || kind == "ttop" || kind == "def" {
            ops.push(match rng.below(if kind == "ttop" { 12 } else { 9 }) {
                9 | 10 | 11 => { let n = rng.below(4); json!({"op": "inner", "sub": rand_ops(rng, "opt", depth.min(2), n, id)}) }
                0 | 1 => { let p = rand_pat(rng, 3); json!({"op": "path", "p": jb(&p), "sub": sub(rng, id, 2)}) }
                2 => { let p = rand_pat(rng, 3); json!({"op": "get", "p": jb(&p), "sub": sub(rng, id, 2)}) }
                3 | 4 => { let i = next(); let p = rand_pat(rng, 3); json!({"op": "on_path", "p": jb(&p), "id": i, "sub": sub(rng, id, 2)}) }
                5 => { let i = next(); let p = rand_pat(rng, 1); json!({"op": "on_route", "p": jb(&p), "id": i, "sub": sub(rng, id, 2)}) }
                6 => { let i = next(); json!({"op": "handler", "id": i, "sub": sub(rng, id, 1)}) }
                _ => { if depth == 0 { continue; } { let t = rand_tag(rng); json!({"op": "merge", "tag": t, "other": sub(rng, id, 3)}) } }
            });
        } else {
            let on = match kind {
                "stat" => *rng.pick(&[200, 404, 503, 299]),
                "or" => *rng.pick(&[0, 1]),
                "sor" => *rng.pick(&[400, 401, 808, 809]),
                _ => 200,
            };
            let m = *rng.pick(&["GET", "POST", "GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT", "TRACE", "PURGE", "VERSION-CONTROL-OF-EVERYTHING"]);
            let how = match m {
                _ if rng.chance(1, 4) => "on".to_string(),
                _ if rng.chance(1, 5) => "merge".to_string(),
                "TRACE" | "PURGE" | "VERSION-CONTROL-OF-EVERYTHING" => "on".to_string(),
                m => format!("on_{}", m.to_lowercase()),
            };
            ops.push(match rng.below(8) {
                0 | 1 => { let p = rand_pat(rng, 3); json!({"op": "path", "p": jb(&p), "sub": sub(rng, id, 3)}) }
                2 => { let p = rand_pat(rng, 3); json!({"op": "get", "p": jb(&p), "sub": sub(rng, id, 2)}) }
                3 | 4 => { let i = next(); json!({"op": "then", "method": m, "on": on, "how": how, "id": i}) }
                5 if kind != "or" => {
                    let e: Vec<Value> = (0..rng.range(1, 3)).map(|_| { let i = next(); json!({"method": *rng.pick(&["GET", "POST", "PUT"]), "on": on, "id": i}) }).collect();
                    json!({"op": "then_merge", "entries": e})
                }
                _ => { if depth == 0 { continue; } { let t = rand_tag(rng); json!({"op": "merge", "tag": t, "other": sub(rng, id, 3)}) } }
            });
        }
    }
    json!(ops)
}

fn rand_tops(rng: &mut Rng, kind: &str, depth: usize, n: usize, id: &mut i64) -> Value {
    let mut ops = vec![];
    for _ in 0..n {
        let (key, how) = if kind == "mtop" {
            let k = rng.range(1, 9);
            let names = ["get", "post", "patch", "put", "delete", "options", "head", "connect"];
            (k, if k == 9 || rng.chance(1, 3) { "method" } else { names[k - 1] })
        } else {
            (*rng.pick(&[200, 404, 503, 299]), "status")
        };
        ops.push(match rng.below(6) {
            0 => { *id += 1; json!({"op": "top_on", "key": [key], "id": *id}) }
            1 if depth > 0 => { let n = rng.below(4); let t = rand_tag(rng); json!({"op": "top_merge", "tag": t, "other": rand_tops(rng, kind, depth - 1, n, id)}) }
            _ => { let n = rng.below(3); json!({"op": "top", "key": [key], "how": how, "sub": rand_ops(rng, "opt", 2, n, id)}) }
        });
    }
    json!(ops)
}

fn patterns(ops: &Value, prefix: &[u8], found: &mut Vec<Vec<u8>>) {
    for o in arr(ops) {
        let mut p = prefix.to_vec();
        if o.get("p").is_some() {
            p.push(b'/');
            p.extend(bytes(&o["p"]));
        }
        found.push(p.clone());
        for k in &["sub", "other"] {
            if let Some(s) = o.get(*k) {
                patterns(s, &p, found);
            }
        }
    }
}

pub fn record(seed: u64, count: usize, out: &str) {
    let mut rng = Rng::new(seed ^ 0x5);
    let mut o = Out::new(out);
    for _ in 0..count {
        let kind = *rng.pick(&["opt", "opt", "meth", "meth", "stat", "or", "sor", "ttop", "mtop", "stop", "def"]);
        let item = match kind {
            "opt" | "meth" => *rng.pick(&["probe", "probe", "real", "content"]),
            _ => "probe",
        };
        TAGS.with(|t| t.set(item == "probe" && kind != "def"));
        let tag = rand_tag(&mut rng);
        let n = rng.range(1, 8);
        let mut id = 0;
        let ops = if kind == "mtop" || kind == "stop" { rand_tops(&mut rng, kind, 2, n, &mut id) } else { rand_ops(&mut rng, kind, 3, n, &mut id) };
        let mut pats = vec![];
        patterns(&ops, b"", &mut pats);
        let table: Vec<Entry> = pats.iter().map(|p| Entry { pat: p.clone(), method: "GET".into(), on: 200, args: PArgs { id: 0, accept: true, rej: 0 } }).collect();
        let mut probes = vec![];
        for _ in 0..rng.range(3, 8) {
            let path = rand_path(&mut rng, &table);
            let m = *rng.pick(&["GET", "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "PURGE", "VERSION-CONTROL-OF-EVERYTHING"]);
            probes.push(json!({"path": jb(&path), "method": m, "status0": *rng.pick(&[200, 404, 503, 299])}));
        }
        let r = guarded(|| {
            let mut router = if rng.chance(1, 2) { make_warmed(kind, item, &ops, tag, &probes) } else { make(kind, item, &ops, tag) };
            let lookups: Vec<Value> = if kind == "mtop" || kind == "stop" { vec![] } else {
                (0..3).map(|_| {
                    let p = if rng.chance(1, 2) && !pats.is_empty() {
                        let mut p = rng.pick(&pats).clone();
                        if rng.chance(1, 3) { p.pop(); }
                        p
                    } else { rand_pat(&mut rng, 3) };
                    json!({"p": jb(&p), "found": lookup(&mut router, &p)})
                }).collect()
            };
            (ask(router, &probes), lookups)
        });
        match r {
            Ok((probes, lookups)) => o.line(&json!({"kind": kind, "item": item, "tag": tag, "ops": ops, "probes": probes, "lookups": lookups, "panic": ""})),
            Err(e) => o.line(&json!({"kind": kind, "item": item, "tag": tag, "ops": ops, "probes": [], "lookups": [], "panic": e})),
        }
    }
}
