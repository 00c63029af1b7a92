//! One router that's used by several requests: replay of Shared's histories,
//! and recording of what happens to many random requests at once.
use std::collections::BTreeMap;
use std::sync::Arc;
use std::thread::JoinHandle;
use std::time::Duration;

use rustful::handler::{HandleRequest, TreeRouter};
use serde_json::{json, Value};

use crate::router::*;
use crate::server::Gate;
use crate::util::*;

type Asked = Arc<dyn Fn(&str, &[u8], u16) -> Dispatched + Send + Sync>;

/// A server with a router, for any number of requests.
fn asked(kind: &str, linking: bool, table: &[Entry]) -> Asked {
    fn go<T: HandleRequest>(mut r: TreeRouter<T>, linking: bool) -> Asked {
        r.find_hyperlinks = linking;
        let server = serving(r);
        Arc::new(move |m, path, status| dispatch(&server, m, path, status))
    }
    match kind {
        "opt" => go(build_opt(table), linking),
        "meth" => go(build_meth(table), linking),
        "stat" => go(build_stat(table), linking),
        "or" => go(build_or(table), linking),
        k => panic!("no such kind: {}", k),
    }
}

struct Flight {
    gate: Arc<Gate>,
    thread: JoinHandle<Dispatched>,
}

pub fn replay(vectors: &str, report: &str) {
    let mut patience = Duration::from_secs(15);
    let mut waits = 0;
    replay_all(vectors, report, |rep, v| {
        // enough is known
        if waits > 10 {
            return;
        }
        let table: Vec<Entry> = arr(&v["table"]).iter().map(entry).collect();
        let linking = boolean(&v["linking"]);
        let ask = asked(st(&v["kind"]), linking, &table);
        let mut flights: BTreeMap<i64, Flight> = BTreeMap::new();
        let mut ended: Vec<Flight> = vec![];
        let mut results: Vec<Dispatched> = vec![];
        for s in arr(&v["steps"]) {
            let c = int(&s["c"]);
            if s["a"] == "take" {
                let (gate, ask, m, path, status0) = (Gate::new(), ask.clone(), st(&s["method"]).to_string(), bytes(&s["path"]), int(&s["status0"]) as u16);
                let g = gate.clone();
                let thread = std::thread::spawn(move || {
                    wait_at(Some(g.clone()));
                    let d = guarded(|| ask(&m, &path, status0));
                    wait_at(None);
                    g.done();
                    d.unwrap_or_else(|e| panic!("{}", e))
                });
                flights.insert(c, Flight { gate, thread });
            } else {
                flights[&c].gate.allow();
            }
            if !flights[&c].gate.wait_for(patience) {
                rep.fail("waits", v, &json!({"step": s, "observed": "goes on"}), &json!("waits for another request"));
                waits += 1;
                patience = Duration::from_millis(300);
                break;
            }
            let done = flights[&c].gate.is_done();
            if s["done"] != json!(done) {
                rep.fail("done", v, s, &json!(done));
                break;
            }
            rep.compared += 1;
            if done {
                ended.push(flights.remove(&c).unwrap());
                let f = ended.pop().unwrap();
                match f.thread.join() {
                    Ok(d) => results.push(d),
                    Err(_) => {
                        rep.fail("panic", v, &json!("no panic"), &json!("panic"));
                        break;
                    }
                }
                let d = results.last().unwrap();
                // the steps of one request all have its number
                let x = arr(&v["results"]).iter().find(|x| x["n"] == s["n"]).unwrap();
                let offers: Vec<Value> = arr(&x["offers"]).iter().map(|o| json!({"id": o["id"], "vars": sorted(&o["vars"]), "status": o["status"]})).collect();
                rep.check("wire", v, &json!("ok"), &d.wire);
                rep.check("offers", v, &json!([s["n"], offers]), &json!([s["n"], d.offers]));
                rep.check("outcome", v, &json!([s["n"], x["winner"], x["status"]]), &json!([s["n"], d.winner, d.status]));
                if d.winner == 0 {
                    rep.check("restored", v, &all_restored(), &d.restored);
                }
                for l in &d.links {
                    rep.check("links", v, &json!([s["n"], sorted(&x["links"])]), &json!([s["n"], sorted(l)]));
                }
                for t in &d.targets {
                    if !right_targets(&x["targets"], t) {
                        rep.fail("targets", v, &json!([s["n"], x["targets"]]), t);
                    }
                }
            }
        }
        for f in flights.values() {
            f.gate.release();
        }
        for (_, f) in flights {
            let _ = f.thread.join();
        }
    });
}

/// Requests to the same routers, from several threads at once and without any order.
pub fn record(seed: u64, count: usize, out: &str) {
    let mut rng = Rng::new(seed ^ 0x30);
    let mut o = Out::new(out);
    let mut n = 0;
    while n < count {
        let (kind, table, methods) = rand_table(&mut rng);
        let asks = [asked(kind, false, &table), asked(kind, true, &table)];
        let mut paths = vec![];
        for _ in 0..rng.range(1, 4) {
            paths.push(rand_path(&mut rng, &table));
        }
        let threads: Vec<Vec<_>> = (0..*rng.pick(&[1, 2, 4, 8]))
            .map(|_| {
                (0..rng.range(1, 10))
                    .map(|_| (rng.chance(1, 2), rng.pick(methods).to_string(), rng.pick(&paths).clone(), *rng.pick(&[200u16, 200, 503, 418])))
                    .collect()
            })
            .collect();
        let running: Vec<_> = threads
            .into_iter()
            .map(|mut qs| {
                let asks = [asks[0].clone(), asks[1].clone()];
                std::thread::spawn(move || {
                    // some of them again, in the same thread
                    let again: Vec<_> = qs.iter().take(2).cloned().collect();
                    qs.extend(again);
                    qs.into_iter()
                        .map(|(linking, m, path, status0)| {
                            let d = guarded(|| asks[linking as usize](&m, &path, status0));
                            let e = guarded(|| asks[!linking as usize](&m, &path, status0));
                            ((linking, m, path, status0), d, e)
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        for t in running {
            for ((linking, m, path, status0), d, e) in t.join().unwrap() {
                let table: Vec<_> = table.iter().map(entry_json).collect();
                o.line(&match (d, e) {
                    (Ok(d), Ok(e)) => json!({
                        "kind": kind, "linking": linking, "method": m, "path": jb(&path), "status0": status0, "table": table,
                        "offers": d.offers, "winner": d.winner, "status": d.status,
                        "links": d.links, "targets": d.targets, "sorted": d.links.iter().all(strictly_sorted),
                        "restored": d.winner != 0 || d.restored == all_restored(),
                        "mock": true,
                        "modes": d.offers == e.offers && d.winner == e.winner && d.status == e.status,
                        "wire": d.wire,
                    }),
                    _ => json!({
                        "kind": kind, "linking": linking, "method": m, "path": jb(&path), "status0": status0, "table": table,
                        "offers": [], "winner": -1, "status": 0, "links": [], "targets": [], "sorted": true,
                        "restored": false, "mock": true, "modes": false, "wire": "panic",
                    }),
                });
                n += 1;
            }
        }
    }
}
