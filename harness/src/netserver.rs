//! The same histories with real connections and a server that is run, see Server.tla.
use rustful::server::KeepAlive;
use rustful::{Context, Handler, Response, Server};
use rustful::handler::TreeRouter;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use crate::life::{self, Program};
use crate::net::*;
use crate::server::Gate;
use crate::util::*;

type Table = Arc<Mutex<HashMap<u64, (Value, Arc<Gate>)>>>;

struct NetHandler(Table);

impl Handler for NetHandler {
    fn handle(&self, context: Context, response: Response) {
        let id: u64 = context.headers.get_raw("x-id").and_then(|h| std::str::from_utf8(&h[0]).ok()).and_then(|h| h.parse().ok()).unwrap();
        let (prog, gate) = self.0.lock().unwrap()[&id].clone();
        life::start_observing(0);
        gate.pass();
        Program::new(&prog).handle(context, response)
    }
}

struct Running {
    table: Table,
    address: SocketAddr,
    conns: BTreeMap<i64, TcpStream>,
    gates: BTreeMap<i64, Arc<Gate>>,
    next: u64,
    settle: Duration,
}

const PATIENCE: Duration = Duration::from_secs(10);

impl Running {
    fn new(v: &Value, settle: Duration) -> Running {
        let table: Table = Default::default();
        let mut router = TreeRouter::<Option<NetHandler>>::new();
        router.build().on_path("a", NetHandler(table.clone()));
        let free = int(&v["free"]);
        let listening = Server {
            host: ([127, 0, 0, 1].into(), 0).into(),
            threads: Some(int(&v["threads"]) as usize),
            keep_alive: if free < 0 { None } else { Some(KeepAlive { timeout: Duration::from_secs(100), free_threads: free as usize }) },
            ..Server::new(router)
        }.run().expect("no server");
        let address = listening.socket;
        // it can't be stopped
        std::mem::forget(listening);
        Running { table, address, conns: BTreeMap::new(), gates: BTreeMap::new(), next: 0, settle }
    }

    fn open(&mut self, c: i64) -> Result<(), String> {
        let s = TcpStream::connect(self.address).map_err(|e| format!("connect: {}", e))?;
        s.set_read_timeout(Some(PATIENCE)).unwrap();
        s.set_nodelay(true).unwrap();
        self.conns.insert(c, s);
        std::thread::sleep(self.settle);
        Ok(())
    }

    fn take(&mut self, c: i64, q: &Value) -> Result<(), String> {
        self.next += 1;
        let gate = Gate::new();
        self.table.lock().unwrap().insert(self.next, (q["prog"].clone(), gate.clone()));
        let raw = format!("GET {} HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\n{}\r\n", st(&q["path"]), self.next, if boolean(&q["close"]) { "Connection: close\r\n" } else { "" });
        self.conns[&c].try_clone().unwrap().write_all(raw.as_bytes()).map_err(|e| format!("request: {}", e))?;
        if q["path"] == "/a" && !gate.wait_for(PATIENCE) {
            return Err("the request isn't handled".into());
        }
        self.gates.insert(c, gate);
        std::thread::sleep(self.settle);
        Ok(())
    }

    fn close(&mut self, c: i64) {
        self.conns.remove(&c);
        std::thread::sleep(self.settle);
    }

    /// The response, and if the connection was closed after it
    fn finish(&mut self, c: i64, expect_end: bool) -> Result<(Wire, bool), String> {
        self.gates.remove(&c).unwrap().release();
        let mut s = self.conns[&c].try_clone().unwrap();
        let mut all = vec![];
        let mut ended = false;
        let start = Instant::now();
        loop {
            let w = parse_wire(&all);
            if wellformed(&w) == json!("ok") && !(w.framing == "close") && !expect_end {
                break;
            }
            if start.elapsed() > PATIENCE {
                return Err("the response or connection isn't ended".into());
            }
            let mut b = [0; 4096];
            match s.read(&mut b) {
                Ok(0) => {
                    ended = true;
                    break;
                }
                Ok(n) => all.extend_from_slice(&b[..n]),
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => return Err("the response or connection isn't ended".into()),
                Err(_) => {
                    ended = true;
                    break;
                }
            }
        }
        std::thread::sleep(self.settle);
        Ok((parse_wire(&all), ended))
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        for g in self.gates.values() {
            g.release();
        }
    }
}

/// The first difference as (field, expected, observed)
fn attempt(v: &Value, settle: Duration) -> Result<(), Differs> {
    let mut run = Running::new(v, settle);
    let other = |e: String| ("served", json!("a response"), json!(e));
    for step in arr(&v["steps"]) {
        let c = int(&step["c"]);
        match st(&step["a"]) {
            "open" => run.open(c).map_err(other)?,
            "close" => run.close(c),
            "take" => run.take(c, &step["q"]).map_err(other)?,
            "finish" => {
                let x = &step["seen"];
                let s = &x["seen"];
                let crashed = boolean(&s["crashed"]);
                let end = crashed || boolean(&x["close"]);
                let (w, ended) = run.finish(c, end).map_err(other)?;
                let close = w.header("connection").iter().any(|v| v.eq_ignore_ascii_case(b"close"));
                let whole = wellformed(&w);
                let mut pairs = vec![];
                if !crashed {
                    pairs.push(("status", s["status"].clone(), json!(w.status)));
                    pairs.push(("close", x["close"].clone(), json!(close)));
                    pairs.push(("wire", json!("ok"), whole));
                    pairs.push(("body", s["body"].clone(), jb(&w.body)));
                } else if s["status"] == 500 && arr(&s["body"]).is_empty() {
                    // nothing was sent before it
                    pairs.push(("crashstatus", json!(true), json!(w.status >= 400)));
                } else {
                    pairs.push(("cutoff", json!(true), json!(whole != json!("ok"))));
                }
                pairs.push(("ended", json!(end), json!(ended)));
                for (f, e, o) in pairs {
                    if e != o {
                        return Err((f, e, o));
                    }
                }
                if ended {
                    run.conns.remove(&c);
                }
            }
            a => panic!("no such step: {}", a),
        }
    }
    Ok(())
}

/// Connections take time to open and close: it's only wrong if it's wrong when there's plenty of it.
fn patiently<F: Fn(&Value, Duration) -> Result<(), Differs>>(v: &Value, attempt: &F) -> Result<(), Differs> {
    let mut last = Ok(());
    for &ms in &[3, 30, 300, 1000] {
        last = attempt(v, Duration::from_millis(ms));
        if last.is_ok() {
            break;
        }
    }
    last
}

pub type Differs = (&'static str, Value, Value);

pub fn replay(vectors: &str, report: &str) {
    let compared = |v: &Value| arr(&v["steps"]).iter().filter(|s| s["a"] == "finish").count() as u64 * 5;
    replay_patiently(vectors, report, (400, 1600), compared, attempt);
}

/// As many of them as the limit for the tier, a few at a time
pub fn replay_patiently<C, F>(vectors: &str, report: &str, limits: (usize, usize), compared: C, attempt: F)
where
    C: Fn(&Value) -> u64 + Send + Sync + 'static,
    F: Fn(&Value, Duration) -> Result<(), Differs> + Send + Sync + 'static,
{
    let limit = if std::env::var("RFH_TIER").ok() == Some("thorough".into()) { limits.1 } else { limits.0 };
    let mut all = vec![];
    for_each_line(vectors, |v| all.push(v));
    // evenly among them
    let total = all.len();
    let mut chosen: Vec<Value> = if total <= limit { all.clone() } else { (0..limit).map(|i| all[i * total / limit].clone()).collect() };
    // crowds take a while, and none is left out
    chosen.retain(|v| v["inst"]["family"] != "crowd");
    let crowds = all.into_iter().filter(|v| v["inst"]["family"] == "crowd");
    let chosen: Vec<Value> = crowds.chain(chosen).collect();
    let chosen = Arc::new(chosen);
    let next = Arc::new(AtomicUsize::new(0));
    let rep = Arc::new(Mutex::new(Report::new()));
    let work = Arc::new((compared, attempt));
    let threads: Vec<_> = (0..12)
        .map(|_| {
            let (chosen, next, rep, work) = (chosen.clone(), next.clone(), rep.clone(), work.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= chosen.len() {
                    return;
                }
                let v = &chosen[i];
                if rep.lock().unwrap().mismatch_count > 5 {
                    return;
                }
                let r = patiently(v, &work.1);
                let mut rep = rep.lock().unwrap();
                rep.sample(v);
                rep.compared += (work.0)(v);
                if let Err((f, e, o)) = r {
                    rep.fail(f, v, &e, &o);
                }
            })
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
    rep.lock().unwrap().write(report);
}
