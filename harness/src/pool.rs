//! Servers that are run, with plain or wrapped connections, see MCPool.tla.
use rustful::net::{HttpStream, NetworkStream, SslServer};
use rustful::server::KeepAlive;
use rustful::{Context, Handler, Response, Server};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{self, Read, Write};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::net::*;
use crate::netserver::replay_patiently;
use crate::server::Gate;
use crate::util::*;

const MASK: u8 = 0x5a;
const GREETING: u8 = 0xa5;
const PATIENCE: Duration = Duration::from_secs(10);

/// It isn't secure, but it's something else on the wire.
#[derive(Clone)]
struct Masking(Arc<AtomicUsize>);

#[derive(Clone)]
struct Masked(HttpStream);

impl SslServer for Masking {
    type Stream = Masked;

    fn wrap_server(&self, mut stream: HttpStream) -> hyper::Result<Masked> {
        self.0.fetch_add(1, Ordering::SeqCst);
        let _ = stream.set_read_timeout(Some(PATIENCE));
        let mut b = [0];
        stream.read_exact(&mut b).map_err(hyper::Error::Io)?;
        if b[0] != GREETING {
            return Err(hyper::Error::Ssl(Box::new(io::Error::new(io::ErrorKind::Other, "no greeting"))));
        }
        Ok(Masked(stream))
    }
}

impl Read for Masked {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.0.read(buf)?;
        for b in &mut buf[..n] {
            *b ^= MASK;
        }
        Ok(n)
    }
}

impl Write for Masked {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let masked: Vec<u8> = buf.iter().map(|b| b ^ MASK).collect();
        self.0.write(&masked)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

impl NetworkStream for Masked {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        self.0.peer_addr()
    }
    fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.0.set_read_timeout(d)
    }
    fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.0.set_write_timeout(d)
    }
    fn close(&mut self, how: std::net::Shutdown) -> io::Result<()> {
        self.0.close(how)
    }
}

type Gates = Arc<Mutex<HashMap<u64, Arc<Gate>>>>;

struct Gated(Gates);

impl Handler for Gated {
    fn handle(&self, context: Context, response: Response) {
        let id: u64 = context.headers.get_raw("x-id").and_then(|h| std::str::from_utf8(&h[0]).ok()).and_then(|h| h.parse().ok()).unwrap();
        let gate = self.0.lock().unwrap()[&id].clone();
        gate.pass();
        response.send(format!("answer {}", id));
    }
}

type Differs = (&'static str, Value, Value);

struct Asked {
    id: u64,
    gate: Arc<Gate>,
    since: Instant,
    answered: Instant,
}

struct Running {
    gates: Gates,
    address: SocketAddr,
    /// is it masked?
    tls: Option<Arc<AtomicUsize>>,
    conns: BTreeMap<i64, TcpStream>,
    asked: BTreeMap<i64, Asked>,
    next: u64,
    settle: Duration,
    timeout: Duration,
    /// how much later than that it may be closed
    slack: Duration,
}

fn ip(v: &Value) -> IpAddr {
    if boolean(&v["v6"]) {
        let n: Vec<u16> = arr(&v["ip"]).iter().map(|n| int(n) as u16).collect();
        IpAddr::V6(Ipv6Addr::new(n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7]))
    } else {
        let n: Vec<u8> = arr(&v["ip"]).iter().map(|n| int(n) as u8).collect();
        IpAddr::V4(Ipv4Addr::new(n[0], n[1], n[2], n[3]))
    }
}

fn served(what: String) -> Differs {
    ("served", json!("a response"), json!(what))
}

impl Running {
    /// None if it isn't possible to listen there at all
    fn new(inst: &Value, settle: Duration, idle: (u64, u64)) -> Result<Option<Running>, Differs> {
        let host = ip(&inst["host"]);
        let mut port = 0;
        match TcpListener::bind((host, 0)) {
            Ok(l) => {
                if boolean(&inst["fixed"]) {
                    port = l.local_addr().unwrap().port();
                }
            }
            Err(_) => return Ok(None),
        }
        let gates: Gates = Default::default();
        let free = int(&inst["free"]);
        let timeout = if inst["family"] == "idle" { Duration::from_millis(idle.0) } else { Duration::from_secs(100) };
        let server = Server {
            host: SocketAddr::new(host, port).into(),
            threads: Some(int(&inst["threads"]) as usize),
            keep_alive: if free < 0 { None } else { Some(KeepAlive { timeout, free_threads: free as usize }) },
            ..Server::new(Gated(gates.clone()))
        };
        static TURN: AtomicUsize = AtomicUsize::new(0);
        let built = TURN.fetch_add(1, Ordering::SeqCst) % 2 == 0;
        let (listening, tls) = if boolean(&inst["tls"]) {
            let wrapped: Arc<AtomicUsize> = Default::default();
            let ssl = Masking(wrapped.clone());
            (if built { server.build().run_https(ssl) } else { server.run_https(ssl) }, Some(wrapped))
        } else {
            (if built { server.build().run() } else { server.run() }, None)
        };
        let listening = match listening {
            Ok(l) => l,
            Err(e) => return Err(("listening", json!("a server"), json!(format!("{}", e)))),
        };
        let address = listening.socket;
        // it can't be stopped
        std::mem::forget(listening);
        if address.ip() != host || address.port() == 0 || (port != 0 && address.port() != port) {
            return Err(("listening", json!(format!("{}:{}", host, port)), json!(address.to_string())));
        }
        Ok(Some(Running { gates, address, tls, conns: BTreeMap::new(), asked: BTreeMap::new(), next: 0, settle, timeout, slack: Duration::from_millis(idle.1) }))
    }

    fn connect(&self) -> io::Result<TcpStream> {
        let ip: IpAddr = match self.address.ip() {
            IpAddr::V4(a) if a.is_unspecified() => IpAddr::V4(Ipv4Addr::new(127, 0, 3, 1 + self.next as u8)),
            IpAddr::V6(a) if a.is_unspecified() => IpAddr::V6(Ipv6Addr::LOCALHOST),
            ip => ip,
        };
        let s = TcpStream::connect_timeout(&SocketAddr::new(ip, self.address.port()), PATIENCE)?;
        s.set_nodelay(true)?;
        Ok(s)
    }

    fn ask(&mut self, c: i64, greeting: Option<u8>) -> Result<(), Differs> {
        self.next += 1;
        let gate = Gate::new();
        self.gates.lock().unwrap().insert(self.next, gate.clone());
        let mut raw = format!("GET / HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\n\r\n", self.next).into_bytes();
        if self.tls.is_some() {
            for b in &mut raw {
                *b ^= MASK;
            }
        }
        if let Some(g) = greeting {
            raw.insert(0, g);
        }
        let since = Instant::now();
        (&self.conns[&c]).write_all(&raw).map_err(|e| served(format!("{}", e)))?;
        self.asked.insert(c, Asked { id: self.next, gate, since, answered: since });
        Ok(())
    }

    /// Read until it's enough or the connection ends
    fn read<F: Fn(&[u8]) -> bool>(&self, c: i64, patience: Duration, enough: F) -> Result<(Vec<u8>, bool), Differs> {
        let mut s = &self.conns[&c];
        s.set_read_timeout(Some(patience)).unwrap();
        let mut all = vec![];
        let start = Instant::now();
        while !enough(&all) {
            let mut b = [0; 1024];
            match s.read(&mut b) {
                Ok(0) => return Ok((all, true)),
                Ok(n) => all.extend(b[..n].iter().map(|b| if self.tls.is_some() { b ^ MASK } else { *b })),
                Err(ref e) if e.kind() == io::ErrorKind::WouldBlock || e.kind() == io::ErrorKind::TimedOut => return Err(("ended", json!("an end or a response"), json!("nothing more"))),
                Err(_) => return Ok((all, true)),
            }
            if start.elapsed() > patience {
                return Err(("ended", json!("an end or a response"), json!("something else")));
            }
        }
        Ok((all, false))
    }

    fn ended(&self, c: i64) -> bool {
        let s = &self.conns[&c];
        s.set_nonblocking(true).unwrap();
        let r = s.peek(&mut [0]);
        s.set_nonblocking(false).unwrap();
        match r {
            Ok(n) => n == 0,
            Err(e) => e.kind() != io::ErrorKind::WouldBlock,
        }
    }

    fn step(&mut self, step: &Value) -> Result<(), Differs> {
        match st(&step["a"]) {
            "arrive" => {
                let c = int(&step["c"]);
                let s = self.connect().map_err(|e| served(format!("{}", e)))?;
                self.conns.insert(c, s);
                let greeting = if self.tls.is_none() { None } else if boolean(&step["good"]) { Some(GREETING) } else { Some(1) };
                self.ask(c, greeting)?;
            }
            "again" => self.ask(int(&step["c"]), None)?,
            "answer" => {
                let c = int(&step["c"]);
                let (id, since) = {
                    let a = &self.asked[&c];
                    a.gate.release();
                    (a.id, a.since)
                };
                let close = boolean(&step["close"]);
                let (all, ended) = self.read(c, PATIENCE, |b| !close && wellformed(&parse_wire(b)) == "ok")?;
                let w = parse_wire(&all);
                let seen = json!([w.status, wellformed(&w), String::from_utf8_lossy(&w.body)]);
                let expected = json!([200, "ok", format!("answer {}", id)]);
                if seen != expected {
                    return Err(("answer", expected, seen));
                }
                let said = w.header("connection").iter().any(|v| v.eq_ignore_ascii_case(b"close"));
                if said != close || ended != close {
                    return Err(("close", json!(close), json!([said, ended])));
                }
                if ended {
                    self.asked.remove(&c);
                    self.conns.remove(&c);
                } else {
                    // for when it expires
                    self.asked.insert(c, Asked { id: 0, gate: Gate::new(), since, answered: Instant::now() });
                }
            }
            "leave" => {
                self.conns.remove(&int(&step["c"]));
                self.asked.remove(&int(&step["c"]));
            }
            "expire" => {
                for c in arr(&step["cs"]) {
                    let c = int(c);
                    self.read(c, self.timeout + PATIENCE, |b| !b.is_empty())?;
                    let idle = self.asked[&c].since.elapsed();
                    if idle < self.timeout || self.asked[&c].answered.elapsed() > self.timeout + self.slack {
                        return Err(("expired", json!(format!("{:?}", self.timeout)), json!(format!("{:?}", idle))));
                    }
                    self.conns.remove(&c);
                    self.asked.remove(&c);
                }
            }
            a => panic!("no such step: {}", a),
        }
        Ok(())
    }

    /// what is going on
    fn look(&mut self, step: &Value) -> Result<(), Differs> {
        let working: Vec<i64> = arr(&step["working"]).iter().map(int).collect();
        let over: Vec<i64> = arr(&step["over"]).iter().map(int).collect();
        for c in &over {
            if self.conns.contains_key(c) {
                let (all, _) = self.read(*c, PATIENCE, |b| !b.is_empty())?;
                if !all.is_empty() {
                    return Err(("ended", json!("an end"), jb(&all)));
                }
                self.conns.remove(c);
                self.asked.remove(c);
            }
        }
        for c in &working {
            if !self.asked[c].gate.wait_for(PATIENCE) {
                return Err(("working", json!(working), json!(format!("all except {}", c))));
            }
        }
        std::thread::sleep(self.settle);
        for (c, a) in &self.asked {
            if !working.contains(c) && a.id != 0 && a.gate.wait_for(Duration::from_millis(0)) {
                return Err(("working", json!(working), json!(format!("{} too", c))));
            }
        }
        Ok(())
    }

    fn none_ended(&self) -> Result<(), Differs> {
        for c in self.conns.keys() {
            if self.ended(*c) {
                return Err(("ended", json!(false), json!(c)));
            }
        }
        Ok(())
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        for a in self.asked.values() {
            a.gate.release();
        }
    }
}

fn attempt(v: &Value, settle: Duration) -> Result<(), Differs> {
    if v["inst"]["family"] != "idle" {
        return attempt_with(v, settle, (0, 0));
    }
    // in milliseconds: timeouts, and how much longer it may take
    let mut last = Ok(());
    for &idle in &[(150, 200), (210, 350), (120, 400), (330, 450), (510, 480), (270, 480)] {
        last = attempt_with(v, settle, idle);
        if last.is_ok() {
            break;
        }
    }
    last
}

fn attempt_with(v: &Value, settle: Duration, idle: (u64, u64)) -> Result<(), Differs> {
    let inst = &v["inst"];
    let mut run = match Running::new(inst, settle, idle)? {
        Some(r) => r,
        None => return Ok(()),
    };
    if inst["family"] == "host" && run.address.ip().is_ipv4() && !run.address.ip().is_unspecified() {
        // it listens there and nowhere else
        let other = if run.address.ip() == IpAddr::V4(Ipv4Addr::LOCALHOST) { Ipv4Addr::new(127, 7, 7, 7) } else { Ipv4Addr::LOCALHOST };
        if TcpStream::connect((other, run.address.port())).is_ok() {
            return Err(("elsewhere", json!("refused"), json!("connected")));
        }
    }
    let mut arrived = 0;
    for step in arr(&v["steps"]) {
        run.step(step)?;
        run.look(step)?;
        if inst["family"] != "idle" {
            run.none_ended()?;
        }
        if step["a"] == "arrive" {
            arrived += 1;
        }
    }
    if let Some(ref wrapped) = run.tls {
        let n = wrapped.load(Ordering::SeqCst);
        if n > arrived || (n == 0 && arrived > 0) {
            return Err(("wrapped", json!(arrived), json!(n)));
        }
    }
    Ok(())
}

pub fn replay(vectors: &str, report: &str) {
    replay_patiently(vectors, report, (1200, 6000), |v| arr(&v["steps"]).len() as u64 * 3, attempt);
}
