//! Responses on connections that break, see Faulty.tla.
use rustful::filter::ResponseFilter;
use rustful::{Context, Handler, Response, Server};
use serde_json::{json, Value};
use std::io::{self, Write};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

use crate::net::*;
use crate::util::*;
use crate::writing::PerByte;

/// Takes `left` bytes, at most `step` at a time, and fails from then on.
struct Breaking {
    out: Vec<u8>,
    left: usize,
    step: usize,
    broken: bool,
}

impl Write for Breaking {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 || self.broken {
            self.broken = true;
            return Err(io::ErrorKind::ConnectionReset.into());
        }
        let n = b.len().min(self.left).min(self.step);
        self.out.extend(&b[..n]);
        self.left -= n;
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        if self.broken { Err(io::ErrorKind::ConnectionReset.into()) } else { Ok(()) }
    }
}

struct Program {
    sink: Value,
    ops: Vec<(String, Vec<u8>)>,
    file: PathBuf,
    results: Arc<Mutex<Vec<(bool, usize)>>>,
}

macro_rules! operate {
    ($self: expr, $w: expr) => ({
        let mut w = $w;
        let note = |r: Result<usize, ()>| $self.results.lock().unwrap().push((r.is_ok(), r.unwrap_or(0)));
        for &(ref o, ref d) in &$self.ops {
            match &**o {
                "try" => note(w.try_send(&d[..]).map(|_| 0).map_err(|_| ())),
                "quiet" => {
                    w.send(&d[..]);
                    note(Ok(0));
                }
                "write" => note(w.write(d).map_err(|_| ())),
                "write_all" => note(w.write_all(d).map(|_| 0).map_err(|_| ())),
                "flush" => note(w.flush().map(|_| 0).map_err(|_| ())),
                "end" => {
                    note(w.end().map(|_| 0).map_err(|_| ()));
                    return;
                }
                "drop" => {
                    note(Ok(0));
                    return;
                }
                o => panic!("no such operation: {}", o),
            }
        }
    })
}

impl Handler for Program {
    fn handle(&self, _: Context, response: Response) {
        let note = |ok| self.results.lock().unwrap().push((ok, 0));
        match st(&self.sink["t"]) {
            "chunked" => operate!(self, response.into_chunked()),
            "raw" => operate!(self, unsafe { response.into_raw(int(&self.sink["n"]) as u64) }),
            "data" => note(response.try_send_data(&self.ops[0].1[..]).is_ok()),
            "file" => note(response.try_send(&*self.file).is_ok()),
            t => panic!("no such sink: {}", t),
        }
    }
}

/// How many bytes the head was, and what was observed.
fn once(sink: &Value, ops: &Value, left: usize, step: usize, file: &PathBuf) -> (Vec<u8>, Vec<(bool, usize)>, bool) {
    let results = Arc::new(Mutex::new(vec![]));
    let filters = arr(&sink["fs"]).iter()
        .map(|f| Box::new(PerByte { how: st(f).into(), seen: None }) as Box<dyn ResponseFilter>)
        .collect();
    let server = Server {
        threads: Some(1),
        response_filters: filters,
        ..Server::new(Program {
            sink: sink.clone(),
            ops: arr(ops).iter().map(|o| (st(&o["o"]).into(), bytes(&o["d"]))).collect(),
            file: file.clone(),
            results: results.clone(),
        })
    }.build();
    let mut breaking = Breaking { out: vec![], left, step, broken: false };
    let request = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n";
    let (panic, _) = if boolean(&sink["held"]) {
        serve_into(&server, request, &mut io::BufWriter::with_capacity(1 << 20, &mut breaking))
    } else {
        serve_into(&server, request, &mut breaking)
    };
    let results = results.lock().unwrap().clone();
    (breaking.out, results, panic.is_some())
}

fn run(sink: &Value, ops: &Value, cap: i64, step: usize, file: &PathBuf) -> Value {
    if sink["t"] == "file" {
        std::fs::write(file, bytes(&ops[0]["d"])).unwrap();
    }
    let (whole, _, _) = once(sink, ops, usize::MAX, usize::MAX, file);
    let head = whole.windows(4).position(|w| w == b"\r\n\r\n").map(|i| i + 4).unwrap_or(0);
    // any number of bytes of the head, if it's negative
    let left = if cap < 0 { (-cap as usize * 7919) % head.max(1) } else { head + cap as usize };
    let (out, results, panic) = once(sink, ops, left, step, file);
    json!({
        "out": jb(out.get(head..).unwrap_or(&[])),
        "results": results.iter().map(|r| json!({"ok": r.0, "n": r.1})).collect::<Vec<_>>(),
        "panic": panic,
    })
}

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let dir = std::env::temp_dir().join(format!("rfh-faulty-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        Scratch(dir)
    }

    fn file(&self) -> PathBuf {
        self.0.join("content.bin")
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.file());
        let _ = std::fs::remove_dir(&self.0);
    }
}

pub fn replay(vectors: &str, report: &str) {
    let scratch = Scratch::new();
    let file = scratch.file();
    let mut i = 0;
    replay_all(vectors, report, move |rep, v| {
        i += 1;
        let cap = int(&v["cap"]);
        let step = [usize::MAX, 1, 5][i % 3];
        let o = run(&v["sink"], &v["ops"], if cap < 0 { -(i as i64) } else { cap }, step, &file);
        rep.check("panic", v, &json!(false), &o["panic"]);
        if !boolean(&v["refused"]) {
            rep.check("out", v, &v["out"], &o["out"]);
        }
        let (x, y) = (arr(&v["results"]), arr(&o["results"]));
        rep.check("results", v, &json!(x.len()), &json!(y.len()));
        for (x, y) in x.iter().zip(y) {
            if boolean(&x["known"]) {
                let n = |r: &Value| if boolean(&x["counts"]) && boolean(&x["ok"]) { r["n"].clone() } else { json!(0) };
                rep.check("results", v, &json!([x["ok"], n(x)]), &json!([y["ok"], n(y)]));
            }
        }
    })
}

pub fn record(seed: u64, count: usize, path: &str) {
    let scratch = Scratch::new();
    let file = scratch.file();
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let refusing = r.chance(1, 4);
        let mut fs: Vec<&str> = (0..r.below(3)).map(|_| *r.pick(&["id", "inc", "double", "odd"])).collect();
        if refusing {
            fs.insert(0, "abort");
        }
        if r.chance(1, 3) {
            fs.push("wrap");
        }
        let piece = |r: &mut Rng| -> Vec<u8> {
            let n = match r.below(10) {
                0 => 0,
                1..=6 => r.range(1, 9),
                7 | 8 => r.range(10, 300),
                _ => if r.chance(1, 6) { r.range(4000, 9000) } else { r.range(15, 17) },
            };
            (0..n).map(|_| { let b = r.below(256) as u8; if b == b'!' && !r.chance(1, 4) { b'?' } else { b } }).collect()
        };
        let t = *r.pick(&["chunked", "chunked", "chunked", "raw", "raw", "data", "file"]);
        let ops: Vec<Value> = if t == "data" || t == "file" {
            vec![json!({"o": "try", "d": jb(&piece(&mut r))})]
        } else {
            let mut ops: Vec<Value> = (0..r.below(6)).map(|_| {
                let o = *r.pick(&["try", "quiet", "write", "write_all", "write_all", "flush"]);
                json!({"o": o, "d": if o == "flush" { json!([]) } else { jb(&piece(&mut r)) }})
            }).collect();
            ops.push(json!({"o": *r.pick(&["end", "drop"]), "d": []}));
            ops
        };
        let total: usize = ops.iter().map(|o| arr(&o["d"]).len()).sum();
        let mut sink = match t {
            "raw" => json!({"t": t, "fs": [], "n": if r.chance(2, 3) { total } else { r.below(total + 5) }}),
            "file" => json!({"t": t, "fs": [], "n": 0}),
            _ => json!({"t": t, "fs": fs, "n": 0}),
        };
        sink["held"] = json!(r.chance(1, 3));
        let cap = if r.chance(1, 8) { -(r.range(1, 1000) as i64) } else { r.below(total + total / 4 + 20) as i64 };
        let ops = json!(ops);
        let mut o = run(&sink, &ops, cap, *r.pick(&[usize::MAX, 1, 2, 7, 100]), &file);
        o["sink"] = sink;
        o["ops"] = ops;
        o["cap"] = json!(cap);
        out.line(&o);
    }
}
