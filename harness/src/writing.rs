//! Responses as writers, with adapters on top of them, see Writing.tla.
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::{Context, Handler, Response, Server, StatusCode};
use serde_json::{json, Value};
use std::io::{self, BufWriter, Cursor, IoSlice, LineWriter, Read, Write};
use std::sync::{Arc, Mutex};

use crate::net::*;
use crate::util::*;

pub struct PerByte {
    pub how: String,
    pub seen: Option<Arc<Mutex<Vec<u8>>>>,
}

impl ResponseFilter for PerByte {
    fn begin(&self, _: FilterContext, status: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        (status, if self.how == "wrap" { ResponseAction::next(Some("<")) } else { ResponseAction::Next(None) })
    }

    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        let content = match content {
            Some(content) => content,
            None => return ResponseAction::Next(None),
        };
        if let Some(ref seen) = self.seen {
            seen.lock().unwrap().extend(content.as_bytes());
        }
        let d = content.as_bytes();
        let r: Vec<u8> = match &*self.how {
            "id" | "wrap" => return ResponseAction::Next(Some(content)),
            "inc" => d.iter().map(|b| b.wrapping_add(1)).collect(),
            "double" => d.iter().flat_map(|&b| vec![b, b]).collect(),
            "odd" => d.iter().cloned().filter(|b| b % 2 == 1).collect(),
            "abort" => if d.contains(&b'!') {
                return ResponseAction::abort("refused".into());
            } else {
                return ResponseAction::Next(Some(content));
            },
            h => panic!("no such filter: {}", h),
        };
        // dropping everything is different from sending nothing
        if r.is_empty() { ResponseAction::Next(None) } else { ResponseAction::next(Some(r)) }
    }

    fn end(&self, _: FilterContext) -> ResponseAction {
        if self.how == "wrap" { ResponseAction::next(Some(">")) } else { ResponseAction::Next(None) }
    }
}

pub const ADAPTERS: &[&str] = &["write", "write_all", "fmt", "vectored", "copy", "copy_small", "copy_buffered", "buffered", "lines", "chain", "by_ref"];

/// Gives at most n bytes at a time
struct Small(Cursor<Vec<u8>>, usize);

impl Read for Small {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = std::cmp::min(self.1, buf.len());
        self.0.read(&mut buf[..n])
    }
}

fn through<W: Write>(w: &mut W, adapter: &str, cap: usize, pieces: &[Vec<u8>], flush: bool) -> io::Result<usize> {
    let total = pieces.iter().map(|p| p.len()).sum();
    let all = || pieces.concat();
    match adapter {
        "write" => for p in pieces {
            let mut rest = &p[..];
            while !rest.is_empty() {
                match w.write(rest)? {
                    0 => return Err(io::ErrorKind::WriteZero.into()),
                    n => rest = &rest[n..],
                }
            }
            if flush {
                w.flush()?;
            }
        },
        "write_all" => for p in pieces {
            w.write_all(p)?;
            if flush {
                w.flush()?;
            }
        },
        "fmt" => for p in pieces {
            match std::str::from_utf8(p) {
                Ok(s) => match s.char_indices().nth(s.chars().count() / 2) {
                    Some((i, _)) => write!(w, "{}{}", &s[..i], &s[i..])?,
                    None => w.write_fmt(format_args!("{}", s))?,
                },
                Err(_) => w.write_all(p)?,
            }
        },
        "vectored" => {
            let all = all();
            let mut rest = &all[..];
            while !rest.is_empty() {
                let (x, y) = rest.split_at(std::cmp::min(cap, rest.len()));
                match w.write_vectored(&[IoSlice::new(x), IoSlice::new(y)])? {
                    0 => return Err(io::ErrorKind::WriteZero.into()),
                    n => rest = &rest[n..],
                }
            }
        }
        "copy" => return io::copy(&mut &all()[..], w).map(|n| n as usize),
        "copy_small" => return io::copy(&mut Small(Cursor::new(all()), cap + 1), w).map(|n| n as usize),
        "copy_buffered" => {
            let mut b = BufWriter::with_capacity(cap, w);
            let mut n = 0;
            for p in pieces {
                n += io::copy(&mut Small(Cursor::new(p.clone()), 3), &mut b)?;
            }
            b.flush()?;
            return Ok(n as usize);
        }
        "buffered" => {
            let mut b = BufWriter::with_capacity(cap, w);
            for p in pieces {
                b.write_all(p)?;
                if flush {
                    b.flush()?;
                }
            }
            b.into_inner().map_err(|e| e.into_error())?.flush()?;
        }
        "lines" => {
            let mut b = LineWriter::with_capacity(cap, w);
            for p in pieces {
                b.write_all(p)?;
            }
            b.flush()?;
        }
        "chain" => {
            let mut b = BufWriter::with_capacity(cap, LineWriter::with_capacity(2, BufWriter::with_capacity(1, w)));
            for p in pieces {
                b.write_all(p)?;
            }
            b.flush()?;
        }
        "by_ref" => for (i, p) in pieces.iter().enumerate() {
            if i % 2 == 0 {
                w.by_ref().write_all(p)?;
            } else {
                let w: &mut dyn Write = w;
                w.write_all(p)?;
            }
        },
        a => panic!("no such adapter: {}", a),
    }
    Ok(total)
}

struct Writer {
    raw: Option<u64>,
    adapter: String,
    cap: usize,
    pieces: Vec<Vec<u8>>,
    flush: bool,
    end: bool,
    result: Arc<Mutex<Option<Result<usize, String>>>>,
}

impl Handler for Writer {
    fn handle(&self, _: Context, response: Response) {
        let r = match self.raw {
            Some(n) => {
                let mut w = unsafe { response.into_raw(n) };
                let r = through(&mut w, &self.adapter, self.cap, &self.pieces, self.flush);
                if self.end {
                    let _ = w.end();
                }
                r
            }
            None => {
                let mut w = response.into_chunked();
                let r = through(&mut w, &self.adapter, self.cap, &self.pieces, self.flush);
                if self.end {
                    let _ = w.end();
                }
                r
            }
        };
        *self.result.lock().unwrap() = Some(r.map_err(|e| e.to_string()));
    }
}

fn write(sink: &Value, pieces: &Value, adapter: &str, cap: usize, flush: bool, end: bool) -> Value {
    let seen = Arc::new(Mutex::new(vec![]));
    let result = Arc::new(Mutex::new(None));
    let chunked = sink["t"] == "chunked";
    let filters = arr(&sink["fs"]).iter().enumerate()
        .map(|(i, f)| Box::new(PerByte { how: st(f).into(), seen: if i == 0 { Some(seen.clone()) } else { None } }) as Box<dyn ResponseFilter>)
        .collect();
    let server = Server {
        threads: Some(1),
        response_filters: filters,
        ..Server::new(Writer {
            raw: if chunked { None } else { Some(int(&sink["n"]) as u64) },
            adapter: adapter.into(),
            cap,
            pieces: arr(pieces).iter().map(bytes).collect(),
            flush,
            end,
            result: result.clone(),
        })
    }.build();
    let served = serve(&server, b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
    let wire = parse_wire(&served.written);
    let r = result.lock().unwrap().clone();
    let (failed, count) = match r {
        Some(Ok(n)) => (false, n),
        _ => (true, 0),
    };
    let seen = seen.lock().unwrap().clone();
    json!({"panic": served.panic.is_some(), "well": wellformed(&wire), "body": jb(&wire.body), "failed": failed, "count": count, "seen": jb(&seen)})
}

pub fn replay(vectors: &str, report: &str) {
    let mut i = 0;
    replay_all(vectors, report, move |rep, v| {
        for adapter in ADAPTERS {
            for &cap in &[0, 2, 64] {
                if cap != 0 && !["buffered", "lines", "chain", "copy_small", "copy_buffered", "vectored"].contains(adapter) {
                    continue;
                }
                i += 1;
                let o = write(&v["sink"], &v["pieces"], adapter, cap, i % 3 == 0, i % 2 == 0);
                let mut w = v.clone();
                w["adapter"] = json!(adapter);
                w["capacity"] = json!(cap);
                rep.check("panic", &w, &json!(false), &o["panic"]);
                if !rep.check("failed", &w, &v["failed"], &o["failed"]) {
                    continue;
                }
                if boolean(&v["failed"]) {
                    let (b, l) = (arr(&o["body"]), arr(&v["limit"]));
                    if !l.starts_with(&b[..]) {
                        rep.fail("body", &w, &v["limit"], &o["body"]);
                    }
                } else {
                    rep.check("body", &w, &v["limit"], &o["body"]);
                    rep.check("count", &w, &json!(arr(&v["data"]).len()), &o["count"]);
                    if arr(&v["sink"]["fs"]).len() > 0 {
                        rep.check("seen", &w, &v["data"], &o["seen"]);
                    }
                }
                if v["sink"]["t"] == "chunked" || v["sink"]["n"] == arr(&v["data"]).len() {
                    rep.check("wire", &w, &json!("ok"), &o["well"]);
                }
            }
        }
    })
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let refusing = r.chance(1, 3);
        let mut fs: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&["id", "inc", "double", "odd"])).collect();
        if refusing {
            fs.insert(0, "abort");
        }
        let mut total = 0;
        // sometimes more than any buffer could be expected to hold
        let huge = r.chance(1, 40);
        if huge {
            fs.truncate(1);
        }
        let pieces: Vec<Vec<u8>> = (0..r.below(12))
            .map(|_| {
                let n = match r.below(12) {
                    0 | 1 => 0,
                    2..=7 => r.range(1, 6),
                    8..=10 => r.range(6, 60),
                    _ => if r.chance(1, 8) { *r.pick(&[1024, 4095, 8191, 8192, 8193, 9000, 17000]) } else if huge { r.range(65000, 140000) } else { r.range(60, 600) },
                };
                total += n;
                let text = r.chance(1, 2);
                (0..n).map(|_| {
                    let b = if text { *r.pick(b"abcdefg\n") } else { r.below(256) as u8 };
                    if b == b'!' && !r.chance(1, 4) { b'?' } else { b }
                }).collect()
            })
            .collect();
        let sink = if r.chance(2, 3) {
            json!({"t": "chunked", "fs": fs, "n": 0})
        } else {
            let n = match r.below(4) {
                0 | 1 => total,
                2 => total + r.below(5),
                _ => r.below(total + 1),
            };
            json!({"t": "raw", "fs": [], "n": n})
        };
        let pieces = Value::Array(pieces.iter().map(|p| jb(p)).collect());
        let (adapter, cap, flush, end) = (*r.pick(ADAPTERS), *r.pick(&[0, 1, 2, 5, 16, 100, 8192]), r.chance(1, 3), r.chance(1, 2));
        let mut o = write(&sink, &pieces, adapter, cap, flush, end);
        o["sink"] = sink;
        o["pieces"] = pieces;
        o["adapter"] = json!(adapter);
        o["capacity"] = json!(cap);
        out.line(&o);
    }
}
