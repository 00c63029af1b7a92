//! Requests processed in memory, in the same way as by hyper's worker, and an
//! independent parser for what was written.
use hyper::buffer::BufReader;
use hyper::header::Headers;
use hyper::net::NetworkStream;
use hyper::server::{Handler, Request, Response};
use serde_json::{json, Value};
use std::io::{self, Read, Write};
use std::net::SocketAddr;
use std::time::Duration;

use crate::util::*;

/// A connection that delivers its input in pieces of at most `step` bytes.
#[derive(Clone)]
pub struct MemStream {
    pub input: Vec<u8>,
    pub pos: usize,
    pub step: usize,
}

impl MemStream {
    pub fn new(input: Vec<u8>) -> MemStream {
        MemStream { input, pos: 0, step: usize::MAX }
    }
}

impl Read for MemStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.step).min(self.input.len() - self.pos);
        buf[..n].copy_from_slice(&self.input[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Write for MemStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn addr() -> SocketAddr {
    "10.1.2.3:4567".parse().unwrap()
}

impl NetworkStream for MemStream {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok(addr())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}

pub struct Served {
    /// Everything that was written to the connection.
    pub written: Vec<u8>,
    /// The panic message if the handler panicked.
    pub panic: Option<String>,
    /// The request couldn't be parsed by hyper.
    pub unparsed: bool,
}

/// Serve one request into something else than memory. Returns a panic message
/// and whether the request was unparsable.
pub fn serve_into<H: Handler>(handler: &H, raw: &[u8], written: &mut dyn Write) -> (Option<String>, bool) {
    let mut stream = MemStream::new(raw.to_vec());
    let stream: &mut dyn NetworkStream = &mut stream;
    let mut reader = BufReader::new(stream);
    serve_from(handler, &mut reader, written, addr(), true)
}

/// Serve one request, without starting or ending the connection.
pub fn serve<H: Handler>(handler: &H, raw: &[u8]) -> Served {
    serve_stream(handler, &mut MemStream::new(raw.to_vec()))
}

pub fn serve_stream<H: Handler>(handler: &H, stream: &mut MemStream) -> Served {
    let stream: &mut dyn NetworkStream = stream;
    let mut reader = BufReader::new(stream);
    let mut written = vec![];
    let (panic, unparsed) = serve_one(handler, &mut reader, &mut written);
    Served { written, panic, unparsed }
}

/// Returns a panic message and whether the request was unparsable.
pub fn serve_one<H: Handler>(handler: &H, reader: &mut BufReader<&mut dyn NetworkStream>, written: &mut Vec<u8>) -> (Option<String>, bool) {
    serve_from(handler, reader, written, addr(), true)
}

/// The same, from an address and with or without keep-alive, as done by hyper's worker.
pub fn serve_from<H: Handler>(handler: &H, reader: &mut BufReader<&mut dyn NetworkStream>, mut written: &mut dyn Write, from: SocketAddr, keep_alive: bool) -> (Option<String>, bool) {
    let mut headers = Headers::new();
    let result = guarded(|| {
        let request = match Request::new(reader, from) {
            Ok(r) => r,
            Err(_) => return true,
        };
        let version = request.version;
        if !keep_alive || !hyper::http::should_keep_alive(version, &request.headers) {
            headers.set(hyper::header::Connection::close());
        }
        let mut response = Response::new(&mut written, &mut headers);
        response.version = version;
        handler.handle(request, response);
        false
    });
    match result {
        Ok(unparsed) => (None, unparsed),
        Err(e) => (Some(e), false),
    }
}

/// A parsed response, from the bytes on the wire.
#[derive(Debug, Clone)]
pub struct Wire {
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    /// "length", "chunked", "none" (no body allowed), or "close"
    pub framing: &'static str,
    pub body: Vec<u8>,
    /// sizes of the chunks
    pub chunks: usize,
    /// empty if the response is well formed, or what's wrong
    pub problem: String,
    /// what follows the response
    pub rest: Vec<u8>,
}

impl Wire {
    pub fn header(&self, name: &str) -> Vec<Vec<u8>> {
        self.headers.iter().filter(|h| h.0 == name).map(|h| h.1.clone()).collect()
    }
    pub fn header1(&self, name: &str) -> String {
        self.header(name).first().map(|h| String::from_utf8_lossy(h).into_owned()).unwrap_or_default()
    }
}

fn line_end(b: &[u8]) -> Option<usize> {
    b.windows(2).position(|w| w == b"\r\n")
}

/// Parse one response. Problems are reported, since they are observations.
pub fn parse_wire(mut b: &[u8]) -> Wire {
    let mut w = Wire { status: 0, headers: vec![], framing: "close", body: vec![], chunks: 0, problem: String::new(), rest: vec![] };
    let l = match line_end(b) {
        Some(l) => l,
        None => {
            w.problem = if b.is_empty() { "no response".into() } else { "no status line".into() };
            w.rest = b.to_vec();
            return w;
        }
    };
    let first = String::from_utf8_lossy(&b[..l]).into_owned();
    b = &b[l + 2..];
    let mut parts = first.splitn(3, ' ');
    match (parts.next(), parts.next().and_then(|s| s.parse::<u16>().ok())) {
        (Some(v), Some(s)) if v.starts_with("HTTP/1.") => w.status = s,
        _ => {
            w.problem = format!("bad status line {:?}", first);
            return w;
        }
    }
    loop {
        let l = match line_end(b) {
            Some(l) => l,
            None => {
                w.problem = "truncated head".into();
                return w;
            }
        };
        let line = &b[..l];
        b = &b[l + 2..];
        if line.is_empty() {
            break;
        }
        match line.iter().position(|&c| c == b':') {
            Some(i) => {
                let name = String::from_utf8_lossy(&line[..i]).to_ascii_lowercase();
                let value = &line[i + 1..];
                let value = if value.starts_with(b" ") { &value[1..] } else { value };
                w.headers.push((name, value.to_vec()));
            }
            None => {
                w.problem = "bad header line".into();
                return w;
            }
        }
    }
    let cl = w.header("content-length");
    let te = w.header("transfer-encoding");
    if w.status == 204 || w.status == 304 || w.status < 200 {
        w.framing = "none";
        w.rest = b.to_vec();
        return w;
    }
    if cl.len() > 1 || te.len() > 1 || (cl.len() == 1 && te.len() == 1) {
        w.problem = "conflicting framing headers".into();
    }
    if te.len() >= 1 {
        if te[0] != b"chunked" {
            w.problem = format!("transfer encoding {:?}", String::from_utf8_lossy(&te[0]));
        }
        w.framing = "chunked";
        loop {
            let l = match line_end(b) {
                Some(l) => l,
                None => {
                    w.problem = "missing last chunk".into();
                    return w;
                }
            };
            let size = match usize::from_str_radix(&String::from_utf8_lossy(&b[..l]), 16) {
                Ok(s) => s,
                Err(_) => {
                    w.problem = "bad chunk size".into();
                    return w;
                }
            };
            b = &b[l + 2..];
            if b.len() < size + 2 {
                w.problem = "truncated chunk".into();
                return w;
            }
            w.body.extend(&b[..size]);
            if &b[size..size + 2] != b"\r\n" {
                w.problem = "bad chunk end".into();
                return w;
            }
            b = &b[size + 2..];
            if size == 0 {
                break;
            }
            w.chunks += 1;
        }
        w.rest = b.to_vec();
    } else if cl.len() == 1 {
        w.framing = "length";
        match String::from_utf8_lossy(&cl[0]).trim().parse::<usize>() {
            Ok(n) if n <= b.len() => {
                w.body = b[..n].to_vec();
                w.rest = b[n..].to_vec();
            }
            Ok(_) => {
                w.body = b.to_vec();
                w.problem = "body shorter than the content length".into();
            }
            Err(_) => w.problem = "bad content length".into(),
        }
    } else {
        w.body = b.to_vec();
    }
    w
}

/// The framing observation: "ok" if exactly one well formed response.
pub fn wellformed(w: &Wire) -> Value {
    if !w.problem.is_empty() {
        json!(w.problem)
    } else if !w.rest.is_empty() {
        json!("bytes after the response")
    } else {
        json!("ok")
    }
}
