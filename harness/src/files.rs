//! Sending files, see Files.tla. Everything happens in a scratch directory.
use hyper::buffer::BufReader;
use hyper::header::Headers as HyperHeaders;
use hyper::net::NetworkStream;
use hyper::server::{Handler as HyperHandler, Request, Response as HyperResponse};
use rustful::file::ext_to_mime;
use rustful::mime::{Mime, SubLevel, TopLevel};
use rustful::response::FileError;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::{Context, Handler, Response, Server, StatusCode};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::ffi::OsStr;
use std::fs::{self, File};
use std::io::{self, Seek, SeekFrom, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use crate::net::*;
use crate::util::*;

/// A directory that is removed at the end.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let mut n = 0;
        loop {
            let dir = std::env::temp_dir().join(format!("rfh-files-{}-{}", std::process::id(), n));
            match fs::create_dir(&dir) {
                Ok(()) => return Scratch(dir),
                Err(ref e) if e.kind() == io::ErrorKind::AlreadyExists => n += 1,
                Err(e) => panic!("no scratch directory: {}", e),
            }
        }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn content(size: usize) -> Vec<u8> {
    (0..size).map(|i| ((i * 31 + i / 251) % 256) as u8).collect()
}

/// Make the entry in an empty directory, and return a path to it.
fn make(dir: &Path, q: &Value) -> PathBuf {
    let name = bytes(&q["name"]);
    let name = OsStr::from_bytes(&name);
    let path = dir.join(name);
    let write = |p: &Path| fs::write(p, content(int(&q["size"]) as usize)).unwrap();
    match st(&q["entry"]) {
        "file" => write(&path),
        "link" => {
            write(&dir.join("~the-target"));
            symlink("~the-target", &path).unwrap();
        }
        "dir" => fs::create_dir(&path).unwrap(),
        "dirlink" => {
            fs::create_dir(dir.join("~the-target")).unwrap();
            symlink("~the-target", &path).unwrap();
        }
        "missing" => {}
        "missingdir" => return dir.join("~nowhere").join(name),
        "dangling" => symlink("~nowhere", &path).unwrap(),
        "notdir" => {
            write(&dir.join("~plain"));
            return dir.join("~plain").join(name);
        }
        "loop" => symlink(name, &path).unwrap(),
        "toolong" => {
            let mut long = vec![b'x'; 300];
            long.extend(name.as_bytes());
            return dir.join(OsStr::from_bytes(&long));
        }
        "nul" => {
            let mut nul = vec![b'x', 0];
            nul.extend(name.as_bytes());
            return dir.join(OsStr::from_bytes(&nul));
        }
        "empty" => return PathBuf::new(),
        e => panic!("no such entry: {}", e),
    }
    path
}

struct Sender {
    q: Value,
    path: PathBuf,
    seen: Mutex<(String, Vec<Vec<u8>>)>,
}

fn class(e: &FileError) -> &'static str {
    match *e {
        FileError::Open(..) => "open",
        FileError::Send(_) => "send",
    }
}

impl Sender {
    fn finish(&self, result: Result<(), FileError>) -> String {
        let e = match result {
            Ok(()) => return "ok".into(),
            Err(e) => e,
        };
        let c = class(&e).to_string();
        match st(&self.q["after"]) {
            "recover" => match e.recover_response() {
                Ok(r) => {
                    r.send("rec");
                    if c != "open" {
                        return "recovered after sending".into();
                    }
                }
                Err(e) => {
                    if c != "send" || class(&e) != "send" {
                        return "not recovered".into();
                    }
                }
            },
            "not_found" => {
                return match e.send_not_found("none") {
                    Ok(()) => "ok".into(),
                    Err(e) => {
                        if class(&e) == c {
                            c
                        } else {
                            "another error".into()
                        }
                    }
                }
            }
            "ignore" => match e.ignore_send_error() {
                Ok(()) if c == "send" => {}
                Err(_) if c == "open" => {}
                _ => return "wrongly ignored".into(),
            },
            _ => {
                if c == "send" || c == "open" {
                    let shown = format!("{} {:?}", e, e);
                    if shown.is_empty() {
                        return "not shown".into();
                    }
                }
                // half of the time only the I/O error is kept
                if self.q["size"].as_i64().unwrap() % 2 == 1 {
                    let _: io::Error = e.into();
                }
            }
        }
        c
    }

    fn try_send<'a, 'b>(&self, response: Response<'a, 'b>) -> Result<(), FileError<'a, 'b>> {
        let q = &self.q;
        match (st(&q["how"]), st(&q["wrap"])) {
            ("path", "") => response.try_send(&*self.path),
            ("path", "ok") => response.try_send(Ok::<&Path, &Path>(&*self.path)),
            ("path", "err") => response.try_send(Err::<&Path, &Path>(&*self.path)),
            ("path", "some") => response.try_send(Some(&*self.path)),
            ("pathbuf", "") => response.try_send(self.path.clone()),
            ("pathbuf", "ok") => response.try_send(Ok::<PathBuf, PathBuf>(self.path.clone())),
            ("pathbuf", "err") => response.try_send(Err::<PathBuf, PathBuf>(self.path.clone())),
            ("pathbuf", "some") => response.try_send(Some(self.path.clone())),
            ("file", w) => {
                let mut file = File::open(&self.path).unwrap();
                if file.seek(SeekFrom::Start(int(&q["at"]) as u64)).is_err() {
                    // directories don't have to have positions
                }
                match w {
                    "" => response.try_send(file),
                    "ok" => response.try_send(Ok::<File, PathBuf>(file)),
                    "err" => response.try_send(Err::<PathBuf, File>(file)),
                    _ => response.try_send(Some(file)),
                }
            }
            ("mime", _) => {
                let asked = RefCell::new(vec![]);
                let result = response.send_file_with_mime(&self.path, |ext| {
                    asked.borrow_mut().push(ext.as_bytes().to_vec());
                    arr(&q["answer"]).first().map(|t| {
                        let t = String::from_utf8(bytes(t)).unwrap();
                        let (top, sub) = t.split_once('/').unwrap();
                        Mime(TopLevel::Ext(top.into()), SubLevel::Ext(sub.into()), vec![])
                    })
                });
                self.seen.lock().unwrap().1 = asked.into_inner();
                result
            }
            x => panic!("no such way: {:?}", x),
        }
    }

    fn send(&self, response: Response) {
        let q = &self.q;
        match (st(&q["how"]), st(&q["wrap"])) {
            ("path", "") => response.send(&*self.path),
            ("path", "ok") => response.send(Ok::<&Path, &Path>(&*self.path)),
            ("path", "err") => response.send(Err::<&Path, &Path>(&*self.path)),
            ("path", "some") => response.send(Some(&*self.path)),
            ("pathbuf", "") => response.send(self.path.clone()),
            ("pathbuf", "ok") => response.send(Ok::<PathBuf, PathBuf>(self.path.clone())),
            ("pathbuf", "err") => response.send(Err::<PathBuf, PathBuf>(self.path.clone())),
            ("pathbuf", "some") => response.send(Some(self.path.clone())),
            ("file", _) => {
                let mut file = File::open(&self.path).unwrap();
                let _ = file.seek(SeekFrom::Start(int(&q["at"]) as u64));
                response.send(file)
            }
            _ => {
                use rustful::response::ResponseError;
                if let Err(e) = self.try_send(response) {
                    e.handle();
                }
            }
        }
    }
}

struct Shared(Arc<Sender>);

impl Handler for Shared {
    fn handle(&self, _: Context, mut response: Response) {
        let q = &self.0.q;
        response.set_status(StatusCode::from_u16(int(&q["status"]) as u16));
        response.headers_mut().set_raw("x-h", vec![b"value".to_vec()]);
        response.headers_mut().set_raw("date", vec![b"Sun, 06 Nov 1994 08:49:37 GMT".to_vec()]);
        response.headers_mut().set_raw("content-type", vec![bytes(&q["preset"])]);
        let result = if st(&q["after"]) == "send" {
            self.0.send(response);
            "sent".to_string()
        } else {
            let result = self.0.try_send(response);
            self.0.finish(result)
        };
        self.0.seen.lock().unwrap().0 = result;
    }
}

struct PassOn;

impl ResponseFilter for PassOn {
    fn begin(&self, _: FilterContext, status: StatusCode, headers: &mut Headers) -> (StatusCode, ResponseAction) {
        headers.set_raw("x-seen", vec![b"yes".to_vec()]);
        (status, ResponseAction::Next(None))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::Next(content)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::Next(None)
    }
}

/// A connection that breaks when enough was written.
struct Breaking {
    written: Vec<u8>,
    left: Option<usize>,
}

impl Write for Breaking {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = match self.left {
            Some(0) if !b.is_empty() => return Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken")),
            Some(ref mut l) => {
                let n = b.len().min(*l);
                *l -= n;
                n
            }
            None => b.len(),
        };
        self.written.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.left == Some(0) {
            Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken"))
        } else {
            Ok(())
        }
    }
}

struct Observed {
    written: Vec<u8>,
    panic: bool,
    result: String,
    asked: Vec<Vec<u8>>,
}

fn serve_file(path: &Path, q: &Value, left: Option<usize>) -> Observed {
    let sender = Arc::new(Sender { q: q.clone(), path: path.to_path_buf(), seen: Mutex::new(("none".into(), vec![])) });
    let response_filters: Vec<Box<dyn ResponseFilter>> = if boolean(&q["filters"]) { vec![Box::new(PassOn)] } else { vec![] };
    let server = Server { threads: Some(1), response_filters, ..Server::new(Shared(sender.clone())) }.build();
    let mut stream = MemStream::new(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec());
    let stream: &mut dyn NetworkStream = &mut stream;
    let mut reader = BufReader::new(stream);
    let mut out = Breaking { written: vec![], left };
    let panic = guarded(|| {
        let mut headers = HyperHeaders::new();
        let request = Request::new(&mut reader, addr()).unwrap();
        let response = HyperResponse::new(&mut out, &mut headers);
        server.handle(request, response);
    })
    .is_err();
    let (result, asked) = match sender.seen.lock() {
        Ok(s) => s.clone(),
        Err(e) => e.into_inner().clone(),
    };
    Observed { written: out.written, panic, result, asked }
}

fn run(scratch: &Scratch, q: &Value) -> Value {
    let dir = scratch.0.join("d");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir(&dir).unwrap();
    let path = make(&dir, q);
    let size = int(&q["size"]) as usize;
    let limit = int(&q["break"]);
    let o = serve_file(&path, q, if limit < 0 { None } else { Some(limit as usize) });
    let prefix = if limit < 0 {
        true
    } else {
        let complete = serve_file(&path, q, None);
        complete.written.starts_with(&o.written)
    };
    let wire = parse_wire(&o.written);
    let mut names: Vec<_> = wire.headers.iter().map(|h| &*h.0).filter(|n| !["content-length", "transfer-encoding", "x-seen"].contains(n)).collect();
    names.sort();
    let whole = wire.framing == "length" && wire.body == content(size);
    // a large body is never expected, other than as the whole file
    let shown = if wire.body.len() > 100 { &wire.body[..100] } else { &wire.body[..] };
    json!({
        "panic": o.panic,
        "result": o.result,
        "asked": o.asked.iter().map(|a| jb(a)).collect::<Vec<_>>(),
        "prefix": prefix,
        "wire": wellformed(&wire),
        "status": wire.status,
        "type": jb(&wire.header("content-type").concat()),
        "whole": whole,
        "body": jb(shown),
        "filtered": wire.header1("x-seen") == "yes",
        "headers": names == ["content-type", "date", "server", "x-h"] && wire.header1("x-h") == "value",
    })
}

pub fn replay(vectors: &str, report: &str) {
    let scratch = Scratch::new();
    replay_all(vectors, report, |rep, v| {
        let q = &v["q"];
        let x = &v["response"];
        let o = run(&scratch, q);
        let complete = int(&q["break"]) < 0;
        rep.check("panic", v, &json!(false), &o["panic"]);
        if !arr(&v["result"]).contains(&o["result"]) {
            rep.fail("result", v, &v["result"], &o["result"]);
        }
        rep.check("prefix", v, &json!(true), &o["prefix"]);
        let whole = st(&x["body"]["is"]) == "file";
        if whole {
            rep.check("asked", v, &x["asked"], &o["asked"]);
        }
        if complete {
            rep.check("wire", v, &json!("ok"), &o["wire"]);
            rep.check("status", v, &x["status"], &o["status"]);
            if !arr(&x["types"]).contains(&o["type"]) {
                rep.fail("type", v, &x["types"], &o["type"]);
            }
            if whole {
                rep.check("body", v, &json!(true), &o["whole"]);
            } else {
                rep.check("body", v, &x["body"]["d"], &o["body"]);
            }
            rep.check("filtered", v, &x["filtered"], &o["filtered"]);
            rep.check("headers", v, &json!(true), &o["headers"]);
        }
    })
}

fn listed() -> Vec<Vec<u8>> {
    let mut all = vec![];
    for_each_line(&std::env::var("TYPES").unwrap(), |v| {
        let line = bytes(&v["line"]);
        if line.first() != Some(&b'#') {
            let words: Vec<_> = line.split(|b| b" \t\r".contains(b)).filter(|w| !w.is_empty()).collect();
            all.extend(words.into_iter().map(|w| w.to_vec()));
        }
    });
    all
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    let scratch = Scratch::new();
    let exts = listed();
    for _ in 0..count {
        let mut ext = if r.chance(3, 4) { r.pick(&exts).clone() } else { (0..r.range(1, 5)).map(|_| *r.pick(b"abcdefhjlmps347-")).collect::<Vec<u8>>() };
        if r.chance(1, 20) {
            for b in &mut ext {
                *b = b.to_ascii_uppercase();
            }
        }
        if r.chance(1, 5) {
            // almost a listed one
            let x = *r.pick(b"~ _-x1+Zs!");
            match r.below(5) {
                0 => ext.insert(0, x),
                1 if ext.len() > 1 => {
                    ext.pop();
                }
                2 if ext.len() > 1 => {
                    ext.remove(0);
                }
                3 => {
                    let i = r.below(ext.len());
                    ext[i] = x;
                }
                _ => ext.push(x),
            }
        }
        let how = *r.pick(&["path", "pathbuf", "file", "mime"]);
        // what's before the extension
        let mut name: Vec<u8> = match r.below(12) {
            0 => vec![],
            1 => b"a.html".to_vec(),
            2 => b"..".to_vec(),
            3 => "r\u{e4}\u{65e5} %20".as_bytes().to_vec(),
            4 if how != "mime" => vec![0xff, b'a'],
            _ => (0..r.range(1, 8)).map(|_| *r.pick(b"abc-_~ +&?#\\")).collect(),
        };
        match r.below(12) {
            0 => {}
            1 => {
                name.push(b'.');
                name.extend(&ext);
                name.push(b'.');
            }
            2 => {
                name.push(b'.');
                name.extend(&ext);
                name.extend_from_slice(if how == "mime" { b"~" } else { b"\xff" });
            }
            _ => {
                name.push(b'.');
                name.extend(&ext);
            }
        }
        if name.is_empty() || name == b"." || name == b".." || name.contains(&b'/') {
            name = b"a.html".to_vec();
        }
        let entry = if how == "file" {
            *r.pick(&["file", "file", "file", "link", "dir"])
        } else {
            *r.pick(&["file", "file", "file", "file", "file", "file", "link", "link", "dir", "dirlink", "missing", "missing", "missingdir", "dangling", "notdir", "loop", "toolong", "nul", "empty"])
        };
        let size = match r.below(8) {
            _ if r.chance(1, 60) => *r.pick(&[65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3000000, (1 << 23) + 7]),
            0 => 0,
            1 => r.range(1000, 10000),
            2 => r.range(8185, 8200),
            3 if r.chance(1, 4) => r.range(60000, 300000),
            _ => r.below(600),
        };
        let answer = if how == "mime" && r.chance(1, 2) {
            let a: Vec<u8> = (0..r.range(1, 4)).map(|_| *r.pick(b"tuvw")).collect();
            let b: Vec<u8> = (0..r.range(1, 4)).map(|_| *r.pick(b"tuvw")).collect();
            json!([jb(&[&a[..], b"/", &b[..]].concat())])
        } else {
            json!([])
        };
        let wrap = if how == "mime" || r.chance(1, 2) { "" } else { *r.pick(&["ok", "err", "some"]) };
        let after = if how == "file" && wrap != "" { *r.pick(&["drop", "recover", "not_found", "ignore"]) } else { *r.pick(&["drop", "recover", "not_found", "ignore", "send"]) };
        let limit = if r.chance(1, 5) { r.below(size + 400) as i64 } else { -1 };
        let q = json!({
            "name": jb(&name),
            "entry": entry,
            "how": how,
            "answer": answer,
            "wrap": wrap,
            "status": *r.pick(&[200u16, 200, 201, 404, 418, 500, 503, 599]),
            "after": after,
            "filters": r.chance(1, 2),
            "preset": jb(*r.pick(&[&b"a/b"[..], b"text/plain; charset=utf-8", b"image/png"])),
            "size": size,
            "at": if r.chance(1, 2) { 0 } else { r.below(size + 10) },
            "break": limit,
        });
        let mut o = run(&scratch, &q);
        let shown = String::from_utf8_lossy(&ext).into_owned();
        o["direct"] = match guarded(|| ext_to_mime(&shown)) {
            Ok(None) => json!([]),
            Ok(Some(m)) => json!([jb(m.to_string().as_bytes())]),
            Err(_) => json!([jb(b"panic")]),
        };
        out.line(&json!({"q": q, "ext": jb(&ext), "o": o}));
    }
}
