//! Sending higher level values, see Sending.tla.
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::{Data, Error, SendResponse};
use rustful::handler::{Environment, HandleRequest};
use rustful::context::hypermedia::Link;
use rustful::{ContentFactory, Context, CreateContent, Handler, Response, Server, StatusCode};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::io;

use crate::net::*;
use crate::util::*;

/// Any value that can be sent, where each layer is sent by the real implementations.
pub enum Node {
    Bytes(Vec<u8>),
    Text(String),
    Result(Result<Box<Node>, Box<Node>>),
    Option(Option<Box<Node>>),
    Io(io::Error),
}

impl<'a, 'b> SendResponse<'a, 'b> for Box<Node> {
    type Error = Error;

    fn send_response(self, response: Response<'a, 'b>) -> Result<(), Error> {
        match *self {
            Node::Bytes(d) => if d.len() % 2 == 0 { d.send_response(response) } else { (&d[..]).send_response(response) },
            Node::Text(d) => if d.len() % 2 == 0 { d.send_response(response) } else { (&d[..]).send_response(response) },
            Node::Result(r) => r.send_response(response),
            Node::Option(o) => o.send_response(response),
            Node::Io(e) => e.send_response(response),
        }
    }
}

fn node(v: &Value) -> Box<Node> {
    Box::new(match st(&v["t"]) {
        "data" => match String::from_utf8(bytes(&v["d"])) {
            Ok(s) => Node::Text(s),
            Err(e) => Node::Bytes(e.into_bytes()),
        },
        "ok" => Node::Result(Ok(node(&v["v"]))),
        "err" => Node::Result(Err(node(&v["v"]))),
        "some" => Node::Option(Some(node(&v["v"]))),
        "none" => Node::Option(None),
        "io" => {
            use std::io::ErrorKind::*;
            let msg = String::from_utf8(bytes(&v["msg"])).unwrap();
            Node::Io(match st(&v["kind"]) {
                "os" => io::Error::from_raw_os_error(int(&v["code"]) as i32),
                "notfound" if v.get("code").is_some() => io::Error::from_raw_os_error(2),
                k => io::Error::new(
                    match k {
                        "notfound" => NotFound,
                        "denied" => PermissionDenied,
                        "exists" => AlreadyExists,
                        "eof" => UnexpectedEof,
                        "interrupted" => Interrupted,
                        "invalid" => InvalidInput,
                        "data" => InvalidData,
                        "pipe" => BrokenPipe,
                        "refused" => ConnectionRefused,
                        "timeout" => TimedOut,
                        "notconnected" => NotConnected,
                        "inuse" => AddrInUse,
                        "notavailable" => AddrNotAvailable,
                        "block" => WouldBlock,
                        "zero" => WriteZero,
                        "reset" => ConnectionReset,
                        "aborted" => ConnectionAborted,
                        "unsupported" => Unsupported,
                        "memory" => OutOfMemory,
                        "directory" => IsADirectory,
                        "notdirectory" => NotADirectory,
                        "notempty" => DirectoryNotEmpty,
                        "stale" => StaleNetworkFileHandle,
                        "host" => HostUnreachable,
                        "net" => NetworkUnreachable,
                        "full" => StorageFull,
                        "large" => FileTooLarge,
                        "busy" => ResourceBusy,
                        "readonly" => ReadOnlyFilesystem,
                        _ => Other,
                    },
                    msg,
                ),
            })
        }
        t => panic!("no such value: {}", t),
    })
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    TrySend,
    Send,
    /// returned from a handler
    Create,
}

struct Sender {
    value: RefCell<Option<Box<Node>>>,
    status: u16,
    how: How,
    ok: Cell<Option<bool>>,
}

struct Shared(std::sync::Arc<std::sync::Mutex<Sender>>);

impl Handler for Shared {
    fn handle(&self, _: Context, mut response: Response) {
        let s = self.0.lock().unwrap();
        response.set_status(StatusCode::from_u16(s.status));
        response.headers_mut().set_raw("x-h", vec![b"value".to_vec()]);
        response.headers_mut().set_raw("content-type", vec![b"a/b".to_vec()]);
        let v = s.value.borrow_mut().take().unwrap();
        match s.how {
            How::TrySend => s.ok.set(Some(response.try_send(v).is_ok())),
            How::Send => response.send(v),
            How::Create => unreachable!(),
        }
    }
}

/// A handler that returns its value, after a status and headers were set
struct Created(ContentFactory<Creator>, u16);

struct Creator(Shared);

impl CreateContent for Creator {
    type Output = Box<Node>;

    fn create_content(&self, _: Context) -> Box<Node> {
        let s = (self.0).0.lock().unwrap();
        let v = s.value.borrow_mut().take().unwrap();
        v
    }
}

impl HandleRequest for Created {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        environment.response.set_status(StatusCode::from_u16(self.1));
        environment.response.headers_mut().set_raw("x-h", vec![b"value".to_vec()]);
        environment.response.headers_mut().set_raw("content-type", vec![b"a/b".to_vec()]);
        self.0.handle_request(environment)
    }

    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.0.hyperlinks(base)
    }
}

struct PassOn;

impl ResponseFilter for PassOn {
    fn begin(&self, _: FilterContext, status: StatusCode, headers: &mut Headers) -> (StatusCode, ResponseAction) {
        headers.set_raw("x-seen", vec![status.to_u16().to_string().into_bytes()]);
        (status, ResponseAction::Next(None))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::Next(content)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::Next(None)
    }
}

fn send(value: &Value, status: u16, how: How, filtered: bool) -> Value {
    let sender = std::sync::Arc::new(std::sync::Mutex::new(Sender { value: RefCell::new(Some(node(value))), status, how, ok: Cell::new(None) }));
    let response_filters: Vec<Box<dyn ResponseFilter>> = if filtered { vec![Box::new(PassOn)] } else { vec![] };
    let request = b"GET / HTTP/1.1\r\nHost: h\r\n\r\n";
    let served = if how == How::Create {
        let created = Created(Creator(Shared(sender.clone())).into(), status);
        serve(&Server { threads: Some(1), response_filters, ..Server::new(created) }.build(), request)
    } else {
        serve(&Server { threads: Some(1), response_filters, ..Server::new(Shared(sender.clone())) }.build(), request)
    };
    let wire = parse_wire(&served.written);
    let mut names: Vec<_> = wire.headers.iter().map(|h| &*h.0).filter(|&n| n != "content-length" && n != "transfer-encoding").collect();
    names.sort();
    let expected: &[&str] = if filtered { &["content-type", "date", "server", "x-h", "x-seen"] } else { &["content-type", "date", "server", "x-h"] };
    let headers = names == expected
        && wire.header1("x-h") == "value"
        && wire.header1("content-type") == "a/b"
        && (!filtered || wire.header1("x-seen") == wire.status.to_string());
    let ok = sender.lock().ok().and_then(|s| s.ok.get());
    json!({"panic": served.panic.is_some(), "well": wellformed(&wire), "status": wire.status, "body": jb(&wire.body), "headers": headers, "ok": ok})
}

pub fn replay(vectors: &str, report: &str) {
    replay_all(vectors, report, |rep, v| {
        for &how in &[How::TrySend, How::Send, How::Create] {
            for &filtered in &[false, true] {
                let o = send(&v["value"], int(&v["status0"]) as u16, how, filtered);
                let x = &v["response"];
                rep.check("panic", v, &json!(false), &o["panic"]);
                rep.check("wire", v, &json!("ok"), &o["well"]);
                rep.check("status", v, &x["status"], &o["status"]);
                rep.check("body", v, &x["body"], &o["body"]);
                rep.check("headers", v, &json!(true), &o["headers"]);
                if how == How::TrySend {
                    rep.check("ok", v, &x["ok"], &o["ok"]);
                }
            }
        }
    })
}

const KINDS: &[&str] = &["notfound", "denied", "exists", "eof", "interrupted", "invalid", "data", "pipe", "refused", "timeout", "other", "notconnected", "inuse", "notavailable", "block", "zero", "reset", "aborted", "unsupported", "memory", "directory", "notdirectory", "notempty", "stale", "host", "net", "full", "large", "busy", "readonly"];

fn rand_value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 4 } else { 12 }) {
        0 => json!({"t": "none"}),
        1 => {
            let n = r.below(30);
            let msg: Vec<u8> = (0..n).map(|_| b' ' + r.below(90) as u8).collect();
            json!({"t": "io", "kind": *r.pick(KINDS), "msg": jb(&msg)})
        }
        2 => {
            let code = *r.pick(&[1, 2, 13, 17, 20, 21, 28, 40, 104]);
            let e = io::Error::from_raw_os_error(code);
            // what the system says is taken as it is
            json!({"t": "io", "kind": if code == 2 { "notfound" } else { "os" }, "code": code, "msg": jb(e.to_string().as_bytes())})
        }
        3 => {
            let n = if r.chance(1, 200) { r.range(65530, 70000) } else if r.chance(1, 20) { r.below(5000) } else { r.below(20) };
            let d: Vec<u8> = if r.chance(1, 2) { (0..n).map(|_| r.below(256) as u8).collect() } else { (0..n).map(|_| b'a' + r.below(26) as u8).collect() };
            json!({"t": "data", "d": jb(&d)})
        }
        k => json!({"t": (["ok", "err", "some"][k % 3]), "v": rand_value(r, depth - 1)}),
    }
}

pub fn record(seed: u64, count: usize, path: &str) {
    let mut r = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..count {
        let depth = r.below(12);
        let value = rand_value(&mut r, depth);
        let status = *r.pick(&[200u16, 200, 201, 204, 301, 304, 404, 418, 500, 503, 599]);
        let mut o = send(&value, status, How::TrySend, r.chance(1, 2));
        o["value"] = value;
        o["status0"] = json!(status);
        out.line(&o);
    }
}
