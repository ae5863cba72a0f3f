//! C20, C21, C25: the framework integrations, fed with the bytes of HTTP requests.
use crate::env::*;
use crate::explore::*;
use crate::{bail, ensure};
use hyper::buffer::BufReader;
use hyper::net::NetworkStream;
use hyper::server::Handler;
use multipart::server::{HttpRequest, Multipart};
use std::cell::RefCell;
use std::io::{self, Cursor, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::sync::Mutex;
use std::time::Duration;

pub const FRAMEWORKS: [&str; 8] = ["hyper", "hyper by reference", "hyper switch", "iron", "nickel", "nickel extension", "tiny_http", "hyper switch of closures"];

/// What an integration made of a request.
#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    /// accepted, with this boundary and these fields (or the error reading them)
    Multipart(Option<String>, Result<Vec<Got>, String>),
    /// handed back: method, target, headers, body
    Other(String, String, Vec<(String, String)>, Vec<u8>),
}

/// One end of a connection, in memory.
pub struct Conn {
    input: Cursor<Vec<u8>>,
    max: usize,
}
impl Conn {
    pub fn new(wire: &[u8], max: usize) -> Conn {
        Conn { input: Cursor::new(wire.to_vec()), max }
    }
}
impl Read for Conn {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.max);
        self.input.read(&mut b[..n])
    }
}
impl Write for Conn {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl NetworkStream for Conn {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok(addr())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn close(&mut self, _: Shutdown) -> io::Result<()> {
        Ok(())
    }
}
pub fn addr() -> SocketAddr {
    "127.0.0.1:80".parse().unwrap()
}

pub fn fields_of<B: Read>(mp: &mut Multipart<B>) -> Result<Vec<Got>, String> {
    let mut v = vec![];
    loop {
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                let (name, filename, ctype) = headers_of(&f.headers);
                let mut data = vec![];
                if let Err(e) = f.data.read_to_end(&mut data) {
                    return Err(format!("data of field {}: {}", v.len(), e));
                }
                v.push(Got { name, filename, ctype, data });
            }
            Ok(None) => return Ok(v),
            Err(e) => return Err(format!("field {}: {}", v.len(), e)),
        }
    }
}

fn rest<R: Read + ?Sized>(r: &mut R) -> Vec<u8> {
    let mut v = vec![];
    if let Err(e) = r.read_to_end(&mut v) {
        v.extend_from_slice(format!("<error {}>", e).as_bytes());
    }
    v
}

fn hyper_other(req: &mut hyper::server::Request) -> Seen {
    let h = req.headers.iter().map(|h| (h.name().to_string(), h.value_string())).collect();
    Seen::Other(req.method.to_string(), req.uri.to_string(), h, rest(req))
}

/// Run the handler of one framework on a request as it arrives on the wire.
pub fn observe(fw: usize, wire: &[u8], max: usize) -> Result<Seen, String> {
    if fw == 6 {
        return tiny(wire, |req| {
            let b = req.multipart_boundary().map(String::from);
            match Multipart::from_request(&mut *req) {
                Ok(mut mp) => Seen::Multipart(b, fields_of(&mut mp)),
                Err(req) => {
                    let h = req.headers().iter().map(|h| (h.field.to_string(), h.value.to_string())).collect();
                    Seen::Other(req.method().to_string(), req.url().to_string(), h, rest(req.as_reader()))
                }
            }
        });
    }
    let mut conn = Conn::new(wire, max);
    let stream: &mut dyn NetworkStream = &mut conn;
    let mut buf = BufReader::new(stream);
    let mut req = match hyper::server::Request::new(&mut buf, addr()) {
        Ok(r) => r,
        Err(e) => return Err(format!("hyper rejects the request: {}", e)),
    };
    Ok(match fw {
        0 => {
            let b = req.multipart_boundary().map(String::from);
            match Multipart::from_request(req) {
                Ok(mut mp) => Seen::Multipart(b, fields_of(&mut mp)),
                Err(mut req) => hyper_other(&mut req),
            }
        }
        1 => {
            let b = (&mut req).multipart_boundary().map(String::from);
            match Multipart::from_request(&mut req) {
                Ok(mut mp) => Seen::Multipart(b, fields_of(&mut mp)),
                Err(req) => hyper_other(req),
            }
        }
        2 => {
            struct Normal<'a>(&'a Mutex<Vec<Seen>>);
            impl<'x> Handler for Normal<'x> {
                fn handle<'a, 'k>(&'a self, mut req: hyper::server::Request<'a, 'k>, _: hyper::server::Response<'a, hyper::net::Fresh>) {
                    let s = hyper_other(&mut req);
                    self.0.lock().unwrap().push(s);
                }
            }
            struct Multi<'a>(&'a Mutex<Vec<Seen>>);
            impl<'x> multipart::server::hyper::MultipartHandler for Multi<'x> {
                fn handle_multipart<'a, 'k>(
                    &self,
                    mut mp: Multipart<hyper::server::Request<'a, 'k>>,
                    _: hyper::server::Response<'a, hyper::net::Fresh>,
                ) {
                    let f = fields_of(&mut mp);
                    self.0.lock().unwrap().push(Seen::Multipart(None, f));
                }
            }
            let seen = Mutex::new(vec![]);
            {
                let sw = multipart::server::hyper::Switch::new(Normal(&seen), Multi(&seen));
                let mut headers = hyper::header::Headers::new();
                let mut out = vec![];
                let res = hyper::server::Response::new(&mut out, &mut headers);
                sw.handle(req, res);
            }
            let mut seen = seen.into_inner().unwrap();
            if seen.len() != 1 {
                return Err(format!("{} handlers were called for one request", seen.len()));
            }
            seen.pop().unwrap()
        }
        7 => {
            let seen = Mutex::new(vec![]);
            {
                let normal = |mut req: hyper::server::Request, _: hyper::server::Response<hyper::net::Fresh>| {
                    let s = hyper_other(&mut req);
                    seen.lock().unwrap().push(s);
                };
                let multi = |mut mp: Multipart<hyper::server::Request>, _: hyper::server::Response<hyper::net::Fresh>| {
                    let f = fields_of(&mut mp);
                    seen.lock().unwrap().push(Seen::Multipart(None, f));
                };
                let sw = multipart::server::hyper::Switch::new(normal, multi);
                let mut headers = hyper::header::Headers::new();
                let mut out = vec![];
                let res = hyper::server::Response::new(&mut out, &mut headers);
                sw.handle(req, res);
            }
            let mut seen = seen.into_inner().unwrap();
            if seen.len() != 1 {
                return Err(format!("{} handlers were called for one request", seen.len()));
            }
            seen.pop().unwrap()
        }
        3 => {
            let mut req = iron::Request::from_http(req, addr(), &iron::Protocol::http())?;
            let b = (&mut req).multipart_boundary().map(String::from);
            match Multipart::from_request(&mut req) {
                Ok(mut mp) => Seen::Multipart(b, fields_of(&mut mp)),
                Err(req) => {
                    let h = req.headers.iter().map(|h| (h.name().to_string(), h.value_string())).collect();
                    Seen::Other(req.method.to_string(), req.url.path().join("/"), h, rest(&mut req.body))
                }
            }
        }
        4 => {
            let mut req = nickel::Request::from_internal(req, &());
            let mut maybe = multipart::server::nickel::Maybe::from(&mut req);
            // the request can be reached through it
            let same = maybe.as_ref().origin.uri.to_string();
            if maybe.as_mut().origin.uri.to_string() != same || AsRef::<&mut nickel::Request<()>>::as_ref(&maybe).origin.method != maybe.0.origin.method {
                return Ok(Seen::Other("as_ref".into(), same, vec![], vec![]));
            }
            let req: &mut nickel::Request<()> = maybe.into();
            let maybe = multipart::server::nickel::Maybe(req);
            let b = maybe.multipart_boundary().map(String::from);
            match Multipart::from_request(maybe) {
                Ok(mut mp) => Seen::Multipart(b, fields_of(&mut mp)),
                Err(maybe) => hyper_other(&mut maybe.0.origin),
            }
        }
        _ => {
            use multipart::server::nickel::MultipartBody;
            let mut req = nickel::Request::from_internal(req, &());
            let seen = req.multipart_body().map(|mut mp| fields_of(&mut mp));
            match seen {
                Some(f) => Seen::Multipart(None, f),
                None => hyper_other(&mut req.origin),
            }
        }
    })
}

struct Tiny {
    server: tiny_http::Server,
    client: TcpStream,
}

/// Hand a request to tiny_http over the loopback interface.
pub fn tiny<T>(wire: &[u8], f: impl FnOnce(&mut tiny_http::Request) -> T) -> Result<T, String> {
    thread_local! { static T: RefCell<Option<Tiny>> = const { RefCell::new(None) }; }
    T.with(|t| {
        let mut t = t.borrow_mut();
        for attempt in 0.. {
            if t.is_none() {
                let server = tiny_http::Server::http("127.0.0.1:0").map_err(|e| format!("harness: {}", e))?;
                let client = TcpStream::connect(server.server_addr()).map_err(|e| format!("harness: {}", e))?;
                client.set_nodelay(true).unwrap();
                client.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
                *t = Some(Tiny { server, client });
            }
            let s = t.as_mut().unwrap();
            if s.client.write_all(wire).is_ok() {
                if let Ok(Some(mut req)) = s.server.recv_timeout(Duration::from_secs(10)) {
                    let head = *req.method() == tiny_http::Method::Head;
                    let r = f(&mut req);
                    let _ = req.respond(tiny_http::Response::from_data(&b"."[..]));
                    // the response ends with the one byte of its body
                    let mut got = vec![];
                    let mut b = [0u8; 512];
                    while !(got.ends_with(b"\r\n\r\n.") || head && got.ends_with(b"\r\n\r\n")) {
                        match s.client.read(&mut b) {
                            Ok(n) if n > 0 => got.extend_from_slice(&b[..n]),
                            _ => {
                                *t = None;
                                break;
                            }
                        }
                    }
                    return Ok(r);
                }
            }
            *t = None;
            if attempt == 1 {
                return Err("tiny_http does not deliver the request".into());
            }
        }
        unreachable!()
    })
}

/// An HTTP request as it appears on the wire.
pub fn wire(method: &str, target: &str, headers: &[(&str, &str)], body: &[u8], chunked: usize) -> Vec<u8> {
    let mut v = format!("{} {} HTTP/1.1\r\nHost: localhost\r\n", method, target).into_bytes();
    for (n, val) in headers {
        v.extend_from_slice(format!("{}: {}\r\n", n, val).as_bytes());
    }
    if chunked == 0 {
        v.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
        v.extend_from_slice(body);
    } else {
        v.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
        for c in body.chunks(chunked) {
            v.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
            v.extend_from_slice(c);
            v.extend_from_slice(b"\r\n");
        }
        v.extend_from_slice(b"0\r\n\r\n");
    }
    v
}

// ------------------------------------------------------------------ C20

/// Content type parameters other than the boundary.
const OTHERS: [&str; 9] = [
    "charset=utf-8", "charset=UTF-8", "foo=bar", "xboundary=zz", "boundary2=zz", "x-boundary=zz", "b=boundary", "Foo=Boundary", "a=1",
];
/// The same with quoted values; the frameworks built on hyper ignore everything after such a parameter.
const QUOTED: [&str; 3] = ["foo=\"a; boundary=zz\"", "charset=\"utf-8\"", "foo=\"bar\""];
const BOUNDARIES: [&str; 8] = ["b", "AaB03x", "----WebKitFormBoundary7MA4YWxkTrZu0gW", "a.b_c+d-e", "utf-8", "UTF-8", "boundary", "---------------------------1234567890123456789012345678901234567890123"];
const QUOTED_ONLY: [&str; 8] = ["a b", "a:b", "a;b", "a=b", "a,b/c?d(e)", "boundary=x", "x; boundary=y", "a(')*"];
const METHODS: [&str; 8] = ["POST", "GET", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "PURGE"];

fn judge(x: &X, fw: usize, method: &str, ctype: Option<&str>, hname: &str, boundary: Option<&str>, chunked: usize, max: usize) -> Res {
    // the body uses the right boundary, so that reading it tells whether that was used
    let b = boundary.unwrap_or("b");
    let body = format!("--{}\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\nvalue\r\n--{}--\r\n", b, b);
    let mut h = vec![("X-One", "1")];
    if let Some(c) = ctype {
        h.push((hname, c));
    }
    h.push(("X-Two", "boundary=zz"));
    let w = wire(method, "/up?x=1", &h, body.as_bytes(), chunked);
    x.log(|| format!("{}: {}", FRAMEWORKS[fw], show(&w)));
    let seen = match observe(fw, &w, max) {
        Ok(s) => s,
        Err(e) => bail!("not-handled", "{}: {}", FRAMEWORKS[fw], e),
    };
    x.log(|| format!("{:?}", seen));
    x.state((fw, method.to_string(), ctype.map(|s| s.to_string()), format!("{:?}", seen)));
    match (boundary, seen) {
        (Some(want), Seen::Multipart(got, fields)) => {
            if let Some(got) = got {
                ensure!(got == want, "wrong-boundary", "{}: boundary {:?} for {:?}", FRAMEWORKS[fw], got, ctype);
            }
            let f = vec![Got { name: "n".into(), filename: None, ctype: None, data: b"value".to_vec() }];
            ensure!(fields == Ok(f), "wrong-fields", "{}: reading the body gives {:?} for {:?}", FRAMEWORKS[fw], fields, ctype);
        }
        (None, Seen::Multipart(got, _)) => {
            bail!("accepted", "{}: {} with content type {:?} is taken as multipart with boundary {:?}", FRAMEWORKS[fw], method, ctype, got)
        }
        (Some(_), Seen::Other(..)) => bail!("refused", "{}: {} with content type {:?} is not taken as multipart", FRAMEWORKS[fw], method, ctype),
        (None, Seen::Other(m, t, hs, rest)) => {
            ensure!(m == method, "changed", "{}: method {:?} handed back for {:?}", FRAMEWORKS[fw], m, method);
            ensure!(t.contains("up"), "changed", "{}: target {:?} handed back", FRAMEWORKS[fw], t);
            for (n, v) in &h {
                // frameworks may print a content type their own way
                let same = hs.iter().any(|(hn, hv)| hn.eq_ignore_ascii_case(n) && (hv == v || n.eq_ignore_ascii_case("content-type")));
                ensure!(same, "changed", "{}: header {} was not handed back: {:?}", FRAMEWORKS[fw], n, hs);
            }
            // hyper reads no body of requests without a length
            let no_body = chunked == 0 && rest.is_empty() && body.is_empty();
            ensure!(no_body || rest == body.as_bytes(), "body-touched", "{}: the body handed back is {}", FRAMEWORKS[fw], show(&rest));
        }
    }
    Ok(())
}

pub fn c20(th: bool) -> Vec<Group> {
    let mut g = vec![];
    let types = [
        ("multipart/form-data", true),
        ("Multipart/Form-Data", true),
        ("MULTIPART/FORM-DATA", true),
        ("multipart/mixed", false),
        ("multipart/form-data2", false),
        ("multipart/form", false),
        ("text/plain", false),
        ("application/x-www-form-urlencoded", false),
        ("application/form-data", false),
        ("xmultipart/form-data", false),
    ];
    {
        // methods x types x presence of a boundary x framework
        let n = FRAMEWORKS.len() * METHODS.len();
        g.push(group("requests", n as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let fw = r.take(FRAMEWORKS.len());
            let m = METHODS[r.0 as usize];
            let t = x.all(types.len() + 1);
            let hname = *x.pick(&["Content-Type", "content-type", "CONTENT-TYPE"]);
            if t == types.len() {
                return judge(x, fw, m, None, hname, None, 0, usize::MAX);
            }
            let (t, is) = types[t];
            let (p, b) = *x.pick(&[("; boundary=b", true), ("", false), ("; charset=utf-8", false), ("; xboundary=b", false), (";boundary=\"b\"", true)]);
            let want = if is && b && m == "POST" { Some("b") } else { None };
            let chunked = *x.pick(&[0, 5]);
            judge(x, fw, m, Some(&format!("{}{}", t, p)), hname, want, chunked, usize::MAX)
        }));
    }
    {
        // parameters in every order around the boundary
        let mut params: Vec<Option<&'static str>> = vec![None];
        params.extend(OTHERS.iter().map(|s| Some(*s)));
        params.extend(QUOTED.iter().map(|s| Some(*s)));
        let nb = BOUNDARIES.len() * 2 + QUOTED_ONLY.len() + 1;
        let np = params.len();
        g.push(group("parameters", (FRAMEWORKS.len() * nb * np * np) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let fw = r.take(FRAMEWORKS.len());
            let bi = r.take(nb);
            let before = params[r.take(np)];
            let after = params[r.take(np)];
            let quoted = |p: Option<&str>| p.map_or(false, |p| p.contains('"'));
            if fw != 6 && quoted(before) {
                return Ok(());
            }
            let third = if th { params[x.all(np)] } else { None };
            if fw != 6 && quoted(third) {
                return Ok(());
            }
            let sep = *x.pick(&["; ", ";"]);
            let key = *x.pick(&["boundary", "Boundary", "BOUNDARY"]);
            let (b, val) = if bi < BOUNDARIES.len() {
                (Some(BOUNDARIES[bi]), BOUNDARIES[bi].to_string())
            } else if bi < 2 * BOUNDARIES.len() {
                (Some(BOUNDARIES[bi - BOUNDARIES.len()]), format!("\"{}\"", BOUNDARIES[bi - BOUNDARIES.len()]))
            } else if bi < 2 * BOUNDARIES.len() + QUOTED_ONLY.len() {
                let b = QUOTED_ONLY[bi - 2 * BOUNDARIES.len()];
                (Some(b), format!("\"{}\"", b))
            } else {
                (None, String::new())
            };
            let mut t = String::from("multipart/form-data");
            for p in [third, before] {
                if let Some(p) = p {
                    t.push_str(sep);
                    t.push_str(p);
                }
            }
            if b.is_some() {
                t.push_str(&format!("{}{}={}", sep, key, val));
            }
            if let Some(p) = after {
                t.push_str(sep);
                t.push_str(p);
            }
            judge(x, fw, "POST", Some(&t), "Content-Type", b, 0, usize::MAX)
        }));
    }
    {
        // boundary values, letter by letter
        let chars: Vec<char> = ('!'..='~').filter(|c| c.is_ascii_alphanumeric() || "!#$&-^.+_".contains(*c)).collect();
        let n = chars.len();
        g.push(group("boundary-characters", (FRAMEWORKS.len() * n) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let fw = r.take(FRAMEWORKS.len());
            let c = chars[r.0 as usize];
            let b = match x.all(4) {
                0 => format!("{}", c),
                1 => format!("a{}", c),
                2 => format!("{}a", c),
                _ => format!("A{}{}z", c, c),
            };
            let t = if x.flag() { format!("multipart/form-data; boundary=\"{}\"", b) } else { format!("multipart/form-data; boundary={}", b) };
            judge(x, fw, "POST", Some(&t), "Content-Type", Some(&b), 0, usize::MAX)
        }));
    }
    {
        // optional white space; the frameworks built on hyper know it only after a semicolon
        const SEPS: [&str; 8] = [";", "; ", " ;", " ; ", "\t;", ";\t", ";  ", "  ; \t "];
        g.push(group("white-space", FRAMEWORKS.len() as u64 * 64 * 2, 0, move |x, o| {
            let mut r = Radix(o);
            let fw = r.take(FRAMEWORKS.len());
            let (s, t) = (*r.pick(&SEPS), *r.pick(&SEPS));
            let quoted = r.take(2) == 1;
            if fw != 6 && !(["; ", ";", ";  "].contains(&s) && ["; ", ";", ";  "].contains(&t)) {
                return Ok(());
            }
            let b = if quoted { "\"b\"" } else { "b" };
            let (c, want) = match x.all(5) {
                0 => (format!("multipart/form-data{}boundary={}", s, b), Some("b")),
                1 => (format!("multipart/form-data{}charset=utf-8{}boundary={}", s, t, b), Some("b")),
                2 => (format!("multipart/form-data{}boundary={}{}charset=utf-8", s, b, t), Some("b")),
                3 => (format!("multipart/form-data{}xboundary={}{}charset=utf-8", s, b, t), None),
                _ => (format!("multipart/mixed{}boundary={}{}charset=utf-8", s, b, t), None),
            };
            judge(x, fw, "POST", Some(&c), "Content-Type", want, 0, usize::MAX)
        }));
    }
    {
        // delivery of the request in pieces
        g.push(group("pieces", (FRAMEWORKS.len() * 40) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let fw = r.take(FRAMEWORKS.len());
            let max = 1 + r.0 as usize;
            let chunked = *x.pick(&[0usize, 1, 2, 7, 1000]);
            let m = *x.pick(&["POST", "PUT"]);
            let want = if m == "POST" { Some("AaB03x") } else { None };
            judge(x, fw, m, Some("multipart/form-data; charset=utf-8; boundary=AaB03x"), "Content-Type", want, chunked, max)
        }));
    }
    g
}

/// C04 through the frameworks: bodies cut short, well framed or by a connection that closes.
pub fn truncated(th: bool) -> Group {
    let chunk = if th { vec![1usize, 2, 7, 40, 1000] } else { vec![1usize, 7, 1000] };
    let n = FRAMEWORKS.len() * (2 + 2 * chunk.len()) * 2;
    group("frameworks", n as u64, 0, move |x, o| {
        let mut r = Radix(o);
        let fw = r.take(FRAMEWORKS.len());
        let closed = r.take(2) == 1;
        let chunked = *r.pick(&[&[0], &chunk[..]].concat());
        let max = *r.pick(&[usize::MAX, 50]);
        if closed && fw == 6 {
            return Ok(()); // one connection serves many requests
        }
        let body = x.cached(0, || Body::new("bnd", vec![Part::new("a", "1\r\n"), Part::file("b", "f", "text/plain", b"--bn"), Part::new("c", "")]));
        let cut = x.all(body.end);
        let h = [("Content-Type", "multipart/form-data; boundary=bnd")];
        let w = if closed {
            let mut w = wire("POST", "/up", &h, &body.bytes, chunked);
            let head = find(&w, b"\r\n\r\n", 0).unwrap() + 4;
            // up to `cut` bytes of the body
            let mut keep = head + cut;
            if chunked > 0 {
                keep = head;
                let mut left = cut;
                for c in body.bytes.chunks(chunked) {
                    keep += format!("{:x}\r\n", c.len()).len() + left.min(c.len());
                    if left < c.len() {
                        break;
                    }
                    left -= c.len();
                    keep += 2;
                }
            }
            w.truncate(keep);
            w
        } else {
            wire("POST", "/up", &h, &body.bytes[..cut], chunked)
        };
        x.log(|| format!("{}, {}: {}", FRAMEWORKS[fw], if closed { "the connection closes" } else { "a short body" }, show(&w)));
        let seen = match observe(fw, &w, max) {
            Ok(s) => s,
            Err(_) if closed => return Ok(()),
            Err(e) => bail!("not-handled", "{}: {}", FRAMEWORKS[fw], e),
        };
        x.state((fw, cut, closed, chunked));
        match seen {
            Seen::Multipart(_, Ok(f)) => bail!("regular-end", "{}: a regular end after {} fields of a body cut after {} of {} bytes", FRAMEWORKS[fw], f.len(), cut, body.end),
            Seen::Multipart(_, Err(_)) => Ok(()),
            Seen::Other(..) => bail!("refused", "{}: not taken as multipart", FRAMEWORKS[fw]),
        }
    })
}

// ------------------------------------------------------------------ C25

use crate::client::{alphabet, brief, build_calm, mime_of, same_field, seq, Op};
use hyper::client::{Client, Request as ClientReq};
use hyper::method::Method;
use hyper::net::{Fresh, NetworkConnector};
use std::sync::Arc;

/// A connection to a server which records what it is sent and answers 200.
struct Peer {
    out: Arc<Mutex<Vec<u8>>>,
    answer: Cursor<&'static [u8]>,
    max: usize,
    fails: Fails,
}
/// The writes and flushes counted, and those that fail.
#[derive(Clone, Default)]
struct Fails(Arc<Mutex<(usize, Option<(usize, io::ErrorKind, bool)>, usize)>>);
impl Fails {
    fn call(&self) -> io::Result<()> {
        let mut f = self.0.lock().unwrap();
        let n = f.0;
        f.0 += 1;
        match f.1 {
            Some((at, k, on)) if n == at || on && n > at => {
                f.2 += 1;
                Err(io::Error::new(k, "injected"))
            }
            _ => Ok(()),
        }
    }
}
impl Read for Peer {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.answer.read(b)
    }
}
impl Write for Peer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.fails.call()?;
        let n = b.len().min(self.max);
        self.out.lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.fails.call()
    }
}
impl NetworkStream for Peer {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok(addr())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}
struct Connector {
    out: Arc<Mutex<Vec<u8>>>,
    max: usize,
    fails: Fails,
}
impl NetworkConnector for Connector {
    type Stream = Peer;
    fn connect(&self, _: &str, _: u16, _: &str) -> hyper::Result<Peer> {
        Ok(Peer { out: self.out.clone(), answer: Cursor::new(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\nX-Answer: 42\r\n\r\n"), max: self.max, fails: self.fails.clone() })
    }
}

const URL: &str = "http://localhost/up";
/// In the last ones the request has headers already.
pub const CLIENTS: [&str; 9] = ["streaming", "sized", "lazy send", "client_request", "client_request_mut", "to_body", "streaming with headers", "sized with headers", "lazy send with headers"];

/// Make the request with one of the client integrations; the bytes sent, and if an answer came back.
pub fn make(kind: usize, method: Method, ops: &[Op], max: usize) -> (Vec<u8>, Result<(), String>) {
    make_on(kind, method, ops, max, &Fails::default())
}

fn make_on(kind: usize, method: Method, ops: &[Op], max: usize, fails: &Fails) -> (Vec<u8>, Result<(), String>) {
    make_with(kind, method, ops, max, fails, None)
}

/// ... by a request which declares another length before.
fn make_with(kind: usize, method: Method, ops: &[Op], max: usize, fails: &Fails, stale: Option<u64>) -> (Vec<u8>, Result<(), String>) {
    let out = Arc::new(Mutex::new(vec![]));
    let con = Connector { out: out.clone(), max, fails: fails.clone() };
    let fresh = || -> ClientReq<Fresh> {
        let mut r = ClientReq::with_connector(method.clone(), hyper::Url::parse(URL).unwrap(), &con).unwrap();
        if kind >= 6 {
            r.headers_mut().set(hyper::header::ContentType::json());
            r.headers_mut().set(hyper::header::UserAgent("x".into()));
        }
        if let Some(n) = stale {
            r.headers_mut().set(hyper::header::ContentLength(n));
        }
        r
    };
    let res = (|| -> Result<hyper::client::Response, String> {
        let e = |e: hyper::Error| format!("{:?}", e);
        fn write<S: multipart::client::HttpStream<Error = hyper::Error>>(mp: &mut multipart::client::Multipart<S>, ops: &[Op]) -> hyper::Result<()> {
            for op in ops {
                match op {
                    Op::Text(n, v) => {
                        mp.write_text(n, v)?;
                    }
                    Op::Stream { name, filename, ctype, data } => {
                        mp.write_stream(name, &mut &data[..], filename.as_ref().map(|s| &s[..]), mime_of(*ctype))?;
                    }
                    _ => {
                        mp.write_file(op.name(), op.path())?;
                    }
                }
            }
            Ok(())
        }
        match kind {
            0 | 6 => {
                let mut mp = multipart::client::Multipart::from_request(fresh()).map_err(e)?;
                write(&mut mp, ops).map_err(e)?;
                mp.send().map_err(e)
            }
            1 | 7 => {
                let mut mp = multipart::client::Multipart::from_request_sized(fresh()).map_err(e)?;
                write(&mut mp, ops).map_err(e)?;
                mp.send().map_err(e)
            }
            2 | 8 => build_calm(ops).send(fresh()).map_err(|l| e(l.error)),
            k => {
                let client = Client::with_connector(Connector { out: out.clone(), max, fails: fails.clone() });
                match k {
                    3 => build_calm(ops).client_request(&client, URL).map_err(e),
                    4 => build_calm(ops)
                        .client_request_mut(&client, URL, |r| {
                            let r = r.header(hyper::header::UserAgent("x".into())).header(hyper::header::ContentType::json());
                            match stale {
                                Some(n) => r.header(hyper::header::ContentLength(n)).body("another"),
                                None => r,
                            }
                        })
                        .map_err(e),
                    _ => {
                        let mut mp = build_calm(ops);
                        let mut p = mp.prepare().map_err(|l| format!("{:?}", l))?;
                        let ct = multipart::client::hyper::content_type(p.boundary());
                        client.post(URL).header(ct).body(p.to_body()).send().map_err(e)
                    }
                }
            }
        }
    })();
    let res = res.and_then(|r| {
        if r.headers.get_raw("X-Answer").map(|v| v == [b"42".to_vec()]) == Some(true) {
            Ok(())
        } else {
            Err("the response is not the one of the server".into())
        }
    });
    let out = out.lock().unwrap().clone();
    (out, res)
}

fn arrives(x: &X, kind: usize, ops: &[Op], max_out: usize, servers: &[usize], max_in: usize) -> Res {
    arrives_with(x, kind, ops, max_out, servers, max_in, None)
}

fn arrives_with(x: &X, kind: usize, ops: &[Op], max_out: usize, servers: &[usize], max_in: usize, stale: Option<u64>) -> Res {
    x.log(|| format!("{} request: {}{}", CLIENTS[kind], brief(ops), stale.map_or(String::new(), |n| format!(", declared as {} bytes before", n))));
    let (w, res) = make_with(kind, Method::Post, ops, max_out, &Fails::default(), stale);
    x.log(|| format!("on the wire: {}", show(&w[..w.len().min(500)])));
    if let Err(e) = res {
        bail!("request-failed", "{} request failed: {}", CLIENTS[kind], e);
    }
    let end = match w.windows(4).position(|v| v == b"\r\n\r\n") {
        Some(i) => i,
        None => bail!("no-request", "no complete request was sent: {}", show(&w[..w.len().min(200)])),
    };
    let head = String::from_utf8_lossy(&w[..end]).to_string();
    let count = |n: &str| head.lines().filter(|l| l.to_ascii_lowercase().starts_with(n)).count();
    ensure!(head.starts_with("POST /up "), "request-line", "request line {:?}", head.lines().next());
    ensure!(count("content-type:") == 1, "content-types", "{} content type headers: {:?}", count("content-type:"), head);
    let streams = ops.iter().any(|o| matches!(o, Op::Stream { .. }));
    let sized = kind == 1 || kind == 7 || (kind != 0 && kind != 6 && !streams);
    ensure!(
        count("content-length:") == sized as usize && count("transfer-encoding:") == !sized as usize,
        "framing",
        "{} request with {}: {:?}",
        CLIENTS[kind],
        brief(ops),
        head
    );
    if sized {
        let len: Option<usize> = head.lines().find(|l| l.to_ascii_lowercase().starts_with("content-length:")).and_then(|l| l[15..].trim().parse().ok());
        ensure!(len == Some(w.len() - end - 4), "length", "declared length {:?}, {} bytes sent", len, w.len() - end - 4);
    }
    let want: Vec<Got> = ops.iter().map(|o| o.sent()).collect();
    for &fw in servers {
        let seen = match observe(fw, &w, max_in) {
            Ok(s) => s,
            Err(e) => bail!("not-handled", "{} from {}: {}", FRAMEWORKS[fw], CLIENTS[kind], e),
        };
        x.state((kind, fw, w.len(), ops.len()));
        match seen {
            Seen::Other(..) => bail!("refused", "{} does not take the request of the {} client as multipart: {:?}", FRAMEWORKS[fw], CLIENTS[kind], head),
            Seen::Multipart(b, fields) => {
                if let Some(b) = b {
                    ensure!(head.contains(&format!("boundary={}", b)), "wrong-boundary", "{} finds boundary {:?} in {:?}", FRAMEWORKS[fw], b, head);
                }
                let got = match fields {
                    Ok(f) => f,
                    Err(e) => bail!("unreadable", "{} cannot read the body sent by the {} client: {}", FRAMEWORKS[fw], CLIENTS[kind], e),
                };
                ensure!(got.len() == want.len(), "fields", "{} finds {} fields from {}, sent {}", FRAMEWORKS[fw], got.len(), CLIENTS[kind], brief(ops));
                if kind < 2 {
                    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                        same_field(i, g, w)?;
                    }
                } else {
                    let mut left = got;
                    for w in &want {
                        match left.iter().position(|g| g == w) {
                            Some(i) => {
                                left.remove(i);
                            }
                            None => bail!("fields", "{}: no field {:?} ({:?}, {} bytes) from {}", FRAMEWORKS[fw], w.name, w.filename, w.data.len(), CLIENTS[kind]),
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// C11 through Hyper: connections that fail.
pub fn broken_connections(th: bool) -> Group {
    let mut a = alphabet();
    a.push(Op::Stream { name: "big".into(), filename: None, ctype: None, data: filler(20000).into() });
    let len = if th { 2 } else { 1 };
    let n = count_upto(a.len(), len);
    group("hyper", n * 6 * 3, 0, move |x, o| {
        let mut r = Radix(o);
        let kind = r.take(6);
        let max = *r.pick(&[usize::MAX, 4000, 41]);
        let mut ops = seq(&a, len, r.0);
        ops.push(crate::client::text("z", "w"));
        let calls = *x.cached(o, || {
            let f = Fails::default();
            let (_, res) = make_on(kind, Method::Post, &ops, max, &f);
            res.expect("nothing fails");
            let n = f.0.lock().unwrap().0;
            n
        });
        let at = x.all(calls);
        let f = Fails::default();
        f.0.lock().unwrap().1 = Some((at, *x.pick(&[io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut]), x.flag()));
        x.log(|| format!("{} request: {}; call {} of {} on the connection fails", CLIENTS[kind], brief(&ops), at, calls));
        let (w, res) = make_on(kind, Method::Post, &ops, max, &f);
        x.state((kind, w.len(), at));
        let met = f.0.lock().unwrap().2;
        ensure!(met > 0, "not-deterministic", "the call that was to fail was not made");
        ensure!(res.is_err(), "hidden", "success although {} of the writes to the connection failed, {} bytes sent", met, w.len());
        Ok(())
    })
}

/// A file of the request cannot be opened: the error is the one of the file, and no request is made.
pub fn missing_files(th: bool) -> Group {
    let a = [crate::client::text("t", "v"), crate::client::file("f", 0), Op::Missing("m".into()), crate::client::stream("s", None, None, b"data")];
    let len = if th { 4 } else { 3 };
    let n = count_upto(a.len(), len);
    group("hyper-missing", n * 9, 0, move |x, o| {
        let mut r = Radix(o);
        let kind = r.take(9);
        let ops = seq(&a, len, r.0);
        let bad = ops.iter().any(|o| matches!(o, Op::Missing(_)));
        x.log(|| format!("{} request: {}", CLIENTS[kind], brief(&ops)));
        let (w, res) = make(kind, Method::Post, &ops, usize::MAX);
        x.state((kind, w.len(), bad));
        ensure!(res.is_err() == bad, "missing-file", "{} request of {}: {:?}", CLIENTS[kind], brief(&ops), res);
        if let Err(e) = res {
            ensure!(e.contains("NotFound") || e.contains("os error 2"), "wrong-error", "{} request of {}: {}", CLIENTS[kind], brief(&ops), e);
            ensure!(w.is_empty() || kind % 6 == 0, "sent-anyway", "{} sent {}", CLIENTS[kind], show(&w[..w.len().min(200)]));
        }
        Ok(())
    })
}

/// What the body given to hyper announces, whatever the size.
fn announced() -> Group {
    let sizes = [0u64, 1, 8192, 65_536, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 31) + 1, (1 << 32) - 400, 1 << 32, (1 << 32) + 5, 1 << 40];
    group("announced", sizes.len() as u64 * 3, 0, move |x, o| {
        use hyper::client::Body as Sent;
        let mut r = Radix(o);
        let n = *r.pick(&sizes);
        let others = r.take(3);
        let w = crate::saves::World::fresh();
        let path = w.s.join("f.bin");
        let _cap = crate::saves::FileCap::new(n + 1);
        std::fs::File::create(&path).and_then(|f| f.set_len(n)).map_err(|e| Fail { key: "setup".into(), msg: e.to_string() })?;
        let mut m = multipart::client::lazy::Multipart::new();
        m.add_file("f", path.clone());
        for i in 0..others {
            m.add_text(format!("t{}", i), "text");
            m.add_file(format!("g{}", i), path.clone());
        }
        let stream = x.flag();
        if stream {
            m.add_stream("s", &b"stream"[..], None::<&str>, None);
        }
        let mut p = match m.prepare() {
            Ok(p) => p,
            Err(e) => bail!("prepare", "{}", e),
        };
        let len = p.content_len();
        x.state((o, stream));
        match p.to_body() {
            Sent::SizedBody(_, k) => ensure!(!stream && len == Some(k) && k > n * (1 + others as u64), "announced", "{} bytes announced, {:?} declared, files of {} bytes, stream {}", k, len, n, stream),
            Sent::ChunkedBody(_) => ensure!(stream && len.is_none(), "announced", "no length announced, {:?} declared, files of {} bytes", len, n),
            Sent::BufBody(..) => bail!("announced", "a buffer is sent"),
        }
        Ok(())
    })
}

pub fn c25(th: bool) -> Vec<Group> {
    let mut g = vec![announced()];
    let all: Vec<usize> = (0..FRAMEWORKS.len()).collect();
    {
        let a = alphabet();
        let len = if th { 4 } else { 3 };
        let n = count_upto(a.len(), len);
        let all = all.clone();
        g.push(group("fields", n * 9, 0, move |x, o| {
            let mut r = Radix(o);
            let kind = r.take(9);
            arrives(x, kind, &seq(&a, len, r.0), usize::MAX, &all, usize::MAX)
        }));
    }
    {
        // the request declares another length before it is made a multipart one
        let a = alphabet();
        let lens = [0u64, 3, 100, 1 << 40];
        let kinds = [0usize, 1, 2, 4, 6, 7, 8];
        let len = if th { 3 } else { 2 };
        let n = count_upto(a.len(), len);
        let all = all.clone();
        g.push(group("stale-length", n * (lens.len() * kinds.len()) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let (stale, kind) = (*r.pick(&lens), *r.pick(&kinds));
            let ops = seq(&a, len, r.0);
            let mut res = arrives_with(x, kind, &ops, usize::MAX, &all, usize::MAX, Some(stale));
            if let (Err(e), 4) = (&mut res, kind) {
                if ops.iter().any(|o| matches!(o, Op::Stream { .. })) {
                    e.key = "kept-by-closure".into();
                }
            }
            res
        }));
    }
    {
        // connections that take and give bytes in pieces
        let a = alphabet();
        let n = a.len() as u64;
        let all = all.clone();
        g.push(group("pieces", n * 9 * if th { 256 } else { 48 }, 0, move |x, o| {
            let mut r = Radix(o);
            let kind = r.take(9);
            let op = a[r.take(a.len())].clone();
            let m = 1 + r.0 as usize;
            let (i, o) = *x.pick(&[(m, usize::MAX), (usize::MAX, m), (m, m)]);
            arrives(x, kind, &[op, crate::client::text("z", "w")], o, &all, i)
        }));
    }
    {
        let methods = [Method::Get, Method::Put, Method::Head, Method::Delete, Method::Options, Method::Patch, Method::Connect, Method::Trace, Method::Extension("POSTX".into())];
        let a = alphabet();
        g.push(group("not-post", methods.len() as u64 * 6, 0, move |x, o| {
            let mut r = Radix(o);
            let kind = [0, 1, 2, 6, 7, 8][r.take(6)];
            let m = methods[r.0 as usize].clone();
            let ops = seq(&a, 1, x.all(a.len() + 1) as u64);
            x.log(|| format!("{} {} request: {}", m, CLIENTS[kind], brief(&ops)));
            let (w, res) = make(kind, m.clone(), &ops, usize::MAX);
            x.state((kind, o, w.len()));
            ensure!(res.is_err(), "not-refused", "a {} request by the {} client succeeded, sending {}", m, CLIENTS[kind], show(&w[..w.len().min(200)]));
            ensure!(w.is_empty(), "sent-anyway", "a {} request by the {} client was refused but sent {}", m, CLIENTS[kind], show(&w[..w.len().min(200)]));
            Ok(())
        }));
    }
    g
}

// ------------------------------------------------------------------ C21

use crate::parse::filler;
use crate::disk::{faults, Met};
use crate::saves::{stored, Snap, World};
use crate::sys;
use iron::BeforeMiddleware;
use multipart::server::iron::{FileCountLimitError, FileSizeLimitError, Intercept, LimitBehavior};
use multipart::server::save::{Entries, SaveDir};
use std::path::PathBuf;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Where {
    Default,
    Exists,
    Missing,
    Nested,
    NotADir,
    /// relative to the working directory
    Relative,
}

struct Cfg {
    lenient: bool,
    size: Option<u64>,
    count: Option<u32>,
    dir: Where,
}

fn intercept(w: &World, c: &Cfg) -> Intercept {
    let mut i = Intercept::default();
    if let Some(s) = c.size {
        i = i.file_size_limit(s);
    }
    if let Some(n) = c.count {
        i = i.file_count_limit(n);
    }
    if c.lenient {
        i = i.limit_behavior(LimitBehavior::Continue);
    }
    let d = w.s.join("parent");
    match c.dir {
        Where::Default => i,
        Where::Exists => {
            std::fs::create_dir_all(&d).unwrap();
            i.temp_dir_path(d)
        }
        Where::Missing => i.temp_dir_path(d),
        Where::Nested => i.temp_dir_path(d.join("a/b")),
        Where::Relative => i.temp_dir_path("s/parent"),
        Where::NotADir => {
            std::fs::write(&d, b"file").unwrap();
            i.temp_dir_path(d)
        }
    }
}

/// Call `before` for a request as it arrives, then `f` with its outcome.
fn intercepted<T>(w: &[u8], max: usize, i: &Intercept, f: impl FnOnce(iron::IronResult<()>, &mut iron::Request) -> T) -> Result<T, String> {
    intercepted_by(w, max, |req| i.before(req), f)
}

fn intercepted_by<T>(w: &[u8], max: usize, before: impl FnOnce(&mut iron::Request) -> iron::IronResult<()>, f: impl FnOnce(iron::IronResult<()>, &mut iron::Request) -> T) -> Result<T, String> {
    let mut conn = Conn::new(w, max);
    let stream: &mut dyn NetworkStream = &mut conn;
    let mut buf = BufReader::new(stream);
    let req = hyper::server::Request::new(&mut buf, addr()).map_err(|e| e.to_string())?;
    let mut req = iron::Request::from_http(req, addr(), &iron::Protocol::http())?;
    let r = before(&mut req);
    Ok(f(r, &mut req))
}

/// Nothing but (possibly created) directories of the configured parent may be left.
fn leftovers(w: &World, before: &Snap, cfg: &Cfg) -> Res {
    for (p, _) in World::news(before, &w.snap()) {
        let parents = match cfg.dir {
            Where::Missing | Where::Relative => vec![w.s.join("parent")],
            Where::Nested => vec![w.s.join("parent"), w.s.join("parent/a"), w.s.join("parent/a/b")],
            _ => vec![],
        };
        // the directories which contain changes show up as well when created
        ensure!(parents.contains(&p), "left-on-disk", "{} is left on disk", p.display());
    }
    Ok(())
}

fn intercept_run(x: &X, parts: Vec<Part>, cfg: Cfg, truncate: Option<usize>, max: usize) -> Res {
    intercept_faulty(x, parts, cfg, truncate, max, false)
}

/// ... with every call to the file system made by the middleware open to failure.
fn intercept_faulty(x: &X, parts: Vec<Part>, cfg: Cfg, truncate: Option<usize>, max: usize, faulty: bool) -> Res {
    let w = World::fresh();
    let i = intercept(&w, &cfg);
    let body = Body::new("bnd", parts);
    let size = cfg.size.unwrap_or(2 * 1024 * 1024);
    let count = cfg.count.unwrap_or(16) as usize;
    ensure!(i.file_size_limit == size && i.file_count_limit as usize == count, "configured", "configured {:?} and {:?}, the middleware has {:?}", cfg.size, cfg.count, i);
    let bytes = &body.bytes[..truncate.unwrap_or(body.bytes.len())];
    x.log(|| {
        format!(
            "{:?}; {} fields of {:?} bytes{}",
            i,
            body.parts.len(),
            body.parts.iter().map(|p| p.content.len()).collect::<Vec<_>>(),
            truncate.map_or(String::new(), |t| format!(", request cut after {} of {} bytes", t, body.bytes.len()))
        )
    });
    let msg = wire("POST", "/up", &[("Content-Type", "multipart/form-data; boundary=bnd")], bytes, 0);
    let before = w.snap();
    // the first limit exceeded
    let exceeded = body.parts.iter().enumerate().find_map(|(k, p)| if k >= count { Some((k, true)) } else if p.content.len() as u64 > size { Some((k, false)) } else { None });
    let malformed = truncate.map_or(false, |t| t < body.end) || cfg.dir == Where::NotADir;
    let met = RefCell::new(Met::default());
    let before_fn = |req: &mut iron::Request| match faulty {
        true => sys::armed(faults(x, &w, &met), || i.before(req)),
        false => i.before(req),
    };
    let r = intercepted_by(&msg, max, before_fn, |r, req| -> Res {
        let entries = req.extensions.remove::<Entries>();
        let met = met.borrow();
        x.state((met.any, cfg.lenient, cfg.size, cfg.count, r.is_ok(), entries.as_ref().map(|e| e.fields_count()), truncate));
        match r {
            Err(e) => {
                x.log(|| format!("error: {}", e));
                #[allow(deprecated)]
                let described = std::error::Error::description(&*e.error).len() + format!("{:?}", e).len() + e.to_string().len();
                ensure!(described > 0, "wrong-error", "the error says nothing");
                ensure!(entries.is_none(), "entries-after-error", "entries are stored although the middleware failed");
                let count_err = e.error.downcast_ref::<FileCountLimitError>().is_some();
                let size_err = e.error.downcast_ref::<FileSizeLimitError>();
                if !met.hard.is_empty() && !count_err && size_err.is_none() {
                    match e.error.downcast_ref::<io::Error>() {
                        Some(io) => ensure!(met.hard.iter().any(|h| h.1 == io.kind()), "wrong-error", "the error is {:?} although {:?} failed", io, met.hard),
                        None => bail!("wrong-error", "the error is {:?} although {:?} failed", e, met.hard),
                    }
                    return Ok(());
                }
                if cfg.lenient {
                    ensure!(malformed, "rejected", "failed although set to continue: {}", e);
                    ensure!(!count_err && size_err.is_none(), "rejected", "failed with a limit error although set to continue: {}", e);
                    return Ok(());
                }
                if malformed && !count_err && size_err.is_none() {
                    return Ok(());
                }
                match exceeded {
                    None => bail!("rejected", "failed although no limit is exceeded: {}", e),
                    Some((_, true)) => {
                        ensure!(count_err, "wrong-error", "the count limit is exceeded, but the error is {}", e);
                        // which one it is
                        let text = e.error.to_string();
                        let said = text.split(|c: char| !c.is_ascii_digit()).any(|n| n == count.to_string());
                        ensure!(said || !text.contains(|c: char| c.is_ascii_digit()), "wrong-error", "the count limit of {} is exceeded, but the error is {:?}", count, text);
                    }
                    Some((k, false)) => {
                        let f = match size_err {
                            Some(f) => f,
                            None => bail!("wrong-error", "the size limit is exceeded, but the error is {}", e),
                        };
                        ensure!(*f.field.name == *body.parts[k].name, "wrong-field", "size limit error about field {:?} instead of {:?}", f.field.name, body.parts[k].name);
                        check_headers(&f.field, &body.parts[k], "the field of the size limit error")?;
                    }
                }
            }
            Ok(()) => {
                let lost: Vec<_> = met.hard.iter().filter(|h| h.0 != sys::Call::Mkdir).collect();
                ensure!(lost.is_empty(), "fault-hidden", "the request was accepted although {:?} failed", lost);
                ensure!(!malformed, "malformed-accepted", "a malformed request was accepted");
                ensure!(cfg.lenient || exceeded.is_none(), "limit-missed", "accepted although field {:?} exceeds a limit", exceeded);
                let e = match entries {
                    Some(e) => e,
                    None => bail!("no-entries", "the middleware succeeded without storing entries"),
                };
                ensure!(e.fields_count() as usize == body.parts.len(), "fields", "{} fields stored, sent {}", e.fields_count(), body.parts.len());
                let mut names: Vec<&String> = body.parts.iter().map(|p| &p.name).collect();
                names.sort();
                names.dedup();
                ensure!(e.fields.len() == names.len(), "fields", "names stored: {:?}", e.fields.keys().collect::<Vec<_>>());
                for n in names {
                    let ps: Vec<&Part> = body.parts.iter().filter(|p| p.name == *n).collect();
                    let v = match e.fields.get(&n[..]) {
                        Some(v) if v.len() == ps.len() => v,
                        v => bail!("fields", "{:?} fields stored under {:?}, sent {}", v.map(|v| v.len()), n, ps.len()),
                    };
                    for (f, p) in v.iter().zip(ps) {
                        check_headers(&f.headers, p, "stored field")?;
                        let d = stored(&f.data, 1)?;
                        let want = &p.content[..p.content.len().min(size as usize)];
                        // text is not cut inside a character
                        let cut = p.content.len() > want.len() && !p.content.is_ascii() && want.len() - d.len().min(want.len()) < 4 && want.starts_with(&d);
                        if !cut {
                            check_data(&d, want, &format!("stored field {:?} of {} bytes with limit {}", p.name, p.content.len(), size))?;
                        }
                        if let multipart::server::save::SavedData::File(ref path, _) = f.data {
                            let under: PathBuf = match cfg.dir {
                                Where::Default => w.tmp.clone(),
                                Where::Nested => w.s.join("parent/a/b"),
                                _ => w.s.join("parent"),
                            };
                            let dir = path.parent().unwrap();
                            let real = |p: Option<&std::path::Path>| p.and_then(|p| p.canonicalize().ok());
                            ensure!(real(dir.parent()) == real(Some(&under)), "wrong-place", "saved to {}, configured parent {}", path.display(), under.display());
                            match e.save_dir {
                                SaveDir::Temp(ref t) => ensure!(t.path() == dir, "wrong-place", "{} is not in {:?}", path.display(), t),
                                SaveDir::Perm(_) => bail!("permanent", "the directory is not temporary"),
                            }
                        }
                    }
                }
                drop(e);
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r?,
        Err(e) => bail!("not-handled", "{}", e),
    }
    leftovers(&w, &before, &cfg)
}

pub fn c21(th: bool) -> Vec<Group> {
    let mut g = vec![];
    let file = |n: &str, c: &[u8]| Part::file(n, "f.bin", "application/octet-stream", c);
    {
        let a = vec![
            Part::new("t", ""),
            Part::new("t", "abc"),
            Part::new("u", "\u{e9}\u{e9}\u{e9}"),
            file("f", b"abcd"),
            file("g", &filler(20000)),
            Part::new("v", b"a\xffb"),
        ];
        let len = if th { 5 } else { 4 };
        let n = count_upto(a.len(), len);
        let sizes = [None, Some(0u64), Some(1), Some(3), Some(4), Some(5), Some(19999), Some(20000), Some(u64::MAX)];
        let counts = [None, Some(0u32), Some(1), Some(2), Some(3), Some(4), Some(u32::MAX)];
        g.push(group("limits", n * 2, 0, move |x, o| {
            let mut r = Radix(o);
            let lenient = r.take(2) == 1;
            let mut parts = vec![];
            let mut i = r.0;
            for l in 0..=len {
                let k = (a.len() as u64).pow(l as u32);
                if i < k {
                    for _ in 0..l {
                        parts.push(a[(i % a.len() as u64) as usize].clone());
                        i /= a.len() as u64;
                    }
                    break;
                }
                i -= k;
            }
            let size = *x.pick(&sizes);
            let count = *x.pick(&counts);
            intercept_run(x, parts, Cfg { lenient, size, count, dir: Where::Default }, None, usize::MAX)
        }));
    }
    {
        // many fields and limits of other sizes
        let counts = [None, Some(15u32), Some(16), Some(17), Some(255), Some(256), Some(257), Some(65535), Some(65536), Some(65537), Some(65536 + 16)];
        let ns = [14usize, 15, 16, 17, 18, 254, 255, 256, 257, 258, 300];
        g.push(group("many", (counts.len() * ns.len() * 2) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let lenient = r.take(2) == 1;
            let count = *r.pick(&counts);
            let n = *r.pick(&ns);
            let how = x.all(3);
            let parts = (0..n)
                .map(|i| match how {
                    0 => Part::new("t", ""),
                    1 => Part::new(&format!("t{}", i), &format!("{}", i)[..]),
                    _ => file(&format!("t{}", i / 3), format!("{}", i).as_bytes()),
                })
                .collect();
            intercept_run(x, parts, Cfg { lenient, size: *x.pick(&[None, Some(3)]), count, dir: Where::Default }, None, usize::MAX)
        }));
        // many of them over the limit
        let ns = [9usize, 10, 12, 17, 33, 65, 129, 257, 300];
        g.push(group("many-over", ns.len() as u64 * 3, 0, move |x, o| {
            let mut r = Radix(o);
            let n = *r.pick(&ns);
            let which = r.0 as usize;
            let parts = (0..n)
                .map(|i| match which {
                    0 => Part::new("t", &format!("{:05}", i)[..]),
                    1 => file(&format!("t{}", i), format!("{:05}", i).as_bytes()),
                    _ if i % 2 == 0 => file("f", &format!("{:09}", i).as_bytes()),
                    _ => Part::new("t", &format!("{}", i % 10)[..]),
                })
                .collect();
            intercept_run(x, parts, Cfg { lenient: true, size: Some(x.all(4) as u64), count: *x.pick(&[None, Some(4)]), dir: Where::Default }, None, usize::MAX)
        }));
        let sizes = [None, Some(1u64 << 16), Some((1 << 16) + 5), Some((2 << 20) - 1), Some(2 << 20), Some((2 << 20) + 1), Some((1 << 32) - 1), Some(1 << 32), Some((1 << 32) + 5), Some(1 << 63)];
        let ns = [5usize, 6, 65535, 65536, 65537, 65541, (2 << 20) - 1, 2 << 20, (2 << 20) + 1];
        g.push(group("sizes", (sizes.len() * ns.len() * 2) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let lenient = r.take(2) == 1;
            let size = *r.pick(&sizes);
            let n = *r.pick(&ns);
            let parts = vec![if x.flag() { Part::new("t", filler(n)) } else { file("t", &filler(n)) }, file("z", b"tail")];
            intercept_run(x, parts, Cfg { lenient, size, count: None, dir: Where::Default }, None, usize::MAX)
        }));
    }
    {
        let dirs = [Where::Default, Where::Exists, Where::Missing, Where::Nested, Where::NotADir, Where::Relative];
        g.push(group("directories", 12, 0, move |x, o| {
            let mut r = Radix(o);
            let lenient = r.take(2) == 1;
            let dir = dirs[r.0 as usize];
            let parts = match x.all(4) {
                0 => vec![],
                1 => vec![Part::new("t", "abc")],
                2 => vec![file("g", &filler(20000))],
                _ => vec![file("g", &filler(20000)), Part::new("t", "abc"), file("g", &filler(30000)), file("h", b"x")],
            };
            let size = *x.pick(&[None, Some(2), Some(25000)]);
            let count = *x.pick(&[None, Some(0), Some(1), Some(3)]);
            intercept_run(x, parts, Cfg { lenient, size, count, dir }, None, usize::MAX)
        }));
    }
    {
        let whole = Body::new("bnd", vec![Part::new("t", "abc"), file("g", b"0123456789"), Part::new("u", "")]).bytes.len();
        g.push(group("malformed", (whole as u64 + 1) * 2, 0, move |x, o| {
            let mut r = Radix(o);
            let lenient = r.take(2) == 1;
            let parts = vec![Part::new("t", "abc"), file("g", b"0123456789"), Part::new("u", "")];
            let size = *x.pick(&[None, Some(2), Some(5)]);
            let count = *x.pick(&[None, Some(1), Some(2)]);
            intercept_run(x, parts, Cfg { lenient, size, count, dir: Where::Missing }, Some(r.0 as usize), usize::MAX)
        }));
    }
    {
        // cut within a file that goes to disk
        let cuts: Vec<usize> = (0..40).map(|k| 100 + k * 510).collect();
        g.push(group("malformed-large", cuts.len() as u64 * 2, 0, move |x, o| {
            let mut r = Radix(o);
            let lenient = r.take(2) == 1;
            let cut = cuts[r.0 as usize];
            let parts = vec![file("g", &filler(20000))];
            let size = *x.pick(&[None, Some(2), Some(15000)]);
            intercept_run(x, parts, Cfg { lenient, size, count: None, dir: Where::Default }, Some(cut), *x.pick(&[usize::MAX, 100]))
        }));
    }
    {
        // every call to the file system may fail
        let dirs = [Where::Default, Where::Exists, Where::Missing, Where::Nested];
        let reqs: Vec<Vec<Part>> = vec![
            vec![],
            vec![Part::new("t", "abc")],
            vec![file("g", &filler(12000))],
            vec![Part::new("t", "abc"), file("g", &filler(12000)), Part::new("t", "")],
            vec![file("g", &filler(30000)), file("g", &filler(11000)), file("h", b"x")],
            vec![file("g", &filler(11000)), file("h", &filler(30000)), file("t", &filler(11000))],
        ];
        g.push(group("calls", (dirs.len() * reqs.len() * 2) as u64, if th { 3 } else { 2 }, move |x, o| {
            let mut r = Radix(o);
            let lenient = r.take(2) == 1;
            let dir = *r.pick(&dirs);
            let parts = r.pick(&reqs).clone();
            let size = *x.pick(&[None, Some(2), Some(10500), Some(20000)]);
            let count = *x.pick(&[None, Some(1)]);
            intercept_faulty(x, parts, Cfg { lenient, size, count, dir }, None, usize::MAX, true)
        }));
    }
    {
        g.push(group("defaults", 8, 0, move |x, o| {
            let mut r = Radix(o);
            let lenient = r.take(2) == 1;
            let parts = match r.0 {
                0 => vec![file("g", &vec![b'x'; 2 << 20])],
                1 => vec![file("g", &vec![b'x'; (2 << 20) + 1]), Part::new("t", "v")],
                2 => (0..16).map(|i| Part::new(&format!("n{}", i % 7), "v")).collect(),
                _ => (0..if x.flag() { 17 } else { 40 }).map(|i| Part::new(&format!("n{}", i % 7), "v")).collect(),
            };
            intercept_run(x, parts, Cfg { lenient, size: None, count: None, dir: Where::Default }, None, usize::MAX)
        }));
    }
    {
        let types = [None, Some("text/plain"), Some("multipart/mixed; boundary=bnd"), Some("multipart/form-data"), Some("application/x-www-form-urlencoded"), Some("multipart/form-data; boundary=bnd")];
        g.push(group("not-multipart", (types.len() * METHODS.len()) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let t = types[r.take(types.len())];
            let m = METHODS[r.0 as usize];
            if t.map_or(false, |t| t.contains("form-data; b")) && m == "POST" {
                return Ok(());
            }
            let w = World::fresh();
            let cfg = Cfg { lenient: x.flag(), size: None, count: None, dir: *x.pick(&[Where::Default, Where::Missing]) };
            let i = intercept(&w, &cfg);
            let body = Body::new("bnd", vec![Part::new("t", "abc")]);
            let h: Vec<(&str, &str)> = t.iter().map(|t| ("Content-Type", *t)).collect();
            let msg = wire(m, "/up", &h, &body.bytes, 0);
            let before = w.snap();
            x.log(|| format!("{:?}: {}", i, show(&msg)));
            let r = intercepted(&msg, usize::MAX, &i, |r, req| -> Res {
                x.state((o, r.is_ok()));
                ensure!(r.is_ok(), "rejected", "a request which is not multipart was rejected");
                ensure!(req.extensions.get::<Entries>().is_none(), "intercepted", "a request which is not multipart was intercepted");
                ensure!(req.method.to_string() == m, "changed", "method {}", req.method);
                let b = rest(&mut req.body);
                ensure!(b == body.bytes[..], "body-touched", "body left: {}", show(&b));
                Ok(())
            });
            match r {
                Ok(r) => r?,
                Err(e) => bail!("not-handled", "{}", e),
            }
            // nothing at all may have been created
            let news = World::news(&before, &w.snap());
            ensure!(news.is_empty(), "left-on-disk", "created {:?}", news.iter().map(|n| n.0.clone()).collect::<Vec<_>>());
            Ok(())
        }));
    }
    g
}
