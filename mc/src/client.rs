//! C08-C11: writing requests with the streaming, sized and lazy clients.
use crate::env::*;
use crate::explore::*;
use crate::parse::filler;
use crate::saves::World;
use crate::{bail, ensure};
use multipart::client::lazy;
use multipart::client::{HttpRequest, HttpStream, Multipart};
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read, Write};
use std::path::PathBuf;
use std::rc::Rc;

// ------------------------------------------------------------------ environment

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Comp {
    Headers,
    Open,
    Sink,
    Finish,
    Source,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Env {
    /// never deviates
    Calm,
    /// short writes/reads and interruptions
    Rough,
    /// failures as well
    Hostile,
    /// failures of every kind
    Every,
}

impl Env {
    fn fails(self) -> bool {
        self == Env::Hostile || self == Env::Every
    }
    fn kinds(self, few: &'static [ErrorKind]) -> &'static [ErrorKind] {
        if self == Env::Every {
            &ALL_KINDS
        } else {
            few
        }
    }
}

pub struct World_ {
    x: X,
    out: RefCell<Vec<u8>>,
    applied: RefCell<Vec<(String, Option<u64>)>>,
    order: RefCell<String>,
    opened: Cell<u32>,
    finished: Cell<u32>,
    /// the failure raised last and by whom
    raised: RefCell<Option<(Comp, Option<ErrorKind>)>>,
    sink: Env,
    source: Env,
    max: usize,
}

type Rec = Rc<World_>;

fn rec(x: &X, sink: Env, source: Env, max: usize) -> Rec {
    Rc::new(World_ {
        x: x.clone(),
        out: Default::default(),
        applied: Default::default(),
        order: Default::default(),
        opened: Cell::new(0),
        finished: Cell::new(0),
        raised: Default::default(),
        sink,
        source,
        max,
    })
}

impl World_ {
    fn raise(&self, c: Comp, k: Option<ErrorKind>) {
        *self.raised.borrow_mut() = Some((c, k));
        self.x.log(|| format!("  environment: {:?} fails with {:?}", c, k));
    }
    fn note(&self, c: char) {
        let mut o = self.order.borrow_mut();
        if !(c == 'w' && o.ends_with('w')) {
            o.push(c);
        }
    }
}

struct Req(Rec);
struct Stream(Rec);
#[derive(Debug)]
struct Resp;
#[derive(Debug)]
enum ReqErr {
    Io(io::Error),
    Open,
}
#[derive(Debug)]
enum StrErr {
    Io(io::Error),
    Req(ReqErr),
    Finish,
}
impl From<io::Error> for ReqErr {
    fn from(e: io::Error) -> Self {
        ReqErr::Io(e)
    }
}
impl From<io::Error> for StrErr {
    fn from(e: io::Error) -> Self {
        StrErr::Io(e)
    }
}
impl From<ReqErr> for StrErr {
    fn from(e: ReqErr) -> Self {
        StrErr::Req(e)
    }
}

impl HttpRequest for Req {
    type Stream = Stream;
    type Error = ReqErr;
    fn apply_headers(&mut self, boundary: &str, len: Option<u64>) -> bool {
        let w = &self.0;
        w.note('h');
        w.applied.borrow_mut().push((boundary.into(), len));
        w.x.log(|| format!("  apply_headers({:?}, {:?})", boundary, len));
        if w.sink.fails() && w.x.dev(2) == 1 {
            w.raise(Comp::Headers, None);
            return false;
        }
        true
    }
    fn open_stream(self) -> Result<Stream, ReqErr> {
        let w = &self.0;
        w.note('o');
        w.opened.set(w.opened.get() + 1);
        if w.sink.fails() && w.x.dev(2) == 1 {
            w.raise(Comp::Open, None);
            return Err(ReqErr::Open);
        }
        Ok(Stream(self.0))
    }
}

const SINK_KINDS: [ErrorKind; 4] = [ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof];
const SOURCE_KINDS: [ErrorKind; 4] = [ErrorKind::ConnectionReset, ErrorKind::InvalidData, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof];

impl Write for Stream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let w = &self.0;
        w.note('w');
        if b.is_empty() {
            return Ok(0);
        }
        w.x.step();
        let n = b.len().min(w.max);
        let c = match w.sink {
            Env::Calm => 0,
            Env::Rough => w.x.dev(5),
            e => w.x.dev(6 + e.kinds(&SINK_KINDS).len()),
        };
        let n = match c {
            0 => n,
            1 => 1,
            2 => (n + 1) / 2,
            3 => (n - 1).max(1),
            4 => return Err(io::Error::new(ErrorKind::Interrupted, InjectedError)),
            5 => {
                w.raise(Comp::Sink, Some(ErrorKind::WriteZero));
                return Ok(0);
            }
            k => {
                let k = w.sink.kinds(&SINK_KINDS)[k - 6];
                w.raise(Comp::Sink, Some(k));
                return Err(io::Error::new(k, InjectedError));
            }
        };
        w.out.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl HttpStream for Stream {
    type Request = Req;
    type Response = Resp;
    type Error = StrErr;
    fn finish(self) -> Result<Resp, StrErr> {
        let w = &self.0;
        w.note('f');
        w.finished.set(w.finished.get() + 1);
        if w.sink.fails() && w.x.dev(2) == 1 {
            w.raise(Comp::Finish, None);
            return Err(StrErr::Finish);
        }
        Ok(Resp)
    }
}

/// A source stream of a field.
struct Src {
    w: Rec,
    data: Rc<Vec<u8>>,
    pos: usize,
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let w = &self.w;
        w.x.step();
        if b.is_empty() {
            return Ok(0);
        }
        let n = b.len().min(self.data.len() - self.pos);
        let c = match w.source {
            Env::Calm => 0,
            Env::Rough => w.x.dev(5),
            e => w.x.dev(5 + e.kinds(&SOURCE_KINDS).len()),
        };
        let n = match c {
            0 => n,
            1 => n.min(1),
            2 => (n + 1) / 2,
            3 => n.saturating_sub(1).max(n.min(1)),
            4 => return Err(io::Error::new(ErrorKind::Interrupted, InjectedError)),
            k => {
                let k = w.source.kinds(&SOURCE_KINDS)[k - 5];
                w.raise(Comp::Source, Some(k));
                return Err(io::Error::new(k, InjectedError));
            }
        };
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// ------------------------------------------------------------------ programs

#[derive(Clone, Debug)]
pub enum Op {
    Text(String, String),
    Stream { name: String, filename: Option<String>, ctype: Option<&'static str>, data: Rc<Vec<u8>> },
    File { name: String, file: usize },
    /// a path that cannot be opened
    Missing(String),
    /// a path that can be opened but not read
    Dir(String),
}

pub fn text(n: &str, v: &str) -> Op {
    Op::Text(n.into(), v.into())
}
pub fn stream(n: &str, f: Option<&str>, c: Option<&'static str>, d: impl AsRef<[u8]>) -> Op {
    Op::Stream { name: n.into(), filename: f.map(|f| f.into()), ctype: c, data: Rc::new(d.as_ref().to_vec()) }
}
pub fn file(n: &str, file: usize) -> Op {
    Op::File { name: n.into(), file }
}

struct FileSpec {
    disk: &'static [u8],
    sent: Option<&'static str>,
    ctype: &'static str,
    size: usize,
}
/// Files the client can be asked to send, and what must arrive.
const FILES: [FileSpec; 16] = [
    FileSpec { disk: b"a.txt", sent: Some("a.txt"), ctype: "text/plain", size: 5 },
    FileSpec { disk: b"b.PNG", sent: Some("b.PNG"), ctype: "image/png", size: 9000 },
    FileSpec { disk: b"noext", sent: Some("noext"), ctype: "application/octet-stream", size: 0 },
    FileSpec { disk: b"x.tar.gz", sent: Some("x.tar.gz"), ctype: "application/gzip", size: 1 },
    FileSpec { disk: "\u{e9};=.html".as_bytes(), sent: Some("\u{e9};=.html"), ctype: "text/html", size: 12 },
    FileSpec { disk: b"\xff.txt", sent: None, ctype: "text/plain", size: 3 },
    FileSpec { disk: b" sp ace ", sent: Some(" sp ace "), ctype: "application/octet-stream", size: 20000 },
    FileSpec { disk: b".json", sent: Some(".json"), ctype: "application/octet-stream", size: 8192 },
    FileSpec { disk: b"link.txt", sent: Some("link.txt"), ctype: "text/plain", size: 3000 },
    FileSpec { disk: b"hard.csv", sent: Some("hard.csv"), ctype: "text/csv", size: 77 },
    FileSpec { disk: b"back\\slash.txt", sent: Some("back\\slash.txt"), ctype: "text/plain", size: 6 },
    FileSpec { disk: b"C:\\dots..JPG", sent: Some("C:\\dots..JPG"), ctype: "image/jpeg", size: 2 },
    FileSpec { disk: b"trailing.", sent: Some("trailing."), ctype: "application/octet-stream", size: 4 },
    FileSpec { disk: b"%22it's%00.css", sent: Some("%22it's%00.css"), ctype: "text/css", size: 7 },
    FileSpec { disk: b"json", sent: Some("json"), ctype: "application/octet-stream", size: 10 },
    FileSpec { disk: b"x.unknownext", sent: Some("x.unknownext"), ctype: "application/octet-stream", size: 8193 },
];

struct Disk {
    paths: Vec<PathBuf>,
    missing: PathBuf,
    dir: PathBuf,
}

fn disk() -> Rc<Disk> {
    use std::os::unix::ffi::OsStrExt;
    thread_local! { static D: RefCell<Option<Rc<Disk>>> = const { RefCell::new(None) }; }
    D.with(|d| {
        // another group may have cleaned up in between
        if d.borrow().as_ref().map_or(false, |d| !d.dir.exists()) {
            *d.borrow_mut() = None;
        }
        d.borrow_mut()
            .get_or_insert_with(|| {
                let top = World::fresh().s.join("client");
                std::fs::create_dir_all(top.join("dir")).unwrap();
                let paths = FILES
                    .iter()
                    .map(|f| {
                        let p = top.join(std::ffi::OsStr::from_bytes(f.disk));
                        // also files reached through a link
                        let real = top.join(format!("target of {}", show(f.disk)));
                        match f.disk {
                            b"link.txt" => std::os::unix::fs::symlink(&real, &p).unwrap(),
                            b"hard.csv" => {
                                std::fs::write(&real, "").unwrap();
                                std::fs::hard_link(&real, &p).unwrap()
                            }
                            _ => {}
                        }
                        std::fs::write(&p, filler(f.size)).unwrap();
                        p
                    })
                    .collect();
                Rc::new(Disk { paths, missing: top.join("missing.txt"), dir: top.join("dir") })
            })
            .clone()
    })
}

impl Op {
    pub fn name(&self) -> &str {
        match self {
            Op::Text(n, _) | Op::Missing(n) | Op::Dir(n) => n,
            Op::Stream { name, .. } | Op::File { name, .. } => name,
        }
    }
    pub fn is_text(&self) -> bool {
        matches!(self, Op::Text(..))
    }
    fn is_stream(&self) -> bool {
        matches!(self, Op::Stream { .. })
    }
    pub fn sent(&self) -> Got {
        match self {
            Op::Text(n, v) => Got { name: n.clone(), filename: None, ctype: None, data: v.clone().into_bytes() },
            Op::Stream { name, filename, ctype, data } => Got {
                name: name.clone(),
                filename: filename.clone(),
                ctype: Some(ctype.unwrap_or("application/octet-stream").into()),
                data: data.to_vec(),
            },
            Op::File { name, file } => {
                let f = &FILES[*file];
                Got { name: name.clone(), filename: f.sent.map(|s| s.into()), ctype: Some(f.ctype.into()), data: filler(f.size) }
            }
            _ => unreachable!(),
        }
    }
    pub fn path(&self) -> PathBuf {
        let d = disk();
        match self {
            Op::File { file, .. } => d.paths[*file].clone(),
            Op::Missing(_) => d.missing.clone(),
            Op::Dir(_) => d.dir.clone(),
            _ => unreachable!(),
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Op::Text(n, v) => format!("text {:?}={:?}", n, show(v.as_bytes())),
            Op::Stream { name, filename, ctype, data } => {
                format!("stream {:?} filename {:?} type {:?} {} bytes", name, filename, ctype, data.len())
            }
            Op::File { name, file } => format!("file {:?}={}", name, show(FILES[*file].disk)),
            Op::Missing(n) => format!("missing file {:?}", n),
            Op::Dir(n) => format!("directory {:?}", n),
        }
    }
}

pub fn brief(ops: &[Op]) -> String {
    ops.iter().map(|o| o.brief()).collect::<Vec<_>>().join(", ")
}

pub fn mime_of(s: Option<&'static str>) -> Option<mime::Mime> {
    s.map(|s| s.parse().unwrap())
}

/// What a server finds in a body.
pub fn parse_body(bytes: &[u8], boundary: &str) -> Result<Vec<Got>, String> {
    let mut mp = multipart::server::Multipart::with_body(Source::bytes(bytes), boundary);
    let mut v = vec![];
    loop {
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                let (name, filename, ctype) = headers_of(&f.headers);
                let mut data = vec![];
                if let Err(e) = f.data.read_to_end(&mut data) {
                    return Err(format!("data of field {}: {}", v.len(), e));
                }
                v.push(Got { name, filename, ctype, data });
            }
            Ok(None) => return Ok(v),
            Err(e) => return Err(format!("field {}: {}", v.len(), e)),
        }
    }
}

pub fn same_field(i: usize, g: &Got, w: &Got) -> Res {
    ensure!(g.name == w.name, "name", "field {}: name {:?}, sent {:?}", i, g.name, w.name);
    ensure!(g.filename == w.filename, "filename", "field {}: filename {:?}, sent {:?}", i, g.filename, w.filename);
    ensure!(g.ctype == w.ctype, "content-type", "field {}: content type {:?}, sent {:?}", i, g.ctype, w.ctype);
    check_data(&g.data, &w.data, &format!("field {}", i))
}

/// The same fields in the same order.
pub fn same_fields(bytes: &[u8], boundary: &str, want: &[Got]) -> Res {
    let got = match parse_body(bytes, boundary) {
        Ok(g) => g,
        Err(e) => bail!("unreadable", "the server cannot read the body: {}; body {}", e, show(&bytes[..bytes.len().min(400)])),
    };
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        same_field(i, g, w)?;
    }
    ensure!(got.len() == want.len(), "fields", "the server finds {} fields, sent {}; body {}", got.len(), want.len(), show(&bytes[..bytes.len().min(400)]));
    Ok(())
}

/// The same fields, text fields in order.
pub fn same_multiset(bytes: &[u8], boundary: &str, want: &[Got]) -> Res {
    let got = match parse_body(bytes, boundary) {
        Ok(g) => g,
        Err(e) => bail!("unreadable", "the server cannot read the body: {}; body {}", e, show(&bytes[..bytes.len().min(400)])),
    };
    ensure!(got.len() == want.len(), "fields", "the server finds {} fields, added {}; body {}", got.len(), want.len(), show(&bytes[..bytes.len().min(400)]));
    let (gt, gs): (Vec<_>, Vec<_>) = got.iter().cloned().partition(|g| g.ctype.is_none());
    let (wt, ws): (Vec<_>, Vec<_>) = want.iter().cloned().partition(|g| g.ctype.is_none());
    ensure!(gt.len() == wt.len(), "fields", "{} text fields, added {}", gt.len(), wt.len());
    for (i, (g, w)) in gt.iter().zip(&wt).enumerate() {
        same_field(i, g, w)?;
    }
    let mut left = gs;
    for w in &ws {
        match left.iter().position(|g| g == w) {
            Some(i) => {
                left.remove(i);
            }
            None => {
                // say what differs, if the name tells which it should be
                if let Some(g) = left.iter().find(|g| g.name == w.name) {
                    same_field(0, g, w)?;
                }
                bail!("fields", "no field with name {:?}, filename {:?}, type {:?} and {} bytes arrived", w.name, w.filename, w.ctype, w.data.len());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ running the clients

/// Outcome of running a program.
enum Run {
    Done,
    /// call number and the error; the caller stopped there
    Failed(String, StrErr),
}

fn perform<S: HttpStream<Error = StrErr>>(w: &Rec, mp: &mut Multipart<S>, op: &Op, done: &mut Vec<Got>) -> Res<Option<(String, StrErr)>> {
    let x = &w.x;
    let what = op.brief();
    x.log(|| format!("write {}", what));
    *w.raised.borrow_mut() = None;
    let (r, bad) = match op {
        Op::Text(n, v) => (mp.write_text(n, v).map(|_| ()), false),
        Op::Stream { name, filename, ctype, data } => {
            let mut s = Src { w: w.clone(), data: data.clone(), pos: 0 };
            (mp.write_stream(name, &mut s, filename.as_ref().map(|s| &s[..]), mime_of(*ctype)).map(|_| ()), false)
        }
        Op::File { name, .. } => (mp.write_file(name, op.path()).map(|_| ()), false),
        Op::Missing(n) | Op::Dir(n) => (mp.write_file(n, op.path()).map(|_| ()), true),
    };
    x.state((w.out.borrow().len(), done.len(), r.is_ok()));
    let raised = w.raised.borrow().clone();
    match (r, raised) {
        (Ok(()), None) if !bad => {
            done.push(op.sent());
            Ok(None)
        }
        (Ok(()), None) => fail("file-error-lost", format!("{} reported success", what)),
        (Ok(()), Some(r)) => fail("error-lost", format!("{} reported success although the {:?} failed with {:?}", what, r.0, r.1)),
        (Err(e), r) => {
            if let Some(r) = r {
                right_error(&e, r, &what)?;
                return Ok(Some((what, e)));
            }
            if !bad {
                bail!("invented-error", "{} failed although nothing went wrong: {:?}", what, e);
            }
            match (op, &e) {
                (Op::Missing(_), StrErr::Io(e)) if e.kind() == ErrorKind::NotFound => Ok(None),
                (Op::Dir(_), StrErr::Io(io)) if io.raw_os_error() == Some(libc::EISDIR) => Ok(Some((what, e))),
                _ => fail("wrong-error", format!("{} failed with {:?}", what, e)),
            }
        }
    }
}

fn right_error(e: &StrErr, (c, k): (Comp, Option<ErrorKind>), what: &str) -> Res {
    let ok = match c {
        Comp::Headers => true,
        Comp::Open => matches!(e, StrErr::Req(ReqErr::Open)),
        Comp::Finish => matches!(e, StrErr::Finish),
        Comp::Sink | Comp::Source => match e {
            StrErr::Io(e) | StrErr::Req(ReqErr::Io(e)) => Some(e.kind()) == k,
            _ => false,
        },
    };
    ensure!(ok, "wrong-error", "{}: the {:?} failed with {:?}, but the error reported is {:?}", what, c, k, e);
    Ok(())
}

fn finish<S: HttpStream<Error = StrErr>>(w: &Rec, mut mp: Multipart<S>, ops: &[Op], done: &mut Vec<Got>) -> Res<Run> {
    for op in ops {
        if let Some((what, e)) = perform(w, &mut mp, op, done)? {
            return Ok(Run::Failed(what, e));
        }
    }
    *w.raised.borrow_mut() = None;
    w.x.log(|| "send".into());
    let r = mp.send();
    let raised = w.raised.borrow().clone();
    w.x.state((w.out.borrow().len(), w.finished.get(), r.is_ok()));
    match (r, raised) {
        (Ok(_), None) => Ok(Run::Done),
        (Ok(_), Some(r)) => fail("error-lost", format!("send reported success although the {:?} failed with {:?}", r.0, r.1)),
        (Err(e), Some(r)) => {
            right_error(&e, r, "send")?;
            Ok(Run::Failed("send".into(), e))
        }
        (Err(e), None) => fail("invented-error", format!("send failed although nothing went wrong: {:?}", e)),
    }
}

fn run_streaming(w: &Rec, sized: bool, ops: &[Op], done: &mut Vec<Got>) -> Res<Run> {
    let r = if sized {
        Multipart::from_request_sized(Req(w.clone())).map(|mp| finish(w, mp, ops, done))
    } else {
        Multipart::from_request(Req(w.clone())).map(|mp| {
            if let Some(r) = w.raised.borrow().clone() {
                return fail("error-lost", format!("the request was opened although the {:?} failed with {:?}", r.0, r.1));
            }
            finish(w, mp, ops, done)
        })
    };
    match r {
        Ok(r) => r,
        Err(e) => match w.raised.borrow().clone() {
            Some(r) => {
                let e = e.into();
                right_error(&e, r, "from_request")?;
                Ok(Run::Failed("from_request".into(), e))
            }
            None => fail("invented-error", format!("from_request failed although nothing went wrong: {:?}", e)),
        },
    }
}

fn build<'a>(w: &Rec, ops: &'a [Op]) -> lazy::Multipart<'a, 'a> {
    let mut mp = lazy::Multipart::new();
    for op in ops {
        match op {
            Op::Text(n, v) => {
                mp.add_text(&n[..], &v[..]);
            }
            Op::Stream { name, filename, ctype, data } => {
                let s = Src { w: w.clone(), data: data.clone(), pos: 0 };
                mp.add_stream(&name[..], s, filename.as_ref().map(|s| &s[..]), mime_of(*ctype));
            }
            _ => {
                mp.add_file(op.name(), std::borrow::Cow::<std::path::Path>::Owned(op.path()));
            }
        }
    }
    mp
}

pub fn build_calm<'a>(ops: &'a [Op]) -> lazy::Multipart<'a, 'a> {
    let mut mp = lazy::Multipart::new();
    for op in ops {
        match op {
            Op::Text(n, v) => {
                mp.add_text(&n[..], &v[..]);
            }
            Op::Stream { name, filename, ctype, data } => {
                mp.add_stream(&name[..], &data[..], filename.as_ref().map(|s| &s[..]), mime_of(*ctype));
            }
            _ => {
                mp.add_file(op.name(), std::borrow::Cow::<std::path::Path>::Owned(op.path()));
            }
        }
    }
    mp
}

fn sent_ok(w: &Rec, ops_len: usize) -> Res {
    let order = w.order.borrow().clone();
    let a = w.applied.borrow();
    ensure!(a.len() == 1, "headers", "headers applied {} times ({} fields; calls {})", a.len(), ops_len, order);
    ensure!(w.opened.get() == 1, "open", "request opened {} times (calls {})", w.opened.get(), order);
    ensure!(w.finished.get() == 1, "finish", "stream finished {} times (calls {})", w.finished.get(), order);
    ensure!(order.starts_with("ho") && order.ends_with('f'), "order", "calls on the request: {}", order);
    Ok(())
}

/// Everything about one request made by a client in one environment.
fn request(x: &X, w: &Rec, mode: usize, ops: &[Op]) -> Res {
    x.log(|| format!("{} request: {}", ["streaming", "sized", "lazy"][mode], brief(ops)));
    let mut done = vec![];
    let run = if mode < 2 {
        run_streaming(w, mode == 1, ops, &mut done)?
    } else {
        let r = build(w, ops).send(Req(w.clone()));
        let raised = w.raised.borrow().clone();
        let bad = ops.iter().find(|o| matches!(o, Op::Missing(_)));
        let dir = ops.iter().any(|o| matches!(o, Op::Dir(_)));
        match (r, raised) {
            (Ok(_), Some(r)) => bail!("error-lost", "send reported success although the {:?} failed with {:?}", r.0, r.1),
            (Ok(_), None) => {
                ensure!(bad.is_none() && !dir, "file-error-lost", "send reported success for {}", brief(ops));
                done = ops.iter().map(|o| o.sent()).collect();
                Run::Done
            }
            (Err(e), Some(r)) => {
                right_error(&e.error, r, "send")?;
                Run::Failed("send".into(), e.error)
            }
            (Err(e), None) => {
                match bad {
                    Some(op) => {
                        ensure!(
                            matches!(&e.error, StrErr::Io(i) if i.kind() == ErrorKind::NotFound),
                            "wrong-error",
                            "send failed with {:?} for {}",
                            e.error,
                            brief(ops)
                        );
                        ensure!(
                            e.field_name.as_ref().map(|n| &n[..]) == Some(op.name()),
                            "error-field",
                            "error about field {:?} instead of {:?}",
                            e.field_name,
                            op.name()
                        );
                    }
                    None if dir => ensure!(
                        matches!(&e.error, StrErr::Io(i) if i.raw_os_error() == Some(libc::EISDIR)),
                        "wrong-error",
                        "send failed with {:?} for {}",
                        e.error,
                        brief(ops)
                    ),
                    None => bail!("invented-error", "send failed although nothing went wrong: {:?}", e.error),
                }
                Run::Failed("send".into(), e.error)
            }
        }
    };
    match run {
        Run::Done => {
            sent_ok(w, ops.len())?;
            let a = w.applied.borrow();
            let (ref b, len) = a[0];
            let out = w.out.borrow();
            x.log(|| format!("sent {}", show(&out[..out.len().min(300)])));
            if let Some(len) = len {
                ensure!(len == out.len() as u64, "length", "declared length {}, sent {} bytes", len, out.len());
            }
            if mode == 1 {
                ensure!(len.is_some(), "no-length", "sized request without a length");
            }
            if mode == 2 {
                let streams = ops.iter().any(|o| o.is_stream());
                ensure!(len.is_some() != streams, "length-presence", "declared length {:?} with {}", len, brief(ops));
                same_multiset(&out, b, &done)
            } else {
                same_fields(&out, b, &done)
            }
        }
        Run::Failed(what, e) => {
            let at_finish = matches!(w.raised.borrow().as_ref(), Some((Comp::Finish, _)));
            ensure!(
                w.finished.get() == at_finish as u32,
                "finished-incomplete",
                "the stream was finished {} times although {} failed with {:?}",
                w.finished.get(),
                what,
                e
            );
            Ok(())
        }
    }
}

/// Decode a sequence of up to `max` operations.
pub fn seq(alpha: &[Op], max: usize, mut i: u64) -> Vec<Op> {
    for l in 0..=max {
        let n = (alpha.len() as u64).pow(l as u32);
        if i < n {
            let mut v = vec![];
            for _ in 0..l {
                v.push(alpha[(i % alpha.len() as u64) as usize].clone());
                i /= alpha.len() as u64;
            }
            return v;
        }
        i -= n;
    }
    unreachable!()
}

pub fn alphabet() -> Vec<Op> {
    vec![
        text("t", ""),
        text("t", "v"),
        text("n\u{e9};=", "\r\n--\r\n\r\nContent-Disposition: form-data; name=\"x\"\r\n\r\n"),
        text("", "--\r"),
        stream("s", None, None, ""),
        stream("s", Some("f.bin"), Some("image/png"), "\r\n"),
        stream("s", Some("x; name=y"), Some("text/plain; charset=utf-8"), filler(9000)),
        stream("u", Some(""), None, "\n-"),
        file("f", 0),
        file("f", 2),
        file("g", 5),
        file("g", 1),
    ]
}

fn small() -> Vec<Op> {
    vec![text("t", "v"), text("", ""), stream("s", Some("f"), Some("image/png"), "ab"), stream("s", None, None, ""), file("f", 0)]
}

/// Pieces of names: everything a header parser could trip over.
fn name_pieces(th: bool) -> Vec<&'static str> {
    let mut v = vec![
        "a", " ", ";", "=", "\\", "'", "\u{e9}", ",", "; filename=", ":", "name=", "%22", "--", "\u{1F600}", "/",
    ];
    if th {
        v.extend(["\u{a0}", "*", "(", "<", "?", "&", "form-data", "filename*=UTF-8''x", "\u{2028}", "..", "{"]);
    }
    v
}

/// Requests of many fields and fields with long names.
fn long(modes: &'static [usize], th: bool) -> Group {
    let counts = [4usize, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000];
    let counts = if th { [&counts[..], &[4096, 65535, 65536, 65537][..]].concat() } else { counts.to_vec() };
    let mut lens = vec![64usize, 100, 127, 128, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1900, 1975, 2600, 3900, 3950, 4095, 4096, 5000, 7000, 7800, 7900];
    if th {
        lens.extend(1..300);
    }
    let pieces = ["n", "\u{e9}", "\u{4e2d}", "\u{1F600}", "; ", "a/b."];
    let (nc, nl) = (counts.len() as u64 * 7, lens.len() as u64 * pieces.len() as u64);
    group("long", (nc + nl) * modes.len() as u64, 0, move |x, o| {
        let mut r = Radix(o);
        let mode = *r.pick(modes);
        let w = rec(x, Env::Calm, Env::Calm, usize::MAX);
        if r.0 < nc {
            let n = *r.pick(&counts);
            let how = r.0;
            let ops: Vec<Op> = (0..n)
                .map(|i| match (how, i % 4) {
                    (0, _) | (6, 0) => text("a", "x"),
                    (1, _) | (6, 1) => text(&format!("n{}", i), ""),
                    (2, _) | (6, 2) => stream("s", Some(&format!("f{}", i)), None, &format!("{}", i)[..]),
                    (3, _) | (6, _) => file(&format!("f{}", i / 3), i % FILES.len()),
                    (4, k) => if k == 3 { file("f", i / 4 % FILES.len()) } else { text("t", "v") },
                    (_, k) => if k == 0 { text("t", "v") } else { file(&format!("{}", i), i % FILES.len()) },
                })
                .collect();
            // files stay open until they are sent
            if n > 300 && how >= 3 {
                return Ok(());
            }
            return request(x, &w, mode, &ops);
        }
        let mut r = Radix(r.0 - nc);
        let n = *r.pick(&lens);
        let p = *r.pick(&pieces);
        let mut s: String = p.chars().cycle().take(n).collect();
        if s.len() > 3 && s.is_ascii() {
            s.pop();
            s.push('z');
        }
        let how = x.all(5);
        // servers limit the size of headers
        if s.len() * if how == 4 { 2 } else { 1 } > 7900 {
            return Ok(());
        }
        let op = match how {
            0 => text(&s, "v"),
            1 => stream(&s, Some("f"), None, "v"),
            2 => stream("n", Some(&s), None, "v"),
            3 => file(&s, 0),
            _ => stream(&s, Some(&s), Some("image/png"), &s[..]),
        };
        request(x, &w, mode, &[op, text("z", "w")])
    })
}

/// Requests with large texts and streams.
fn bulky(modes: &'static [usize]) -> Group {
    let sizes = [65_535usize, 65_536, 65_537, 1 << 20, (1 << 20) + 1, (1 << 22) + 3];
    group("bulky", (sizes.len() * modes.len()) as u64 * 5, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&sizes);
        let mode = *r.pick(modes);
        let c = filler(n);
        let t = std::str::from_utf8(&c).unwrap();
        let ops = match r.0 {
            0 => vec![text("a", "first"), text("t", t), text("z", "last")],
            1 => vec![text("a", t), text("b", t), file("f", 0)],
            2 => vec![file("f", 1), text("t", t), file("g", 0), text("t", "v")],
            3 => vec![stream("s", Some("f"), None, &c), text("t", t)],
            _ => vec![stream("s", None, Some("text/plain"), &c), stream("s", Some("x"), None, "v"), file("f", 0)],
        };
        request(x, &rec(x, Env::Calm, Env::Calm, usize::MAX), mode, &ops)
    })
}

pub fn c08(th: bool) -> Vec<Group> {
    let mut g = vec![file_faults(false, 2, 0, th), long(&[0, 1], th), bulky(&[0, 1])];
    {
        let a = alphabet();
        let len = if th { 4 } else { 3 };
        let n = count_upto(a.len(), len);
        g.push(group("programs", n * 2, 0, move |x, o| {
            let mut r = Radix(o);
            let mode = r.take(2);
            let ops = seq(&a, len, r.0);
            let max = *x.pick(&[usize::MAX, 1, 7]);
            request(x, &rec(x, Env::Calm, Env::Calm, max), mode, &ops)
        }));
    }
    {
        let p = name_pieces(th);
        let len = 3;
        let n = count_upto(p.len(), len);
        g.push(group("names", n, 0, move |x, o| {
            let pieces: Vec<&[u8]> = p.iter().map(|s| s.as_bytes()).collect();
            let s = String::from_utf8(string_upto(&pieces, len, o)).unwrap();
            let op = match x.all(4) {
                0 => text(&s, "v"),
                1 => stream(&s, Some("f"), None, "v"),
                2 => stream("n", Some(&s), None, "v"),
                _ => stream(&s, Some(&s), None, "v"),
            };
            request(x, &rec(x, Env::Calm, Env::Calm, usize::MAX), 0, &[op, text("z", "w")])
        }));
    }
    {
        // names as characters: each of the first 0x3000, and the first and last of each 4096 others
        let mut blocks: Vec<u64> = (0..0x3000 / 64).collect();
        blocks.extend((0x3000 / 64..0x110000 / 64).filter(|b| th || b % 64 == 0 || b % 64 == 63));
        g.push(group("characters", blocks.len() as u64, 0, move |x, o| {
            let o = blocks[o as usize];
            for c in o * 64..(o + 1) * 64 {
                let c = match char::from_u32(c as u32) {
                    Some(c) if !c.is_control() && c != '"' => c,
                    _ => continue,
                };
                let s = format!("a{}b", c);
                let ops = [text(&s, "v"), stream("n", Some(&s), None, "v"), stream(&c.to_string(), Some(&c.to_string()), None, "v")];
                request(x, &rec(x, Env::Calm, Env::Calm, usize::MAX), 0, &ops)?;
            }
            Ok(())
        }));
    }
    {
        let contents: [&[u8]; 8] = [b"\r", b"\n", b"-", b"--", b"x", b"\r\n--", b"\0", b"\xff"];
        let len = if th { 4 } else { 3 };
        let n = count_upto(contents.len(), len);
        g.push(group("contents", n, 0, move |x, o| {
            let c = string_upto(&contents, len, o);
            let mode = x.all(2);
            let mut ops = vec![stream("s", None, None, &c), stream("s", Some("f"), Some("image/gif"), &c), text("z", "w")];
            if let Ok(s) = String::from_utf8(c) {
                ops.insert(1, text("t", &s));
            }
            request(x, &rec(x, Env::Calm, Env::Calm, usize::MAX), mode, &ops)
        }));
    }
    {
        let types = [
            "text/plain", "text/plain; charset=utf-8", "application/json", "image/svg+xml", "application/x-www-form-urlencoded",
            "video/mp4", "application/vnd.api+json", "text/plain; charset=us-ascii; format=flowed", "*/*", "font/woff2",
            "multipart/mixed", "multipart/form-data; boundary=x", "message/rfc822", "text/html", "x-a/x-b", "application/octet-stream",
        ];
        g.push(group("types", types.len() as u64 * FILES.len() as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let t = *r.pick(&types);
            let mode = x.all(3);
            request(x, &rec(x, Env::Calm, Env::Calm, usize::MAX), mode, &[stream("s", None, Some(t), "v"), file("f", r.0 as usize), stream("s", Some("x"), Some(t), "")])
        }));
    }
    {
        let a = small();
        let n = count_upto(a.len(), 3);
        let len = 3;
        g.push(group("rough", n * 2, if th { 3 } else { 2 }, move |x, o| {
            let mut r = Radix(o);
            let mode = r.take(2);
            let ops = seq(&a, len, r.0);
            request(x, &rec(x, Env::Rough, Env::Rough, usize::MAX), mode, &ops)
        }));
    }
    {
        let sizes: Vec<usize> = [0usize, 8192, 16384, 65536].iter().flat_map(|&b| (b.saturating_sub(2)..b + 3)).collect();
        g.push(group("large", sizes.len() as u64 * 2, 1, move |x, o| {
            let mut r = Radix(o);
            let n = *r.pick(&sizes);
            let ops = [stream("s", None, None, filler(n)), text("t", std::str::from_utf8(&filler(n)).unwrap())];
            request(x, &rec(x, Env::Rough, Env::Rough, usize::MAX), r.take(2), &ops)
        }));
    }
    g.push(crate::giant::send(th));
    g
}

/// The files being sent: opening and reading them fails, is interrupted or comes in pieces.
fn file_calls<T>(w: &Rec, hostile: bool, body: impl FnOnce() -> T) -> T {
    use crate::sys::{self, Act, Call};
    let top = disk().dir.parent().unwrap().to_path_buf();
    let x = &w.x;
    sys::armed(
        |op| {
            match op.call {
                Call::Open if sys::under(op, &top) => {}
                Call::Read if op.fd > 2 => {}
                _ => return Act::Pass,
            }
            if hostile {
                let a = sys::fault(x, op);
                match a {
                    Act::Fail(libc::EINTR) => {}
                    Act::Fail(e) => w.raise(Comp::Source, Some(sys::kind(e))),
                    _ => {}
                }
                return a;
            }
            let mut alts = vec![Act::Pass, Act::Fail(libc::EINTR)];
            if op.call == Call::Read && op.len > 1 {
                alts.extend([Act::Short(1), Act::Short(op.len / 2)]);
            }
            alts[x.dev(alts.len())]
        },
        body,
    )
}

fn file_ops() -> Vec<Op> {
    vec![file("f", 0), file("big", 1), file("e", 2), text("t", "v"), stream("s", Some("f"), None, "ab")]
}

/// Requests with files whose every open and read may go wrong.
fn file_faults(hostile: bool, modes: usize, from: usize, th: bool) -> Group {
    let a = file_ops();
    let n = count_upto(a.len(), 3);
    group("file-calls", n * modes as u64, if th { 3 } else { 2 }, move |x, o| {
        let mut r = Radix(o);
        let mode = from + r.take(modes);
        let ops = seq(&a, 3, r.0);
        let w = rec(x, Env::Calm, Env::Calm, usize::MAX);
        disk();
        file_calls(&w, hostile, || request(x, &w, mode, &ops))
    })
}

/// A source that fails once, at some call, and can be read on.
struct FailsOnce {
    data: Vec<u8>,
    pos: usize,
    piece: usize,
    left: usize,
    kind: ErrorKind,
}
impl Read for FailsOnce {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.left == 1 {
            self.left = 0;
            return Err(self.kind.into());
        }
        self.left = self.left.saturating_sub(1);
        let n = b.len().min(self.piece).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A source that failed is not taken as finished when the prepared request is read on.
fn retried(th: bool) -> Group {
    group("retried", ALL_KINDS.len() as u64 * 3 * 3, 0, move |x, o| {
        let mut r = Radix(o);
        let kind = *r.pick(&ALL_KINDS);
        let which = r.take(3);
        let piece = *r.pick(&[1000, 3, 1]);
        let size = *x.pick(&[0usize, 1, 5, 700]);
        let calls = (size + piece - 1) / piece + 1;
        let at = x.all(if th { calls } else { calls.min(9) });
        let ops: Vec<Op> = (0..3).map(|i| stream(["a", "b", "c"][i], None, None, filler(if i == which { size } else { 4 }))).collect();
        let mut mp = lazy::Multipart::new();
        mp.add_text("t", "v");
        for (i, op) in ops.iter().enumerate() {
            if let Op::Stream { name, data, .. } = op {
                let left = if i == which { at + 1 } else { 0 };
                mp.add_stream(&name[..], FailsOnce { data: data.to_vec(), pos: 0, piece, left, kind }, None::<&str>, None);
            }
        }
        let buf_len = *x.pick(&[4096usize, 2]);
        let mut p = mp.prepare().map_err(|e| Fail { key: "prepare".into(), msg: e.to_string() })?;
        let bnd = p.boundary().to_string();
        let (mut out, mut buf, mut failed) = (vec![], vec![0; buf_len], 0);
        loop {
            match p.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => out.extend_from_slice(&buf[..n]),
                Err(e) => {
                    ensure!(e.kind() == kind, "wrong-error", "{:?} instead of {:?}", e.kind(), kind);
                    failed += 1;
                    if failed > 1 {
                        // it may refuse to go on
                        return Ok(());
                    }
                }
            }
        }
        ensure!(failed == 1 || kind == ErrorKind::Interrupted, "hidden", "the failure of a source with {:?} is not reported", kind);
        let mut want: Vec<Got> = ops.iter().map(|o| o.sent()).collect();
        want.push(text("t", "v").sent());
        same_multiset(&out, &bnd, &want)?;
        x.state((kind as u8, at, size, piece));
        Ok(())
    })
}

/// Requests that go nowhere.
fn sink(th: bool) -> Group {
    let mut a = small();
    a.push(Op::Missing("m".into()));
    a.push(Op::Dir("d".into()));
    let len = if th { 4 } else { 3 };
    let n = count_upto(a.len(), len);
    group("sink", n * 3, 0, move |x, o| {
        let mut r = Radix(o);
        let mode = r.take(3);
        let ops = seq(&a, len, r.0);
        let bad = |o: &Op| matches!(o, Op::Missing(_) | Op::Dir(_));
        fn all<S: HttpStream<Error = io::Error>>(mut mp: Multipart<S>, ops: &[Op], bad: impl Fn(&Op) -> bool) -> Res {
            for op in ops {
                let ok = match op {
                    Op::Text(n, v) => mp.write_text(n, v).is_ok(),
                    Op::Stream { name, filename, ctype, data } => mp.write_stream(name, &mut &data[..], filename.as_deref(), mime_of(*ctype)).is_ok(),
                    _ => mp.write_file(op.name(), op.path()).is_ok(),
                };
                ensure!(ok != bad(op), "sink", "{}: success is {}", op.brief(), ok);
            }
            ensure!(mp.send().is_ok(), "sink", "sending failed");
            Ok(())
        }
        let e = |e: io::Error| Fail { key: "error".into(), msg: e.to_string() };
        match mode {
            0 => all(Multipart::from_request(()).map_err(e)?, &ops, bad)?,
            1 => all(Multipart::from_request_sized(()).map_err(e)?, &ops, bad)?,
            _ => {
                let ok = build_calm(&ops).send(()).is_ok();
                ensure!(ok != ops.iter().any(bad), "sink", "{}: success is {}", brief(&ops), ok);
            }
        }
        x.state(o);
        Ok(())
    })
}

pub fn c11(th: bool) -> Vec<Group> {
    let mut g = vec![file_faults(true, 3, 0, th), crate::web::broken_connections(th), crate::web::missing_files(th), retried(th), sink(th)];
    let mut a = small();
    a.push(stream("l", None, None, filler(8200)));
    a.push(Op::Missing("m".into()));
    a.push(Op::Dir("d".into()));
    {
        let a = a.clone();
        let len = if th { 5 } else { 4 };
        let n = count_upto(a.len(), len);
        g.push(group("one-failure", n * 3, 1, move |x, o| {
            let mut r = Radix(o);
            let mode = r.take(3);
            let ops = seq(&a, len, r.0);
            request(x, &rec(x, Env::Hostile, Env::Hostile, usize::MAX), mode, &ops)
        }));
    }
    {
        let len = if th { 3 } else { 2 };
        let n = count_upto(a.len(), len);
        let a = a.clone();
        g.push(group("two-events", n * 3, 2, move |x, o| {
            let mut r = Radix(o);
            let mode = r.take(3);
            let ops = seq(&a, len, r.0);
            request(x, &rec(x, Env::Hostile, Env::Hostile, usize::MAX), mode, &ops)
        }));
    }
    {
        let len = if th { 3 } else { 2 };
        let n = count_upto(a.len(), len);
        g.push(group("kinds", n * 3, if th { 2 } else { 1 }, move |x, o| {
            let mut r = Radix(o);
            let mode = r.take(3);
            let ops = seq(&a, len, r.0);
            request(x, &rec(x, Env::Every, Env::Every, usize::MAX), mode, &ops)
        }));
    }
    g
}

pub fn c10(th: bool) -> Vec<Group> {
    let mut g = vec![file_faults(false, 2, 1, th), long(&[1, 2], th), bulky(&[1, 2])];
    {
        let a = alphabet();
        let len = if th { 5 } else { 4 };
        let n = count_upto(a.len(), len);
        g.push(group("collections", n * 2, 0, move |x, o| {
            let mut r = Radix(o);
            let mode = 1 + r.take(2);
            let ops = seq(&a, len, r.0);
            let w = rec(x, Env::Calm, Env::Calm, usize::MAX);
            if mode == 2 && x.flag() {
                // prepared without sending
                x.log(|| format!("prepare {}", brief(&ops)));
                let mut mp = build(&w, &ops);
                let mut p = match mp.prepare() {
                    Ok(p) => p,
                    Err(e) => bail!("invented-error", "prepare failed: {:?}", e),
                };
                let len = p.content_len();
                let streams = ops.iter().any(|o| o.is_stream());
                ensure!(len.is_some() != streams, "length-presence", "declared length {:?} with {}", len, brief(&ops));
                let mut v = vec![];
                p.read_to_end(&mut v).map_err(|e| Fail { key: "invented-error".into(), msg: e.to_string() })?;
                ensure!(p.content_len() == len, "length-changed", "declared length {:?} changed to {:?}", len, p.content_len());
                x.state((v.len(), len));
                if let Some(len) = len {
                    ensure!(len == v.len() as u64, "length", "declared length {}, the body has {} bytes", len, v.len());
                }
                return Ok(());
            }
            request(x, &w, mode, &ops)
        }));
    }
    {
        // each name, filename, text and file length contributes
        let p = ["", "a", "\u{e9}", "\u{1F600};", "0123456789012345678901234567890123456789"];
        g.push(group("lengths", (p.len() * p.len() * (FILES.len() + 1)) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let (n, v, f) = (*r.pick(&p), *r.pick(&p), r.0 as usize);
            let mut ops = vec![text(n, v), text(v, n)];
            if f < FILES.len() {
                ops.push(file(n, f));
                ops.push(file(v, f));
            }
            let mode = 1 + x.all(2);
            request(x, &rec(x, Env::Calm, Env::Calm, usize::MAX), mode, &ops)
        }));
    }
    {
        // through the mock transport of the crate, which keeps what was declared
        let a = alphabet();
        let n = count_upto(a.len(), 2);
        g.push(group("mock", n * 3, 0, move |x, o| {
            use multipart::mock::ClientRequest;
            let mut r = Radix(o);
            let mode = r.take(3);
            let ops = seq(&a, 2, r.0);
            x.log(|| format!("mode {} {}", mode, brief(&ops)));
            let io = |e: io::Error| Fail { key: "invented-error".into(), msg: e.to_string() };
            fn write<S: HttpStream<Error = io::Error>>(mut mp: Multipart<S>, ops: &[Op]) -> io::Result<S::Response> {
                for op in ops {
                    match op {
                        Op::Text(n, v) => mp.write_text(n, v)?,
                        Op::Stream { name, filename, ctype, data } => mp.write_stream(name, &mut &data[..], filename.as_ref().map(|s| &s[..]), mime_of(*ctype))?,
                        _ => mp.write_file(op.name(), op.path())?,
                    };
                }
                mp.send()
            }
            let res = match mode {
                0 => write(Multipart::from_request(ClientRequest::default()).map_err(io)?, &ops),
                1 => write(Multipart::from_request_sized(ClientRequest::default()).map_err(io)?, &ops),
                _ => build_calm(&ops).send(ClientRequest::default()).map_err(|e| e.error),
            }
            .map_err(io)?;
            let streams = ops.iter().any(|o| o.is_stream());
            x.state((mode, res.buf.len(), res.content_len));
            let known = mode == 1 || mode == 2 && !streams;
            ensure!(res.content_len.is_some() == known, "length-presence", "declared length {:?}", res.content_len);
            if let Some(n) = res.content_len {
                ensure!(n == res.buf.len() as u64, "length", "declared length {}, the body has {} bytes", n, res.buf.len());
            }
            let srv = res.for_server();
            ensure!(srv.content_len == res.content_len && srv.boundary == res.boundary, "mock", "the server request declares {:?}", srv.content_len);
            let want: Vec<Got> = ops.iter().map(|o| o.sent()).collect();
            same_multiset(&res.buf, &res.boundary, &want)
        }));
    }
    g.push(crate::giant::prepared(th));
    g
}

// ------------------------------------------------------------------ C09: the prepared body

fn replace_all(v: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(v.len());
    let mut i = 0;
    while i < v.len() {
        if v[i..].starts_with(from) {
            out.extend_from_slice(to);
            i += from.len();
        } else {
            out.push(v[i]);
            i += 1;
        }
    }
    out
}

/// Prepare and read with `size(i)` bytes offered to the i-th read.
fn prepared(x: &X, ops: &[Op], w: &Rec, size: &mut dyn FnMut(usize) -> usize) -> Res<(Vec<u8>, String)> {
    let mut mp = build(w, ops);
    let mut p = match mp.prepare() {
        Ok(p) => p,
        Err(e) => bail!("invented-error", "prepare failed: {:?}", e),
    };
    let b = p.boundary().to_string();
    let mut out = vec![];
    let mut buf = vec![0u8; 70000];
    let (mut i, mut errs) = (0, 0);
    loop {
        let n = size(i);
        i += 1;
        match p.read(&mut buf[..n]) {
            Ok(0) if n == 0 => {}
            Ok(0) => break,
            Ok(k) => {
                ensure!(k <= n, "read-count", "read into {} bytes returned {}", n, k);
                out.extend_from_slice(&buf[..k]);
            }
            Err(e) if e.kind() == ErrorKind::Interrupted || (e.kind() == ErrorKind::WouldBlock && w.raised.borrow().is_some()) => errs += 1,
            Err(e) => bail!("invented-error", "reading the prepared body failed: {}", e),
        }
        ensure!(errs < 50, "error-repeats", "the same error is returned again and again");
        x.state((out.len(), n));
    }
    for n in [1, 100] {
        match p.read(&mut buf[..n]) {
            Ok(0) => {}
            r => bail!("after-end", "reading after the end of the prepared body returned {:?}", r),
        }
    }
    Ok((out, b))
}

fn c09_run(x: &X, key: u64, ops: &[Op], env: Env, size: &mut dyn FnMut(usize) -> usize) -> Res {
    x.log(|| format!("prepare {}", brief(ops)));
    let reference = x.cached(key, || {
        let w = rec(x, Env::Calm, Env::Calm, usize::MAX);
        crate::sys::quietly(|| prepared(x, ops, &w, &mut |_| 70000)).map(|(v, b)| replace_all(&v, b.as_bytes(), b"BOUNDARY"))
    });
    let want: Vec<Got> = ops.iter().map(|o| o.sent()).collect();
    let w = rec(x, Env::Calm, env, usize::MAX);
    let (v, b) = prepared(x, ops, &w, size)?;
    x.log(|| format!("body {}", show(&v[..v.len().min(400)])));
    same_multiset(&v, &b, &want)?;
    let v = replace_all(&v, b.as_bytes(), b"BOUNDARY");
    match &*reference {
        Ok(r) => ensure!(v == *r, "body-differs", "body differs from the one read at once: {} bytes and {} bytes", v.len(), r.len()),
        Err(f) => return Err(f.clone()),
    }
    Ok(())
}

pub fn c09(th: bool) -> Vec<Group> {
    let mut g = vec![long(&[2], th), bulky(&[2])];
    {
        // longer collections of few kinds
        let a = [text("t", "v"), stream("s", Some("f"), Some("image/png"), "abcdef"), file("f", 0), file("g", 1)];
        let len = if th { 8 } else { 6 };
        g.push(group("longer", 4u64.pow(len), 0, move |x, o| {
            let mut r = Radix(o);
            let ops: Vec<Op> = (0..len).map(|_| r.pick(&a).clone()).collect();
            c09_run(x, o, &ops, Env::Calm, &mut |_| 70000)
        }));
    }
    {
        let a = alphabet();
        let len = if th { 4 } else { 3 };
        let n = count_upto(a.len(), len);
        g.push(group("collections", n, 0, move |x, o| {
            let ops = seq(&a, len, o);
            let s = *x.pick(&[1usize, 13, 1000, 8192, 70000]);
            c09_run(x, o, &ops, Env::Calm, &mut |_| s)
        }));
    }
    {
        // every uniform read size on small collections
        let a = small();
        let n = count_upto(a.len(), 3);
        g.push(group("read-sizes", n, 0, move |x, o| {
            let ops = seq(&a, 3, o);
            let s = 1 + x.all(if th { 400 } else { 180 });
            c09_run(x, o, &ops, Env::Calm, &mut |_| s)
        }));
    }
    {
        // every sequence of three read sizes, then one
        let a = small();
        let n = count_upto(a.len(), 2);
        let sizes = [1usize, 2, 4, 19, 20, 21, 22, 64, 65, 100, 0, 8192];
        g.push(group("read-sequences", n * 3, 0, move |x, o| {
            let mut r = Radix(o);
            let rest = *r.pick(&[1usize, 23, 8192]);
            let ops = seq(&a, 2, r.0);
            let first: Vec<usize> = (0..if th { 4 } else { 3 }).map(|_| *x.pick(&sizes)).collect();
            x.log(|| format!("reads {:?} then {}", first, rest));
            c09_run(x, o, &ops, Env::Calm, &mut |i| *first.get(i).unwrap_or(&rest))
        }));
    }
    {
        // sources in pieces and interrupted
        let a = vec![
            text("t", "v"),
            stream("s", Some("f"), Some("image/png"), "abcdef"),
            stream("s2", None, None, "\r\n--"),
            stream("e", None, None, ""),
            stream("l", None, None, filler(8500)),
            file("f", 0),
        ];
        let n = count_upto(a.len(), 3);
        let sizes = [1usize, 5, 64, 110, 200, 8192, 20000];
        g.push(group("sources", n * sizes.len() as u64, if th { 3 } else { 2 }, move |x, o| {
            let mut r = Radix(o);
            let s = *r.pick(&sizes);
            let ops = seq(&a, 3, r.0);
            let total: usize = ops.iter().map(|o| o.sent().data.len()).sum();
            if total > 500 && s < if th { 100 } else { 8192 } {
                return Ok(());
            }
            c09_run(x, o, &ops, Env::Rough, &mut |_| s)
        }));
    }
    {
        // the files come in pieces and are interrupted
        let a = file_ops();
        let n = count_upto(a.len(), 3);
        let sizes = [70000usize, 8192, 1000, 130];
        g.push(group("file-calls", n * sizes.len() as u64, if th { 3 } else { 2 }, move |x, o| {
            let mut r = Radix(o);
            let s = *r.pick(&sizes);
            let ops = seq(&a, 3, r.0);
            let total: usize = ops.iter().map(|o| o.sent().data.len()).sum();
            if total > 500 && s < 1000 {
                return Ok(());
            }
            disk();
            let w = rec(x, Env::Calm, Env::Calm, usize::MAX);
            file_calls(&w, false, || c09_run(x, o, &ops, Env::Calm, &mut |_| s))
        }));
    }
    {
        // names, as for the streaming client
        let p = name_pieces(th);
        let len = if th { 3 } else { 2 };
        let n = count_upto(p.len(), len);
        g.push(group("names", n, 0, move |x, o| {
            let pieces: Vec<&[u8]> = p.iter().map(|s| s.as_bytes()).collect();
            let s = String::from_utf8(string_upto(&pieces, len, o)).unwrap();
            let ops = [text(&s, &s), stream(&s, Some("f"), None, "v"), stream("n", Some(&s), None, "v"), file(&s, 0)];
            let n = *x.pick(&[70000, 1]);
            c09_run(x, o, &ops, Env::Calm, &mut |_| n)
        }));
    }
    {
        let types = ["text/plain", "text/plain; charset=utf-8", "application/json", "multipart/mixed", "multipart/form-data; boundary=x", "message/rfc822", "*/*", "x-a/x-b", "application/octet-stream", "text/plain; charset=us-ascii; format=flowed"];
        g.push(group("types", types.len() as u64, 0, move |x, o| {
            let t = Some(types[o as usize]);
            let ops = [stream("s", None, t, "v"), text("t", "v"), stream("s", Some("x"), t, ""), file("f", 0)];
            let n = *x.pick(&[70000, 1]);
            c09_run(x, o, &ops, Env::Calm, &mut |_| n)
        }));
    }
    {
        // file metadata and content types
        g.push(group("files", (FILES.len() * FILES.len()) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let ops = [file("a", r.take(FILES.len())), file("b", r.0 as usize)];
            let s = *x.pick(&[70000, 8192, 100]);
            c09_run(x, o, &ops, Env::Calm, &mut |_| s)
        }));
        // the types a name, text and path may be given as
        g.push(group("argument-types", FILES.len() as u64 * 5, 0, move |x, o| {
            use std::borrow::Cow;
            let mut r = Radix(o);
            let op = file("a", r.take(FILES.len()));
            let p = op.path();
            let mut mp: lazy::Multipart<'static, 'static> = lazy::Multipart::new();
            match (r.take(5), p.to_str().map(String::from)) {
                (0, Some(s)) => mp.add_text("t", "1").add_file("a".to_string(), s),
                (1, Some(s)) => mp.add_text("t".to_string(), "1".to_string()).add_file("a", &*Box::leak(s.into_boxed_str())),
                (2, _) => mp.add_text(Cow::Borrowed("t"), Cow::Borrowed("1")).add_file(Cow::Borrowed("a"), &*Box::leak(p.into_boxed_path())),
                (3, _) => mp.add_text("t", Cow::Owned("1".to_string())).add_file(Cow::Owned("a".to_string()), p),
                _ => mp.add_text("t", "1").add_file("a", Cow::<std::path::Path>::Owned(p)),
            };
            let mut body = vec![];
            let mut prep = mp.prepare().map_err(|e| Fail { key: "prepare".into(), msg: e.to_string() })?;
            prep.read_to_end(&mut body).map_err(|e| Fail { key: "read".into(), msg: e.to_string() })?;
            let got = parse_body(&body, prep.boundary()).map_err(|e| Fail { key: "parse".into(), msg: e })?;
            let want = vec![text("t", "1").sent(), op.sent()];
            ensure!(got == want, "fields", "{:?} instead of {:?}", got.iter().map(|g| (&g.name, &g.filename, g.data.len())).collect::<Vec<_>>(), brief(&[op]));
            x.state(o);
            Ok(())
        }));
    }
    {
        // files which cannot be opened, at each position
        let mut a = small();
        a.push(Op::Missing("m".into()));
        a.push(Op::Missing("other \u{e9}".into()));
        let n = count_upto(a.len(), 3);
        g.push(group("missing", n, 0, move |x, o| {
            let ops = seq(&a, 3, o);
            let w = rec(x, Env::Calm, Env::Calm, usize::MAX);
            let bad = match ops.iter().find(|o| matches!(o, Op::Missing(_))) {
                None => return Ok(()),
                Some(b) => b,
            };
            x.log(|| format!("prepare {}", brief(&ops)));
            let mut mp = build(&w, &ops);
            x.step();
            match mp.prepare() {
                Ok(_) => bail!("file-error-lost", "prepared although a file is missing"),
                Err(e) => {
                    ensure!(e.error.kind() == ErrorKind::NotFound, "wrong-error", "error {:?}", e.error);
                    let named = e.field_name.as_ref().map(|n| n.to_string());
                    ensure!(
                        ops.iter().any(|o| matches!(o, Op::Missing(n) if Some(n) == named.as_ref())),
                        "error-field",
                        "the error is about field {:?}, the missing file belongs to {:?}",
                        named,
                        bad.name()
                    );
                    ensure!(e.to_string().contains(&format!("{:?}", named.unwrap())), "error-text", "the error does not name the field: {}", e);
                }
            }
            Ok(())
        }));
    }
    {
        // the same object makes several requests
        let a = small();
        let n = count_upto(a.len(), 2);
        g.push(group("reuse", n * n, 0, move |x, o| {
            let mut r = Radix(o);
            let first = seq(&a, 2, r.take(n as usize) as u64);
            let second = seq(&a, 2, r.0);
            let w = rec(x, Env::Calm, Env::Calm, usize::MAX);
            x.log(|| format!("prepare {} then {}", brief(&first), brief(&second)));
            let mut mp = build(&w, &first);
            for (k, ops) in [&first, &second].iter().enumerate() {
                if k == 1 {
                    for op in ops.iter() {
                        match op {
                            Op::Text(n, v) => mp.add_text(&n[..], &v[..]),
                            Op::Stream { name, filename, ctype, data } => {
                                let s = Src { w: w.clone(), data: data.clone(), pos: 0 };
                                mp.add_stream(&name[..], s, filename.as_ref().map(|s| &s[..]), mime_of(*ctype))
                            }
                            _ => mp.add_file(op.name(), std::borrow::Cow::<std::path::Path>::Owned(op.path())),
                        };
                    }
                }
                let mut p = match mp.prepare() {
                    Ok(p) => p,
                    Err(e) => bail!("invented-error", "prepare failed: {:?}", e),
                };
                let b = p.boundary().to_string();
                let mut v = vec![];
                if let Err(e) = p.read_to_end(&mut v) {
                    bail!("invented-error", "reading the prepared body failed: {}", e);
                }
                x.state((k, v.len()));
                let want: Vec<Got> = ops.iter().map(|o| o.sent()).collect();
                same_multiset(&v, &b, &want)?;
            }
            Ok(())
        }));
    }
    g
}
