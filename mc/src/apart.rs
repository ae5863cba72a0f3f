//! C28: several requests handled at once do not affect each other.
//!
//! One request is worked on; at every point where control leaves the crate (a read of its body, a
//! write to its sink, a file system call, the end of a call of the interface) the next steps of
//! another request may be run - on the same thread, or on another one which then waits. All ways
//! of placing the steps of the second request, up to a number of switches, are enumerated.
use crate::env::*;
use crate::explore::*;
use crate::parse::filler;
use crate::saves::*;
use crate::sys::{self, Act};
use crate::{bail, ensure};
use multipart::client::lazy;
use multipart::client::{self, HttpStream};
use multipart::server::save::{Entries, SaveDir, SaveResult, SavedData};
use multipart::server::{Multipart, MultipartField, ReadEntryResult};
use std::cell::RefCell;
use std::io::{self, BufRead, Read, Write};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::mpsc;

/// Called where control leaves the crate.
type Hook = Rc<dyn Fn()>;

struct HookedSource(Source, Hook);
impl Read for HookedSource {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        (self.1)();
        self.0.read(b)
    }
}
struct HookedSlice(Vec<u8>, usize, Hook);
impl Read for HookedSlice {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        (self.2)();
        let n = b.len().min(self.0.len() - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
struct Out {
    to: Rc<RefCell<Vec<u8>>>,
    boundary: Rc<RefCell<(String, Option<u64>)>>,
    hook: Hook,
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        (self.hook)();
        let n = b.len().min(1500);
        self.to.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl client::HttpRequest for Out {
    type Stream = Out;
    type Error = io::Error;
    fn apply_headers(&mut self, b: &str, n: Option<u64>) -> bool {
        *self.boundary.borrow_mut() = (b.into(), n);
        true
    }
    fn open_stream(self) -> io::Result<Out> {
        (self.hook)();
        Ok(self)
    }
}
impl HttpStream for Out {
    type Request = Out;
    type Response = ();
    type Error = io::Error;
    fn finish(self) -> io::Result<()> {
        Ok(())
    }
}

/// A request being handled.
trait Prog {
    /// One call of the interface; false when there is nothing more to do.
    fn step(&mut self) -> Res<bool>;
}

fn parts(who: usize) -> Vec<Part> {
    // the same shapes with different letters
    let c = if who == 0 { b'A' } else { b'a' };
    // the third and later ones are told apart by their numbers
    let tag = if who < 2 { String::new() } else { format!("{:06}", who) };
    let l = |n: usize| -> Vec<u8> { (0..n).map(|i| *tag.as_bytes().get(i).unwrap_or(&(c + ((i * i + i / 7 + who / 2) % 26) as u8))).collect() };
    let name = |i: u8| format!("{}{}", (c + i) as char, tag);
    vec![
        Part { name: name(0), filename: None, ctype: None, extra: String::new(), content: l(40) },
        Part { name: name(1), filename: Some(format!("{}.bin", name(5))), ctype: Some("image/png".into()), extra: String::new(), content: l(1400) },
        Part { name: name(2), filename: None, ctype: None, extra: String::new(), content: [&l(11)[..], "\u{e9}\u{20ac}".as_bytes(), &l(5)].concat() },
    ]
}

fn body(who: usize) -> Body {
    Body::new(if who == 0 { "boundary" } else { "Boundary-b" }, parts(who))
}

type Mp = Multipart<HookedSource>;
enum At {
    Mp(Mp),
    Field(MultipartField<Mp>, usize, Vec<u8>),
    Done,
}

fn open(who: usize, hook: &Hook) -> (Body, Mp) {
    let b = body(who);
    // buffers are shared out so that characters and delimiters fall across them
    let src = Source::new(b.bytes.clone()).max(if who == 0 { 700 } else { 643 });
    let mp = Multipart::with_body(HookedSource(src, hook.clone()), &b.boundary[..]);
    (b, mp)
}

fn next(at: Mp, b: &Body, i: usize) -> Res<At> {
    match at.into_entry() {
        ReadEntryResult::Entry(f) => {
            ensure!(i < b.parts.len(), "invented", "a field {:?} beyond the last", f.headers.name);
            check_headers(&f.headers, &b.parts[i], &format!("field {}", i))?;
            Ok(At::Field(f, i, vec![]))
        }
        ReadEntryResult::End(_) => {
            ensure!(i == b.parts.len(), "lost", "the request ended before field {}", i);
            Ok(At::Done)
        }
        ReadEntryResult::Error(_, e) => fail("error", format!("field {}: {}", i, e)),
    }
}

/// Reads fields piece by piece.
struct Reader {
    b: Body,
    at: At,
    how: usize,
}
impl Prog for Reader {
    fn step(&mut self) -> Res<bool> {
        let io = |e: io::Error| Fail { key: "error".into(), msg: format!("reading: {}", e) };
        self.at = match std::mem::replace(&mut self.at, At::Done) {
            At::Done => return Ok(false),
            At::Mp(mp) => next(mp, &self.b, 0)?,
            At::Field(mut f, i, mut v) => {
                let n = match self.how {
                    0 => {
                        let mut buf = [0u8; 600];
                        let n = f.data.read(&mut buf).map_err(io)?;
                        v.extend_from_slice(&buf[..n]);
                        n
                    }
                    1 => {
                        let n = {
                            let b = f.data.fill_buf().map_err(io)?;
                            v.extend_from_slice(b);
                            b.len()
                        };
                        f.data.consume(n);
                        n
                    }
                    _ => {
                        f.data.read_to_end(&mut v).map_err(io)?;
                        0
                    }
                };
                if n == 0 {
                    check_data(&v, &self.b.parts[i].content, &format!("field {}", i))?;
                    next(f.data.into_inner(), &self.b, i + 1)?
                } else {
                    At::Field(f, i, v)
                }
            }
        };
        Ok(true)
    }
}

/// Saves each field into a directory shared by all requests.
struct FieldSaver {
    b: Body,
    at: At,
    dir: Option<PathBuf>,
    saved: Vec<(SavedData, usize)>,
}
impl Prog for FieldSaver {
    fn step(&mut self) -> Res<bool> {
        self.at = match std::mem::replace(&mut self.at, At::Done) {
            At::Done => {
                for (d, i) in self.saved.drain(..) {
                    check_data(&stored(&d, 0)?, &self.b.parts[i].content, &format!("saved field {}", i))?;
                }
                return Ok(false);
            }
            At::Mp(mp) => next(mp, &self.b, 0)?,
            At::Field(mut f, i, _) => {
                let r = {
                    let mut s = f.data.save().memory_threshold(if i == 0 { 0 } else { 30 });
                    match self.dir {
                        Some(ref d) => s.with_dir(d),
                        None => s.temp(),
                    }
                };
                match r {
                    SaveResult::Full(d) => {
                        ensure!(d.is_memory() == (i == 2), "place", "field {} of {} bytes was saved as {}", i, self.b.parts[i].content.len(), same_kind(&d));
                        self.saved.push((d, i));
                    }
                    r => bail!("save", "saving field {} ended with {:?}", i, r),
                }
                next(f.data.into_inner(), &self.b, i + 1)?
            }
        };
        Ok(true)
    }
}

/// Saves the request as a whole.
struct Saver {
    b: Body,
    mp: Option<Mp>,
    api: usize,
    dir: PathBuf,
    got: Option<Entries>,
}
impl Prog for Saver {
    fn step(&mut self) -> Res<bool> {
        if let Some(mut mp) = self.mp.take() {
            let r = {
                let s = mp.save().memory_threshold(30);
                match self.api {
                    0 => s.temp(),
                    1 => s.with_dir(&self.dir),
                    _ => s.with_entries(Entries::new(SaveDir::Perm(self.dir.clone()))),
                }
            };
            match r {
                SaveResult::Full(e) => self.got = Some(e),
                SaveResult::Partial(_, r) => bail!("save", "saving ended with {:?}", r),
                SaveResult::Error(e) => bail!("save", "saving ended with {:?}", e),
            }
            return Ok(true);
        }
        if let Some(e) = self.got.take() {
            ensure!(e.fields_count() == 3 && e.fields.len() == 3, "fields", "{} fields under {} names", e.fields_count(), e.fields.len());
            for p in &self.b.parts {
                let v = match e.fields.get(&p.name[..]) {
                    Some(v) => v,
                    None => bail!("fields", "field {:?} is not there", p.name),
                };
                ensure!(v.len() == 1, "fields", "{} fields {:?}", v.len(), p.name);
                check_headers(&v[0].headers, p, "saved field")?;
                check_data(&stored(&v[0].data, 0)?, &p.content, "saved field")?;
            }
            return Ok(true);
        }
        Ok(false)
    }
}

fn sent(who: usize) -> Vec<Got> {
    parts(who)
        .into_iter()
        .map(|p| Got { ctype: p.ctype.or(if p.filename.is_some() { Some("application/octet-stream".into()) } else { None }), name: p.name, filename: p.filename, data: p.content })
        .collect()
}

/// Writes a request field by field.
struct Writer {
    who: usize,
    sized: bool,
    to: Rc<RefCell<Vec<u8>>>,
    boundary: Rc<RefCell<(String, Option<u64>)>>,
    hook: Hook,
    plain: Option<client::Multipart<Out>>,
    buffered: Option<client::Multipart<client::SizedRequest<Out>>>,
    i: usize,
}
impl Prog for Writer {
    fn step(&mut self) -> Res<bool> {
        let io = |e: io::Error| Fail { key: "error".into(), msg: format!("writing: {}", e) };
        let i = self.i;
        self.i += 1;
        let want = sent(self.who);
        if i == 0 {
            let req = Out { to: self.to.clone(), boundary: self.boundary.clone(), hook: self.hook.clone() };
            if self.sized {
                self.buffered = Some(client::Multipart::from_request_sized(req).map_err(io)?);
            } else {
                self.plain = Some(client::Multipart::from_request(req).map_err(io)?);
            }
            return Ok(true);
        }
        fn write<S: HttpStream<Error = io::Error>>(mp: &mut client::Multipart<S>, g: &Got, hook: &Hook) -> io::Result<()> {
            match g.ctype {
                None => mp.write_text(&g.name, std::str::from_utf8(&g.data).unwrap()).map(|_| ()),
                Some(ref c) => {
                    let mut s = HookedSlice(g.data.clone(), 0, hook.clone());
                    mp.write_stream(&g.name, &mut s, g.filename.as_ref().map(|s| &s[..]), Some(c.parse().unwrap())).map(|_| ())
                }
            }
        }
        if i <= want.len() {
            if let Some(ref mut mp) = self.plain {
                write(mp, &want[i - 1], &self.hook).map_err(io)?;
            }
            if let Some(ref mut mp) = self.buffered {
                write(mp, &want[i - 1], &self.hook).map_err(io)?;
            }
            return Ok(true);
        }
        if i == want.len() + 1 {
            if let Some(mp) = self.plain.take() {
                mp.send().map_err(io)?;
            }
            if let Some(mp) = self.buffered.take() {
                mp.send().map_err(io)?;
            }
            let v = self.to.borrow();
            let (ref b, n) = *self.boundary.borrow();
            ensure!(n.map_or(!self.sized, |n| n == v.len() as u64), "length", "declared {:?}, sent {}", n, v.len());
            crate::client::same_fields(&v, b, &want)?;
            return Ok(true);
        }
        Ok(false)
    }
}

/// Prepares a request and reads it.
struct Preparer {
    who: usize,
    hook: Hook,
    mp: Option<lazy::Multipart<'static, 'static>>,
    fields: Option<lazy::PreparedFields<'static>>,
    got: Vec<u8>,
    file: PathBuf,
    done: bool,
}
impl Preparer {
    fn want(&self) -> Vec<Got> {
        let mut w = sent(self.who);
        w.push(Got { name: "file".into(), filename: Some(format!("file{}.txt", self.who)), ctype: Some("text/plain".into()), data: filler(300 + self.who) });
        w
    }
}
impl Prog for Preparer {
    fn step(&mut self) -> Res<bool> {
        if self.done {
            return Ok(false);
        }
        if let Some(ref mut f) = self.fields {
            let mut b = [0u8; 800];
            match f.read(&mut b) {
                Ok(0) => {}
                Ok(n) => {
                    self.got.extend_from_slice(&b[..n]);
                    return Ok(true);
                }
                Err(e) => bail!("error", "reading the prepared body: {}", e),
            }
        }
        if let Some(f) = self.fields.take() {
            self.done = true;
            crate::client::same_multiset(&self.got, f.boundary(), &self.want())?;
            return Ok(false);
        }
        if let Some(ref mut mp) = self.mp {
            match mp.prepare() {
                Ok(f) => self.fields = Some(f),
                Err(e) => bail!("error", "prepare: {}", e.error),
            }
            return Ok(true);
        }
        let mut mp = lazy::Multipart::new();
        for g in self.want() {
            match g.ctype {
                None => {
                    mp.add_text(g.name, String::from_utf8(g.data).unwrap());
                }
                Some(_) if g.name == "file" => {
                    mp.add_file(g.name, self.file.clone());
                }
                Some(c) => {
                    mp.add_stream(g.name, HookedSlice(g.data, 0, self.hook.clone()), g.filename, Some(c.parse().unwrap()));
                }
            }
        }
        self.mp = Some(mp);
        Ok(true)
    }
}

const KINDS: usize = 11;

fn prog(k: usize, who: usize, hook: Hook, w: &World) -> Box<dyn Prog> {
    let file = w.s.join(format!("file{}.txt", who));
    if k >= 9 {
        std::fs::write(&file, filler(300 + who)).unwrap();
    }
    let shared = w.s.join("shared").join("deep");
    match k {
        0..=2 => {
            let (b, mp) = open(who, &hook);
            Box::new(Reader { b, at: At::Mp(mp), how: k })
        }
        3 | 4 => {
            let (b, mp) = open(who, &hook);
            Box::new(FieldSaver { b, at: At::Mp(mp), dir: if k == 3 { Some(shared) } else { None }, saved: vec![] })
        }
        5..=7 => {
            let (b, mp) = open(who, &hook);
            Box::new(Saver { b, mp: Some(mp), api: k - 5, dir: if k == 7 { w.s.join("shared") } else { shared }, got: None })
        }
        8 | 9 => Box::new(Writer { who, sized: k == 9, to: Default::default(), boundary: Default::default(), hook, plain: None, buffered: None, i: 0 }),
        _ => Box::new(Preparer { who, hook, mp: None, fields: None, got: vec![], file, done: false }),
    }
}

/// The second request: `step` runs its next step wherever it lives.
enum Other {
    Here(RefCell<Box<dyn Prog>>),
    There(mpsc::Sender<()>, mpsc::Receiver<Res<bool>>, Option<std::thread::JoinHandle<()>>),
}
impl Other {
    fn new(k: usize, who: usize, thread: bool, w: &World) -> Other {
        let quiet = || -> Hook { Rc::new(|| ()) };
        if !thread {
            return Other::Here(RefCell::new(prog(k, who, quiet(), w)));
        }
        let (go, wait) = mpsc::channel::<()>();
        let (tell, told) = mpsc::channel();
        let h = std::thread::spawn(move || {
            let mut p = prog(k, who, Rc::new(|| ()), &world());
            while wait.recv().is_ok() {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.step()));
                let r = r.unwrap_or_else(|_| fail("panic", "the other request panicked"));
                if tell.send(r).is_err() {
                    break;
                }
            }
        });
        Other::There(go, told, Some(h))
    }
    fn step(&self) -> Res<bool> {
        match *self {
            Other::Here(ref p) => match p.try_borrow_mut() {
                Ok(mut p) => p.step(),
                Err(_) => Ok(true),
            },
            Other::There(ref go, ref told, _) => {
                if go.send(()).is_err() {
                    return fail("panic", "the other thread is gone");
                }
                told.recv().unwrap_or_else(|_| fail("panic", "the other thread is gone"))
            }
        }
    }
}
impl Drop for Other {
    fn drop(&mut self) {
        if let Other::There(ref mut go, _, ref mut h) = *self {
            *go = mpsc::channel().0; // hang up
            if let Some(h) = h.take() {
                let _ = h.join();
            }
        }
    }
}

fn run(x: &X, ka: usize, kb: usize, thread: bool, most: usize) -> Res {
    let w = World::fresh();
    // a request that runs in a thread of its own
    let other = Rc::new(Other::new(kb, 1, thread, &w));
    let trouble: Rc<RefCell<Option<Fail>>> = Default::default();
    let steps = Rc::new(std::cell::Cell::new((0usize, true)));
    let switch: Rc<dyn Fn()> = {
        let (x, other, trouble, steps) = (x.clone(), other.clone(), trouble.clone(), steps.clone());
        Rc::new(move || {
            if !steps.get().1 || trouble.borrow().is_some() {
                return;
            }
            let n = x.dev(most + 1);
            for _ in 0..n {
                let (k, _) = steps.get();
                x.log(|| format!("  step {} of the other request", k));
                match sys::quietly(|| other.step()) {
                    Ok(more) => steps.set((k + 1, more)),
                    Err(f) => {
                        *trouble.borrow_mut() = Some(f);
                        return;
                    }
                }
                if !steps.get().1 {
                    return;
                }
            }
        })
    };
    let hook: Hook = switch.clone();
    let mut a = prog(ka, 0, hook, &w);
    let blame = |f: Fail, who: &str| -> Res { fail(&f.key, format!("{} request, interleaved with the other: {}", who, f.msg)) };
    let mut n = 0;
    loop {
        x.log(|| format!("step {} of the first request", n));
        let r = sys::armed(
            |op| {
                if sys::under(op, &w.s) || sys::under(op, &w.tmp) || (op.call == sys::Call::Write && op.fd > 2) {
                    switch();
                }
                Act::Pass
            },
            || a.step(),
        );
        if let Some(f) = trouble.borrow_mut().take() {
            return blame(f, "the second");
        }
        n += 1;
        x.state((n, steps.get().0));
        match r {
            Ok(true) => switch(),
            Ok(false) => break,
            Err(f) => return blame(f, "the first"),
        }
    }
    // the second request to its end
    let mut left = 0;
    while steps.get().1 {
        match other.step() {
            Ok(more) => steps.set((steps.get().0 + 1, more)),
            Err(f) => return blame(f, "the second"),
        }
        left += 1;
        assert!(left < 10_000);
    }
    if let Some(f) = trouble.borrow_mut().take() {
        return blame(f, "the second");
    }
    Ok(())
}

/// Many requests under way at once, their steps taken in turns.
fn many(x: &X, kinds: &dyn Fn(usize) -> usize, n: usize, thread: bool, order: usize) -> Res {
    let w = World::fresh();
    let reqs: Vec<Other> = (0..n).map(|i| Other::new(kinds(i), i + 2, thread, &w)).collect();
    let mut open = vec![true; n];
    let step = |i: usize, open: &mut Vec<bool>| -> Res {
        if open[i] {
            open[i] = reqs[i].step().map_err(|f| Fail { key: f.key, msg: format!("request {} of {} under way at once: {}", i, n, f.msg) })?;
        }
        Ok(())
    };
    let mut round = 0;
    while open.contains(&true) {
        x.state((round, n));
        match order {
            // in turns
            0 => (0..n).map(|i| step(i, &mut open)).collect::<Res>()?,
            // in turns, back and forth
            1 => (0..n).map(|i| step(if round % 2 == 0 { i } else { n - 1 - i }, &mut open)).collect::<Res>()?,
            // each one starts in the middle of the one before, the last finishes first
            2 => {
                for i in 0..n {
                    step(i, &mut open)?;
                    step(i, &mut open)?;
                }
                for i in (0..n).rev() {
                    while open[i] {
                        step(i, &mut open)?;
                    }
                }
            }
            // the first waits for all others
            _ => {
                step(0, &mut open)?;
                for i in 1..n {
                    while open[i] {
                        step(i, &mut open)?;
                    }
                }
            }
        }
        round += 1;
        assert!(round < 10_000);
    }
    Ok(())
}

/// A long life: files and boundaries by the thousands, of one thread or of several after each
/// other. No two files are the same one, no two boundaries are alike.
fn accumulated(x: &X, kind: usize, threads: usize, n: usize) -> Res {
    let w = World::fresh();
    let dir = w.s.join("d");
    let mut seen = std::collections::HashSet::new();
    for t in 0..threads {
        let (dir, per) = (dir.clone(), n / threads);
        let work = move || -> Result<Vec<String>, String> {
            let mut v = vec![];
            match kind {
                0 => {
                    for i in 0..per {
                        let body = format!("--b\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n{}\r\n--b--", i);
                        let mut mp = Multipart::with_body(body.as_bytes(), "b");
                        let mut f = mp.read_entry().map_err(|e| e.to_string())?.ok_or("no field")?;
                        match f.data.save().memory_threshold(0).with_dir(&dir) {
                            SaveResult::Full(SavedData::File(p, _)) => v.push(p.display().to_string()),
                            r => return Err(format!("save {} ended with {:?}", i, r)),
                        }
                    }
                }
                1 => {
                    let mut body = vec![];
                    for i in 0..per {
                        body.extend_from_slice(format!("--b\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n{}\r\n", i).as_bytes());
                    }
                    body.extend_from_slice(b"--b--");
                    let mut mp = Multipart::with_body(&body[..], "b");
                    match mp.save().memory_threshold(0).count_limit(None).with_dir(&dir) {
                        SaveResult::Full(e) => {
                            for (i, f) in e.fields.values().flatten().enumerate() {
                                match f.data {
                                    SavedData::File(ref p, _) if std::fs::read(p).ok() == Some(i.to_string().into_bytes()) => v.push(p.display().to_string()),
                                    ref d => return Err(format!("field {} is in {:?}", i, d)),
                                }
                            }
                        }
                        SaveResult::Partial(_, r) => return Err(format!("the save ended with {:?}", r)),
                        SaveResult::Error(e) => return Err(format!("the save ended with {:?}", e)),
                    }
                }
                _ => {
                    for i in 0..per {
                        let p = lazy::Multipart::new().add_text("a", i.to_string()).prepare().map_err(|e| e.to_string())?;
                        v.push(p.boundary().to_string());
                    }
                }
            }
            Ok(v)
        };
        let v = if threads == 1 { work() } else { std::thread::spawn(work).join().unwrap_or_else(|_| Err("panicked".into())) };
        for s in v.map_err(|e| Fail { key: "accumulated".into(), msg: e })? {
            ensure!(!seen.contains(&s), "repeated", "{:?} came up twice, in thread {} and before", s, t);
            seen.insert(s);
        }
        x.state((kind, t));
    }
    x.step();
    Ok(())
}

pub fn c28(th: bool) -> Vec<Group> {
    let k = KINDS as u64;
    vec![
        group("same-thread", k * k, if th { 3 } else { 2 }, move |x, o| {
            let mut r = Radix(o);
            run(x, r.take(KINDS), r.take(KINDS), false, if th { 4 } else { 3 })
        }),
        group("two-threads", k * k, if th { 3 } else { 2 }, move |x, o| {
            let mut r = Radix(o);
            let (ka, kb) = (r.take(KINDS), r.take(KINDS));
            fresh_thread(|| run(x, ka, kb, true, 3))
        }),
        group("many", (KINDS as u64 + 3) * 2, 0, move |x, o| {
            let mut r = Radix(o);
            let thread = r.take(2) == 1;
            let pattern = r.0 as usize;
            let n = *x.pick(if th { &[3, 10, 33, 100, 300] } else { &[3, 10, 33, 100] });
            let order = x.all(4);
            let kinds = move |i: usize| match pattern.checked_sub(KINDS) {
                None => pattern,
                Some(0) => i % KINDS,
                Some(1) => i / 2 % KINDS,
                Some(_) => [3, 7, 10][i % 3],
            };
            many(x, &kinds, n, thread, order)
        }),
        group("accumulated", 3 * 3, 0, move |x, o| {
            let mut r = Radix(o);
            let kind = r.take(3);
            let threads = *r.pick(&[1usize, 10, 1000]);
            accumulated(x, kind, threads, if th { 100_000 } else { 10_000 })
        }),
    ]
}
