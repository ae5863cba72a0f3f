//! Fields and files of more than 4 GiB, generated and checked on the fly: nothing that counts bytes
//! may do so in 32 bits, and nothing may grow with the amount of data.
use crate::env::*;
use crate::explore::*;
use crate::saves::{next_is, FileCap, World};
use crate::{bail, ensure};
use multipart::client::{lazy, HttpRequest, HttpStream, Multipart as Client};
use multipart::server::save::{PartialReason, SaveResult, SavedData};
use multipart::server::MultipartField;
use multipart::server::Multipart;
use std::cell::RefCell;
use std::io::{self, BufRead, Read, Write};
use std::rc::Rc;

const GIB4: u64 = 1 << 32;
/// a prime: the pattern meets every buffer at every offset
const P: usize = 65521;

/// Two periods of the pattern; look-alikes of the delimiter of boundary "bnd" are part of it.
fn roll() -> Rc<Vec<u8>> {
    let mut v = crate::parse::filler(P - 200);
    v.extend_from_slice(b"\r\r\n\r\n-\r\n--\r\n--b\r\n--bn\r\n--bnx--bn\r-\n--b\r\n\n\r");
    let n = P - v.len();
    v.extend(crate::parse::filler(n));
    let w = v.clone();
    v.extend(w);
    Rc::new(v)
}

struct Gen {
    x: X,
    head: Vec<u8>,
    n: u64,
    tail: Vec<u8>,
    at: u64,
    max: usize,
    roll: Rc<Vec<u8>>,
}
impl Read for Gen {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let h = self.head.len() as u64;
        let m = b.len().min(self.max);
        let k = if self.at < h {
            let r = &self.head[self.at as usize..];
            let k = m.min(r.len());
            b[..k].copy_from_slice(&r[..k]);
            k
        } else if self.at < h + self.n {
            let p = self.at - h;
            let o = (p % P as u64) as usize;
            let k = m.min(P).min((self.n - p).min(P as u64) as usize);
            b[..k].copy_from_slice(&self.roll[o..o + k]);
            if (p >> 27) != ((p + k as u64) >> 27) {
                self.x.alive();
            }
            k
        } else {
            let r = &self.tail[(self.at - h - self.n) as usize..];
            let k = m.min(r.len());
            b[..k].copy_from_slice(&r[..k]);
            k
        };
        self.at += k as u64;
        Ok(k)
    }
}

/// Counts and compares.
struct Check {
    at: u64,
    bad: Option<u64>,
    roll: Rc<Vec<u8>>,
}
impl Check {
    fn feed(&mut self, mut b: &[u8]) {
        while !b.is_empty() {
            let o = (self.at % P as u64) as usize;
            let k = b.len().min(P);
            if self.bad.is_none() && b[..k] != self.roll[o..o + k] {
                self.bad = Some(self.at);
            }
            self.at += k as u64;
            b = &b[k..];
        }
    }
    fn done(&self, n: u64, what: &str) -> Res {
        ensure!(self.bad.is_none(), "data", "{}: the content differs from what was sent within the piece starting at {}", what, self.bad.unwrap());
        ensure!(self.at == n, "length", "{}: {} bytes of {}", what, self.at, n);
        Ok(())
    }
}
impl Write for Check {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.feed(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn request(x: &X, n: u64, max: usize, roll: &Rc<Vec<u8>>) -> (Multipart<Gen>, Vec<Part>) {
    let z = Part::file("z", "f.txt", "text/plain", "the last field\r\n");
    let head = b"--bnd\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n".to_vec();
    let tail = b"\r\n--bnd\r\nContent-Disposition: form-data; name=\"z\"; filename=\"f.txt\"\r\nContent-Type: text/plain\r\n\r\nthe last field\r\n\r\n--bnd--".to_vec();
    let g = Gen { x: x.clone(), head, n, tail, at: 0, max, roll: roll.clone() };
    (Multipart::with_body(g, "bnd"), vec![Part::new("a", ""), z])
}

fn first<'a>(mp: &'a mut Multipart<Gen>) -> Res<MultipartField<&'a mut Multipart<Gen>>> {
    match mp.read_entry() {
        Ok(Some(f)) => {
            ensure!(&*f.headers.name == "a", "name", "the field is called {:?}", f.headers.name);
            Ok(f)
        }
        Ok(None) => fail("early-end", "no field"),
        Err(e) => fail("entry-error", format!("{}", e)),
    }
}

fn sizes(th: bool) -> Vec<u64> {
    let mut v = vec![GIB4 + 12345];
    if th {
        v.extend([GIB4 - 1, GIB4, (1 << 31) + 3]);
    }
    v
}

/// C01
pub fn read(th: bool) -> Group {
    let ns = sizes(th);
    group("giant", ns.len() as u64 * 3, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&ns);
        let style = r.take(3);
        let roll = roll();
        x.log(|| format!("a field of {} bytes, style {}", n, style));
        let (mut mp, parts) = request(x, n, 1 << 16, &roll);
        {
            let mut f = first(&mut mp)?;
            let mut c = Check { at: 0, bad: None, roll };
            let r = match style {
                0 => loop {
                    let k = match f.data.fill_buf() {
                        Ok(b) => {
                            c.feed(b);
                            b.len()
                        }
                        Err(e) => break Err(e),
                    };
                    if k == 0 {
                        break Ok(());
                    }
                    f.data.consume(k);
                },
                1 => {
                    let mut b = vec![0; 50_000];
                    loop {
                        match f.data.read(&mut b) {
                            Ok(0) => break Ok(()),
                            Ok(k) => c.feed(&b[..k]),
                            Err(e) => break Err(e),
                        }
                    }
                }
                _ => io::copy(&mut f.data, &mut c).map(|_| ()),
            };
            if let Err(e) = r {
                bail!("data-error", "reading failed after {} of {} bytes: {}", c.at, n, e);
            }
            c.done(n, "the field")?;
            x.state((o, c.at));
        }
        next_is(&mut mp, &parts, 1)
    })
}

/// C03
pub fn skip(th: bool) -> Group {
    let ns = sizes(th);
    group("giant", ns.len() as u64 * 3, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&ns);
        let first_bytes = *r.pick(&[0usize, 1, 100_000]);
        let roll = roll();
        let (mut mp, parts) = request(x, n, 1 << 16, &roll);
        x.log(|| format!("a field of {} bytes left after {}", n, first_bytes));
        {
            let mut f = first(&mut mp)?;
            let mut c = Check { at: 0, bad: None, roll };
            let mut b = vec![0; first_bytes];
            if let Err(e) = f.data.read_exact(&mut b) {
                bail!("data-error", "{}", e);
            }
            c.feed(&b);
            c.done(first_bytes as u64, "what was read of the field")?;
            x.state((o, c.at));
        }
        next_is(&mut mp, &parts, 1)
    })
}

fn limits(n: u64) -> [Option<u64>; 4] {
    [None, Some(GIB4 + 3), Some(u64::MAX - 1), Some(n)]
}

/// C23
pub fn copy(th: bool) -> Group {
    let ns = sizes(th);
    group("giant", ns.len() as u64 * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&ns);
        let lim = *r.pick(&limits(n));
        let roll = roll();
        let (mut mp, parts) = request(x, n, 1 << 16, &roll);
        x.log(|| format!("a field of {} bytes, limit {:?}", n, lim));
        {
            let mut f = first(&mut mp)?;
            let mut c = Check { at: 0, bad: None, roll };
            let r = {
                let mut b = f.data.save();
                b = match lim {
                    Some(l) => b.size_limit(l),
                    None => b.size_limit(None),
                };
                b.write_to(&mut c)
            };
            let want = lim.map_or(n, |l| l.min(n));
            x.log(|| format!("write_to() = {:?}", r));
            match r {
                SaveResult::Full(k) if want == n => ensure!(k == n, "count", "{} bytes reported", k),
                SaveResult::Partial(k, PartialReason::SizeLimit) if want < n => ensure!(k == want, "count", "{} bytes reported", k),
                r => bail!("outcome", "{} of {} bytes with limit {:?}: {:?}", c.at, n, lim, r),
            }
            c.done(want, "what the writer received")?;
            x.state((o, c.at));
            // the rest
            if let Err(e) = io::copy(&mut f.data, &mut c) {
                bail!("data-error", "{}", e);
            }
            c.done(n, "the writer's bytes and the rest")?;
        }
        next_is(&mut mp, &parts, 1)
    })
}

/// C12: the size of what was saved; the file is one which swallows everything.
pub fn save(th: bool) -> Group {
    let ns = sizes(th);
    group("giant", ns.len() as u64 * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&ns);
        let lim = *r.pick(&limits(n));
        let roll = roll();
        let (mut mp, parts) = request(x, n, 1 << 16, &roll);
        x.log(|| format!("a field of {} bytes, limit {:?}", n, lim));
        {
            let mut f = first(&mut mp)?;
            let r = {
                let mut b = f.data.save().memory_threshold(1000);
                b = b.mod_open_opts(|o| {
                    o.create_new(false);
                });
                b = match lim {
                    Some(l) => b.size_limit(l),
                    None => b.size_limit(None),
                };
                b.with_path("/dev/null")
            };
            let want = lim.map_or(n, |l| l.min(n));
            x.log(|| format!("with_path() = {:?}", r));
            match r {
                SaveResult::Full(SavedData::File(_, k)) if want == n => ensure!(k == n, "size", "saved {} of {} bytes", k, n),
                SaveResult::Partial(SavedData::File(_, k), PartialReason::SizeLimit) if want < n => ensure!(k == want, "size", "saved {} bytes with limit {}", k, want),
                r => bail!("outcome", "{} bytes with limit {:?}: {:?}", n, lim, r),
            }
            x.state((o, want));
            let mut c = Check { at: want, bad: None, roll };
            if let Err(e) = io::copy(&mut f.data, &mut c) {
                bail!("data-error", "{}", e);
            }
            c.done(n, "saved and the rest")?;
        }
        next_is(&mut mp, &parts, 1)
    })
}

// ------------------------------------------------------------------ client

/// What arrives at the server: text up to the first field's data, counted data, text.
struct Arrived {
    head: Vec<u8>,
    data: Check,
    n: u64,
    tail: Vec<u8>,
    boundary: String,
    len: Option<u64>,
    x: X,
}
struct Req(Rc<RefCell<Arrived>>);
impl HttpRequest for Req {
    type Stream = Req;
    type Error = io::Error;
    fn apply_headers(&mut self, b: &str, len: Option<u64>) -> bool {
        self.0.borrow_mut().boundary = b.into();
        self.0.borrow_mut().len = len;
        true
    }
    fn open_stream(self) -> io::Result<Req> {
        Ok(self)
    }
}
impl HttpStream for Req {
    type Request = Req;
    type Response = ();
    type Error = io::Error;
    fn finish(self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for Req {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().feed(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Arrived {
    fn new(x: &X, n: u64, roll: Rc<Vec<u8>>) -> Arrived {
        Arrived { head: vec![], data: Check { at: 0, bad: None, roll }, n, tail: vec![], boundary: String::new(), len: None, x: x.clone() }
    }
    fn feed(&mut self, mut b: &[u8]) {
        while !b.is_empty() && !self.head.ends_with(b"\r\n\r\n") {
            self.head.push(b[0]);
            b = &b[1..];
        }
        let k = b.len().min((self.n - self.data.at).min(1 << 30) as usize);
        if (self.data.at >> 27) != ((self.data.at + k as u64) >> 27) {
            self.x.alive();
        }
        self.data.feed(&b[..k]);
        if self.tail.len() < 10_000 {
            self.tail.extend_from_slice(&b[k..]);
        }
    }
    fn total(&self) -> u64 {
        (self.head.len() + self.tail.len()) as u64 + self.data.at
    }
    fn done(&self, rest: &[(&str, &str)]) -> Res {
        self.data.done(self.n, "the field on the wire")?;
        let h = String::from_utf8_lossy(&self.head);
        let d = format!("--{}", self.boundary);
        ensure!(h.trim_start().starts_with(&d[..]) && h.contains("form-data; name=\"a\""), "wire", "the request begins with {:?}", h);
        let mut whole = self.head.clone();
        whole.extend_from_slice(&self.tail);
        let mut mp = Multipart::with_body(&whole[..], self.boundary.clone());
        for &(name, data) in [("a", "")].iter().chain(rest) {
            let mut f = match mp.read_entry() {
                Ok(Some(f)) => f,
                _ => bail!("wire", "field {:?} cannot be read: {:?} ... {:?}", name, h, show(&self.tail)),
            };
            ensure!(*f.headers.name == *name, "wire", "name {:?}", f.headers.name);
            let mut v = vec![];
            let r = f.data.read_to_end(&mut v);
            ensure!(r.is_ok() && v == data.as_bytes(), "wire", "field {:?}: {:?} {:?}", name, r, show(&v));
        }
        next_is(&mut mp, &[], 0)
    }
}

/// C08: a stream through the client
pub fn send(th: bool) -> Group {
    let ns = sizes(th);
    group("giant", ns.len() as u64, 0, move |x, o| {
        let n = ns[o as usize];
        let roll = roll();
        let w = Rc::new(RefCell::new(Arrived::new(x, n, roll.clone())));
        let mut g = Gen { x: x.clone(), head: vec![], n, tail: vec![], at: 0, max: 1 << 16, roll };
        let r = (|| -> io::Result<()> {
            let mut c = Client::from_request(Req(w.clone()))?;
            c.write_stream("a", &mut g, None, None)?;
            c.write_text("z", "the last field")?;
            c.send()
        })();
        ensure!(r.is_ok(), "send-error", "{:?}", r);
        x.state((o, w.borrow().total()));
        let r = w.borrow().done(&[("z", "the last field")]);
        r
    })
}

/// C10: the length announced for a file, and what is read
pub fn prepared(th: bool) -> Group {
    let ns = sizes(th);
    group("giant", ns.len() as u64 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&ns);
        let send = r.take(2) == 1;
        let zeros = Rc::new(vec![0; 2 * P]);
        let w = World::fresh();
        let path = w.s.join("giant");
        {
            let _cap = FileCap::new(n);
            let f = std::fs::File::create(&path).unwrap();
            f.set_len(n).unwrap();
        }
        let a = Rc::new(RefCell::new(Arrived::new(x, n, zeros)));
        x.log(|| format!("a file of {} bytes, sent {}", n, send));
        let mut m = lazy::Multipart::new();
        m.add_file("a", path.clone());
        if send {
            let r = m.send(Req(a.clone()));
            ensure!(r.is_ok(), "send-error", "{:?}", r.err().map(|e| e.to_string()));
        } else {
            let mut p = match m.prepare() {
                Ok(p) => p,
                Err(e) => bail!("prepare", "{}", e),
            };
            {
                let mut a = a.borrow_mut();
                a.boundary = p.boundary().into();
                a.len = p.content_len();
            }
            let mut b = vec![0; 100_000];
            loop {
                match p.read(&mut b) {
                    Ok(0) => break,
                    Ok(k) => a.borrow_mut().feed(&b[..k]),
                    Err(e) => bail!("read-error", "{}", e),
                }
            }
        }
        let a = a.borrow();
        x.state((o, a.total()));
        ensure!(a.len == Some(a.total()), "content-length", "announced {:?}, {} bytes follow", a.len, a.total());
        a.done(&[])
    })
}
