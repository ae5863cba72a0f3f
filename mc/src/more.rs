//! C22-C24, C26: iteration styles, copying to writers, the tee, memory.
use crate::env::*;
use crate::explore::*;
use crate::parse::{filler, range};
use crate::saves::World;
use crate::{bail, ensure};
use multipart::mock::StdoutTee;
use multipart::server::save::{PartialReason, SaveResult};
use multipart::server::{Multipart, MultipartField, ReadEntry, ReadEntryResult};
use std::cell::{Cell, RefCell};
use std::io::{self, BufRead, ErrorKind, Read, Write};
use std::rc::Rc;

// ------------------------------------------------------------------ C22

#[derive(Clone, PartialEq, Debug)]
enum Ev {
    Field(String, Option<String>, Option<String>),
    Data(String),
    DataErr(ErrorKind),
    End,
    Err(ErrorKind, String),
}

/// How many ends or errors are looked at.
const TERMS: usize = 3;

struct Log {
    ev: Vec<Ev>,
    terms: usize,
    fields: usize,
    modes: Vec<usize>,
    /// up to which field which methods are used, instead of all of them in turn
    plan: Vec<(usize, usize, usize)>,
}

impl Log {
    fn new(modes: &[usize]) -> Log {
        Log { ev: vec![], terms: 0, fields: 0, modes: modes.to_vec(), plan: vec![] }
    }
    fn planned(&self) -> Option<&(usize, usize, usize)> {
        self.plan.iter().find(|p| self.fields < p.0).or(self.plan.last())
    }
    /// the next method of the request
    fn outer(&self, x: &X) -> usize {
        self.planned().map_or_else(|| x.all(4), |p| p.1)
    }
    /// the next method of a field
    fn inner(&self, x: &X) -> usize {
        self.planned().map_or_else(|| x.all(3), |p| p.2)
    }
    fn done(&self) -> bool {
        self.terms >= TERMS
    }
    fn end(&mut self) {
        self.ev.push(Ev::End);
        self.terms += 1;
    }
    fn err(&mut self, e: &io::Error) {
        self.ev.push(Ev::Err(e.kind(), e.to_string()));
        self.terms += 1;
    }
    /// A field was delivered: note it and read as much of it as its mode says.
    fn field<M: ReadEntry>(&mut self, f: &mut MultipartField<M>) {
        let h = headers_of(&f.headers);
        self.ev.push(Ev::Field(h.0, h.1, h.2));
        let mode = self.modes.get(self.fields).cloned().unwrap_or(2);
        self.fields += 1;
        let want = [0, 2, usize::MAX][mode];
        let mut v = vec![];
        let mut errs = 0;
        while v.len() < want {
            let mut b = [0u8; 5];
            let n = b.len().min(want - v.len());
            match f.data.read(&mut b[..n]) {
                Ok(0) => break,
                Ok(n) => v.extend_from_slice(&b[..n]),
                Err(e) => {
                    self.ev.push(Ev::DataErr(e.kind()));
                    errs += 1;
                    if errs == 5 {
                        break;
                    }
                }
            }
        }
        self.ev.push(Ev::Data(show(&v)));
    }
    /// Nothing may have been delivered that plain iteration would not have.
    fn check(&self, base: &[Ev], how: &str) -> Res {
        let n = self.ev.len();
        if n > base.len() || self.ev[..] != base[..n] {
            let d = self.ev.iter().zip(base).position(|(a, b)| a != b).unwrap_or(base.len().min(n));
            bail!(
                match self.ev.get(d) { Some(Ev::End) => "end", Some(Ev::Err(..)) => "error", Some(Ev::Field(..)) => "field", _ => "data" },
                "after {}: {:?} where calling read_entry() again and again gives {:?} (before: {:?})", how, self.ev.get(d), base.get(d), &self.ev[d.saturating_sub(3)..d]
            );
        }
        Ok(())
    }
}

/// Iterate from a field with the methods of fields, until the request is wanted back.
fn walk<M: ReadEntry>(x: &X, log: &mut Log, base: &[Ev], mut f: MultipartField<M>) -> Res<M>
where
    for<'a> &'a mut M: ReadEntry,
{
    log.field(&mut f);
    log.check(base, "the field's data")?;
    loop {
        x.state((log.ev.len(), 1));
        if log.done() {
            return Ok(f.data.into_inner());
        }
        match log.inner(x) {
            0 => {
                x.log(|| "next_entry()".into());
                match f.next_entry() {
                    ReadEntryResult::Entry(n) => {
                        f = n;
                        log.field(&mut f);
                    }
                    ReadEntryResult::End(m) => {
                        log.end();
                        log.check(base, "next_entry()")?;
                        return Ok(m);
                    }
                    ReadEntryResult::Error(m, e) => {
                        log.err(&e);
                        log.check(base, "next_entry()")?;
                        return Ok(m);
                    }
                }
                log.check(base, "next_entry()")?;
            }
            1 => {
                x.log(|| "next_entry_inplace()".into());
                let before = headers_of(&f.headers);
                let was = &f as *const MultipartField<M>;
                match f.next_entry_inplace() {
                    Ok(Some(n)) => {
                        ensure!(n as *const _ == was, "inplace", "next_entry_inplace() returned another field than itself");
                        log.field(&mut f);
                    }
                    Ok(None) => {
                        log.end();
                        let mut b = [0u8; 4];
                        let r = f.data.read(&mut b);
                        ensure!(matches!(r, Ok(0)), "after-end", "reading the field left after the end: {:?}", r);
                        ensure!(headers_of(&f.headers) == before, "inplace", "the field was changed by next_entry_inplace() at the end: {:?} was {:?}", f.headers, before);
                    }
                    Err(e) => {
                        log.err(&e);
                        ensure!(headers_of(&f.headers) == before, "inplace", "the field was changed by a failing next_entry_inplace(): {:?} was {:?}", f.headers, before);
                    }
                }
                log.check(base, "next_entry_inplace()")?;
            }
            _ => {
                x.log(|| "into_inner()".into());
                return Ok(f.data.into_inner());
            }
        }
    }
}

fn baseline(mut mp: Multipart<Source>, modes: &[usize]) -> Vec<Ev> {
    let mut log = Log::new(modes);
    while !log.done() {
        match Multipart::read_entry(&mut mp) {
            Ok(Some(mut f)) => log.field(&mut f),
            Ok(None) => log.end(),
            Err(e) => log.err(&e),
        }
    }
    log.ev
}

fn styles(x: &X, mp: Multipart<Source>, modes: &[usize], base: &[Ev]) -> Res {
    styles_(x, mp, Log::new(modes), base)
}

fn styles_(x: &X, mut mp: Multipart<Source>, mut log: Log, base: &[Ev]) -> Res {
    while !log.done() {
        x.state((log.ev.len(), 0));
        match log.outer(x) {
            0 => {
                x.log(|| "read_entry()".into());
                match Multipart::read_entry(&mut mp) {
                    Ok(Some(f)) => {
                        walk(x, &mut log, base, f)?;
                    }
                    Ok(None) => log.end(),
                    Err(e) => log.err(&e),
                }
                log.check(base, "read_entry()")?;
            }
            1 => {
                x.log(|| "into_entry()".into());
                match mp.into_entry() {
                    ReadEntryResult::Entry(f) => mp = walk(x, &mut log, base, f)?,
                    ReadEntryResult::End(m) => {
                        log.end();
                        mp = m;
                    }
                    ReadEntryResult::Error(m, e) => {
                        log.err(&e);
                        mp = m;
                    }
                }
                log.check(base, "into_entry()")?;
            }
            2 => {
                x.log(|| "foreach_entry()".into());
                let r = mp.foreach_entry(|mut f| log.field(&mut f));
                match r {
                    Ok(()) => log.end(),
                    Err(e) => log.err(&e),
                }
                log.check(base, "foreach_entry()")?;
            }
            _ => {
                x.log(|| "read_entry_mut()".into());
                match mp.read_entry_mut() {
                    ReadEntryResult::Entry(f) => {
                        walk(x, &mut log, base, f)?;
                    }
                    ReadEntryResult::End(m) => {
                        // handed back: can be used again at once
                        log.end();
                        if !log.done() && x.flag() {
                            match m.read_entry() {
                                Ok(Some(mut f)) => log.field(&mut f),
                                Ok(None) => log.end(),
                                Err(e) => log.err(&e),
                            }
                        }
                    }
                    ReadEntryResult::Error(m, e) => {
                        log.err(&e);
                        if !log.done() && x.flag() {
                            match m.read_entry() {
                                Ok(Some(mut f)) => log.field(&mut f),
                                Ok(None) => log.end(),
                                Err(e) => log.err(&e),
                            }
                        }
                    }
                }
                log.check(base, "read_entry_mut()")?;
            }
        }
    }
    Ok(())
}

fn c22_parts(k: usize) -> Vec<Part> {
    let all = [Part::new("a", "one"), Part::file("b", "f.txt", "text/plain", "two\r\n-"), Part::new("a", ""), Part::typed("c", Some("image/png"), "\r\n\r\n4")];
    all[..k].to_vec()
}

/// What plain iteration must deliver from an intact body.
fn expect(parts: &[Part], modes: &[usize]) -> Vec<Ev> {
    let mut v = vec![];
    for (i, p) in parts.iter().enumerate() {
        v.push(Ev::Field(p.name.clone(), p.filename.clone(), p.ctype.clone()));
        let n = [0, 2, usize::MAX][modes[i]].min(p.content.len());
        v.push(Ev::Data(show(&p.content[..n])));
    }
    v.extend((0..TERMS).map(|_| Ev::End));
    v
}

fn modes_of(r: &mut Radix, k: usize) -> Vec<usize> {
    (0..k).map(|_| r.take(3)).collect()
}

pub fn c22(th: bool) -> Vec<Group> {
    let mut g = vec![];
    let kmax = if th { 4 } else { 3 };
    g.push(group("intact", (kmax as u64 + 1) * 2 * 3u64.pow(kmax as u32), 0, move |x, o| {
        let mut r = Radix(o);
        let k = r.take(kmax + 1);
        let pre = r.take(2) == 1;
        let modes = modes_of(&mut r, kmax);
        if modes[k..].iter().any(|&m| m > 0) {
            return Ok(());
        }
        let body = x.cached(o, || Body::full("b", if pre { b"preamble\r\n" } else { b"" }, c22_parts(k), b"\r\nepilogue"));
        let max = *x.pick(&[usize::MAX, 1]);
        let mk = || Multipart::with_body(Source::new(body.bytes.clone()).max(max), "b");
        let want = expect(&body.parts, &modes);
        let base = baseline(mk(), &modes);
        let mut l = Log::new(&modes);
        l.ev = base.clone();
        ensure!(base == want, "plain", "read_entry() gives {:?}, the request holds {:?}", base, want);
        styles(x, mk(), &modes, &want)
    }));
    // many fields: each method, and each method after each other
    {
        let counts: &'static [usize] = if th { &[4, 5, 8, 9, 15, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4096] } else { &[4, 8, 9, 16, 17, 64, 65, 128, 255, 256, 257, 300] };
        g.push(group("many", counts.len() as u64 * 3 * 12, 0, move |x, o| {
            let mut r = Radix(o);
            let n = *r.pick(counts);
            let mode = r.take(3);
            let first = r.0 as usize;
            let second = x.all(13);
            let mut plan = vec![(usize::MAX, first / 3, first % 3)];
            if second > 0 {
                plan.insert(0, (*x.pick(&[1, n / 2, n - 1]), (second - 1) / 3, (second - 1) % 3));
            }
            let body = x.cached(0, || {
                let all = c22_parts(4);
                Body::new("b", (0..n).map(|i| Part { name: format!("{}{}", all[i % 4].name, i / 2), ..all[i % 4].clone() }).collect())
            });
            let modes = vec![mode; n];
            let mk = || Multipart::with_body(Source::new(body.bytes.clone()), "b");
            let base = baseline(mk(), &modes);
            let want = expect(&body.parts, &modes);
            ensure!(base == want, "plain", "read_entry() gives {} events, the request holds {}", base.len(), want.len());
            let mut log = Log::new(&modes);
            log.plan = plan;
            styles_(x, mk(), log, &want)
        }));
    }
    // cut off anywhere
    {
        let sample = Body::full("b", b"", c22_parts(2), b"");
        let n = sample.bytes.len();
        g.push(group("truncated", n as u64 * 9, 0, move |x, o| {
            let mut r = Radix(o);
            let modes = modes_of(&mut r, 2);
            let cut = r.0 as usize;
            let body = x.cached(0, || Body::full("b", b"", c22_parts(2), b""));
            let mk = || Multipart::with_body(Source::new(body.bytes.clone()).truncated(cut), "b");
            let base = baseline(mk(), &modes);
            ensure!(cut >= body.end || base.iter().find(|e| matches!(e, Ev::End | Ev::Err(..))).map_or(false, |e| matches!(e, Ev::Err(..))), "false-end", "cut at {}: {:?}", cut, base);
            styles(x, mk(), &modes, &base)
        }));
    }
    // malformed
    {
        let bad: Vec<Vec<u8>> = {
            let f = |n: &str| format!("Content-Disposition: form-data; name=\"{}\"\r\n\r\n", n);
            let heads = ["\r\n", "X: y\r\n\r\n", "Content-Disposition: attachment; name=\"q\"\r\n\r\n", "Content-Disposition: form-data\r\n\r\n", "garbage\r\n\r\n", "Content-Disposition: form-data; name=\"q\"\r\nContent-Type: ?\r\n\r\n", "Content-Disposition: form-data; name=\"q\""];
            let mut v: Vec<String> = vec![];
            for h in heads {
                v.push(format!("--b\r\n{}one\r\n--b\r\n{}two\r\n--b\r\n{}three\r\n--b--\r\n", f("a"), h, f("c")));
                v.push(format!("--b\r\n{}one\r\n--b\r\n{}two\r\n--b--\r\n", h, f("a")));
                v.push(format!("--b\r\n{}one\r\n--b\r\n{}two\r\n--b--\r\n", f("a"), h));
            }
            for t in ["xx", "\n\n", "-x", "", "\r", "--x", "  \r\n"] {
                v.push(format!("--b\r\n{}one\r\n--b{}{}two\r\n--b--\r\n", f("a"), t, f("c")));
                v.push(format!("--b{}{}two\r\n--b--\r\n", t, f("c")));
            }
            v.push("".into());
            v.push("no delimiter at all".into());
            v.push(format!("{}{}", filler(1100).iter().map(|&b| b as char).collect::<String>(), "\r\n--b--"));
            v.into_iter().map(String::into_bytes).collect()
        };
        let nb = bad.len();
        g.push(group("malformed", nb as u64 * 9, 0, move |x, o| {
            let mut r = Radix(o);
            let b = r.take(nb);
            let mut modes = modes_of(&mut r, 2);
            modes.push(0);
            let data = x.cached(o, || bad[b].clone());
            let max = *x.pick(&[usize::MAX, 1]);
            x.log(|| format!("body {}", show(&data)));
            let mk = || Multipart::with_body(Source::bytes(&data).max(max), "b");
            let base = baseline(mk(), &modes);
            styles(x, mk(), &modes, &base)
        }));
    }
    // failing transport
    {
        let sample = Body::full("b", b"", c22_parts(2), b"");
        let n = sample.bytes.len() + 1;
        let kinds = [ErrorKind::Interrupted, ErrorKind::TimedOut, ErrorKind::UnexpectedEof];
        let ms: [[usize; 2]; 4] = [[0, 0], [1, 1], [2, 2], [0, 2]];
        g.push(group("faults", n as u64 * 3 * 4, 0, move |x, o| {
            let mut r = Radix(o);
            let modes = *r.pick(&ms);
            let kind = *r.pick(&kinds);
            let pos = r.0 as usize;
            let body = x.cached(0, || Body::full("b", b"", c22_parts(2), b""));
            let twice = x.flag();
            let mk = || {
                let mut f = vec![Fault { pos, kind }];
                if twice {
                    f.push(f[0]);
                }
                Multipart::with_body(Source::new(body.bytes.clone()).faults(f), "b")
            };
            let base = baseline(mk(), &modes);
            styles(x, mk(), &modes, &base)
        }));
    }
    // the transport can be looked at at any time
    g.push(group("borrowed", 4 * 3, 0, move |x, o| {
        use std::borrow::Borrow;
        struct Tagged {
            data: Vec<u8>,
            given: usize,
            max: usize,
            told: Rc<Cell<usize>>,
        }
        impl Read for Tagged {
            fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                let n = b.len().min(self.max).min(self.data.len() - self.given);
                b[..n].copy_from_slice(&self.data[self.given..self.given + n]);
                self.given += n;
                self.told.set(self.given);
                Ok(n)
            }
        }
        let mut r = Radix(o);
        let max = *r.pick(&[usize::MAX, 1000, 7, 1]);
        let len = *r.pick(&[0usize, 10, 9000]);
        let body = Body::new("bnd", vec![Part::new("a", filler(len)), Part::new("b", "x")]);
        let told = Rc::new(Cell::new(0));
        let mut mp = Multipart::with_body(Tagged { data: body.bytes.to_vec(), given: 0, max, told: told.clone() }, "bnd");
        let check = |mp: &Multipart<Tagged>, when: &str| -> Res {
            let t: &Tagged = mp.borrow();
            ensure!(t.given == told.get() && Rc::ptr_eq(&t.told, &told) && t.data == *body.bytes, "borrow", "{}: the transport has delivered {} bytes, the one lent {}", when, told.get(), t.given);
            Ok(())
        };
        check(&mp, "at first")?;
        let takes = [x.all(4), x.all(4)];
        for (i, take) in takes.into_iter().enumerate() {
            let e = |e: io::Error| Fail { key: "error".into(), msg: e.to_string() };
            {
                let mut f = match Multipart::read_entry(&mut mp).map_err(e)? {
                    Some(f) => f,
                    None => bail!("missing", "field {} is missing", i),
                };
                let mut buf = [0; 50];
                match take {
                    0 => {}
                    1 => drop(f.data.read(&mut buf).map_err(e)?),
                    2 => drop(f.data.fill_buf().map_err(e)?.len()),
                    _ => drop(f.data.read_to_end(&mut vec![]).map_err(e)?),
                }
            }
            check(&mp, "behind a field")?;
        }
        match mp.into_entry() {
            ReadEntryResult::End(mp) => check(&mp, "at the end")?,
            _ => bail!("end", "no end"),
        }
        x.state((o, takes));
        Ok(())
    }));
    // turning results into other types
    const KINDS: [io::ErrorKind; 8] = [
        io::ErrorKind::TimedOut,
        io::ErrorKind::WouldBlock,
        io::ErrorKind::UnexpectedEof,
        io::ErrorKind::InvalidData,
        io::ErrorKind::ConnectionReset,
        io::ErrorKind::BrokenPipe,
        io::ErrorKind::Other,
        io::ErrorKind::NotFound,
    ];
    /// Fails with the kind once all is read.
    struct Ends(&'static [u8], Option<io::ErrorKind>);
    impl Read for Ends {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            match self.1 {
                Some(k) if self.0.is_empty() => Err(k.into()),
                _ => self.0.read(b),
            }
        }
    }
    const ERRORS: [&[u8]; 5] = [b"--bxx", b"", b"--b\r\n", b"--b\r\nX: y\r\n\r\nv\r\n--b--", b"--b\r\nContent-Disposition: form-data\r\n\r\nv\r\n--b--"];
    let errors = ERRORS.len() + 3 * KINDS.len();
    g.push(group("results", 3 * (2 + errors as u64), 0, move |x, o| {
        let mut r = Radix(o);
        let how = r.take(3);
        let which = r.take(2 + errors);
        let (bytes, kind): (&[u8], _) = match which {
            0 => (b"--b\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\nv\r\n--b--\r\n", None),
            1 => (b"--b--\r\n", None),
            i if i < 2 + ERRORS.len() => (ERRORS[i - 2], None),
            i => {
                let i = i - 2 - ERRORS.len();
                ([&b""[..], b"--b", b"--b\r\nContent-Di"][i % 3], Some(KINDS[i / 3]))
            }
        };
        let which = which.min(2);
        let method = x.all(7);
        let mut own = Multipart::with_body(Ends(bytes, kind), "b");
        if let (2, 0, Some(k)) = (which, method, kind) {
            let got = match how {
                0 => own.read_entry_mut().into_result().err(),
                1 => own.into_entry().into_result().err(),
                _ => ReadEntry::read_entry(&mut own).into_result().err(),
            };
            ensure!(got.as_ref().map(|e| e.kind()) == Some(k), "kind", "{:?} instead of {:?}", got, k);
            return Ok(());
        }
        let out: Result<Option<(String, String)>, String> = if how == 0 {
            turn(method, own.read_entry_mut())
        } else if how == 1 {
            turn(method, own.into_entry())
        } else {
            turn(method, ReadEntry::read_entry(&mut own))
        };
        let entry = Ok(Some(("n".to_string(), "v".to_string())));
        x.state((which, method));
        let ok = match (which, method) {
            (0, _) => out == entry,
            (1, 0) | (1, 4) | (1, 5) => out == Ok(None),
            (2, 0) => matches!(out, Err(ref m) if m.starts_with("error ")),
            (1, 1) => matches!(out, Err(ref m) if m.contains("panicked")),
            (1, 2) => matches!(out, Err(ref m) if m.contains("panicked") && m.contains("expected so")),
            (1, 3) => matches!(out, Err(ref m) if m.contains("panicked") && m.contains("was end") && !m.contains("was error")),
            (2, 2) | (2, 5) => matches!(out, Err(ref m) if m.contains("panicked") && m.contains("expected so")),
            (2, 3) => matches!(out, Err(ref m) if m.contains("panicked") && m.contains("was error") && !m.contains("was end")),
            (2, _) => matches!(out, Err(ref m) if m.contains("panicked")),
            (_, _) => out == Ok(None),
        };
        ensure!(ok || method == 6, "conversion", "{} result, conversion {}: {:?}", ["Entry", "End", "Error"][which], ["into_result", "unwrap", "expect", "expect_alt", "unwrap_opt", "expect_opt", "match"][method], out);
        Ok(())
    }));
    g
}

fn turn<M: ReadEntry>(method: usize, r: ReadEntryResult<M>) -> Result<Option<(String, String)>, String> {
    let name = |f: MultipartField<M>| {
        let mut f = f;
        let d = slurp(&mut f, 0).unwrap();
        (f.headers.name.to_string(), String::from_utf8(d).unwrap())
    };
    if method == 0 {
        return r.into_result().map(|o| o.map(name)).map_err(|e| format!("error {}", e));
    }
    let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match method {
        1 => Some(r.unwrap()),
        2 => Some(r.expect("expected so")),
        3 => Some(r.expect_alt("was end", "was error")),
        4 => r.unwrap_opt(),
        5 => r.expect_opt("expected so"),
        _ => match r {
            ReadEntryResult::Entry(f) => Some(f),
            _ => None,
        },
    }));
    match p {
        Ok(o) => Ok(o.map(name)),
        Err(e) => Err(format!("panicked {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

// ------------------------------------------------------------------ C23

struct Sink {
    x: X,
    out: Rc<RefCell<Vec<u8>>>,
    max: usize,
    refused: Rc<Cell<Option<ErrorKind>>>,
    hostile: bool,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let full = b.len().min(self.max);
        let c = self.x.dev(if self.hostile { 7 } else { 4 });
        let n = match c {
            0 => full,
            1 => 1,
            2 => (full + 1) / 2,
            3 => return Err(io::Error::new(ErrorKind::Interrupted, InjectedError)),
            4 => {
                self.refused.set(Some(ErrorKind::WriteZero));
                self.x.log(|| "  the writer accepts nothing".into());
                return Ok(0);
            }
            c => {
                let k = [ErrorKind::WouldBlock, ErrorKind::BrokenPipe][c - 5];
                self.refused.set(Some(k));
                self.x.log(|| format!("  the writer fails with {:?}", k));
                return Err(io::Error::new(k, InjectedError));
            }
        };
        self.x.log(|| format!("  the writer takes {} of {} bytes", n, b.len()));
        self.out.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Copy a field to a writer, again after every failure or limit, then read what is left.
fn copy_run(x: &X, body: &Body, src: Source, faults: Vec<Fault>, lim: Option<u64>, max: usize, hostile: bool) -> Res {
    let content = &body.parts[0].content;
    let stat = src.stat.clone();
    let src = src.faults(faults.clone());
    let mut own = Multipart::with_body(src, &body.boundary[..]);
    let mut f = loop {
        match own.read_entry_mut() {
            ReadEntryResult::Entry(f) => break f,
            ReadEntryResult::End(_) => bail!("early-end", "no field"),
            ReadEntryResult::Error(_, e) => {
                ensure!(stat.raised.get() > 0, "entry-error", "{}", e);
                return Ok(()); // C06's business
            }
        }
    };
    let out = Rc::new(RefCell::new(vec![]));
    let refused = Rc::new(Cell::new(None));
    let mut stop = false;
    for attempt in 0..4 {
        let before = out.borrow().len();
        let left = (content.len() - before) as u64;
        refused.set(None);
        let pending: Vec<Fault> = stat.faults.borrow().clone();
        let sink = Sink { x: x.clone(), out: out.clone(), max, refused: refused.clone(), hostile };
        let r = {
            let mut b = f.data.save();
            b = match lim {
                Some(l) => b.size_limit(l),
                None => b.size_limit(None),
            };
            if x.flag() {
                b.write_to(sink)
            } else {
                let mut s = sink;
                b.write_to(&mut s)
            }
        };
        x.log(|| format!("attempt {}: write_to() = {:?}", attempt, r));
        let now = out.borrow();
        ensure!(now.len() <= content.len() && now[..] == content[..now.len()], "data", "attempt {}: the writer received {} of {}", attempt, show(&now), show(content));
        let got = (now.len() - before) as u64;
        let after = stat.faults.borrow().clone();
        let raised: Option<ErrorKind> = {
            let mut gone: Vec<ErrorKind> = pending.iter().map(|f| f.kind).collect();
            for f in &after {
                if let Some(i) = gone.iter().position(|k| *k == f.kind) {
                    gone.remove(i);
                }
            }
            gone.into_iter().find(|k| *k != ErrorKind::Interrupted)
        };
        x.state((attempt, now.len(), stat.pos.get()));
        let count = |n: u64| -> Res {
            ensure!(n == got, "count", "attempt {}: {} bytes reported, the writer received {}", attempt, n, got);
            Ok(())
        };
        match (r, refused.get(), raised) {
            (SaveResult::Partial(n, PartialReason::IoError(e)), Some(k), _) => {
                count(n)?;
                ensure!(e.kind() == k, "error", "the writer failed with {:?}, {:?} is reported", k, e);
            }
            (r, Some(k), _) => bail!("refused", "the writer failed with {:?}, write_to() = {:?}", k, r),
            (SaveResult::Partial(n, PartialReason::IoError(e)), None, Some(k)) => {
                count(n)?;
                ensure!(e.kind() == k, "error", "the transport failed with {:?}, {:?} is reported", k, e);
            }
            (SaveResult::Error(e), None, Some(k)) => {
                count(0)?;
                ensure!(e.kind() == k, "error", "the transport failed with {:?}, {:?} is reported", k, e);
            }
            (r, None, Some(k)) => bail!("hidden", "the transport failed with {:?}, write_to() = {:?}", k, r),
            (SaveResult::Full(n), None, None) => {
                count(n)?;
                ensure!(got == left, "early-end", "complete after {} of {} bytes", got, left);
                ensure!(lim.map_or(true, |l| l >= left), "over-limit", "complete with {} bytes and limit {:?}", left, lim);
                stop = true;
            }
            (SaveResult::Partial(n, PartialReason::SizeLimit), None, None) => {
                count(n)?;
                ensure!(lim.map_or(false, |l| l < left && got == l), "limit", "stopped at the limit {:?} after {} of {} bytes", lim, got, left);
                if lim == Some(0) {
                    stop = true;
                }
            }
            (r, None, None) => bail!("outcome", "nothing failed, write_to() = {:?}", r),
        }
        if stop {
            break;
        }
    }
    // the rest is still unread
    let out = out.borrow();
    let mut rest = vec![];
    loop {
        let mut b = [0u8; 600];
        match f.data.read(&mut b) {
            Ok(0) => break,
            Ok(n) => rest.extend_from_slice(&b[..n]),
            Err(_) => ensure!(rest.len() < content.len() + 10, "data-error", "endless errors"),
        }
    }
    check_data(&rest, &content[out.len()..], "the rest of the field after write_to()")?;
    let mut m = f.data.into_inner();
    loop {
        match ReadEntry::read_entry(m) {
            ReadEntryResult::Entry(mut n) => {
                check_headers(&n.headers, &body.parts[1], "next field")?;
                if stat.faults.borrow().is_empty() {
                    check_data(&slurp(&mut n, 0).unwrap_or_default(), &body.parts[1].content, "next field")?;
                }
                return Ok(());
            }
            ReadEntryResult::End(_) => bail!("early-end", "the next field is missing"),
            ReadEntryResult::Error(mm, e) => {
                ensure!(faults.iter().any(|f| f.kind == e.kind()), "next-error", "next field: {}", e);
                m = mm;
            }
        }
    }
}

pub fn c23(th: bool) -> Vec<Group> {
    let mut g = vec![];
    let lens: [usize; 9] = [0, 1, 2, 5, 1000, 1024, 1030, 3000, 9000];
    let mk = |len: usize, tail: &str| Body::new("edge", vec![Part::new("a", [&filler(len.saturating_sub(tail.len()))[..], tail.as_bytes()].concat()), Part::new("z", "tail")]);
    // limits around everything, hostile writer
    g.push(group("writer", 9 * 4 * 4 * 8, if th { 4 } else { 3 }, move |x, o| {
        let mut r = Radix(o);
        let len = *r.pick(&lens);
        let max = *r.pick(&[usize::MAX, 1, 700, 1024]);
        let rmax = *r.pick(&[usize::MAX, 1, 100, 1024]);
        let li = r.take(8);
        if (max == 1 && len > 5) || (rmax == 1 && len > 1100) {
            return Ok(());
        }
        let lims: [Option<u64>; 8] = [None, Some(0), Some(1), Some((len as u64).saturating_sub(1)), Some(len as u64), Some(len as u64 + 1), Some(1024), Some(u64::MAX - 1)];
        let body = x.cached(o, || mk(len, "\r\n-"));
        copy_run(x, &body, Source::new(body.bytes.clone()).max(rmax), vec![], lims[li], max, true)
    }));
    // writers taking one byte at a time
    g.push(group("bytewise", 9 * 5, 1, move |x, o| {
        let mut r = Radix(o);
        let len = *r.pick(&lens[..7]);
        if len > 1100 {
            return Ok(());
        }
        let lims: [Option<u64>; 5] = [None, Some(1), Some((len as u64).saturating_sub(1)), Some(len as u64), Some(7)];
        let lim = *r.pick(&lims);
        let body = x.cached(o, || mk(len, "\r"));
        copy_run(x, &body, Source::new(body.bytes.clone()), vec![], lim, 1, true)
    }));
    // the transport fails or interrupts as well
    g.push(group("transport", 6 * 3 * 4 * 2, if th { 2 } else { 1 }, move |x, o| {
        let mut r = Radix(o);
        let kind = *r.pick(&KINDS);
        let len = *r.pick(&[5usize, 1030, 3000]);
        let max = *r.pick(&[usize::MAX, 700, 1, 1024]);
        let limited = r.take(2) == 1;
        if max == 1 && len > 5 {
            return Ok(());
        }
        let body = x.cached(o, || mk(len, "x"));
        let (_, s, e) = body.at[0];
        let mut pos: Vec<usize> = vec![s, s + 1, s + 3, e - 1, e, e + 1, e + 2, e + 5, e + 8];
        if len > 5 {
            pos.extend([s + 700, s + 1000, s + 1020, s + 1024, s + 1025, 1024, 1500, 2048, e - 1024]);
            if th {
                pos.extend(range(e - 30, e + 10));
            }
        }
        pos.sort();
        pos.dedup();
        let a = x.all(pos.len());
        let second = x.all(3);
        let mut f = vec![Fault { pos: pos[a], kind }];
        if second == 1 {
            f.push(f[0]);
        } else if second == 2 {
            f.push(Fault { pos: pos[(a + 3) % pos.len()], kind: ErrorKind::Interrupted });
        }
        let lim = if limited { Some(*x.pick(&[1u64, 4, 1000, len as u64 - 1, len as u64])) } else { None };
        copy_run(x, &body, Source::new(body.bytes.clone()), f, lim, max, true)
    }));
    // splits near the delimiter
    g.push(group("splits", 4 * 3, 1, move |x, o| {
        let mut r = Radix(o);
        let tail = *r.pick(&["\r", "\r\n", "\r\n--edg", "x"]);
        let max = *r.pick(&[usize::MAX, 700, 1024]);
        let body = x.cached(o, || mk(1060, tail));
        let (_, _, e) = body.at[0];
        let cuts = x.subset(&range(e - 10, e + 12), if th { 3 } else { 2 });
        let lim = *x.pick(&[None, Some(1060u64), Some(1059), Some(1055), Some(1)]);
        copy_run(x, &body, Source::new(body.bytes.clone()).cuts(cuts), vec![], lim, max, false)
    }));
    g.push(crate::giant::copy(th));
    g
}

// ------------------------------------------------------------------ C24

/// Standard output redirected to an anonymous file while alive.
pub struct Capture {
    saved: i32,
    file: std::fs::File,
}
impl Capture {
    pub fn new() -> Capture {
        use std::os::unix::io::FromRawFd;
        io::stdout().flush().unwrap();
        unsafe {
            let fd = libc::memfd_create(b"stdout\0".as_ptr() as *const _, 0);
            assert!(fd >= 0, "memfd");
            let saved = libc::dup(1);
            assert!(saved >= 0 && libc::dup2(fd, 1) == 1);
            Capture { saved, file: std::fs::File::from_raw_fd(fd) }
        }
    }
    pub fn get(&self) -> Vec<u8> {
        use std::os::unix::fs::FileExt;
        let n = self.file.metadata().unwrap().len() as usize;
        let mut v = vec![0; n];
        self.file.read_exact_at(&mut v, 0).unwrap();
        v
    }
}
impl Drop for Capture {
    fn drop(&mut self) {
        let _ = io::stdout().flush();
        unsafe {
            libc::dup2(self.saved, 1);
            libc::close(self.saved);
        }
    }
}

fn tee_write<W: Write>(x: &X, tee: &mut W, data: &[u8], how: usize) -> io::Result<()> {
    match how {
        0 => tee.write_all(data),
        1 => {
            // one call at a time, counting
            let mut at = 0;
            while at < data.len() {
                match tee.write(&data[at..]) {
                    Ok(0) => return Err(io::Error::new(ErrorKind::WriteZero, "accepted nothing")),
                    Ok(n) => {
                        x.log(|| format!("  write() of {} bytes = {}", data.len() - at, n));
                        at += n
                    }
                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(e) => return Err(e),
                }
            }
            Ok(())
        }
        2 => io::copy(&mut &data[..], tee).map(|_| ()),
        _ => tee.write_fmt(format_args!("{}", std::str::from_utf8(data).unwrap())),
    }
}

pub fn c24(th: bool) -> Vec<Group> {
    let mut g = vec![];
    let sizes: [usize; 11] = [0, 1, 2, 1022, 1023, 1024, 1025, 2048, 2049, 3100, 9000];
    let chunk = move |size: usize, nl: &[usize]| -> Vec<u8> {
        let mut v = filler(size);
        for &p in nl {
            v[p] = b'\n';
        }
        v
    };
    let places = move |size: usize| -> Vec<usize> {
        let mut v: Vec<usize> = [0usize, 1, size / 2, size.wrapping_sub(1), size.wrapping_sub(2), size.wrapping_sub(1024), size.wrapping_sub(1025), size.wrapping_sub(1026), 1023, 1024].iter().cloned().filter(|&p| p < size).collect();
        v.sort();
        v.dedup();
        v
    };
    let run = |x: &X, parts: &[Vec<u8>], how: usize, max: usize, flush: bool, hostile: bool| -> Res {
        let cap = Capture::new();
        let out = Rc::new(RefCell::new(vec![]));
        let refused = Rc::new(Cell::new(None));
        let mut want: Vec<u8> = vec![];
        let mut res = Ok(());
        {
            let stdout = io::stdout();
            let sink = Sink { x: x.clone(), out: out.clone(), max, refused: refused.clone(), hostile };
            let mut tee = StdoutTee::new(sink, &stdout);
            for p in parts {
                x.log(|| format!("writing {}", show(p)));
                res = tee_write(x, &mut tee, p, how);
                want.extend_from_slice(p);
                x.state((how, want.len(), out.borrow().len()));
                if res.is_err() {
                    break;
                }
                if flush {
                    tee.flush().map_err(|e| Fail { key: "flush".into(), msg: e.to_string() })?;
                    let o = cap.get();
                    ensure!(o == want, "flush", "after a flush standard output has {} of {}", show(&o), show(&want));
                }
            }
            if res.is_ok() {
                tee.flush().map_err(|e| Fail { key: "flush".into(), msg: e.to_string() })?;
            }
        }
        let _ = io::stdout().flush();
        let o = cap.get();
        drop(cap);
        let inner = out.borrow();
        match (res, refused.get()) {
            (Ok(()), None) => {
                ensure!(inner[..] == want[..], "inner", "the wrapped writer received {} instead of {}", show(&inner), show(&want));
                ensure!(o == want, "stdout", "standard output received {} instead of {}", show(&o), show(&want));
            }
            (Err(e), None) => bail!("error", "nothing failed, but writing reports {}", e),
            (Ok(()), Some(k)) => bail!("hidden", "the wrapped writer failed with {:?}, success is reported", k),
            (Err(e), Some(k)) => {
                // io::copy and write_fmt may wrap the error
                ensure!(e.kind() == k || how == 3, "error", "the wrapped writer failed with {:?}, {:?} is reported", k, e);
                ensure!(want.starts_with(&inner), "inner", "the wrapped writer received {} of {}", show(&inner), show(&want));
                ensure!(want.starts_with(&o), "stdout", "standard output received {} of {}", show(&o), show(&want));
            }
        }
        Ok(())
    };
    g.push(group("one", 11 * 4 * 3, 1, move |x, o| {
        let mut r = Radix(o);
        let size = *r.pick(&sizes);
        let how = r.take(4);
        let max = *r.pick(&[usize::MAX, 700, 1]);
        if max == 1 && size > 2 {
            return Ok(());
        }
        let nl = x.subset(&places(size), 3);
        run(x, &[chunk(size, &nl)], how, max, false, true)
    }));
    g.push(group("two", 11 * 11 * 3, if th { 1 } else { 0 }, move |x, o| {
        let mut r = Radix(o);
        let (a, b) = (*r.pick(&sizes), *r.pick(&sizes));
        let how = r.take(3);
        let na = x.subset(&places(a), if th { 2 } else { 1 });
        let nb = x.subset(&places(b), if th { 2 } else { 1 });
        let flush = x.flag();
        let max = *x.pick(&[usize::MAX, 700]);
        run(x, &[chunk(a, &na), chunk(b, &nb)], how, max, flush, th)
    }));
    g.push(group("three", 5 * 5 * 5, 0, move |x, o| {
        let mut r = Radix(o);
        let s = [1usize, 600, 1024, 1100, 2100];
        let v: Vec<usize> = (0..3).map(|_| *r.pick(&s)).collect();
        let parts: Vec<Vec<u8>> = v.iter().map(|&n| chunk(n, &x.subset(&[0, n / 2, n - 1], 1))).collect();
        let how = x.all(3);
        run(x, &parts, how, usize::MAX, x.flag(), false)
    }));
    // far larger than any buffer
    let large = [65535usize, 65536, 65537, 100_000, 1 << 20, (1 << 20) + 1];
    g.push(group("large", 6 * 4 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let size = *r.pick(&large);
        let how = r.take(4);
        let twice = r.take(2) == 1;
        let nl = x.subset(&[0, 65534, 65535, size - 1].iter().cloned().filter(|&p| p < size).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>(), if th { 4 } else { 2 });
        let max = *x.pick(&[usize::MAX, 70_000, 65536, 1500]);
        let c = chunk(size, &nl);
        let mut parts = vec![c.clone()];
        if twice {
            parts.push(c);
        }
        run(x, &parts, how, max, x.flag(), false)
    }));
    // every way in which the system can refuse a write to standard output
    g.push(group("stdout-errors", 133 * 5, 0, move |x, o| {
        use crate::sys::{self, Act, Call};
        let mut r = Radix(o);
        let errno = 1 + r.take(133) as i32;
        let n = *r.pick(&[1usize, 600, 1024, 2100, 5000]);
        // standard output closed by the parent is to be ignored, says the standard library
        if errno == libc::EBADF || errno == libc::EINTR {
            return Ok(());
        }
        let p = chunk(n, &x.subset(&[0, n - 1][..n.min(2)], 1));
        let how = x.all(3);
        let cap = Capture::new();
        let out = Rc::new(RefCell::new(vec![]));
        let mut hit = false;
        let mut told = vec![];
        {
            let stdout = io::stdout();
            let sink = Sink { x: x.clone(), out: out.clone(), max: usize::MAX, refused: Rc::new(Cell::new(None)), hostile: false };
            let mut tee = StdoutTee::new(sink, &stdout);
            sys::armed(
                |op| {
                    if op.call != Call::Write || op.fd != 1 || hit {
                        return Act::Pass;
                    }
                    hit = true;
                    Act::Fail(errno)
                },
                || {
                    told.extend(tee_write(x, &mut tee, &p, how).err());
                    told.extend(tee.flush().err());
                },
            );
        }
        let _ = io::stdout().flush();
        drop(cap);
        x.log(|| format!("errno {}: {:?}", errno, told));
        ensure!(hit, "harness", "nothing was written to standard output");
        ensure!(!told.is_empty(), "hidden", "standard output failed with {}, success is reported", io::Error::from_raw_os_error(errno));
        ensure!(told[0].kind() == sys::kind(errno), "error", "standard output failed with {:?}, {:?} is reported", sys::kind(errno), told);
        ensure!(out.borrow()[..] == p[..out.borrow().len().min(p.len())], "inner", "the wrapped writer received {} of {}", show(&out.borrow()), show(&p));
        x.state((errno, n, how));
        Ok(())
    }));
    // a wrapped writer that keeps everything until it is flushed, which may fail
    g.push(group("flush", 5 * 4, 0, move |x, o| {
        struct Held<'a> {
            x: X,
            pending: Vec<u8>,
            flushes: usize,
            out: &'a RefCell<Vec<u8>>,
            failed: &'a Cell<Option<ErrorKind>>,
        }
        impl<'a> Write for Held<'a> {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                self.pending.extend_from_slice(b);
                Ok(b.len())
            }
            fn flush(&mut self) -> io::Result<()> {
                self.flushes += 1;
                let k = match self.x.all(if self.flushes == 1 { ALL_KINDS.len() + 3 } else { 3 }) {
                    0 => None,
                    k => Some([&[ErrorKind::Other, ErrorKind::Interrupted], &ALL_KINDS[..]].concat()[k - 1]),
                };
                self.failed.set(k);
                if let Some(k) = self.failed.get() {
                    self.x.log(|| format!("  flush of the wrapped writer fails with {:?}", k));
                    return Err(k.into());
                }
                self.out.borrow_mut().append(&mut self.pending);
                Ok(())
            }
        }
        let mut r = Radix(o);
        let s = [0usize, 1, 600, 1024, 2100];
        let size = *r.pick(&s);
        let how = r.take(4);
        let cap = Capture::new();
        let out = RefCell::new(vec![]);
        let failed = Cell::new(None);
        let mut want = vec![];
        let stdout = io::stdout();
        let mut tee = StdoutTee::new(Held { x: x.clone(), pending: vec![], flushes: 0, out: &out, failed: &failed }, &stdout);
        for round in 0..2 {
            let p = chunk(size, &x.subset(&places(size)[..1.min(size)], 1));
            want.extend_from_slice(&p);
            tee_write(x, &mut tee, &p, how).map_err(|e| Fail { key: "write".into(), msg: e.to_string() })?;
            let mut tries = 0;
            loop {
                failed.set(Some(ErrorKind::NotFound));
                match (tee.flush(), failed.get()) {
                    (Ok(()), None) => break,
                    (Ok(()), Some(ErrorKind::NotFound)) => bail!("flush", "flush() does not flush the wrapped writer"),
                    (Ok(()), Some(k)) => bail!("flush", "the wrapped writer failed to flush with {:?}, success is reported", k),
                    (Err(e), Some(k)) if e.kind() == k => {}
                    (Err(e), k) => bail!("flush", "flush() reports {}, the wrapped writer {:?}", e, k),
                }
                tries += 1;
                if tries == 3 {
                    return Ok(());
                }
            }
            let (o, inner) = (cap.get(), out.borrow());
            ensure!(o == want, "stdout", "after a flush standard output has {} of {}", show(&o), show(&want));
            ensure!(inner[..] == want[..], "inner", "after a flush the wrapped writer has {} of {}", show(&inner), show(&want));
            x.state((size, how, round, tries));
        }
        Ok(())
    }));
    // standard output refuses everything
    g.push(group("full", 5 * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let s = [0usize, 1, 600, 1024, 2100];
        let size = *r.pick(&s);
        let how = r.take(4);
        let nl = x.subset(&places(size), 1);
        let p = chunk(size, &nl);
        let cap = Capture::new();
        let full = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
        let memfd = unsafe { libc::dup(1) };
        let out = Rc::new(RefCell::new(vec![]));
        let stdout = io::stdout();
        let (w, f) = {
            let sink = Sink { x: x.clone(), out: out.clone(), max: usize::MAX, refused: Rc::new(Cell::new(None)), hostile: false };
            let mut tee = StdoutTee::new(sink, &stdout);
            unsafe { libc::dup2(std::os::unix::io::AsRawFd::as_raw_fd(&full), 1) };
            let w = tee_write(x, &mut tee, &p, how);
            let f = tee.flush();
            unsafe {
                libc::dup2(memfd, 1);
                libc::close(memfd);
            }
            (w, f)
        };
        // what standard output still keeps goes to the memory file
        let _ = io::stdout().flush();
        drop(cap);
        x.log(|| format!("writing {}: {:?}, flush {:?}", show(&p), w, f));
        ensure!(size == 0 || w.is_err() || f.is_err(), "hidden", "standard output takes nothing, success is reported");
        ensure!(p.starts_with(&out.borrow()) || out.borrow().starts_with(&p), "inner", "the wrapped writer received {} of {}", show(&out.borrow()), show(&p));
        x.state((size, how, nl));
        Ok(())
    }));
    // every write to standard output is short, interrupted or fails
    g.push(group("stdout-calls", 6 * 6 * 3, if th { 3 } else { 2 }, move |x, o| {
        use crate::sys::{self, Act, Call};
        let mut r = Radix(o);
        let s = [0usize, 1, 3, 600, 1024, 2100];
        let parts: Vec<Vec<u8>> = (0..2)
            .map(|_| {
                let n = *r.pick(&s);
                chunk(n, &x.subset(&places(n), 1))
            })
            .collect();
        let how = r.take(3);
        let flush = x.flag();
        let cap = Capture::new();
        let out = Rc::new(RefCell::new(vec![]));
        let hard = RefCell::new(vec![]);
        let want = parts.concat();
        let mut told = vec![];
        {
            let stdout = io::stdout();
            let sink = Sink { x: x.clone(), out: out.clone(), max: usize::MAX, refused: Rc::new(Cell::new(None)), hostile: false };
            let mut tee = StdoutTee::new(sink, &stdout);
            sys::armed(
                |op| {
                    if op.call != Call::Write || op.fd != 1 {
                        return Act::Pass;
                    }
                    let a = sys::fault(x, op);
                    match a {
                        Act::Fail(e) if e != libc::EINTR => hard.borrow_mut().push(sys::kind(e)),
                        Act::Short(0) => hard.borrow_mut().push(ErrorKind::WriteZero),
                        _ => {}
                    }
                    a
                },
                || {
                    for p in &parts {
                        x.log(|| format!("writing {}", show(p)));
                        if let Err(e) = tee_write(x, &mut tee, p, how) {
                            told.push(e.kind());
                            break;
                        }
                        if flush {
                            if let Err(e) = tee.flush() {
                                told.push(e.kind());
                                break;
                            }
                        }
                    }
                    if told.is_empty() {
                        if let Err(e) = tee.flush() {
                            told.push(e.kind());
                        }
                    }
                },
            );
        }
        let _ = io::stdout().flush();
        let got = cap.get();
        drop(cap);
        let hard = hard.borrow();
        let inner = out.borrow();
        x.state((how, got.len(), inner.len(), told.len()));
        x.log(|| format!("failures {:?}, reported {:?}", hard, told));
        if hard.is_empty() {
            ensure!(told.is_empty(), "error", "nothing failed, but {:?} is reported", told);
            ensure!(got == want, "stdout", "standard output received {} instead of {}", show(&got), show(&want));
            ensure!(inner[..] == want[..], "inner", "the wrapped writer received {} instead of {}", show(&inner), show(&want));
        } else {
            ensure!(!told.is_empty(), "hidden", "standard output failed with {:?}, success is reported", hard);
            ensure!(hard.contains(&told[0]), "error", "standard output failed with {:?}, {:?} is reported", hard, told);
            ensure!(want.starts_with(&inner), "inner", "the wrapped writer received {} of {}", show(&inner), show(&want));
        }
        Ok(())
    }));
    // as the destination of a field
    g.push(group("field", 11 * 2, 1, move |x, o| {
        let mut r = Radix(o);
        let size = *r.pick(&sizes);
        let limited = r.take(2) == 1;
        let nl = x.subset(&places(size), 2);
        let content = chunk(size, &nl);
        let body = Body::new("edge", vec![Part::new("a", content.clone()), Part::new("z", "tail")]);
        let rmax = *x.pick(&[usize::MAX, 1024, 300]);
        let mut own = Multipart::with_body(Source::new(body.bytes.clone()).max(rmax), "edge");
        let mut f = Multipart::read_entry(&mut own).map_err(|e| Fail { key: "entry-error".into(), msg: e.to_string() })?.unwrap();
        let cap = Capture::new();
        let out = Rc::new(RefCell::new(vec![]));
        let n = {
            let stdout = io::stdout();
            let sink = Sink { x: x.clone(), out: out.clone(), max: 900, refused: Rc::new(Cell::new(None)), hostile: false };
            let mut tee = StdoutTee::new(sink, &stdout);
            let b = f.data.save().size_limit(if limited { Some(size as u64 / 2) } else { None }).write_to(&mut tee);
            tee.flush().unwrap();
            match b {
                SaveResult::Full(n) | SaveResult::Partial(n, PartialReason::SizeLimit) => n as usize,
                b => bail!("outcome", "write_to() = {:?}", b),
            }
        };
        let o = cap.get();
        drop(cap);
        let want = if limited { size / 2 } else { size };
        ensure!(n == want, "count", "{} bytes reported instead of {}", n, want);
        ensure!(out.borrow()[..] == content[..want], "inner", "the wrapped writer received {} instead of {}", show(&out.borrow()), show(&content[..want]));
        ensure!(o == content[..want], "stdout", "standard output received {} instead of {}", show(&o), show(&content[..want]));
        x.state((size, n));
        Ok(())
    }));
    g
}

// ------------------------------------------------------------------ C26

/// A transport that makes up its bytes: head, `len` bytes repeating `pat`, tail.
struct Gen {
    head: Vec<u8>,
    pat: Vec<u8>,
    len: u64,
    tail: Vec<u8>,
    at: u64,
    max: usize,
}

impl Read for Gen {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let (h, l, t) = (self.head.len() as u64, self.len, self.tail.len() as u64);
        let want = out.len().min(self.max);
        let mut n = 0;
        while n < want && self.at < h + l + t {
            let (src, off, end): (&[u8], u64, u64) = if self.at < h {
                (&self.head, self.at, h)
            } else if self.at < h + l {
                (&self.pat, (self.at - h) % self.pat.len() as u64, h + l)
            } else {
                (&self.tail, self.at - h - l, h + l + t)
            };
            let k = (src.len() - off as usize).min(want - n).min((end - self.at) as usize);
            out[n..n + k].copy_from_slice(&src[off as usize..off as usize + k]);
            n += k;
            self.at += k as u64;
        }
        Ok(n)
    }
}

fn patterns() -> Vec<(&'static str, Vec<u8>)> {
    let rep = |s: &[u8]| s.iter().cloned().cycle().take(s.len() * (4096 / s.len())).collect::<Vec<u8>>();
    vec![
        ("text", filler(4096)),
        ("zeros", rep(&[0])),
        ("CR", rep(b"\r")),
        ("CRLF", rep(b"\r\n")),
        ("dashes", rep(b"-")),
        ("delimiter prefixes", rep(b"\r\n--edg")),
        ("UTF-8", rep("\u{4e2d}\u{1f600}\u{e9}".as_bytes())),
        ("invalid UTF-8", rep(&[0xc3, 0x28, 0xff, b'a'])),
    ]
}

const ROOM: usize = 160 << 10;

pub fn c26(th: bool) -> Vec<Group> {
    let mut g = vec![];
    let sizes: Vec<u64> = if th { vec![0, 1000, 1 << 16, 1 << 20, (1 << 20) + 13, 8 << 20, 64 << 20, 200 << 20] } else { vec![0, 1000, 1 << 16, (1 << 20) + 13, 6 << 20, 32 << 20] };
    let ns = sizes.len();
    let np = patterns().len();
    const MODES: usize = 14;
    {
        let sizes = sizes.clone();
        g.push(group("fields", (ns * np * 3 * MODES) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let mode = r.take(MODES);
            let max = *r.pick(&[usize::MAX, 8192, 100]);
            let pat = r.take(np);
            let len = sizes[r.take(ns)];
            let (pname, pat) = patterns().swap_remove(pat);
            let typed = x.flag();
            let w = World::fresh();
            let mut head = b"--edge\r\nContent-Disposition: form-data; name=\"a\"\r\n".to_vec();
            if typed {
                head.extend_from_slice(b"Content-Type: image/png\r\n");
            }
            head.extend_from_slice(b"\r\n");
            let tail = b"\r\n--edge\r\nContent-Disposition: form-data; name=\"z\"\r\n\r\ntail\r\n--edge--\r\n".to_vec();
            let src = Gen { head, pat, len, tail, at: 0, max };
            x.log(|| format!("{} bytes of {}, reads of up to {}, mode {}", len, pname, max, mode));
            let mut buf = vec![0u8; [8192, 100, 1 << 20][mode % 3]];
            let (mut room, mut n) = (ROOM, len);
            let bad = |e: io::Error| Fail { key: "op-error".into(), msg: e.to_string() };
            let base = mem_mark();
            let mut own = Multipart::with_body(src, "edge");
            if mode == 13 {
                // the whole request
                let t = 3000u64;
                room += 4 * t as usize;
                match own.save().memory_threshold(t).size_limit(None).with_dir(&w.s) {
                    SaveResult::Full(e) => n = e.fields["a"][0].data.size(),
                    SaveResult::Partial(_, e) => bail!("outcome", "{:?}", e),
                    SaveResult::Error(e) => bail!("outcome", "{:?}", e),
                }
            } else {
                let mut f = Multipart::read_entry(&mut own).map_err(bad)?.unwrap();
                match mode {
                    0 => {}
                    1 | 2 | 3 => {
                        n = 0;
                        loop {
                            let k = f.data.read(&mut buf).map_err(bad)?;
                            if k == 0 {
                                break;
                            }
                            n += k as u64;
                        }
                    }
                    4 | 5 => {
                        if mode == 5 {
                            f.data.set_min_buf_size(64 << 10);
                            room += 4 * (64 << 10);
                        }
                        n = 0;
                        loop {
                            let k = f.data.fill_buf().map_err(bad)?.len();
                            let k = if k > 1000 { k - 1 } else { k };
                            if k == 0 {
                                break;
                            }
                            f.data.consume(k);
                            n += k as u64;
                        }
                    }
                    6 => match f.data.save().size_limit(None).write_to(io::sink()) {
                        SaveResult::Full(k) => n = k,
                        e => bail!("outcome", "{:?}", e),
                    },
                    7 => match f.data.save().size_limit(u64::MAX / 2).write_to(io::sink()) {
                        SaveResult::Full(k) => n = k,
                        e => bail!("outcome", "{:?}", e),
                    },
                    8 | 9 | 10 | 11 => {
                        let t = [0u64, 1, 3000, 100_000][mode - 8];
                        room += 4 * t as usize;
                        let mut s = f.data.save().memory_threshold(t).size_limit(if x.flag() { None } else { Some(u64::MAX / 2) });
                        s = match x.all(2) {
                            0 => s.try_text(),
                            _ => s.ignore_text(),
                        };
                        match s.with_dir(&w.s) {
                            SaveResult::Full(d) => n = d.size(),
                            e => bail!("outcome", "{:?}", e),
                        }
                    }
                    _ => {
                        // only some of it, then skip
                        f.data.read(&mut buf[..100]).map_err(bad)?;
                    }
                }
                let z = f.next_entry().into_result().map_err(bad)?;
                ensure!(z.map_or(false, |z| &*z.headers.name == "z"), "next", "the next field is missing");
            }
            let peak = mem_peak() - base;
            drop(own);
            ensure!(n == len, "data", "{} of {} bytes", n, len);
            ensure!(peak <= room, "memory", "a field of {} bytes ({}) took {} bytes of memory, more than the {} that the buffer and the threshold explain", len, pname, peak, room);
            x.state((mode, len, peak >> 12));
            Ok(())
        }));
    }
    // before the first delimiter, and header blocks that do not end
    {
        let sizes = sizes.clone();
        g.push(group("preamble", (ns * np * 2) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let max = *r.pick(&[usize::MAX, 100]);
            let (pname, pat) = patterns().swap_remove(r.take(np));
            let len = sizes[r.take(ns)];
            let tail = b"\r\n--edge\r\nContent-Disposition: form-data; name=\"z\"\r\n\r\ntail\r\n--edge--\r\n".to_vec();
            let base = mem_mark();
            let mut own = Multipart::with_body(Gen { head: vec![], pat, len, tail, at: 0, max }, "edge");
            let ok = matches!(Multipart::read_entry(&mut own), Ok(Some(ref f)) if &*f.headers.name == "z");
            let peak = mem_peak() - base;
            ensure!(ok, "next", "the field after the preamble is missing");
            ensure!(peak <= ROOM, "memory", "a preamble of {} bytes ({}) took {} bytes of memory", len, pname, peak);
            x.state((len, peak >> 12));
            Ok(())
        }));
    }
    g.push(group("headers", 6 * 3 * 5, 0, move |x, o| {
        let mut r = Radix(o);
        let max = *r.pick(&[usize::MAX, 1000, 1]);
        let (head, pat): (&str, &str) = *r.pick(&[("", "X-Long: aaaaaaaaaaaaaaaaaaaaaa\r\n"), ("X: ", "a"), ("Content-Disposition: form-data; name=\"", "n"), ("", "a"), ("X:", " "), ("Content-Disposition: form-data; name=\"a\"\r\n", "Y: b\r\n")]);
        let len = *r.pick(&[5000u64, 20_000, 1 << 20, 16 << 20, u64::MAX / 4]);
        let head = format!("--edge\r\n{}", head).into_bytes();
        let base = mem_mark();
        let mut own = Multipart::with_body(Gen { head, pat: pat.as_bytes().to_vec(), len, tail: b"\r\n\r\n".to_vec(), at: 0, max }, "edge");
        let e = Multipart::read_entry(&mut own).map(|o| o.map(|f| f.headers.clone()));
        let peak = mem_peak() - base;
        ensure!(peak <= ROOM, "memory", "a header block of {} bytes took {} bytes of memory", len, peak);
        if len > 1 << 20 {
            ensure!(e.is_err(), "accepted", "an endless header block was accepted: {:?}", e);
        }
        x.state((len, peak >> 12));
        Ok(())
    }));
    // sending
    {
        let sizes = sizes.clone();
        g.push(group("sending", (ns * 3 * 4) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let how = r.take(4);
            let max = *r.pick(&[usize::MAX, 8192, 100]);
            let len = sizes[r.take(ns)];
            let w = World::fresh();
            let path = w.s.join("file.bin");
            let gen = || Gen { head: vec![], pat: filler(4096), len, tail: vec![], at: 0, max };
            if how == 1 || how == 3 {
                let mut f = std::fs::File::create(&path).unwrap();
                io::copy(&mut gen(), &mut f).unwrap();
            }
            let bad = |e: io::Error| Fail { key: "op-error".into(), msg: e.to_string() };
            let base = mem_mark();
            let sent = Rc::new(Cell::new(0u64));
            match how {
                0 | 1 => {
                    let mut c = multipart::client::Multipart::from_request(CountReq(sent.clone(), max)).map_err(bad)?;
                    if how == 0 {
                        c.write_stream("a", &mut gen(), Some("f"), None).map_err(bad)?;
                    } else {
                        c.write_file("a", &path).map_err(bad)?;
                    }
                    c.write_text("t", "x").map_err(bad)?;
                    c.send().map_err(bad)?;
                }
                _ => {
                    let mut c = multipart::client::lazy::Multipart::new();
                    if how == 2 {
                        c.add_stream("a", gen(), Some("f"), None);
                    } else {
                        c.add_file("a", path.clone());
                    }
                    c.add_text("t", "x");
                    c.send(CountReq(sent.clone(), max)).map_err(|e| bad(e.error))?;
                }
            }
            let peak = mem_peak() - base;
            ensure!(sent.get() > len && sent.get() < len + 1000, "data", "{} bytes sent for a field of {} bytes", sent.get(), len);
            ensure!(peak <= ROOM, "memory", "sending a field of {} bytes took {} bytes of memory", len, peak);
            x.state((how, len, peak >> 12));
            Ok(())
        }));
    }
    g
}

struct CountReq(Rc<Cell<u64>>, usize);
impl multipart::client::HttpRequest for CountReq {
    type Stream = CountReq;
    type Error = io::Error;
    fn apply_headers(&mut self, _: &str, _: Option<u64>) -> bool {
        true
    }
    fn open_stream(self) -> io::Result<CountReq> {
        Ok(self)
    }
}
impl Write for CountReq {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.set(self.0.get() + n as u64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl multipart::client::HttpStream for CountReq {
    type Request = CountReq;
    type Response = ();
    type Error = io::Error;
    fn finish(self) -> io::Result<()> {
        Ok(())
    }
}
