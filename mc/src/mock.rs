//! C30: the mock transports of the crate; C31: logging and descriptions.
use crate::client::{alphabet, same_multiset, Op};
use crate::env::*;
use crate::explore::*;
use crate::parse::filler;
use crate::rnd::{drawing, fixed, nth, scripted};
use crate::{bail, ensure};
use multipart::client::{HttpRequest, HttpStream, Multipart};
use multipart::mock::{ClientRequest, HttpBuffer, ServerRequest};
use multipart::server::HttpRequest as _;
use std::io::{self, BufRead, Read, Write};

/// The pieces are drawn at random by the mocks: `step` once for every piece of up to `n` bytes.
fn outcomes(n: usize, mut step: impl FnMut() -> Res<usize>) -> Res<Vec<usize>> {
    let mut seen = vec![];
    for j in 0..n.max(1) {
        let (k, _) = scripted(&[nth(j, n.max(1))], j as u64, &mut step);
        let k = k?;
        ensure!(k <= n, "count", "{} reported for {} bytes", k, n);
        if !seen.contains(&k) {
            seen.push(k);
        }
    }
    Ok(seen)
}

fn err(what: &'static str) -> impl Fn(io::Error) -> Fail {
    move |e| Fail { key: "error".into(), msg: format!("{}: {}", what, e) }
}

fn buffer(content: &[u8], boundary: &str, len: Option<u64>) -> HttpBuffer {
    HttpBuffer::with_buf(content.to_vec(), boundary.into(), len)
}

fn unchanged(b: &HttpBuffer, content: &[u8], boundary: &str, len: Option<u64>) -> Res {
    ensure!(b.buf == content, "buffer", "the buffer holds {} instead of {}", show(&b.buf), show(content));
    ensure!(b.boundary == boundary && b.content_len == len, "declared", "boundary {:?} and length {:?} instead of {:?} and {:?}", b.boundary, b.content_len, boundary, len);
    Ok(())
}

pub fn c30(th: bool) -> Vec<Group> {
    let mut g = vec![];
    let top = if th { 24 } else { 12 };
    let bnds = ["b", "", "bo-un'()+_,-./:=?dary", "\u{e9}"];
    let lens = [None, Some(0u64), Some(7), Some(u64::MAX)];
    // one write in every state
    g.push(group("writes", (top as u64 + 1) * (top as u64 + 1) * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let held = r.take(top + 1);
        let n = r.take(top + 1);
        let k = r.take(4);
        let (bnd, len) = (bnds[k], lens[(k + held) % 4]);
        let all = filler(held + n);
        let (pre, data) = all.split_at(held);
        let got = outcomes(n, || {
            let mut b = buffer(pre, bnd, len);
            let k = b.write(data).map_err(err("write"))?;
            ensure!(k <= n && (k > 0 || n == 0), "count", "write() of {} bytes returned {}", n, k);
            unchanged(&b, &all[..held + k], bnd, len)?;
            b.flush().map_err(err("flush"))?;
            unchanged(&b, &all[..held + k], bnd, len)?;
            // to the end
            b.write_all(&data[k..]).map_err(err("write_all"))?;
            unchanged(&b, &all, bnd, len)?;
            drop(format!("{:?}", b));
            let f = b.finish().map_err(err("finish"))?;
            unchanged(&f, &all, bnd, len)?;
            Ok(k)
        })?;
        x.log(|| format!("{} bytes held, {} written: {:?}", held, n, got));
        x.state((held, n, got));
        Ok(())
    }));
    // one read in every state, through either way of making a server request
    g.push(group("reads", (top as u64 + 1) * (top as u64 + 3) * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let left = r.take(top + 1);
        let n = match r.take(top + 3) {
            k if k <= top => k,
            k => [100, 300][k - top - 1],
        };
        let k = r.take(4);
        let (bnd, len) = (bnds[k], lens[(k + left) % 4]);
        let many = x.flag();
        let data = filler(left + if many { 9000 } else { 0 });
        let b = buffer(&data, bnd, len);
        let direct = x.flag();
        let most = n.min(data.len());
        let got = outcomes(n, || {
            let mut s = if direct { ServerRequest::new(&data, bnd) } else { b.for_server() };
            let want_len = if direct { None } else { len };
            ensure!(s.content_len == want_len && s.boundary == bnd && s.data == &data[..], "declared", "the server request declares {:?} and {:?}", s.boundary, s.content_len);
            ensure!(s.multipart_boundary() == Some(bnd), "boundary", "multipart_boundary() is {:?} instead of {:?}", s.multipart_boundary(), bnd);
            // another one of the same buffer is not affected
            let mut other = b.for_server();
            let mut buf = vec![0xAA; n];
            let k = s.read(&mut buf).map_err(err("read"))?;
            ensure!(k <= most && (k > 0 || most == 0), "count", "read() into {} bytes with {} left returned {}", n, data.len(), k);
            check_data(&buf[..k], &data[..k], "read")?;
            ensure!(buf[k..].iter().all(|&y| y == 0xAA), "beyond", "read() wrote beyond what it returned");
            let mut body = s.body();
            let mut rest = vec![];
            body.read_to_end(&mut rest).map_err(err("read_to_end"))?;
            check_data(&rest, &data[k..], "the rest")?;
            for _ in 0..2 {
                ensure!(body.read(&mut [0; 3]).map_err(err("read"))? == 0, "after-end", "more data after the end");
            }
            rest.clear();
            other.read_to_end(&mut rest).map_err(err("read_to_end"))?;
            check_data(&rest, &data, "another request of the same buffer")?;
            unchanged(&b, &data, bnd, len)?;
            Ok(k)
        })?;
        x.log(|| format!("{} bytes left, read into {}: {:?}", data.len(), n, got));
        x.state((data.len(), n, got));
        Ok(())
    }));
    // every piece of large slices
    let sizes = if th { vec![1000, 8192, 9000, 65537, 131_073] } else { vec![1000, 8192, 65537] };
    let chunks = 64;
    g.push(group("large", sizes.len() as u64 * chunks * 2 * 3, 0, move |x, o| {
        let mut r = Radix(o);
        let chunk = r.take(chunks as usize);
        let n = *r.pick(&sizes);
        let writes = r.take(2) == 1;
        let have = r.take(3);
        let (from, to) = (n * chunk / chunks as usize, n * (chunk + 1) / chunks as usize);
        let all = filler(n + 1);
        let mut buf = vec![0xAA; n];
        let mut w = buffer(&all[..have.min(1)], "b", None);
        for j in from..to {
            let (res, _) = scripted(&[nth(j, n)], 0, || -> Res {
                if writes {
                    let held = have.min(1);
                    w.buf.truncate(held);
                    let k = w.write(&all[held..held + n]).map_err(err("write"))?;
                    ensure!(k <= n && k > 0, "count", "write() of {} bytes returned {}", n, k);
                    ensure!(w.buf.len() == held + k && w.buf[..] == all[..held + k], "buffer", "write() of {} bytes returned {} but the buffer holds {} more bytes, or others", n, k, w.buf.len() as i64 - held as i64);
                } else {
                    let data = &all[..[1, 300, n + 1][have]];
                    let mut s = ServerRequest::new(data, "b");
                    let k = s.read(&mut buf).map_err(err("read"))?;
                    ensure!(k <= n.min(data.len()) && k > 0, "count", "read() into {} bytes with {} left returned {}", n, data.len(), k);
                    ensure!(buf[..k] == data[..k], "content", "read() returned other bytes");
                    ensure!(buf.get(k).map_or(true, |&y| y == 0xAA) && buf.last().map_or(true, |&y| k == n || y == 0xAA), "beyond", "read() wrote beyond what it returned");
                    ensure!(s.data == &data[k..], "left", "read() of {} bytes left {} of {}", k, s.data.len(), data.len());
                    buf[..k].iter_mut().for_each(|y| *y = 0xAA);
                }
                Ok(())
            });
            res?;
        }
        x.state((n, writes, have, chunk));
        Ok(())
    }));
    // what is declared is handed over
    g.push(group("declared", 4 * 4 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let (bnd, len) = (*r.pick(&bnds), *r.pick(&lens));
        let mut c = ClientRequest::default();
        if r.take(2) == 1 {
            // the last call counts
            ensure!(HttpRequest::apply_headers(&mut c, "other", Some(3)), "refused", "headers refused");
        }
        ensure!(HttpRequest::apply_headers(&mut c, bnd, len), "refused", "headers refused");
        drop(format!("{:?}", c));
        let b = c.open_stream().map_err(err("open_stream"))?;
        unchanged(&b, b"", bnd, len)?;
        let b = HttpBuffer::new_empty(bnd.into(), len);
        unchanged(&b, b"", bnd, len)?;
        x.state((bnd, len));
        Ok(())
    }));
    // whole requests, there and back, everything by the mocks
    let a: Vec<Op> = alphabet();
    let k = if th { 3 } else { 2 };
    let n = count_upto(a.len(), k);
    g.push(group("there-and-back", n * 2, 1, move |x, o| {
        let mut r = Radix(o);
        let sized = r.take(2) == 1;
        let mut i = r.0;
        let mut ops = vec![];
        // the i-th sequence over the alphabet
        let (mut len, mut per) = (0, 1u64);
        while i >= per {
            i -= per;
            per *= a.len() as u64;
            len += 1;
        }
        for _ in 0..len {
            ops.push(a[(i % a.len() as u64) as usize].clone());
            i /= a.len() as u64;
        }
        fn fill<S: HttpStream<Error = io::Error>>(mut mp: Multipart<S>, ops: &[Op]) -> io::Result<S::Response> {
            for op in ops {
                match op {
                    Op::Text(n, v) => mp.write_text(n, v)?,
                    Op::Stream { name, filename, ctype, data } => mp.write_stream(name, &mut &data[..], filename.as_ref().map(|s| &s[..]), ctype.map(|c| c.parse().unwrap()))?,
                    _ => mp.write_file(op.name(), op.path())?,
                };
            }
            mp.send()
        }
        let e = err("client");
        // nearly everything or something by turns (so that a value that is refused is not given for ever),
        // with deviations to one byte and to something else; the boundary is always the same
        let count = std::cell::Cell::new(0u64);
        let draw = || {
            let i = count.get();
            count.set(i + 1);
            Some([if i % 2 == 0 { u64::MAX } else { fixed(1, i) }, 0, fixed(2, i)][x.dev(3)])
        };
        let b = if sized {
            let mp = scripted(&[], 7, || Multipart::from_request_sized(ClientRequest::default())).0.map_err(&e)?;
            drawing(|| draw(), || fill(mp, &ops))
        } else {
            let mp = scripted(&[], 7, || Multipart::from_request(ClientRequest::default())).0.map_err(&e)?;
            drawing(|| draw(), || fill(mp, &ops))
        }
        .map_err(&e)?;
        let want: Vec<Got> = ops.iter().map(|o| o.sent()).collect();
        same_multiset(&b.buf, &b.boundary, &want)?;
        let mut mp = match multipart::server::Multipart::from_request(b.for_server()) {
            Ok(m) => m,
            Err(_) => bail!("from-request", "the server request is not taken for multipart"),
        };
        let k = drawing(|| draw(), || -> Res<usize> {
        let mut k = 0;
        loop {
            match mp.read_entry() {
                Ok(Some(mut f)) => {
                    ensure!(k < want.len(), "fields", "more fields than sent");
                    let (name, filename, ctype) = headers_of(&f.headers);
                    let mut data = vec![];
                    if k % 2 == 1 {
                        f.data.fill_buf().map_err(err("fill_buf"))?;
                    }
                    f.data.read_to_end(&mut data).map_err(err("data"))?;
                    crate::client::same_field(k, &Got { name, filename, ctype, data }, &want[k])?;
                    k += 1;
                }
                Ok(None) => return Ok(k),
                Err(e) => bail!("error", "reading entry {}: {}", k, e),
            }
        }
        })?;
        ensure!(k == want.len(), "fields", "{} fields of {}", k, want.len());
        x.state((sized, b.buf.len()));
        Ok(())
    }));
    g
}

// ------------------------------------------------------------------ C31

struct Discard;
thread_local!(static LINES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
impl log::Log for Discard {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("multipart")
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            crate::sys::quietly(|| {
                LINES.with(|l| l.set(l.get() + 1));
                drop(format!("{}", r.args()));
            });
        }
    }
    fn flush(&self) {}
}
static LOGGER: Discard = Discard;

struct Quiet;
impl Drop for Quiet {
    fn drop(&mut self) {
        log::set_max_level(log::LevelFilter::Off);
    }
}

/// The same with everything logged.
fn logged(prop: &str, wanted: &[&str], gs: Vec<Group>) -> Vec<Group> {
    let _ = log::set_logger(&LOGGER);
    gs.into_iter()
        .filter(|g| wanted.contains(&g.name))
        .map(|g| {
            let run = g.run;
            Group {
                name: Box::leak(format!("{}-{}", prop, g.name).into_boxed_str()),
                outers: g.outers,
                budget: g.budget.min(1),
                run: Box::new(move |x, o| {
                    log::set_max_level(log::LevelFilter::Trace);
                    let _q = Quiet;
                    run(x, o)
                }),
            }
        })
        .collect()
}

pub fn c31(th: bool) -> Vec<Group> {
    use multipart::client::lazy;
    let mut g = vec![];
    let no = false;
    g.extend(logged("C01", if th { &["many", "fields", "preamble", "headers"] } else { &["many", "preamble"] }, crate::parse::c01(no)));
    g.extend(logged("C02", if th { &["adapters", "small"] } else { &["adapters"] }, crate::parse::c02(no)));
    g.extend(logged("C05", if th { &["long-boundary", "bytes"] } else { &["long-boundary"] }, crate::parse::c05(no)));
    g.extend(logged("C07", &["malformed", "long", "characters"], crate::parse::c07(no)));
    g.extend(logged("C09", &["names", "missing", "argument-types", "reuse"], crate::client::c09(no)));
    g.extend(logged("C10", &["mock", "lengths"], crate::client::c10(no)));
    g.extend(logged("C13", &["count", "default"], crate::saves::c13(no)));
    g.extend(logged("C17", &["existing", "targets", "odd-paths"], crate::saves::c17(no)));
    g.extend(logged("C20", &["requests", "pieces"], crate::web::c20(no)));
    g.extend(logged("C21", &["malformed", "limits", "directories"], crate::web::c21(no)));
    g.extend(logged("C25", &["fields", "not-post"], crate::web::c25(no)));
    g.extend(logged("C11", &["hyper-missing", "kinds"], crate::client::c11(no)));
    g.extend(logged("C27", &["saves", "conversions"], crate::results::c27(no)));
    g.extend(logged("C30", &["writes", "reads"], c30(no)));
    // errors of prepared requests say what failed
    let names = ["f", "", "a \"b\"", "\u{e9}\u{4e2d}", "x\r\ny", "long name long name long name"];
    g.push(group("described", 6 * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let name = *r.pick(&names);
        let before = r.take(4);
        let what = x.all(3);
        let mut mp = lazy::Multipart::new();
        for i in 0..before {
            match i {
                0 => drop(mp.add_text("t", "v")),
                1 => drop(mp.add_stream("s", &b"x"[..], Some("n"), None)),
                _ => drop(mp.add_text("u", "")),
            }
        }
        drop(format!("{:?}", mp));
        let path = std::path::Path::new("/proc/self/no such file");
        match what {
            0 => drop(mp.add_file(name, path)),
            1 => drop(mp.add_file(name.to_string(), path.to_owned())),
            _ => drop(mp.add_text(name, "fine")),
        }
        let inner = io::Error::from_raw_os_error(libc::ENOENT);
        let r = mp.prepare();
        match (what, r) {
            (2, Ok(_)) => {}
            (2, Err(e)) => bail!("error", "{}", e),
            (_, Ok(_)) => bail!("accepted", "a missing file was accepted"),
            (_, Err(e)) => {
                ensure!(e.field_name.as_ref().map(|n| &n[..]) == Some(name), "field", "the error names the field {:?}, not {:?}", e.field_name, name);
                let (d, s) = (format!("{:?}", e), e.to_string());
                for t in [&d, &s] {
                    ensure!(t.contains(&format!("{:?}", name)) || t.contains(name), "description", "{:?} does not name the field {:?}", t, name);
                }
                ensure!(s.contains(&inner.to_string()), "description", "{:?} does not say that {}", s, inner);
                use std::error::Error;
                #[allow(deprecated)]
                let c = e.cause().map(|c| c.to_string());
                ensure!(c == Some(inner.to_string()), "cause", "the cause is {:?}", c);
                x.log(|| s.clone());
                let i: io::Error = e.into();
                ensure!(i.kind() == inner.kind() && i.raw_os_error() == inner.raw_os_error(), "into", "the error turns into {:?}", i);
            }
        }
        x.state((name, before, what));
        Ok(())
    }));
    // ... also those of a request that was being sent
    g.push(group("described-sending", 5 * 5 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let stage = r.take(5);
        let kind = *r.pick(&[io::ErrorKind::NotFound, io::ErrorKind::BrokenPipe, io::ErrorKind::TimedOut, io::ErrorKind::WriteZero, io::ErrorKind::Other]);
        let files = r.take(2) == 1;
        let own = ["disk full", "no", "\u{e9} \"x\""][x.all(3)];
        let (at, calls) = (x.all(4), std::rc::Rc::new(std::cell::Cell::new(0)));
        let mut mp = lazy::Multipart::new();
        mp.add_text("t", "v");
        if files {
            mp.add_file("file", crate::client::file("file", 0).path());
        }
        let source = Faulty { kind, own, at: if stage == 4 { at } else { usize::MAX }, calls: calls.clone() };
        mp.add_stream("s", source, Some("n"), None);
        drop(format!("{:?}", mp));
        let res = mp.send(Wire { stage, kind, own, calls });
        // calls that are not made do not fail
        let e = match res {
            Ok(done) => {
                ensure!(stage == 4 && at > 2, "hidden", "success although stage {} failed ({} reads)", stage, done);
                return Ok(());
            }
            Err(e) => e,
        };
        ensure!(e.field_name.as_ref().map_or(true, |n| n == "s" && stage == 4), "field", "the error is said to be about the field {:?}", e.field_name);
        let what = if stage == 0 { e.error.to_string() } else { own.to_string() };
        let (d, s) = (format!("{:?}", e), e.to_string());
        ensure!(s.contains(&what), "description", "{:?} does not say {:?}", s, what);
        ensure!(!d.is_empty(), "description", "the error is shown as nothing");
        use std::error::Error;
        #[allow(deprecated)]
        let c = e.cause().map(|c| c.to_string());
        ensure!(c == Some(e.error.to_string()), "cause", "the cause of {:?} is {:?}", s, c);
        #[allow(deprecated)]
        let _ = e.description().len();
        x.log(|| s.clone());
        let inner = e.error.kind();
        let i: io::Error = e.into();
        ensure!(i.kind() == inner && (stage == 0 || i.kind() == kind && i.to_string() == own), "into", "the error turns into {:?}", i);
        x.state((stage, kind as u8, files, at));
        Ok(())
    }));
    // fields of every type are taken alike
    g.push(group("types", 16, 0, move |x, o| {
        let types = ["multipart/mixed", "multipart/mixed; boundary=b", "multipart/form-data; boundary=bnd", "text/plain", "message/rfc822"];
        let (a, b) = (types[o as usize % types.len()], types[x.all(types.len())]);
        let body = Body::new("bnd", vec![Part::file("a", "f", a, b"--b\r\n\r\n--b--"), Part::new("t", "x"), Part::file("b", "g", b, b"")]);
        let max = *x.pick(&[usize::MAX, 7, 1]);
        let _q = Quiet;
        for level in [log::LevelFilter::Off, log::LevelFilter::Trace, log::LevelFilter::Info] {
            let _ = log::set_logger(&LOGGER);
            log::set_max_level(level);
            struct In<'a>(&'a [u8], usize);
            impl Read for In<'_> {
                fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                    let n = b.len().min(self.1);
                    self.0.read(&mut b[..n])
                }
            }
            let mut mp = multipart::server::Multipart::with_body(In(&body.bytes, max), "bnd");
            let got = crate::web::fields_of(&mut mp);
            let got = got.map_err(|e| Fail { key: "error".into(), msg: format!("fields of types {} and {}, logging {}: {}", a, b, level, e) })?;
            ensure!(got.len() == 3, "fields", "{} fields", got.len());
            for (i, (g, w)) in got.iter().zip(&body.parts).enumerate() {
                ensure!(g.name == w.name && g.data == w.content && g.ctype.as_deref() == w.ctype.as_deref(), "field", "field {} is {:?}", i, g);
            }
        }
        Ok(())
    }));
    g
}

/// Fails at one stage: headers refused, opening, writing, finishing, (the source).
struct Wire {
    stage: usize,
    kind: io::ErrorKind,
    own: &'static str,
    calls: std::rc::Rc<std::cell::Cell<usize>>,
}
impl HttpRequest for Wire {
    type Stream = Wire;
    type Error = io::Error;
    fn apply_headers(&mut self, _: &str, _: Option<u64>) -> bool {
        self.stage != 0
    }
    fn open_stream(self) -> io::Result<Wire> {
        if self.stage == 1 {
            return Err(io::Error::new(self.kind, self.own));
        }
        Ok(self)
    }
}
impl Write for Wire {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.stage == 2 {
            return Err(io::Error::new(self.kind, self.own));
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl HttpStream for Wire {
    type Request = Wire;
    type Response = usize;
    type Error = io::Error;
    fn finish(self) -> io::Result<usize> {
        if self.stage == 3 {
            return Err(io::Error::new(self.kind, self.own));
        }
        Ok(self.calls.get())
    }
}
struct Faulty {
    kind: io::ErrorKind,
    own: &'static str,
    at: usize,
    calls: std::rc::Rc<std::cell::Cell<usize>>,
}
impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n == self.at {
            return Err(io::Error::new(self.kind, self.own));
        }
        if n >= 2 || b.is_empty() {
            return Ok(0);
        }
        b[0] = b'x';
        Ok(1)
    }
}
