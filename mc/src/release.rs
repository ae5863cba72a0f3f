//! C34: what the crate is given or opens is released as soon as it is done with it.
use crate::env::*;
use crate::explore::*;
use crate::parse::filler;
use crate::saves::World;
use crate::{bail, ensure};
use multipart::client::{lazy, HttpRequest, HttpStream, Multipart as Client};
use multipart::server::save::{Entries, FieldSaveResult, SaveDir, SaveResult, SavedData};
use multipart::server::{Multipart, ReadEntry, ReadEntryResult};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// What this process has open within the directory.
fn open_in(dir: &Path) -> Vec<PathBuf> {
    std::fs::read_dir("/proc/self/fd")
        .expect("/proc/self/fd")
        .flatten()
        .filter_map(|e| std::fs::read_link(e.path()).ok())
        .filter(|p| p.starts_with(dir))
        .collect()
}

fn open_anywhere(w: &World) -> Vec<PathBuf> {
    let mut v = open_in(&w.s);
    v.extend(open_in(&w.tmp));
    v
}

fn closed(w: &World, when: &str) -> Res {
    let v = open_anywhere(w);
    ensure!(v.is_empty(), "open", "{}: {:?} still open", when, v);
    Ok(())
}

/// Something whose release can be told.
#[derive(Clone)]
struct Token(Rc<()>);
impl Token {
    fn new() -> Token {
        Token(Rc::new(()))
    }
    fn held(&self) -> bool {
        Rc::strong_count(&self.0) > 1
    }
}

fn released(t: &Token, what: &str, when: &str) -> Res {
    ensure!(!t.held(), "held", "{}: {} is still held", when, what);
    Ok(())
}

/// A source stream that may fail once at any read.
struct Src {
    x: X,
    data: Vec<u8>,
    max: usize,
    _token: Token,
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.x.step();
        if self.x.dev(2) == 1 {
            return Err(ErrorKind::ConnectionReset.into());
        }
        let n = b.len().min(self.max).min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        self.data.drain(..n);
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    Text,
    Stream(usize),
    File(usize),
    Missing,
}

fn seq_of(kinds: &[F], most: usize, mut idx: u64) -> Vec<F> {
    let k = kinds.len() as u64;
    for l in 0..=most as u32 {
        let n = k.pow(l);
        if idx < n {
            let mut v = vec![];
            for _ in 0..l {
                v.push(kinds[(idx % k) as usize]);
                idx /= k;
            }
            return v;
        }
        idx -= n;
    }
    unreachable!()
}

type OnWrite = Rc<RefCell<Box<dyn FnMut() -> Res>>>;

/// A client request and its stream, which may fail anywhere.
struct Req {
    x: X,
    on_write: OnWrite,
    trouble: Rc<RefCell<Option<Fail>>>,
    token: Token,
}
struct Str(Req);
impl HttpRequest for Req {
    type Stream = Str;
    type Error = io::Error;
    fn apply_headers(&mut self, _: &str, _: Option<u64>) -> bool {
        self.x.dev(2) == 0
    }
    fn open_stream(self) -> io::Result<Str> {
        match self.x.dev(2) {
            0 => Ok(Str(self)),
            _ => Err(ErrorKind::ConnectionRefused.into()),
        }
    }
}
impl Write for Str {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let r = &self.0;
        r.x.step();
        if let Err(f) = (r.on_write.borrow_mut())() {
            r.trouble.borrow_mut().get_or_insert(f);
        }
        match r.x.dev(2) {
            0 => Ok(b.len()),
            _ => Err(ErrorKind::BrokenPipe.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl HttpStream for Str {
    type Request = Req;
    type Response = ();
    type Error = io::Error;
    fn finish(self) -> io::Result<()> {
        match self.0.x.dev(2) {
            0 => Ok(()),
            _ => Err(ErrorKind::TimedOut.into()),
        }
    }
}

fn nothing() -> OnWrite {
    Rc::new(RefCell::new(Box::new(|| Ok(()))))
}

const NAMES: [&str; 5] = ["n0", "n1", "n2", "n3", "n4"];

fn prepared(th: bool) -> Group {
    let kinds = [F::Text, F::Stream(0), F::Stream(3), F::File(0), F::File(3), F::Missing];
    let most = if th { 4 } else { 3 };
    let total = count_upto(kinds.len(), most);
    group("prepared", total * 2 * 5, if th { 2 } else { 1 }, move |x, o| {
        let mut r = Radix(o);
        let piece = *r.pick(&[usize::MAX, 1]);
        // 4 sizes of reads, or sent
        let how = r.take(5);
        let fields = seq_of(&kinds, most, r.take(total as usize) as u64);
        x.log(|| format!("{:?}, sources give {}, way {}", fields, piece, how));
        let w = World::fresh();
        let mut m = lazy::Multipart::new();
        let tokens: Vec<Token> = fields.iter().map(|_| Token::new()).collect();
        for (i, f) in fields.iter().enumerate() {
            let path = w.s.join(format!("file{}", i));
            match *f {
                F::Text => {
                    m.add_text(NAMES[i], "text");
                }
                F::Stream(n) => {
                    m.add_stream(NAMES[i], Src { x: x.clone(), data: filler(n), max: piece, _token: tokens[i].clone() }, None::<&str>, None);
                }
                F::File(n) => {
                    std::fs::write(&path, filler(n)).unwrap();
                    m.add_file(NAMES[i], path);
                }
                F::Missing => {
                    m.add_file(NAMES[i], path);
                }
            }
        }
        closed(&w, "before anything is prepared")?;
        let all_gone = |when: &str| -> Res {
            for (i, t) in tokens.iter().enumerate() {
                released(t, &format!("the stream of field {}", i), when)?;
            }
            closed(&w, when)
        };
        let fails = fields.contains(&F::Missing);
        if how == 4 {
            let token = Token::new();
            let trouble: Rc<RefCell<Option<Fail>>> = Default::default();
            let req = Req { x: x.clone(), on_write: nothing(), trouble, token: token.clone() };
            let res = m.send(req);
            ensure!(!fails || res.is_err(), "sent", "sent although a file is missing");
            let ok = res.is_ok();
            drop(res);
            released(&token, "the request", "after sending")?;
            closed(&w, "after sending")?;
            x.state((o, ok));
            if fails {
                drop(m);
            }
            return all_gone("after sending");
        }
        let p = m.prepare();
        let mut p = match p {
            Err(e) => {
                ensure!(fails, "prepare", "{}", e);
                drop(e);
                closed(&w, "after preparing failed")?;
                drop(m);
                x.state((o, 0));
                return all_gone("after preparing failed");
            }
            Ok(p) => {
                ensure!(!fails, "prepared", "prepared although a file is missing");
                p
            }
        };
        let mut buf = vec![0; [1, 7, 100, 20_000][how]];
        let mut out: Vec<u8> = vec![];
        let mut ended = false;
        let mut errors = 0;
        // until it's dropped early, or over
        while !ended && x.dev(2) == 0 {
            x.step();
            match p.read(&mut buf) {
                Ok(0) => ended = true,
                Ok(n) => out.extend_from_slice(&buf[..n]),
                Err(_) => errors += 1,
            }
            ensure!(errors < 10, "errors", "{} errors", errors);
            for (i, f) in fields.iter().enumerate() {
                if let F::Stream(n) = *f {
                    if behind(&out, i, n) {
                        released(&tokens[i], &format!("the stream of field {}", i), "read beyond")?;
                    }
                }
            }
        }
        for (i, f) in fields.iter().enumerate() {
            if let F::File(n) = *f {
                let k = open_in(&w.s.join(format!("file{}", i))).len();
                let over = ended || behind(&out, i, n);
                ensure!(k <= !over as usize, "open", "file {} is open {} times, {}", i, k, if over { "though read to its end" } else { "and not read to its end" });
            }
        }
        if ended {
            all_gone("at the end")?;
        }
        x.state((o, out.len(), ended));
        drop(p);
        all_gone("dropped")
    })
}

/// Whether anything behind the content of the field is there.
fn behind(out: &[u8], i: usize, len: usize) -> bool {
    let name = format!("name=\"{}\"", NAMES[i]);
    match find(out, name.as_bytes(), 0).and_then(|p| find(out, b"\r\n\r\n", p)) {
        Some(p) => out.len() > p + 4 + len,
        None => false,
    }
}

fn streaming(th: bool) -> Group {
    let kinds = [F::Text, F::Stream(3), F::File(0), F::File(3), F::File(20_000), F::Missing];
    let most = if th { 4 } else { 3 };
    let total = count_upto(kinds.len(), most);
    group("streaming", total * 2, if th { 2 } else { 1 }, move |x, o| {
        let mut r = Radix(o);
        let sized = r.take(2) == 1;
        let fields = seq_of(&kinds, most, r.take(total as usize) as u64);
        x.log(|| format!("{:?}, {}", fields, if sized { "sized" } else { "streamed" }));
        let w = World::fresh();
        for (i, f) in fields.iter().enumerate() {
            if let F::File(n) = *f {
                std::fs::write(w.s.join(format!("file{}", i)), filler(n)).unwrap();
            }
        }
        let token = Token::new();
        let current: Rc<RefCell<Option<PathBuf>>> = Default::default();
        let trouble: Rc<RefCell<Option<Fail>>> = Default::default();
        let (cur, dir) = (current.clone(), w.s.clone());
        let on_write: OnWrite = Rc::new(RefCell::new(Box::new(move || {
            let open = open_in(&dir);
            let ok = match *cur.borrow() {
                Some(ref p) => open.is_empty() || open == [p.clone()],
                None => open.is_empty(),
            };
            ensure!(ok, "open", "{:?} open while writing {:?}", open, cur.borrow());
            Ok(())
        })));
        let req = Req { x: x.clone(), on_write, trouble: trouble.clone(), token: token.clone() };
        let stop = x.all(2);
        fn go<S: HttpStream<Error = io::Error>>(x: &X, w: &World, c: io::Result<Client<S>>, fields: &[F], current: &RefCell<Option<PathBuf>>, trouble: &RefCell<Option<Fail>>, stop: usize) -> Res {
            let mut c = match c {
                Ok(c) => c,
                Err(_) => return Ok(()),
            };
            let mut failed = false;
            for (i, f) in fields.iter().enumerate() {
                let path = w.s.join(format!("file{}", i));
                let ok = match *f {
                    F::Text => c.write_text(NAMES[i], "text").is_ok(),
                    F::Stream(n) => {
                        let mut s = Src { x: x.clone(), data: filler(n), max: 2, _token: Token::new() };
                        c.write_stream(NAMES[i], &mut s, None, None).is_ok()
                    }
                    _ => {
                        *current.borrow_mut() = Some(path.clone());
                        let ok = c.write_file(NAMES[i], &path).is_ok();
                        *current.borrow_mut() = None;
                        ok
                    }
                };
                closed(w, &format!("after field {}, which was {}", i, if ok { "written" } else { "refused" }))?;
                if let Some(f) = trouble.borrow_mut().take() {
                    return Err(f);
                }
                // a missing file disturbs nothing
                if !ok && *f != F::Missing {
                    failed = true;
                    break;
                }
            }
            if !(failed && stop == 1) {
                let _ = c.send();
            }
            Ok(())
        }
        if sized {
            go(x, &w, Client::from_request_sized(req), &fields, &current, &trouble, stop)?;
        } else {
            go(x, &w, Client::from_request(req), &fields, &current, &trouble, stop)?;
        }
        if let Some(f) = trouble.borrow_mut().take() {
            return Err(f);
        }
        x.state((o, stop));
        closed(&w, "after the request")?;
        released(&token, "the request's stream", "after the request")
    })
}

/// A request body that looks around at every read, and may fail at each.
struct Body_ {
    x: X,
    data: Rc<Vec<u8>>,
    pos: usize,
    max: usize,
    dirs: [PathBuf; 2],
    trouble: Rc<RefCell<Option<Fail>>>,
    _token: Token,
}
impl Read for Body_ {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.x.step();
        let mut open = open_in(&self.dirs[0]);
        open.extend(open_in(&self.dirs[1]));
        if open.len() > 1 {
            self.trouble.borrow_mut().get_or_insert(Fail { key: "open".into(), msg: format!("{:?} open at once", open) });
        }
        if self.x.dev(2) == 1 {
            return Err(ErrorKind::ConnectionReset.into());
        }
        let n = b.len().min(self.max).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A destination that may fail at each write.
struct Dest {
    x: X,
    _token: Token,
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self.x.dev(3) {
            0 => Ok(b.len()),
            1 => Err(ErrorKind::BrokenPipe.into()),
            _ => Ok(0),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Looking<'a> {
    d: Dest,
    w: &'a World,
    most: &'a mut usize,
}
impl<'a> Write for Looking<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        *self.most = open_anywhere(self.w).len().max(*self.most);
        self.d.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn saving(th: bool) -> Group {
    let sizes = [0usize, 5, 12_000];
    let most = if th { 4 } else { 3 };
    let total = count_upto(sizes.len(), most);
    let apis = 9;
    group("saving", total * apis * 3 * 2, if th { 2 } else { 1 }, move |x, o| {
        let mut r = Radix(o);
        let api = r.take(apis as usize);
        let limit = *r.pick(&[None, Some(4u64), Some(10_000)]);
        let max = *r.pick(&[usize::MAX, 3000]);
        let kinds: Vec<F> = sizes.iter().map(|&n| F::Stream(n)).collect();
        let fields = seq_of(&kinds, most, r.take(total as usize) as u64);
        // each field of many by itself, and small pieces, when there is time
        let few = fields.len() < 3;
        if !th && !few && (api < 6 || max != usize::MAX) {
            return Ok(());
        }
        let thr = *x.pick(&[0u64, 3]);
        x.log(|| format!("{:?}, api {}, limit {:?}, threshold {}, pieces {}", fields, api, limit, thr, max));
        let w = World::fresh();
        let parts: Vec<Part> = fields.iter().enumerate().map(|(i, f)| Part::new(NAMES[i % 2], filler(if let F::Stream(n) = *f { n } else { 0 }))).collect();
        let body = Body::new("bnd", parts);
        let token = Token::new();
        let trouble: Rc<RefCell<Option<Fail>>> = Default::default();
        let src = Body_ { x: x.clone(), data: body.bytes.clone(), pos: 0, max, dirs: [w.s.clone(), w.tmp.clone()], trouble: trouble.clone(), _token: token.clone() };
        let mut mp = Multipart::with_body(src, "bnd");
        let good = |when: &str| -> Res {
            if let Some(f) = trouble.borrow_mut().take() {
                return Err(f);
            }
            closed(&w, when)
        };
        let mut kept = vec![];
        if api < 6 {
            std::fs::create_dir(w.s.join("adir")).unwrap();
            std::fs::write(w.s.join("there"), b"before").unwrap();
            let mut i = 0;
            while let Ok(Some(mut f)) = Multipart::read_entry(&mut mp) {
                let dest = Token::new();
                let when = {
                    let mut b = f.data.save().size_limit(limit).memory_threshold(thr);
                    let r: FieldSaveResult = match api {
                        0 => b.temp(),
                        1 => b.with_dir(w.s.join("d")),
                        2 => b.with_path(w.s.join(format!("p{}", i))),
                        3 => b.with_path(w.s.join("adir")),
                        4 => b.with_path(w.s.join("there")),
                        _ => {
                            let r = b.write_to(Dest { x: x.clone(), _token: dest.clone() });
                            released(&dest, "the writer", "after the save")?;
                            let r = format!("{:?}", r);
                            good(&r)?;
                            i += 1;
                            continue;
                        }
                    };
                    let when = format!("field {} saved as {}", i, match r {
                        SaveResult::Full(ref d) => format!("full, {} bytes", d.size()),
                        SaveResult::Partial(ref d, ref r) => format!("partial, {} bytes, {:?}", d.size(), r),
                        SaveResult::Error(ref e) => format!("error {}", e),
                    });
                    good(&when)?;
                    match r {
                        SaveResult::Full(d) | SaveResult::Partial(d, _) => kept.push(d),
                        _ => {}
                    }
                    when
                };
                good(&when)?;
                i += 1;
            }
            good("at the end")?;
        } else {
            let b = mp.save().size_limit(limit).memory_threshold(thr);
            let r = match api {
                6 => b.temp(),
                7 => b.with_dir(w.s.join("d")),
                _ => b.with_entries(Entries::new(SaveDir::Perm(w.s.join("e")))),
            };
            let (when, e) = match r {
                SaveResult::Full(e) => ("full", Some(e)),
                SaveResult::Partial(p, _) => {
                    good("partial, and the field still held")?;
                    ("partial", Some(p.keep_partial()))
                }
                SaveResult::Error(_) => ("error", None),
            };
            good(when)?;
            if let Some(e) = e {
                let d = Dest { x: x.clone(), _token: Token::new() };
                let mut most = 0;
                let r = e.write_debug(Looking { d, w: &w, most: &mut most });
                ensure!(most <= 1, "open", "{} files open at once to describe the entries", most);
                closed(&w, &format!("described: {:?}", r.is_ok()))?;
                for f in e.fields.values().flat_map(|v| v.iter()) {
                    read_some(&w, &f.data)?;
                }
                match x.all(3) {
                    0 => drop(e),
                    1 => drop(e.save_dir.delete()),
                    _ => {
                        let mut e = e;
                        e.save_dir.keep();
                        closed(&w, "kept")?;
                    }
                }
                closed(&w, "the entries are gone")?;
            }
        }
        for d in &kept {
            read_some(&w, d)?;
        }
        ensure!(token.held(), "early", "the body is released although the request is there");
        drop(mp);
        x.state((o, kept.len(), thr));
        released(&token, "the body", "dropped")
    })
}

/// A reader has one file open at most, and none any more once it's dropped, wherever it is.
fn read_some(w: &World, d: &SavedData) -> Res {
    for style in 0..3 {
        let mut r = match d.readable() {
            Ok(r) => r,
            Err(e) => bail!("readable", "{}", e),
        };
        let open = open_anywhere(w).len();
        ensure!(open <= !d.is_memory() as usize, "open", "{} files open to read {}", open, if d.is_memory() { "from memory" } else { "one" });
        let mut v = vec![];
        match style {
            0 => {}
            1 => drop(r.read(&mut [0; 3])),
            _ => drop(r.read_to_end(&mut v)),
        }
        let again = d.readable();
        drop(again);
        let open = open_anywhere(w).len();
        ensure!(open <= !d.is_memory() as usize, "open", "{} files open to read {}", open, if d.is_memory() { "from memory" } else { "one" });
        drop(r);
        closed(w, "the reader is gone")?;
    }
    Ok(())
}

/// The body goes with whatever holds it.
fn bodies(th: bool) -> Group {
    let bytes = || -> Vec<Rc<Vec<u8>>> {
        let b = Body::new("bnd", vec![Part::new("a", "x"), Part::new("b", filler(9000)), Part::new("c", "")]).bytes;
        let all = b.to_vec();
        let cut = all.len() - 4;
        vec![b.clone(), Rc::new(all[..cut].to_vec()), Rc::new(all[..60].to_vec()), Rc::new(b"--bnd--\r\n".to_vec()), Rc::new(b"--bnd??".to_vec()), Rc::new(vec![])]
    };
    group("bodies", 6 * 5, if th { 2 } else { 1 }, move |x, o| {
        let mut r = Radix(o);
        let data = bytes()[r.take(6)].clone();
        let api = r.take(5);
        let w = World::fresh();
        let token = Token::new();
        let trouble: Rc<RefCell<Option<Fail>>> = Default::default();
        let max = *x.pick(&[usize::MAX, 1000]);
        let src = Body_ { x: x.clone(), data, pos: 0, max, dirs: [w.s.clone(), w.tmp.clone()], trouble, _token: token.clone() };
        let mut mp = Multipart::with_body(src, "bnd");
        let there = |when: &str| -> Res {
            ensure!(token.held(), "early", "the body is released {}", when);
            Ok(())
        };
        let stop = x.all(4);
        x.log(|| format!("api {}, {} steps", api, stop));
        x.state((o, stop, max));
        match api {
            0 => {
                for _ in 0..stop {
                    let _ = Multipart::read_entry(&mut mp).map(|f| f.is_some());
                    there("while borrowed")?;
                }
                drop(mp);
            }
            1 | 2 => {
                let mut r = mp.into_entry();
                for _ in 0..stop {
                    r = match r {
                        ReadEntryResult::Entry(mut f) => {
                            there("with the field held")?;
                            if api == 2 {
                                drop(f.data.read(&mut [0; 10]));
                                f.data.into_inner().into_entry()
                            } else {
                                f.next_entry()
                            }
                        }
                        ReadEntryResult::End(m) => {
                            there("with the request handed back")?;
                            drop(m);
                            return released(&token, "the body", "at the end");
                        }
                        ReadEntryResult::Error(m, _) => {
                            there("with the request handed back")?;
                            m.into_entry()
                        }
                    };
                }
                there("with the result held")?;
                match r {
                    ReadEntryResult::Entry(f) => {
                        let h = f.headers.clone();
                        let kept = f.headers;
                        drop(f.data);
                        released(&token, "the body", "the field is dropped but for its headers")?;
                        drop((h, kept));
                    }
                    r => drop(r.into_result()),
                }
            }
            3 => {
                let mut n = 0;
                let _ = mp.foreach_entry(|f| {
                    n += 1;
                    drop(f);
                });
                there("behind the callback")?;
                drop(mp);
            }
            _ => {
                let mut f = match ReadEntry::read_entry(&mut mp).into_result() {
                    Ok(Some(f)) => f,
                    _ => {
                        drop(mp);
                        return released(&token, "the body", "dropped without fields");
                    }
                };
                for _ in 0..stop {
                    let r = f.data.save().memory_threshold(0).with_dir(w.s.join("d"));
                    drop(r);
                    there("while saving")?;
                    f = match f.next_entry().into_result() {
                        Ok(Some(f)) => f,
                        _ => break,
                    };
                }
                drop(mp);
            }
        }
        closed(&w, "dropped")?;
        released(&token, "the body", "dropped")
    })
}

pub fn c34(th: bool) -> Vec<Group> {
    vec![prepared(th), streaming(th), saving(th), bodies(th)]
}
