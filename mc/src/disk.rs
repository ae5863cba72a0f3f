//! Saving while the file system fails or another process interferes, at every single call.
use crate::env::*;
use crate::explore::*;
use crate::parse::filler;
use crate::saves::*;
use crate::sys::{self, Act, Call, Op};
use crate::{bail, ensure};
use multipart::server::save::{Entries, PartialReason, SaveResult, SavedData};
use multipart::server::Multipart;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read};
use std::path::{Path, PathBuf};

/// Does this call belong to the save (and not to the harness' own plumbing)?
fn ours(w: &World, op: &Op) -> bool {
    match op.call {
        Call::Open | Call::Mkdir => sys::under(op, &w.s) || sys::under(op, &w.tmp),
        Call::Write | Call::Read => op.fd > 2,
    }
}

/// What was done to the save under test.
#[derive(Default, Debug)]
pub struct Met {
    /// kinds of the errors raised, without interruptions
    pub hard: Vec<(Call, ErrorKind)>,
    pub any: usize,
}

pub fn faults<'a>(x: &'a X, w: &'a World, met: &'a RefCell<Met>) -> impl FnMut(&Op) -> Act + 'a {
    move |op| {
        if !ours(w, op) || op.call == Call::Read {
            return Act::Pass;
        }
        let a = sys::fault(x, op);
        let mut m = met.borrow_mut();
        match a {
            Act::Pass => {}
            Act::Fail(libc::EINTR) => m.any += 1,
            Act::Fail(e) => {
                m.any += 1;
                m.hard.push((op.call, sys::kind(e)));
            }
            Act::Short(0) => {
                m.any += 1;
                m.hard.push((op.call, ErrorKind::WriteZero));
            }
            Act::Short(_) => m.any += 1,
        }
        a
    }
}

/// The outcome must tell of the failure, and of nothing but the failure. (A failure to make a
/// directory does not matter where the directory is there.)
fn tells(met: &Met, kind: &Kind) -> Res {
    match *kind {
        Kind::Io(k) | Kind::Error(k) => {
            ensure!(met.hard.iter().any(|h| h.1 == k), "spurious-error", "the outcome is {:?} but what went wrong is {:?}", kind, met.hard);
        }
        _ => {
            let lost: Vec<_> = met.hard.iter().filter(|h| h.0 != Call::Mkdir).collect();
            ensure!(lost.is_empty(), "fault-hidden", "the outcome is {:?} although {:?} failed", kind, lost);
        }
    }
    Ok(())
}

/// C15: one field saved to a file while calls fail.
pub fn field_calls(th: bool) -> Group {
    let mut cs: Vec<Vec<u8>> = vec![b"".to_vec(), b"a".to_vec(), b"abcdef".to_vec(), b"ab\xffcd".to_vec(), "ab\u{20ac}".into()];
    cs.extend([1500usize, 9000, 12000].iter().map(|&n| filler(n)));
    let thrs = [0u64, 2, 6, 1000, 10240];
    let n = cs.len() * thrs.len() * 4 * 3;
    group("calls", n as u64, if th { 3 } else { 2 }, move |x, o| {
        let mut r = Radix(o);
        let c = r.pick(&cs);
        let thr = *r.pick(&thrs);
        let pol = *r.pick(&POLS);
        let api = *r.pick(&[0usize, 1, 3]);
        let n = c.len() as u64;
        let limit = *x.pick(&[Some(None), Some(Some(n)), Some(Some(n / 2 + 1))]);
        let conf = Conf { limit, thr: Some(thr), pol };
        let body = x.cached(0, || Body::new("bnd", vec![Part::new("a", &c[..]), Part::new("z", "tail")]));
        let w = World::fresh();
        let max = if n > 100 { 1024 } else { 64 };
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()).max(max), "bnd");
        x.log(|| format!("content {} ({} bytes) {:?} api {}", show(c), n, conf, api));
        let met = RefCell::new(Met::default());
        {
            let mut f = match mp.read_entry() {
                Ok(Some(f)) => f,
                _ => bail!("setup", "no field"),
            };
            let (kind, data) = sys::armed(faults(x, &w, &met), || save_data(&w, &mut f.data, &conf, api));
            x.log(|| format!("-> {:?} {:?}", kind, data.as_ref().map(|d| (same_kind(d), d.size()))));
            tells(&met.borrow(), &kind)?;
            let mut all = match data {
                Some(ref d) => {
                    let st = stored(d, 0)?;
                    ensure!(st.len() as u64 == d.size(), "true-size", "reported size {} but {} bytes are there", d.size(), st.len());
                    st
                }
                None => vec![],
            };
            let saved = all.len();
            ensure!(saved as u64 <= conf.limit_val(), "over-limit", "{} bytes were stored with a limit of {}", saved, conf.limit_val());
            x.state((saved, met.borrow().any, data.as_ref().map(same_kind)));
            if let Kind::Error(_) = kind {
                ensure!(data.is_none(), "kind", "error with data");
            }
            if let Kind::Full = kind {
                ensure!(saved as u64 == n, "not-whole", "a full save of {} bytes of {}", saved, n);
            }
            // the rest is read, or saved elsewhere
            if x.flag() {
                let mut rest = vec![];
                if let Err(e) = f.data.read_to_end(&mut rest) {
                    bail!("rest-error", "reading the rest failed: {}", e);
                }
                all.extend(rest);
            } else {
                match f.data.save().size_limit(None).memory_threshold(0).ignore_text().with_path(w.s.join("rest")) {
                    SaveResult::Full(d) => all.extend(stored(&d, 0)?),
                    r => bail!("rest-error", "saving the rest ended with {:?}", r),
                }
            }
            check_data(&all, c, &format!("the {} bytes saved and the {} left", saved, all.len() - saved))?;
        }
        next_is(&mut mp, &body.parts, 1)
    })
}

/// The fields of `e` as (name, content) in order per name.
fn contents(e: &Entries) -> Res<BTreeMap<String, Vec<Vec<u8>>>> {
    let mut m = BTreeMap::new();
    for (k, v) in &e.fields {
        let mut l = vec![];
        for f in v {
            ensure!(*f.headers.name == **k, "name", "a field named {:?} is under {:?}", f.headers.name, k);
            let st = stored(&f.data, 0)?;
            ensure!(st.len() as u64 == f.data.size(), "true-size", "reported size {} but {} bytes are there", f.data.size(), st.len());
            l.push(st);
        }
        m.insert(k.to_string(), l);
    }
    Ok(m)
}

/// C18, C19: whole requests saved while calls fail; `life`: what the directory does, otherwise what
/// the entries hold.
pub fn whole_calls(life: bool, th: bool) -> Group {
    let thrs = [0u64, 2, 20];
    let n = 3 * thrs.len() * WHOLE_APIS;
    group("calls", n as u64, if th { 3 } else { 2 }, move |x, o| {
        let mut r = Radix(o);
        let api = r.take(WHOLE_APIS);
        let thr = *r.pick(&thrs);
        let mut parts = vec![Part::new("a", "first"), Part::file("b", "f", "image/png", "second field"), Part::new("a", "third")];
        match r.take(3) {
            0 => {}
            1 => parts[0].content = filler(9000),
            _ => {
                parts[1].content.clear();
                parts[2].content = b"\xff\xfe".to_vec();
            }
        }
        let body = Body::new("bnd", parts);
        let conf = Conf { limit: Some(None), thr: Some(thr), pol: *x.pick(&[Pol::Default, Pol::Ignore]) };
        let w = World::fresh();
        std::fs::write(w.s.join("sentinel"), b"precious").unwrap();
        std::fs::write(w.tmp.join("sentinel"), b"precious").unwrap();
        let before = w.snap();
        let met = RefCell::new(Met::default());
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()).max(if body.bytes.len() > 1000 { 1024 } else { usize::MAX }), "bnd");
        x.log(|| format!("api {} {:?}", api, conf));
        // the application makes its own directory in api 2
        let res = {
            let mut h = faults(x, &w, &met);
            let mut own = api == 2;
            sys::armed(
                move |op| {
                    if own {
                        own = false;
                        return Act::Pass;
                    }
                    h(op)
                },
                || save_all(&w, &mut mp, &conf, None, api),
            )
        };
        let kind = match res {
            SaveResult::Full(_) => Kind::Full,
            SaveResult::Partial(_, PartialReason::IoError(ref e)) => Kind::Io(e.kind()),
            SaveResult::Partial(_, ref r) => bail!("outcome", "the save stopped for {:?}", r),
            SaveResult::Error(ref e) => Kind::Error(e.kind()),
        };
        x.log(|| format!("-> {:?}", kind));
        x.state((format!("{:?}", kind), met.borrow().any));
        tells(&met.borrow(), &kind)?;
        if life {
            let dir = match res {
                SaveResult::Full(ref e) => Some(e.save_dir.as_path().to_path_buf()),
                SaveResult::Partial(ref pe, _) => Some(pe.entries.save_dir.as_path().to_path_buf()),
                SaveResult::Error(_) => None,
            };
            let temp = api != 1 && api != 3;
            if let (Some(d), true) = (&dir, temp) {
                ensure!(d.is_dir(), "gone", "the temporary directory is gone although its handle exists");
            }
            let held = w.snap();
            drop(res);
            let after = w.snap();
            for (p, d) in &before {
                ensure!(after.get(p) == Some(d), "collateral", "{:?} was deleted or changed", p);
            }
            if temp {
                ensure!(after == before, "left", "after dropping the result there is still {:?}", World::news(&before, &after).iter().map(|n| &n.0).collect::<Vec<_>>());
            } else {
                ensure!(after == held, "gone", "dropping the result changed a permanent directory");
            }
            return Ok(());
        }
        let mut want: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
        let mut count = 0;
        let mut add = |want: &mut BTreeMap<String, Vec<Vec<u8>>>, k: usize| {
            for p in &body.parts[count..k] {
                want.entry(p.name.clone()).or_default().push(p.content.clone());
            }
            count = k;
        };
        match res {
            SaveResult::Full(e) => {
                add(&mut want, body.parts.len());
                let got = contents(&e)?;
                ensure!(got == want, "entries", "the entries hold {:?}", got);
                ensure!(e.fields_count() == 3, "count", "the count is {}", e.fields_count());
                Ok(())
            }
            SaveResult::Error(_) => {
                // nothing was done: the request is still all there
                next_is(&mut mp, &body.parts, 0)
            }
            SaveResult::Partial(mut pe, _) => {
                let k = pe.entries.fields_count() as usize;
                ensure!(k < 3, "count", "the count is {}", k);
                add(&mut want, k);
                let got = contents(&pe.entries)?;
                ensure!(got == want, "entries", "after {} fields the entries hold {:?}", k, got);
                let ps = match pe.partial.take() {
                    Some(p) => p,
                    None => bail!("no-partial", "the failing field was not handed back"),
                };
                let p = &body.parts[k];
                check_headers(&ps.source.headers, p, "the failing field")?;
                let mut all = match ps.dest {
                    Some(ref d) => stored(d, 0)?,
                    None => vec![],
                };
                // what is left of it, and then the rest of the request, goes into the same entries
                let mut src = ps.source.data;
                if let Err(e) = src.read_to_end(&mut all) {
                    bail!("rest-error", "reading the rest failed: {}", e);
                }
                check_data(&all, &p.content, "the failing field")?;
                let rest = src.into_inner();
                let e = match conf.apply(rest.save()).with_entries(pe.entries) {
                    SaveResult::Full(e) => e,
                    r => bail!("resume", "resuming ended with {}", r.as_kind()),
                };
                for q in &body.parts[k + 1..] {
                    want.entry(q.name.clone()).or_default().push(q.content.clone());
                }
                let got = contents(&e)?;
                ensure!(got == want, "entries", "after resuming the entries hold {:?}", got);
                ensure!(e.fields_count() == 2, "count", "the count is {}", e.fields_count());
                Ok(())
            }
        }
    })
}

/// C17: another process acts just before a call.
pub fn races(th: bool) -> Group {
    group("races", 9 * 4, if th { 5 } else { 3 }, move |x, o| {
        let mut r = Radix(o);
        let api = r.take(9);
        let thr = *r.pick(&[0u64, 4, 5, 20]);
        let single = api < 4;
        let big = x.flag();
        let mut parts = vec![Part::new("a", "first"), Part::file("b", "f", "image/png", "second field")];
        if big {
            parts[0].content = filler(3000);
        }
        let body = Body::new("bnd", parts);
        let conf = Conf { limit: Some(None), thr: Some(thr), pol: Pol::Default };
        let w = World::fresh();
        std::fs::write(w.s.join("target"), b"precious target").unwrap();
        let own: RefCell<Vec<PathBuf>> = RefCell::new(vec![]);
        let made: RefCell<Vec<PathBuf>> = RefCell::new(vec![]);
        // what happened that a save cannot get over
        let fatal = RefCell::new(0);
        let mut snap = w.snap();
        // api 2: the application makes the directory before the save begins
        let mut skip = !single && api == 4 + 2;
        let other = |op: &Op| -> Act {
            if !ours(&w, op) || !matches!(op.call, Call::Open | Call::Mkdir) || skip {
                skip = false;
                return Act::Pass;
            }
            if op.path.symlink_metadata().is_ok() {
                return Act::Pass; // it exists already
            }
            let (is_open, p) = (op.call == Call::Open, &op.path);
            let temp = !is_open && p.parent() == Some(&w.tmp);
            let act = x.dev(6);
            let done = match act {
                0 => return Act::Pass,
                1 => std::fs::write(p, b"precious"),
                2 => std::os::unix::fs::symlink(w.s.join("target"), p),
                3 => std::os::unix::fs::symlink(w.s.join("dangling"), p),
                4 => std::fs::create_dir(p),
                // a longer path is made in one go
                _ => std::fs::create_dir_all(p).and_then(|_| std::fs::write(p.join("precious"), b"precious too")),
            };
            if done.is_err() {
                return Act::Pass;
            }
            x.log(|| format!("  another process: act {} on {:?}", act, p));
            if !temp && (is_open || act < 4) {
                *fatal.borrow_mut() += 1;
            }
            if is_open || temp {
                own.borrow_mut().push(p.clone());
            } else {
                made.borrow_mut().push(p.clone());
            }
            if act == 5 {
                own.borrow_mut().push(p.join("precious"));
            }
            Act::Pass
        };
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()).max(if big { 1024 } else { 64 }), "bnd");
        x.log(|| format!("api {} threshold {} big {}", api, thr, big));
        let mut files: Vec<(PathBuf, Vec<u8>)> = vec![];
        let full;
        let mut keep = None;
        if single {
            let mut f = match mp.read_entry() {
                Ok(Some(f)) => f,
                _ => bail!("setup", "no field"),
            };
            let (kind, data) = sys::armed(other, || save_data(&w, &mut f.data, &conf, api));
            x.log(|| format!("-> {:?} {:?}", kind, data));
            full = matches!(kind, Kind::Full);
            ensure!(full || matches!(kind, Kind::Io(_) | Kind::Error(_)), "outcome", "the save ended with {:?}", kind);
            if let (true, Some(SavedData::File(p, _))) = (full, data) {
                files.push((p, body.parts[0].content.clone()));
            }
        } else {
            let res = sys::armed(other, || save_all(&w, &mut mp, &conf, None, api - 4));
            x.log(|| format!("-> {:?}", res.as_kind()));
            full = matches!(res, SaveResult::Full(_));
            match res {
                SaveResult::Full(e) => {
                    for p in &body.parts {
                        if let SavedData::File(ref q, _) = e.fields[&p.name[..]][0].data {
                            files.push((q.clone(), p.content.clone()));
                        }
                    }
                    keep = Some(e);
                }
                SaveResult::Partial(pe, _) => keep = Some(pe.entries),
                SaveResult::Error(_) => {}
            }
        }
        let fatal = *fatal.borrow();
        x.state((api, full, fatal, own.borrow().len()));
        if fatal == 0 {
            ensure!(full, "race-lost", "the save failed although all the other process did was to create {:?} {:?}", made.borrow(), own.borrow());
        }
        for (p, c) in &files {
            ensure!(!own.borrow().contains(p), "overwritten", "saved into {:?}, made by another process", p);
            match std::fs::read(p) {
                Ok(d) => check_data(&d, c, &format!("saved file {:?}", p))?,
                Err(e) => bail!("file-lost", "{:?} cannot be read: {}", p, e),
            }
            ensure!(std::fs::symlink_metadata(p).map_or(false, |m| m.file_type().is_file()), "overwritten", "{:?} is not a file of the save", p);
        }
        // what the other process made is as it left it, also after the entries are gone
        let mut gone: Option<PathBuf> = None;
        for stage in 0..2 {
            if stage == 1 {
                if let Some(e) = keep.take() {
                    if e.save_dir.is_temporary() {
                        gone = Some(e.save_dir.as_path().into());
                    }
                }
            }
            let now = w.snap();
            for (p, d) in &snap {
                ensure!(now.get(p) == Some(d), "overwritten", "{:?} was changed or deleted", p);
            }
            ensure!(!w.s.join("dangling").exists(), "overwritten", "a dangling link of another process was written through");
            for p in own.borrow().iter().filter(|p| !gone.as_ref().map_or(false, |g| p.starts_with(g))) {
                ensure!(p.symlink_metadata().is_ok(), "deleted", "{:?} of another process was deleted", p);
                let ok = match p.file_name().map_or(false, |n| n == "precious") {
                    true => std::fs::read(p).ok() == Some(b"precious too".to_vec()),
                    false => match p.symlink_metadata().unwrap().file_type() {
                        t if t.is_file() => std::fs::read(p).ok() == Some(b"precious".to_vec()),
                        t if t.is_dir() => clean(p),
                        _ => std::fs::read_link(p).map_or(false, |l| l.starts_with(&w.s)),
                    },
                };
                ensure!(ok, "overwritten", "{:?} of another process was changed", p);
            }
            snap = Snap::new();
        }
        Ok(())
    })
}

/// Nothing was put into a directory of another process which the save could not have been told to use.
fn clean(dir: &Path) -> bool {
    std::fs::read_dir(dir).map_or(false, |rd| rd.flatten().all(|e| e.file_name() == "precious"))
}

trait AsKind {
    fn as_kind(&self) -> String;
}
impl<M: multipart::server::ReadEntry> AsKind for multipart::server::save::EntriesSaveResult<M> {
    fn as_kind(&self) -> String {
        match *self {
            SaveResult::Full(_) => "Full".into(),
            SaveResult::Partial(_, ref r) => format!("Partial {:?}", r),
            SaveResult::Error(ref e) => format!("Error {:?}", e),
        }
    }
}
