//! C27: the results of saving can be inspected and converted without losing anything.
use crate::env::*;
use crate::explore::*;
use crate::parse::filler;
use crate::saves::*;
use crate::sys::{self, Act, Call};
use crate::{bail, ensure};
use multipart::server::save::{Entries, PartialReason, SaveDir, SaveResult, SavedData, SavedField};
use multipart::server::Multipart;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{self, BufRead, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Reasons: three without an I/O error, then one for each kind of error.
const SHAPES: usize = 1 + NR + ALL_KINDS.len() + 1;
const NR: usize = 3 + ALL_KINDS.len() + 1;

fn kind(i: usize) -> ErrorKind {
    ALL_KINDS.get(i).cloned().unwrap_or(ErrorKind::Interrupted)
}
fn error(i: usize) -> io::Error {
    if i % 2 == 0 {
        io::Error::new(kind(i), InjectedError)
    } else {
        kind(i).into()
    }
}
fn reason(i: usize) -> PartialReason {
    match i {
        0 => PartialReason::CountLimit,
        1 => PartialReason::SizeLimit,
        2 => std::str::from_utf8(&b"ab\xff"[1 - (i - 2)..]).unwrap_err().into(),
        _ => error(i - 3).into(),
    }
}
fn io_of(i: usize) -> Option<ErrorKind> {
    if i < 3 {
        None
    } else {
        Some(kind(i - 3))
    }
}
fn named(i: usize) -> String {
    format!("{:?}", reason(i))
}
fn same_reason(i: usize, r: &PartialReason) -> bool {
    match *r {
        PartialReason::CountLimit => i == 0,
        PartialReason::SizeLimit => i == 1,
        PartialReason::Utf8Error(e) => i == 2 && e.valid_up_to() == 1,
        PartialReason::IoError(ref e) => io_of(i) == Some(e.kind()),
    }
}

/// Every conversion of a result whose value can be told apart by `key`.
fn convert<S, P: Into<S>>(x: &X, shape: usize, how: usize, full: S, part: P, key: &dyn Fn(&S) -> String) -> Res {
    // shape 0: full; 1..=NR partial; then errors
    let (want, err) = match shape {
        0 => (Some(key(&full)), None),
        1..=NR => (None, io_of(shape - 1)),
        _ => (None, Some(kind(shape - NR - 1))),
    };
    let (want, r) = match shape {
        0 => (want, SaveResult::Full(full)),
        1..=NR => {
            let p: S = part.into();
            let k = key(&p);
            // converted back and forth: the value is what counts
            return convert_same(x, shape, how, p, k, err, key);
        }
        _ => (None, SaveResult::Error(error(shape - NR - 1))),
    };
    outcome::<S>(x, shape, how, r, want, err, key)
}
fn convert_same<S>(x: &X, shape: usize, how: usize, p: S, k: String, err: Option<ErrorKind>, key: &dyn Fn(&S) -> String) -> Res {
    outcome::<S>(x, shape, how, SaveResult::Partial(p, reason(shape - 1)), Some(k), err, key)
}
fn outcome<S>(x: &X, shape: usize, how: usize, r: SaveResult<S, S>, want: Option<String>, err: Option<ErrorKind>, key: &dyn Fn(&S) -> String) -> Res {
    let got = |s: Option<S>| s.as_ref().map(|s| key(s));
    x.state((shape, how));
    x.log(|| format!("{} through conversion {}", match shape { 0 => "full".into(), 1..=NR => format!("partial ({})", named(shape - 1)), _ => "error".to_string() }, how));
    match how {
        0 => {
            let v = got(r.okish());
            ensure!(v == want, "okish", "okish() gives {:?} instead of {:?}", v, want);
        }
        1 => {
            let (v, e) = r.into_opt_both();
            let v = got(v);
            ensure!(v == want, "opt-both", "into_opt_both() gives {:?} instead of {:?}", v, want);
            ensure!(e.as_ref().map(|e| e.kind()) == err, "opt-both", "into_opt_both() gives the error {:?} instead of {:?}", e, err);
        }
        2 => match (r.into_result(), want) {
            (Ok(v), Some(w)) => ensure!(key(&v) == w, "result", "into_result() gives {:?} instead of {:?}", key(&v), w),
            (Ok(v), None) => bail!("result", "into_result() gives {:?} for an error", key(&v)),
            (Err(e), None) => ensure!(Some(e.kind()) == err, "result", "into_result() gives the error {:?}", e),
            (Err(e), Some(w)) => bail!("result", "into_result() gives the error {:?} and drops {:?}", e, w),
        },
        3 => match (r.into_result_strict(), err) {
            (Ok(v), None) => ensure!(Some(key(&v)) == want, "strict", "into_result_strict() gives {:?} instead of {:?}", key(&v), want),
            (Ok(v), Some(e)) => bail!("strict", "into_result_strict() gives {:?} and hides the error {:?}", key(&v), e),
            (Err(e), Some(k)) => ensure!(e.kind() == k, "strict", "into_result_strict() gives {:?} instead of {:?}", e, k),
            (Err(_), None) => ensure!(shape != 0, "strict", "into_result_strict() fails for a full result"),
        },
        _ => {
            let calls = Cell::new(0);
            let m = r.map(|s| {
                calls.set(calls.get() + 1);
                (key(&s), 7)
            });
            ensure!(calls.get() == want.is_some() as u32, "map", "the function given to map() ran {} times", calls.get());
            match m {
                SaveResult::Full(v) => ensure!(shape == 0 && Some(&v.0) == want.as_ref(), "map", "map() gives a full result of {:?}", v),
                SaveResult::Partial(v, r) => {
                    ensure!((1..=NR).contains(&shape) && Some(&v.0) == want.as_ref(), "map", "map() gives a partial result of {:?}", v);
                    ensure!(same_reason(shape - 1, &r), "map", "map() turns the reason {} into {:?}", named(shape - 1), r);
                }
                SaveResult::Error(e) => ensure!(shape > NR && e.kind() == kind(shape - NR - 1), "map", "map() gives the error {:?}", e),
            }
        }
    }
    Ok(())
}

fn data_key(d: &SavedData) -> String {
    format!("{:?}", d)
}

/// The request `(a, b, a)` saved so that it ends in one of the ways a save can end.
fn entries_with(w: &World, end: usize, api: usize, f: &mut dyn FnMut(multipart::server::save::EntriesSaveResult<&mut Multipart<Source>>) -> Res) -> Res {
    let parts = vec![Part::new("a", "first"), Part::file("b", "n", "image/png", "second"), Part::new("a", b"ab\xff".to_vec()), Part::new("c", "longer than that")];
    let body = Body::new("bnd", parts);
    let mut conf = Conf { limit: Some(None), thr: Some(5), pol: Pol::Default };
    let mut count = None;
    let mut src = Source::new(body.bytes.clone());
    match end {
        0 => {}
        1 => count = Some(Some(2)),
        2 => conf.limit = Some(Some(10)),
        3 => conf.pol = Pol::Force,
        4 => src = src.faults(vec![Fault { pos: body.at[3].1 + 3, kind: ErrorKind::Other }]),
        5 => src = src.truncated(body.at[3].0 + 5),
        6 => count = Some(Some(0)),
        7 => src = src.truncated(body.at[3].1 + 3),
        _ => src = src.truncated(body.at[3].2 + 4),
    }
    let mut mp = Multipart::with_body(src, "bnd");
    f(save_all(w, &mut mp, &conf, count, api))
}

fn entries_key(e: &Entries) -> String {
    let m: BTreeMap<_, Vec<String>> = e.fields.iter().map(|(k, v)| (k.to_string(), v.iter().map(|f| format!("{:?} {:?}", f.headers, f.data)).collect())).collect();
    format!("{:?} {:?} {}", m, e.save_dir.as_path(), e.fields_count())
}

/// A writer that accepts little, is interrupted, or fails.
struct Narrow<'a> {
    x: &'a X,
    out: &'a RefCell<Vec<u8>>,
    raised: &'a Cell<Option<ErrorKind>>,
}
impl<'a> Write for Narrow<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = match self.x.dev(6) {
            0 => b.len(),
            1 => 1,
            2 => (b.len() + 1) / 2,
            3 => return Err(ErrorKind::Interrupted.into()),
            4 => {
                self.raised.set(Some(ErrorKind::WriteZero));
                0
            }
            _ => {
                self.raised.set(Some(ErrorKind::BrokenPipe));
                return Err(io::Error::new(ErrorKind::BrokenPipe, InjectedError));
            }
        };
        self.out.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn c27(th: bool) -> Vec<Group> {
    let mut g = vec![];
    g.push(group("conversions", SHAPES as u64 * 5, 0, move |x, o| {
        let mut r = Radix(o);
        let shape = r.take(SHAPES);
        let how = r.take(5);
        match x.all(6) {
            0 => convert(x, shape, how, 5u64, 3u64, &|n| n.to_string()),
            1 => convert(x, shape, how, u64::MAX, 0u64, &|n| n.to_string()),
            2 => convert(x, shape, how, "full".to_string(), "", &|s: &String| s.clone()),
            3 => convert(x, shape, how, b"full".to_vec(), b"".to_vec(), &|s| format!("{:?}", s)),
            4 => convert(x, shape, how, SavedData::File("/nowhere/f".into(), 9), SavedData::Text("part".into()), &data_key),
            _ => convert(x, shape, how, SavedData::Bytes(vec![1]), SavedData::File("p".into(), 0), &data_key),
        }
    }));
    // a save that did not begin has no entries
    g.push(group("failed", NR as u64 * 7, 0, move |x, o| {
        use multipart::server::save::{Entries, EntriesSaveResult};
        let mut r = Radix(o);
        let i = r.take(NR);
        let kind = io_of(i).unwrap_or(io::ErrorKind::InvalidInput);
        type R = EntriesSaveResult<Multipart<&'static [u8]>>;
        let res = R::Error(kind.into());
        x.state(o);
        let gone = |e: Option<Entries>| if e.is_some() { Err(Fail { key: "invented".into(), msg: "entries although nothing was saved".into() }) } else { Ok(()) };
        let same = |e: Option<io::Error>| if e.as_ref().map(|e| e.kind()) == Some(kind) { Ok(()) } else { Err(Fail { key: "error".into(), msg: format!("the error of {:?} is {:?}", kind, e) }) };
        match r.0 {
            0 => gone(res.into_entries()),
            1 => gone(res.okish()),
            2 => same(res.into_result().err()),
            3 => same(res.into_result_strict().err()),
            4 => {
                let (a, b) = res.into_opt_both();
                gone(a)?;
                same(b)
            }
            5 => match res.map(|e: Entries| e.fields_count()) {
                SaveResult::Error(e) => same(Some(e)),
                r => bail!("invented", "{:?} although nothing was saved", r),
            },
            _ => match res {
                SaveResult::Error(e) => same(Some(e)),
                _ => unreachable!(),
            },
        }
    }));
    // the error of a partial result
    g.push(group("reasons", NR as u64 * 2, 0, move |x, o| {
        let i = (o / 2) as usize;
        let r = catch_unwind(AssertUnwindSafe(|| if o % 2 == 0 { reason(i).unwrap_err() } else { reason(i).expect_err("the message") }));
        x.state(o);
        match (r, io_of(i)) {
            (Ok(e), Some(k)) => ensure!(e.kind() == k, "unwrap-err", "the error of the reason is {:?} instead of {:?}", e, k),
            (Ok(e), None) => bail!("unwrap-err", "the reason {} gave the error {:?}", named(i), e),
            (Err(_), Some(k)) => bail!("unwrap-err", "panicked for an I/O error {:?}", k),
            (Err(p), None) => {
                let m = p.downcast_ref::<String>().cloned().unwrap_or_default();
                ensure!(o % 2 == 0 || m.contains("the message"), "expect-err", "panicked with {:?}", m);
            }
        }
        Ok(())
    }));
    // the results of real saves
    g.push(group("saves", 9 * WHOLE_APIS as u64, 0, move |x, o| {
        let mut r = Radix(o);
        let (end, api) = (r.take(9), r.take(WHOLE_APIS));
        let w = World::fresh();
        entries_with(&w, end, api, &mut |res| {
            let want_err = if [4, 5, 7, 8].contains(&end) { Some(()) } else { None };
            let (key, n) = match res {
                SaveResult::Full(ref e) => (entries_key(e), e.fields_count()),
                SaveResult::Partial(ref pe, ref r) => {
                    ensure!(matches!(r, PartialReason::IoError(_)) == want_err.is_some(), "reason", "ending {} gave the reason {:?}", end, r);
                    (entries_key(&pe.entries), pe.entries.fields_count())
                }
                SaveResult::Error(ref e) => bail!("outcome", "failed with {}", e),
            };
            // where buffering meets the failure of the transport is not laid down, nor whether what
            // arrived of a field that was cut off is one of the entries
            let most = [4, 2, 3, 2, 3, 3, 0, 4, 4][end];
            let least = [4, 2, 3, 2, 0, 3, 0, 3, 3][end];
            ensure!((least..=most).contains(&n), "count", "ending {}: {} fields", end, n);
            let how = x.all(7);
            x.state((end, api, how));
            let got = match how {
                0 => res.into_entries(),
                1 => res.okish(),
                2 => res.into_result().ok(),
                3 => match (res.into_result_strict(), want_err) {
                    (Ok(e), None) => Some(e),
                    (Err(_), Some(())) => return Ok(()),
                    (Ok(_), _) => bail!("strict", "into_result_strict() hides the error of ending {}", end),
                    (Err(e), _) if end != 0 => {
                        let _ = e;
                        return Ok(());
                    }
                    (Err(e), _) => bail!("strict", "into_result_strict() fails for a full result: {}", e),
                },
                4 => {
                    let (e, err) = res.into_opt_both();
                    ensure!(err.is_some() == want_err.is_some(), "opt-both", "into_opt_both() gives the error {:?} for ending {}", err, end);
                    e
                }
                5 => match res {
                    SaveResult::Partial(pe, _) => Some(pe.into()),
                    r => r.into_entries(),
                },
                _ => {
                    let mut seen = None;
                    let r = res.map(|e| {
                        seen = Some(entries_key(&e));
                        e
                    });
                    ensure!(seen.as_ref() == Some(&key), "map", "map() was given {:?}", seen);
                    match (r, end) {
                        (SaveResult::Full(e), 0) => Some(e),
                        (SaveResult::Partial(e, r), 1..=8) => {
                            ensure!(matches!(r, PartialReason::IoError(_)) == want_err.is_some(), "map", "map() gave the reason {:?}", r);
                            Some(e)
                        }
                        _ => bail!("map", "map() changed the outcome of ending {}", end),
                    }
                }
            };
            match got {
                Some(mut e) => {
                    ensure!(entries_key(&e) == key, "entries", "conversion {} gives {} instead of {}", how, entries_key(&e), key);
                    ensure!(e.is_empty() == (n == 0), "is-empty", "is_empty() is {} with {} fields", e.is_empty(), n);
                    ensure!(e.recount_fields() == n && e.fields_count() == n, "recount", "recounted {} fields of {}", e.fields_count(), n);
                    for v in e.fields.values() {
                        for f in v {
                            stored(&f.data, 1)?;
                        }
                    }
                    Ok(())
                }
                None => fail("entries", format!("conversion {} loses the entries", how)),
            }
        })
    }));
    // what a stopped save holds of its last field is kept when that is asked for, and only then
    g.push(group("kept", 6 * 4 * 4 * WHOLE_APIS as u64, 0, move |x, o| {
        let mut r = Radix(o);
        let limit = *r.pick(&[0u64, 1, 2, 3, 6, 10]);
        let thr = *r.pick(&[None, Some(0), Some(2), Some(u64::MAX)]);
        let pol = *r.pick(&[Pol::Default, Pol::Ignore, Pol::Force, Pol::Try]);
        let api = r.take(WHOLE_APIS);
        let w = World::fresh();
        let first = *x.pick(&[&b"x"[..], b"", b"\xe2\x82\xac", b"\xff", b"abcdef"]);
        let last = *x.pick(&[&b"abcdefghijkl"[..], b"\xe2\x82\xac\xe2\x82\xac", b"\xff\xffab"]);
        let parts = vec![Part::new("a", first), Part::typed("b", *x.pick(&[None, Some("image/png")]), last), Part::new("c", "after")];
        let body = Body::new("bnd", parts);
        let conf = Conf { limit: Some(Some(limit)), thr, pol };
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        let pe = match save_all(&w, &mut mp, &conf, None, api) {
            SaveResult::Full(_) => return Ok(()),
            SaveResult::Partial(pe, _) => pe,
            SaveResult::Error(e) => bail!("outcome", "failed with {}", e),
        };
        let mut want: BTreeMap<String, Vec<String>> = pe.entries.fields.iter().map(|(k, v)| (k.to_string(), v.iter().map(|f| format!("{:?} {:?}", f.headers, f.data)).collect())).collect();
        let n = pe.entries.fields_count();
        let mut held = false;
        let keep = x.flag();
        if let Some(ref p) = pe.partial {
            if let (Some(ref d), true) = (&p.dest, keep) {
                want.entry(p.source.headers.name.to_string()).or_default().push(format!("{:?} {:?}", p.source.headers, d));
                held = true;
            }
        }
        let e: Entries = if keep { pe.keep_partial() } else { pe.into() };
        let got: BTreeMap<String, Vec<String>> = e.fields.iter().map(|(k, v)| (k.to_string(), v.iter().map(|f| format!("{:?} {:?}", f.headers, f.data)).collect())).collect();
        ensure!(got == want, "keep-partial", "the entries are {:?} instead of {:?}", got, want);
        ensure!(e.fields_count() == n + held as u32, "count", "{} fields counted, {} with {} kept", e.fields_count(), n, held as u32);
        for v in e.fields.values() {
            for f in v {
                stored(&f.data, 1)?;
            }
        }
        x.state((o, n, held));
        Ok(())
    }));
    // counting after changes from outside
    g.push(group("recount", 0x1000, 0, move |x, o| {
        let mut e = Entries::new(SaveDir::Perm("/nonexistent".into()));
        ensure!(e.is_empty() && e.fields_count() == 0 && e.recount_fields() == 0, "empty", "new entries are not empty");
        let mut model: BTreeMap<String, usize> = BTreeMap::new();
        let mut d = Radix(o);
        for _ in 0..6 {
            let k = ["a", "b"][d.take(2)];
            match d.take(2) {
                0 => {
                    let h = headers(k);
                    e.fields.entry(h.name.clone()).or_default().push(SavedField { headers: h, data: SavedData::Text("t".into()) });
                    *model.entry(k.into()).or_default() += 1;
                }
                _ => match x.all(2) {
                    0 => {
                        e.fields.remove(k);
                        model.remove(k);
                    }
                    _ => {
                        if let Some(v) = e.fields.get_mut(k) {
                            v.pop();
                            *model.get_mut(k).unwrap() = v.len();
                        }
                    }
                },
            }
            let n: usize = model.values().sum();
            let c = e.recount_fields();
            x.state((n, model.len()));
            ensure!(c as usize == n && e.fields_count() == c, "recount", "{} fields counted, {} there", c, n);
            ensure!(e.is_empty() == model.is_empty(), "is-empty", "is_empty() is {} with {:?}", e.is_empty(), model);
        }
        Ok(())
    }));
    // reading saved data back through every mixture of operations
    let lens: Vec<usize> = if th { vec![0, 1, 5, 8191, 8192, 8193, 20000] } else { vec![0, 1, 5, 8192, 9000] };
    g.push(group("readers", lens.len() as u64 * 3 * 6, 0, move |x, o| {
        let mut r = Radix(o);
        let c = filler(*r.pick(&lens));
        let w = World::fresh();
        let path = w.s.join("f");
        let data = match r.take(3) {
            0 => SavedData::Text(String::from_utf8(c.clone()).unwrap()),
            1 => SavedData::Bytes(c.clone()),
            _ => {
                std::fs::write(&path, &c).unwrap();
                SavedData::File(path, c.len() as u64)
            }
        };
        ensure!(data.size() == c.len() as u64, "size", "size {} of {} bytes", data.size(), c.len());
        // two adapters for the same data are independent
        let mut a = data.readable().map_err(|e| Fail { key: "readable".into(), msg: e.to_string() })?;
        let mut b = data.readable().map_err(|e| Fail { key: "readable".into(), msg: e.to_string() })?;
        let io = |e: io::Error| Fail { key: "read".into(), msg: e.to_string() };
        let mut at = 0;
        let mut other = 0;
        let mut first = Some(r.take(6));
        for _ in 0..if th { 5 } else { 4 } {
            let op = first.take().unwrap_or_else(|| x.all(6));
            match op {
                0..=2 => {
                    let n = [1usize, 4000, 30000][op];
                    let mut buf = vec![0u8; n];
                    let k = a.read(&mut buf).map_err(io)?;
                    ensure!(k > 0 || at == c.len(), "end", "end reported after {} of {}", at, c.len());
                    ensure!(at + k <= c.len(), "beyond", "{} bytes read after {} of {}", k, at, c.len());
                    check_data(&buf[..k], &c[at..at + k], "read")?;
                    at += k;
                }
                3 | 4 => {
                    let n = {
                        let p = a.fill_buf().map_err(io)?;
                        ensure!(!p.is_empty() || at == c.len(), "end", "end reported after {} of {}", at, c.len());
                        ensure!(at + p.len() <= c.len(), "beyond", "{} bytes peeked after {} of {}", p.len(), at, c.len());
                        check_data(p, &c[at..at + p.len()], "peeked")?;
                        if op == 3 {
                            p.len()
                        } else {
                            p.len() / 2
                        }
                    };
                    a.consume(n);
                    at += n;
                }
                _ => {
                    let mut buf = [0u8; 3];
                    let k = b.read(&mut buf).map_err(io)?;
                    check_data(&buf[..k], &c[other..other + k], "read through the second adapter")?;
                    other += k;
                }
            }
            x.state((op, at, other));
        }
        let mut rest = vec![];
        a.read_to_end(&mut rest).map_err(io)?;
        check_data(&rest, &c[at..], "the rest")
    }));
    // a saved file which someone has changed since is read as it is, and left as it is
    g.push(group("changed", 5 * 5 * 3, 0, move |x, o| {
        let mut r = Radix(o);
        let ns = [0usize, 1, 5, 9000, 70_000];
        let (was, is) = (*r.pick(&ns), *r.pick(&ns));
        let how = r.take(3);
        let w = World::fresh();
        let path = w.s.join("f");
        let c: Vec<u8> = filler(is).into_iter().map(|b| b ^ 1).collect();
        std::fs::write(&path, &c).unwrap();
        let data = SavedData::File(path.clone(), was as u64);
        ensure!(data.size() == was as u64, "size", "size {} of {}", data.size(), was);
        let mut got = vec![];
        match how {
            0 => {
                data.readable().and_then(|mut a| a.read_to_end(&mut got)).map_err(|e| Fail { key: "read".into(), msg: e.to_string() })?;
            }
            1 => {
                let mut a = data.readable().map_err(|e| Fail { key: "read".into(), msg: e.to_string() })?;
                let k = x.all(3) * 4000;
                let mut buf = vec![0; k];
                let n = a.read(&mut buf).map_err(|e| Fail { key: "read".into(), msg: e.to_string() })?;
                got.extend_from_slice(&buf[..n]);
                a.read_to_end(&mut got).map_err(|e| Fail { key: "read".into(), msg: e.to_string() })?;
            }
            _ => {
                let _ = format!("{:?}", data);
            }
        }
        if how < 2 {
            // what is beyond the saved size was not saved
            let k = got.len().min(c.len());
            ensure!(got.len() <= c.len() && got[..] == c[..k] && k >= c.len().min(was), "content", "read {} of the {} bytes in the file", show(&got), is);
        }
        let now = std::fs::read(&path).unwrap();
        ensure!(now == c, "changed", "reading changed the file: {} instead of {}", show(&now), show(&c));
        x.state((was, is, how));
        Ok(())
    }));
    // the debug output, to any writer
    g.push(group("debug", 10 * 3 * 3, if th { 3 } else { 2 }, move |x, o| {
        let mut r = Radix(o);
        let w = World::fresh();
        let names = [&["a"][..], &["a", "b"], &["a", "a"], &["", "\u{e9}\"x"], &["a", "b", "a"], &[], &["a"; 20], &["b"; 300], &["b"; 40], &["a"; 280]][r.take(10)];
        let many = [vec![], (0..40).map(|i| format!("n{}", i % 33)).collect::<Vec<_>>(), (0..300).map(|i| format!("m{}", i)).collect()];
        let names: Vec<&str> = match (names.len(), names.first()) {
            (40, _) => many[1].iter().map(|s| &s[..]).collect(),
            (300, _) => many[2].iter().map(|s| &s[..]).collect(),
            _ => names.to_vec(),
        };
        // the order of names is random: failures are enumerated with one name only
        let calm = names.len() > 3 || names.iter().any(|n| *n != names[0]);
        let size = *r.pick(&[0usize, 10, 9000]);
        if names.len() > 3 && size == 9000 {
            return Ok(());
        }
        let place = r.take(3);
        let mut e = Entries::new(SaveDir::Perm(w.s.clone()));
        for (i, n) in names.iter().enumerate() {
            let c = format!("<{}{}>", i, "x".repeat(size));
            let data = match place {
                0 => SavedData::Text(c),
                1 => SavedData::Bytes(c.into_bytes()),
                _ => {
                    let p = w.s.join(format!("f{}", i));
                    std::fs::write(&p, &c).unwrap();
                    SavedData::File(p, c.len() as u64)
                }
            };
            let h = headers(n);
            e.fields.entry(h.name.clone()).or_default().push(SavedField { headers: h, data });
        }
        let out = RefCell::new(vec![]);
        let raised = Cell::new(None);
        let fs_raised = Cell::new(None);
        let res = sys::armed(
            |op| {
                if calm || !(op.call == Call::Read && op.fd > 2 || op.call == Call::Open && sys::under(op, &w.s)) {
                    return Act::Pass;
                }
                let a = sys::fault(x, op);
                if let Act::Fail(k) = a {
                    if k != libc::EINTR {
                        fs_raised.set(Some(sys::kind(k)));
                    }
                }
                a
            },
            || if calm { e.write_debug(&mut *out.borrow_mut()) } else { e.write_debug(Narrow { x, out: &out, raised: &raised }) },
        );
        x.state((o, out.borrow().len(), res.is_ok()));
        let out = out.borrow();
        x.log(|| format!("{:?}: {}", res, show(&out)));
        match (res, raised.get().or(fs_raised.get())) {
            (Ok(()), Some(k)) => bail!("debug-hidden", "success reported although {:?} occurred", k),
            (Err(e), Some(k)) => ensure!(e.kind() == k || e.kind() == ErrorKind::WriteZero, "debug-error", "{:?} reported although {:?} occurred", e, k),
            (Err(e), None) => bail!("debug-error", "nothing failed, but the error is {}", e),
            (Ok(()), None) => {
                for (i, n) in names.iter().enumerate() {
                    let c = format!("<{}{}>", i, "x".repeat(size));
                    let times = (0..out.len()).filter(|&k| out[k..].starts_with(c.as_bytes())).count();
                    ensure!(times == 1, "debug", "content {} is written {} times", i, times);
                    ensure!(has(&out, format!("{:?}", n).as_bytes()), "debug", "the name {:?} is not written", n);
                }
                {
                    let cap = crate::more::Capture::new();
                    let r = e.print_debug();
                    let _ = std::io::Write::flush(&mut std::io::stdout());
                    let printed = cap.get();
                    drop(cap);
                    ensure!(r.is_ok(), "debug-error", "printing fails: {:?}", r);
                    check_data(&printed, &out, "printed to standard output")?;
                }
            }
        }
        Ok(())
    }));
    g
}

/// Headers with this name, as the server makes them.
fn headers(name: &str) -> multipart::server::FieldHeaders {
    let b = Body::new("b", vec![Part::new("PLACEHOLDER", "")]);
    let mut mp = Multipart::with_body(Source::new(b.bytes), "b");
    let mut h = match mp.read_entry() {
        Ok(Some(f)) => f.headers,
        _ => panic!("harness: no headers"),
    };
    h.name = name.into();
    h
}
