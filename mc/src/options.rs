//! C29: a save is governed by the options set on it.
use crate::env::*;
use crate::explore::*;
use crate::parse::filler;
use crate::saves::*;
use crate::{bail, ensure};
use multipart::server::save::{Entries, SaveBuilder, SaveDir, SaveResult, SavedData};
use multipart::server::{Multipart, MultipartData};
use std::io::Read;
use std::path::PathBuf;

#[derive(Clone, Copy, Debug)]
enum Set {
    Size(Option<u64>),
    /// given as a number instead of an option
    SizeN(u64),
    Thr(u64),
    Try,
    Force,
    Ignore,
    /// options for opening files
    Opts,
    Overwrite,
    /// of fields, where there may be several
    Count(Option<u32>),
}

#[derive(Clone, Copy, Debug)]
enum Count {
    Opt(Option<u32>),
    Num(u32),
}

const SETS: [Set; 13] = [
    Set::Size(Some(3)),
    Set::SizeN(7),
    Set::Size(None),
    Set::SizeN(u64::MAX),
    Set::Thr(0),
    Set::Thr(2),
    Set::Thr(5),
    Set::Thr(u64::MAX),
    Set::Try,
    Set::Force,
    Set::Ignore,
    Set::Opts,
    Set::Overwrite,
];

fn set<S>(b: SaveBuilder<S>, s: &Set) -> SaveBuilder<S> {
    match *s {
        Set::Size(l) => b.size_limit(l),
        Set::SizeN(l) => b.size_limit(l),
        Set::Thr(t) => b.memory_threshold(t),
        Set::Try => b.try_text(),
        Set::Force => b.force_text(),
        Set::Ignore => b.ignore_text(),
        Set::Opts => b.mod_open_opts(|o| {
            o.read(true);
        }),
        Set::Overwrite => b.mod_open_opts(|o| {
            o.create_new(false).create(true).truncate(true);
        }),
        Set::Count(_) => b,
    }
}

/// What counts in the end.
fn conf_of(sets: &[Set]) -> Conf {
    let mut c = Conf { limit: None, thr: None, pol: Pol::Default };
    for s in sets {
        match *s {
            Set::Size(l) => c.limit = Some(l),
            Set::SizeN(l) => c.limit = Some(Some(l)),
            Set::Thr(t) => c.thr = Some(t),
            Set::Try => c.pol = Pol::Try,
            Set::Force => c.pol = Pol::Force,
            Set::Ignore => c.pol = Pol::Ignore,
            _ => {}
        }
    }
    c
}

const ALL: u32 = LIMIT | STORE | TEXT;

const CONTENTS: [&[u8]; 9] = [b"", b"ab", b"abc", b"abcd", b"abcde", b"abcdefgh", "a\u{e9}".as_bytes(), b"ab\xff", b"\xffbcdefghi"];

fn body_of(c: &[u8], ct: Option<&'static str>) -> Body {
    Body::new("bnd", vec![Part::typed("a", ct, c), Part::new("z", "tail")])
}

const LARGE: [Set; 14] = [
    Set::Size(Some(15_000)),
    Set::SizeN(66_000),
    Set::Size(None),
    Set::Thr(0),
    Set::Thr(10_241),
    Set::Thr(16_000),
    Set::Thr(70_000),
    Set::Thr(u64::MAX),
    Set::Ignore,
    Set::Force,
    Set::Overwrite,
    Set::Count(None),
    Set::Count(Some(u32::MAX)),
    Set::Count(Some(300)),
];

/// Every sequence of settings.
fn settings(name: &'static str, alphabet: &'static [Set], contents: Vec<Vec<u8>>, len: u32) -> Group {
    let k = alphabet.len() as u64;
    let n: u64 = (0..=len).map(|l| k.pow(l)).sum();
    group(name, n, 0, move |x, mut o| {
        let mut sets = vec![];
        for l in 0..=len {
            let m = k.pow(l);
            if o < m {
                for _ in 0..l {
                    sets.push(alphabet[(o % k) as usize]);
                    o /= k;
                }
                break;
            }
            o -= m;
        }
        let conf = conf_of(&sets);
        let c = &contents[x.all(contents.len())][..];
        let ct = *x.pick(&[None, Some("text/plain"), Some("image/png")]);
        let body = body_of(c, ct);
        let w = World::fresh();
        let target = w.s.join("p").join("file");
        let over = sets.iter().any(|s| matches!(s, Set::Overwrite));
        let single = x.flag();
        x.log(|| format!("{} of {}: {:?}", if single { "a field" } else { "all" }, show(c), sets));
        let texty = ct.map_or(true, |c| c.starts_with("text/"));
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        if single {
            // in the way, unless told otherwise
            std::fs::create_dir_all(w.s.join("p")).unwrap();
            let there = x.flag();
            if there {
                std::fs::write(&target, b"precious").unwrap();
            }
            let before = w.snap();
            let out = {
                let mut f = match mp.read_entry() {
                    Ok(Some(f)) => f,
                    _ => bail!("setup", "no field"),
                };
                let mut b = f.data.save();
                for s in &sets {
                    b = set(b, s);
                }
                let r = b.with_path(&target);
                let files: Vec<_> = World::news(&before, &w.snap()).into_iter().filter_map(|(p, c)| c.map(|c| (p, c))).collect();
                let refused = match r {
                    SaveResult::Error(_) => true,
                    SaveResult::Partial(_, ref r) => matches!(r, multipart::server::save::PartialReason::IoError(_)),
                    _ => false,
                };
                if there && !over {
                    let m = conf.limit_val().min(conf.thr_val());
                    let disk = c.len() as u64 > m && conf.limit_val() > conf.thr_val();
                    let bad = conf.pol == Pol::Force && c.contains(&0xff);
                    ensure!(files.is_empty(), "overwritten", "{:?} changed", files);
                    ensure!(refused == disk || bad, "existing", "{} although it {}", if refused { "refused" } else { "saved" }, if disk { "must go to a file that exists" } else { "needs no file" });
                    if refused {
                        return Ok(());
                    }
                }
                let (kind, data) = match r {
                    SaveResult::Full(d) => (Kind::Full, Some(d)),
                    SaveResult::Partial(d, r) => (kind_of(r), Some(d)),
                    SaveResult::Error(e) => bail!("error", "{}", e),
                };
                let mut rest = vec![];
                if let Err(e) = f.data.read_to_end(&mut rest) {
                    bail!("rest-error", "{}", e);
                }
                Out { kind, data, rest, files }
            };
            x.state((1, format!("{:?}", out.kind).len(), out.rest.len()));
            return judge(x, ALL, c, &conf, true, &out);
        }
        let before = w.snap();
        let mut b = mp.save();
        for s in &sets {
            b = match *s {
                Set::Count(Some(n)) if n == u32::MAX => b.count_limit(n),
                Set::Count(n) => b.count_limit(n),
                _ => set(b, s),
            };
        }
        let (kind, data, rest, _keep) = match b.with_dir(w.s.join("e")) {
            SaveResult::Full(mut e) => {
                let f = e.fields.remove("a").and_then(|mut v| v.pop());
                let f = match f {
                    Some(f) => f,
                    None => bail!("field-lost", "the field is not among the saved ones"),
                };
                (Kind::Full, Some(f.data), vec![], e)
            }
            SaveResult::Partial(pe, r) => {
                let mut ps = match pe.partial {
                    Some(p) => p,
                    None => bail!("no-partial", "{:?} without the field", r),
                };
                let mut rest = vec![];
                if let Err(e) = ps.source.data.read_to_end(&mut rest) {
                    bail!("rest-error", "{}", e);
                }
                if &*ps.source.headers.name == "z" {
                    // the first went well, the limit is about the second
                    ensure!(conf.limit == Some(Some(3)), "limit-early", "\"tail\" stopped with {:?} and {:?}", r, conf);
                    ensure!(rest == b"l", "not-truncated", "the rest of \"tail\" is {}", show(&rest));
                    let mut e = pe.entries;
                    match e.fields.remove("a").and_then(|mut v| v.pop()) {
                        Some(f) => (Kind::Full, Some(f.data), vec![], e),
                        None => bail!("field-lost", "the field is not among the saved ones"),
                    }
                } else {
                    (kind_of(r), ps.dest, rest, pe.entries)
                }
            }
            SaveResult::Error(e) => bail!("error", "{}", e),
        };
        // the file of "tail" is not of interest
        let files: Vec<_> = files_of(&before, &w.snap())
            .into_iter()
            .filter(|f| match data {
                Some(SavedData::File(ref p, _)) => f.0 == *p,
                _ => !b"tail".starts_with(&f.1[..]) || f.1.is_empty(),
            })
            .collect();
        let out = Out { kind, data, rest, files };
        x.state((2, format!("{:?}", out.kind).len(), out.rest.len()));
        judge(x, ALL, c, &conf, texty, &out)
    })
}

/// Count limits are set among the other options.
fn counts(th: bool) -> Group {
    let cs = [Count::Opt(Some(1)), Count::Num(2), Count::Opt(None), Count::Num(u32::MAX), Count::Num(0)];
    let len = if th { 3 } else { 2 };
    let k = cs.len() as u64 + 1;
    group("counts", k.pow(len) * 13 * 13, 0, move |x, o| {
        let mut r = Radix(o);
        let (s1, s2) = (*r.pick(&SETS), *r.pick(&SETS));
        let mut plan = vec![];
        let mut limit = 256u32;
        for _ in 0..len {
            let i = r.take(k as usize);
            if i > 0 {
                plan.push(cs[i - 1]);
                limit = match cs[i - 1] {
                    Count::Opt(None) => u32::MAX,
                    Count::Opt(Some(n)) | Count::Num(n) => n,
                };
            }
        }
        let order = x.all(3);
        let held = x.all(2);
        x.log(|| format!("{:?} {:?} {:?} order {} held {}", s1, s2, plan, order, held));
        let body = Body::new("bnd", vec![Part::new("a", "x"), Part::new("b", "y"), Part::new("c", "z")]);
        let w = World::fresh();
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        let mut entries = Entries::new(SaveDir::Perm(w.s.join("g")));
        for i in 0..held {
            let f = multipart::server::save::SavedField { headers: held_headers(), data: SavedData::Bytes(vec![i as u8]) };
            entries.fields.entry("held".into()).or_insert_with(Vec::new).push(f);
        }
        let mut b = mp.save();
        if order == 0 {
            b = set(set(b, &s1), &s2);
        }
        for (i, c) in plan.iter().enumerate() {
            b = match *c {
                Count::Opt(c) => b.count_limit(c),
                Count::Num(c) => b.count_limit(c),
            };
            if order == 1 && i == 0 {
                b = set(set(b, &s1), &s2);
            }
        }
        if order == 2 {
            b = set(set(b, &s1), &s2);
        }
        let room = (limit as usize).saturating_sub(held).min(3);
        let (e, full) = match b.with_entries(entries) {
            SaveResult::Full(e) => (e, true),
            SaveResult::Partial(p, r) => {
                ensure!(matches!(r, multipart::server::save::PartialReason::CountLimit), "reason", "{:?}", r);
                (p.entries, false)
            }
            SaveResult::Error(e) => bail!("error", "{}", e),
        };
        x.state((limit, held, full));
        ensure!(full == (room == 3), "outcome", "{} with a count limit of {} and {} fields held", if full { "complete" } else { "stopped" }, limit, held);
        ensure!(e.fields_count() as usize == held + room, "count", "{} fields with a count limit of {}", e.fields_count(), limit);
        Ok(())
    })
}

fn held_headers() -> multipart::server::FieldHeaders {
    let mut mp = Multipart::with_body(&b"--b\r\nContent-Disposition: form-data; name=\"held\"\r\n\r\nv\r\n--b--"[..], "b");
    let h = mp.read_entry().unwrap().unwrap().headers;
    h
}

/// The options for opening files are those of every file of a save, and of every save that has them set.
fn opened(th: bool) -> Group {
    use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
    let modes = [None, Some(0o600u32), Some(0o640), Some(0o400)];
    let most = if th { 6 } else { 4 };
    group("opened", 4 * 4 * (most as u64), 0, move |x, o| {
        let mut r = Radix(o);
        let (m1, m2) = (*r.pick(&modes), *r.pick(&modes));
        let n = 1 + r.take(most);
        let api = x.all(4);
        let stop = x.all(n + 1);
        let sizes = x.all(2);
        let ask = x.all(3);
        // what a file gets without options, whatever the umask
        let w = World::fresh();
        let plain = |mode: Option<u32>| {
            let p = w.s.join("probe");
            let mut o = std::fs::OpenOptions::new();
            o.write(true).create_new(true);
            if let Some(m) = mode {
                o.mode(m);
            }
            o.open(&p).unwrap();
            let m = std::fs::metadata(&p).unwrap().permissions().mode();
            std::fs::remove_file(&p).unwrap();
            m
        };
        let (p1, p2) = (plain(m1), plain(m2));
        let parts: Vec<Part> = (0..n).map(|i| Part::new(["a", "b"][i % 2], if sizes == 1 && i % 2 == 0 { &b"12"[..] } else { b"to the disk" })).collect();
        let body = Body::new("bnd", parts);
        x.log(|| format!("{} fields, modes {:?} and {:?} from field {} on, api {}, sizes {}, order {}", n, m1, m2, stop, api, sizes, ask));
        fn with<S>(b: SaveBuilder<S>, mode: Option<u32>, ask: usize) -> SaveBuilder<S> {
            let f = |o: &mut std::fs::OpenOptions| {
                if let Some(m) = mode {
                    o.mode(m);
                }
            };
            match ask {
                0 => b.mod_open_opts(f).memory_threshold(3),
                1 => b.memory_threshold(3).mod_open_opts(f),
                // the last counts
                _ => b.mod_open_opts(|o| drop(o.mode(0o777))).memory_threshold(3).mod_open_opts(|o| drop(o.mode(mode.unwrap_or(0o666)))),
            }
        }
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        let mut seen = vec![];
        let mut look = |i: usize, d: &SavedData| -> Res {
            let disk = body.parts[i].content.len() > 3;
            match *d {
                SavedData::File(ref p, _) => {
                    ensure!(disk, "stored", "field {} is in a file", i);
                    let m = std::fs::metadata(p).map_err(|e| Fail { key: "file".into(), msg: e.to_string() })?.permissions().mode();
                    let want = if i < stop { p1 } else { p2 };
                    ensure!(m == want, "mode", "the file of field {} has mode {:o} instead of {:o}", i, m, want);
                }
                _ => ensure!(!disk, "stored", "field {} is in memory", i),
            }
            seen.push(i);
            Ok(())
        };
        if api == 0 {
            for i in 0..n {
                let mut f = match mp.read_entry() {
                    Ok(Some(f)) => f,
                    _ => bail!("missing", "field {} is missing", i),
                };
                let r = with(f.data.save(), if i < stop { m1 } else { m2 }, ask).with_dir(w.s.join("d"));
                match r {
                    SaveResult::Full(d) => look(i, &d)?,
                    r => bail!("outcome", "{:?}", r),
                }
            }
        } else {
            let b = with(mp.save(), m1, ask).count_limit(stop as u32);
            let r = match api {
                1 => b.with_dir(w.s.join("d")),
                2 => b.temp(),
                _ => b.with_entries(Entries::new(SaveDir::Perm(w.s.join("e")))),
            };
            let e = match r {
                SaveResult::Full(e) => {
                    ensure!(stop == n, "outcome", "complete after {} of {}", stop, n);
                    e
                }
                SaveResult::Partial(pe, _) => {
                    ensure!(stop < n, "outcome", "stopped after {} of {}", stop, n);
                    let mut p = pe.partial.unwrap();
                    let mut e = pe.entries;
                    // the one it stopped at, and the others
                    let r = with(p.source.data.save(), m2, ask).with_dir(e.save_dir.as_path().to_path_buf());
                    match r {
                        SaveResult::Full(d) => e.fields.entry(p.source.headers.name.clone()).or_insert_with(Vec::new).push(multipart::server::save::SavedField { headers: p.source.headers.clone(), data: d }),
                        r => bail!("outcome", "{:?}", r),
                    }
                    drop(p);
                    match with(mp.save(), m2, ask).count_limit(None).with_entries(e) {
                        SaveResult::Full(e) => e,
                        _ => bail!("outcome", "not complete"),
                    }
                }
                SaveResult::Error(e) => bail!("error", "{}", e),
            };
            for (j, name) in ["a", "b"].iter().enumerate() {
                for (k, f) in e.fields.get(*name).map(|v| &v[..]).unwrap_or(&[]).iter().enumerate() {
                    look(2 * k + j, &f.data)?;
                }
            }
        }
        ensure!(seen.len() == n, "missing", "{} of {} fields", seen.len(), n);
        x.state((n, stop, api));
        Ok(())
    })
}

/// Everything is by default as documented.
fn defaults() -> Group {
    // (bytes, field count)
    let sizes = [0usize, 1, 10239, 10240, 10241, (8 << 20) - 1, 8 << 20, (8 << 20) + 1];
    let counts = [1usize, 255, 256, 257];
    group("defaults", (sizes.len() + counts.len()) as u64, 0, move |x, o| {
        let w = World::fresh();
        if o < sizes.len() as u64 {
            let c = filler(sizes[o as usize]);
            let body = body_of(&c, None);
            let conf = Conf { limit: None, thr: None, pol: Pol::Default };
            let src = Source::new(body.bytes.clone());
            return match x.all(3) {
                0 => run_single(x, &w, &body, 0, src, None, &conf, 1, ALL).map(|_| ()),
                1 => run_whole(x, &w, &body, src, &conf, 0, ALL).map(|_| ()),
                _ => {
                    // written out
                    let mut mp = Multipart::with_body(src, "bnd");
                    let mut f = mp.read_entry().unwrap().unwrap();
                    let mut v = vec![];
                    let n = c.len().min(8 << 20);
                    match f.data.save().write_to(&mut v) {
                        SaveResult::Full(k) => ensure!(k as usize == c.len() && n == c.len(), "outcome", "all {} of {} bytes written", k, c.len()),
                        SaveResult::Partial(k, r) => ensure!(k as usize == n && n < c.len() && kind_of_ref(&r) == "size", "outcome", "{} of {} bytes written, {:?}", k, c.len(), r),
                        SaveResult::Error(e) => bail!("error", "{}", e),
                    }
                    check_data(&v, &c[..n], "written out")
                }
            };
        }
        let n = counts[o as usize - sizes.len()];
        let parts: Vec<Part> = (0..n).map(|i| Part::new(&format!("n{}", i), "v")).collect();
        let body = Body::new("bnd", parts);
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        match (mp.save().temp(), n > 256) {
            (SaveResult::Full(e), false) => ensure!(e.fields_count() as usize == n, "count", "{} of {} fields", e.fields_count(), n),
            (SaveResult::Partial(p, r), true) => {
                ensure!(kind_of_ref(&r) == "count", "reason", "{:?}", r);
                ensure!(p.entries.fields_count() == 256, "count", "{} of {} fields", p.entries.fields_count(), n)
            }
            (SaveResult::Full(_), _) => bail!("count", "{} fields accepted", n),
            (SaveResult::Partial(_, r), _) => bail!("count", "{} fields stopped: {:?}", n, r),
            (SaveResult::Error(e), _) => bail!("error", "{}", e),
        }
        x.state(n);
        Ok(())
    })
}

fn kind_of_ref(r: &multipart::server::save::PartialReason) -> &'static str {
    use multipart::server::save::PartialReason::*;
    match r {
        CountLimit => "count",
        SizeLimit => "size",
        IoError(_) => "io",
        Utf8Error(_) => "utf8",
    }
}

/// A field saved in several steps by one builder, or by several: each goes on where the one
/// before stopped, with its own options.
fn again(name: &'static str, wide: bool, steps: usize) -> Group {
    let mut limits = vec![Some(Some(1u64)), Some(Some(3)), Some(Some(1025)), None];
    let mut thrs = vec![Some(0u64), Some(2), Some(1024), None];
    let mut ns = vec![0usize, 2, 4, 7, 1025, 3000];
    let mut pols = vec![Pol::Default, Pol::Ignore, Pol::Force];
    if wide {
        limits.push(Some(None));
        thrs.push(Some(u64::MAX));
        ns.extend([1, 3, 1024, 9000]);
        pols.push(Pol::Try);
    }
    if name == "again-large" {
        limits = vec![Some(Some(1 << 16)), Some(Some(100_000)), Some(Some((1 << 17) + 1)), None];
        thrs = vec![Some(0), Some(1 << 16), Some(80_000), Some(u64::MAX)];
        ns = vec![300_000];
        pols = vec![Pol::Default, Pol::Ignore];
    }
    group(name, (limits.len() * thrs.len() * ns.len() * pols.len()) as u64, 0, move |x, o| {
        let mut r = Radix(o);
        let (limit, thr, n) = (*r.pick(&limits), *r.pick(&thrs), *r.pick(&ns));
        let pol = *r.pick(&pols);
        let c = filler(n);
        let w = World::fresh();
        let body = body_of(&c, Some("text/plain"));
        let max = if n > 1000 { *x.pick(&[usize::MAX, 1024]) } else { usize::MAX };
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()).max(max), "bnd");
        {
            let mut f = match mp.read_entry() {
                Ok(Some(f)) => f,
                _ => bail!("setup", "no field"),
            };
            let mut at = 0;
            let mut step = 0;
            while step < steps {
                // another builder from here on?
                let conf = match step {
                    0 => Conf { limit, thr, pol },
                    _ => match x.all(3) {
                        0 => Conf { limit, thr, pol },
                        1 => Conf { limit: None, thr: None, pol: Pol::Default },
                        _ => {
                            // some is read by hand
                            let mut b = [0u8; 2];
                            match f.data.read(&mut b) {
                                Ok(k) => {
                                    ensure!(c[at..].starts_with(&b[..k]) && (k > 0 || at == n), "hand", "read {} at {}", show(&b[..k]), at);
                                    at += k;
                                }
                                Err(e) => bail!("hand", "{}", e),
                            }
                            Conf { limit, thr, pol }
                        }
                    },
                };
                let mut b = conf.apply(f.data.save());
                loop {
                    at = save_step(x, &w, &mut b, &c, at, &conf, step)?;
                    step += 1;
                    x.state((step, at));
                    if step >= steps || x.flag() {
                        break;
                    }
                }
            }
            let mut rest = vec![];
            if let Err(e) = f.data.read_to_end(&mut rest) {
                bail!("rest-error", "{}", e);
            }
            check_data(&rest, &c[at..], "the rest")?;
        }
        next_is(&mut mp, &body.parts, 1)
    })
}

fn save_step<M: multipart::server::ReadEntry>(x: &X, w: &World, b: &mut SaveBuilder<&mut MultipartData<M>>, c: &[u8], at: usize, conf: &Conf, step: usize) -> Res<usize> {
    let left = &c[at..];
    let lim = conf.limit_val();
    let take = (left.len() as u64).min(lim) as usize;
    let full = take == left.len();
    let before = w.snap();
    let how = x.all(5);
    let mut v = vec![];
    let path: Option<PathBuf> = match how {
        0 => Some(w.s.join(format!("f{}", step))),
        1 => Some(w.tmp.join(format!("g{}", step))),
        _ => None,
    };
    x.log(|| format!("step {}: {:?} way {} at {}", step, conf, how, at));
    let r = match how {
        0 => b.with_path(path.clone().unwrap()),
        1 => b.with_filename(&format!("g{}", step)),
        2 => b.with_dir(w.s.join("dir")),
        3 => b.temp(),
        _ => {
            match b.write_to(&mut v) {
                SaveResult::Full(k) => ensure!(full && k as usize == take, "outcome", "wrote {} of {} bytes in full with a limit of {}", k, left.len(), lim),
                SaveResult::Partial(k, r) => ensure!(!full && k as usize == take && kind_of_ref(&r) == "size", "outcome", "wrote {} of {} bytes with a limit of {}: {:?}", k, left.len(), lim, r),
                SaveResult::Error(e) => bail!("error", "{}", e),
            }
            check_data(&v, &left[..take], "written out")?;
            ensure!(w.snap() == before, "disk-touched", "writing out changed the disk");
            return Ok(at + take);
        }
    };
    let files = files_of(&before, &w.snap());
    let d = match r {
        SaveResult::Full(d) => {
            ensure!(full, "outcome", "{} bytes in full with a limit of {}", left.len(), lim);
            d
        }
        SaveResult::Partial(d, r) => {
            ensure!(!full && kind_of_ref(&r) == "size", "outcome", "{} bytes with a limit of {}: {:?}", left.len(), lim, r);
            d
        }
        SaveResult::Error(e) => bail!("error", "{}", e),
    };
    check_data(&stored(&d, 1)?, &left[..take], "saved")?;
    ensure!(d.size() as usize == take, "size", "size {} of {} bytes", d.size(), take);
    let disk = left.len() as u64 > conf.thr_val() && lim > conf.thr_val();
    match d {
        SavedData::File(ref p, _) => {
            ensure!(disk, "on-disk", "{} bytes on disk with a threshold of {}", take, conf.thr_val());
            ensure!(path.map_or(true, |q| q == *p), "path", "saved to {:?}", p);
            ensure!(files.len() == 1 && files[0].0 == *p, "files", "the files {:?} for {:?}", files.iter().map(|f| &f.0).collect::<Vec<_>>(), p);
        }
        SavedData::Text(_) => ensure!(!disk && conf.pol != Pol::Ignore, "kind", "saved as text"),
        SavedData::Bytes(_) => ensure!(!disk && conf.pol == Pol::Ignore, "kind", "saved as bytes"),
    }
    ensure!(disk || files.is_empty(), "disk-touched", "the disk was touched");
    Ok(at + take)
}

pub fn c29(th: bool) -> Vec<Group> {
    let mut g = vec![
        settings("settings", &SETS, CONTENTS.iter().map(|c| c.to_vec()).collect(), if th { 4 } else { 3 }),
        settings("settings-large", &LARGE, [10_240, 10_241, 15_001, 70_001].iter().map(|&n| filler(n)).collect(), if th { 3 } else { 2 }),
        counts(th), opened(th), defaults(), again("again", th, 3), again("again-large", false, 2),
    ];
    if th {
        g.push(again("again-more", false, 4));
    }
    g
}
