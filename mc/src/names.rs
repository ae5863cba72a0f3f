//! C32: the boundaries clients draw; C33: the file names saves draw.
use crate::client::{build_calm, parse_body, same_field, stream, text, Op};
use crate::env::*;
use crate::explore::*;
use crate::parse::filler;
use crate::rnd::{fixed, scripted};
use crate::saves::*;
use crate::{bail, ensure};
use multipart::client::{HttpStream, Multipart as Client};
use multipart::mock::ClientRequest;
use multipart::server::save::{Entries, SaveDir, SaveResult, SavedData};
use multipart::server::Multipart;
use std::collections::{HashMap, HashSet};
use std::io::{self, Read};
use std::path::PathBuf;

const KINDS: usize = 9;
const NAMES: [&str; 3] = ["streamed", "sized", "prepared"];
fn kind_name(k: usize) -> &'static str {
    if k < 3 {
        NAMES[k]
    } else {
        crate::web::CLIENTS[k - 3]
    }
}

fn err(what: &'static str) -> impl Fn(io::Error) -> Fail {
    move |e| Fail { key: "error".into(), msg: format!("{}: {}", what, e) }
}

/// Make a request: the boundary it declares and its body (as on the wire for Hyper's).
fn request(kind: usize, ops: &[Op]) -> Res<(String, Vec<u8>)> {
    fn fill<S: HttpStream<Error = io::Error>>(mut mp: Client<S>, ops: &[Op]) -> io::Result<S::Response> {
        for op in ops {
            match op {
                Op::Text(n, v) => mp.write_text(n, v)?,
                Op::Stream { name, filename, ctype, data } => mp.write_stream(name, &mut &data[..], filename.as_ref().map(|s| &s[..]), crate::client::mime_of(*ctype))?,
                _ => mp.write_file(op.name(), op.path())?,
            };
        }
        mp.send()
    }
    let e = err("client");
    match kind {
        0 => {
            let b = fill(Client::from_request(ClientRequest::default()).map_err(&e)?, ops).map_err(&e)?;
            Ok((b.boundary, b.buf))
        }
        1 => {
            let b = fill(Client::from_request_sized(ClientRequest::default()).map_err(&e)?, ops).map_err(&e)?;
            Ok((b.boundary, b.buf))
        }
        2 => {
            let mut l = build_calm(ops);
            let mut p = match l.prepare() {
                Ok(p) => p,
                Err(e) => bail!("error", "prepare(): {}", e),
            };
            let b = p.boundary().to_string();
            let mut v = vec![];
            p.read_to_end(&mut v).map_err(err("reading the prepared request"))?;
            ensure!(p.boundary() == b, "unstable", "the boundary is {:?} before and {:?} after the request is read", b, p.boundary());
            Ok((b, v))
        }
        k => {
            let (wire, r) = crate::web::make(k - 3, hyper::method::Method::Post, ops, usize::MAX);
            if let Err(e) = r {
                bail!("error", "the {} request failed: {}", kind_name(kind), e);
            }
            let head = match find(&wire, b"\r\n\r\n", 0) {
                Some(i) => i,
                None => bail!("head", "no end of the head in {}", show(&wire)),
            };
            let h = String::from_utf8_lossy(&wire[..head]).into_owned();
            let at = match h.find("boundary=") {
                Some(i) => i + 9,
                None => bail!("head", "no boundary in {}", h),
            };
            let rest = &h[at..];
            let b = match rest.strip_prefix('"') {
                Some(q) => q.split('"').next(),
                None => rest.split(|c: char| c == ';' || c == '\r').next(),
            };
            let mut body = wire[head + 4..].to_vec();
            if h.to_lowercase().contains("transfer-encoding: chunked") {
                let (chunks, mut left) = (std::mem::take(&mut body), 0);
                while let Some(e) = find(&chunks, b"\r\n", left) {
                    let n = usize::from_str_radix(std::str::from_utf8(&chunks[left..e]).unwrap_or("").trim(), 16).unwrap_or(0);
                    body.extend(chunks[e + 2..].iter().take(n));
                    left = e + 2 + n + 2;
                }
            }
            Ok((b.unwrap_or("").to_string(), body))
        }
    }
}

fn legal(b: &str) -> Res {
    ensure!((1..=70).contains(&b.len()), "length", "a boundary of {} characters: {:?}", b.len(), b);
    let ok = |c: u8| c.is_ascii_alphanumeric() || b"'()+_,-./:=? ".contains(&c);
    ensure!(b.bytes().all(ok) && !b.ends_with(' '), "character", "not a boundary: {:?}", b);
    Ok(())
}

/// A value that differs from that of any other class in every group of six bits.
fn class(k: u64) -> u64 {
    (0..11).fold(0u64, |v, _| (v << 6) | k)
}

/// Bits of the result that depend on draw `i`: `make` is run with every value of a kind there.
fn entropy(base: &[u64], i: usize, mut make: impl FnMut(&[u64]) -> Res<String>) -> Res<f64> {
    let mut seen: HashMap<String, u32> = HashMap::new();
    let mut v = base.to_vec();
    for k in 0..64 {
        v[i] = class(k);
        *seen.entry(make(&v)?).or_default() += 1;
    }
    // values that are likely count accordingly
    let bits = -seen.values().map(|&n| (n as f64 / 64.0).powi(2)).sum::<f64>().log2();
    if seen.len() < 60 {
        return Ok(bits);
    }
    // perhaps more than these six bits
    let mut n = 0;
    v[i] = base[i];
    let was = make(&v)?;
    for k in 0..64 {
        v[i] = base[i] ^ (1 << k);
        if make(&v)? != was {
            n += 1;
        }
    }
    Ok(if n > 6 { n as f64 } else { bits })
}

/// Bits in names that (also) depend on something else than the draws, by how their characters vary.
fn variety(all: &[String]) -> f64 {
    let n = all.iter().map(|s| s.len()).max().unwrap_or(0);
    (0..n)
        .map(|i| {
            let mut seen: HashMap<Option<u8>, u32> = HashMap::new();
            for s in all {
                *seen.entry(s.as_bytes().get(i).copied()).or_default() += 1;
            }
            -seen.values().map(|&n| (n as f64 / all.len() as f64).powi(2)).sum::<f64>().log2()
        })
        .sum()
}

fn programs() -> [Vec<Op>; 5] {
    let s = stream("s", Some("f"), None, b"data");
    let t = text("a", "b");
    [vec![], vec![t.clone()], vec![s.clone(), t.clone()], vec![t.clone(), t.clone(), t.clone()], vec![s.clone(), t.clone(), crate::client::file("p", 0), t, s]]
}

pub fn c32(th: bool) -> Vec<Group> {
    let mut g = vec![];
    let seeds = if th { 8 } else { 2 };
    // every draw counts
    g.push(group("draws", KINDS as u64 * 5 * seeds, 0, move |x, o| {
        let mut r = Radix(o);
        let kind = r.take(KINDS);
        let ops = programs()[r.take(5)].clone();
        let seed = r.0;
        let make = |v: &[u64]| -> Res<String> {
            let (r, _) = scripted(v, seed, || request(kind, &ops));
            let (b, body) = r?;
            legal(&b)?;
            ensure!(has(&body, format!("--{}", b).as_bytes()), "other", "the {} request declares {:?}, which is not in the body", kind_name(kind), b);
            Ok(b)
        };
        // how many draws go into it
        let some: Vec<u64> = (0..100).map(|i| fixed(seed, i) >> 1).collect();
        let (first, n) = scripted(&some, seed, || request(kind, &ops));
        let (first, second) = (first?.0, make(&some)?);
        legal(&first)?;
        if first != second {
            // not (only) from the generator under control: it must be another each time
            x.log(|| format!("{}: another random source", kind_name(kind)));
            let all = (0..256).map(|_| Ok(request(kind, &ops)?.0)).collect::<Res<Vec<_>>>()?;
            let each: HashSet<&String> = all.iter().collect();
            ensure!(each.len() == 256, "repeated", "256 {} requests used {} boundaries", kind_name(kind), each.len());
            let bits = variety(&all);
            ensure!(bits >= 64.0, "entropy", "256 {} boundaries like {:?} vary by {:.0} bits", kind_name(kind), first, bits);
            return Ok(());
        }
        let n = n.min(some.len());
        let base: Vec<u64> = some[..n].to_vec();
        let mut bits = 0.0;
        for i in 0..n {
            bits += entropy(&base, i, make)?;
        }
        ensure!(bits >= 64.0, "entropy", "the {} boundary {:?} holds {:.0} random bits ({} draws)", kind_name(kind), first, bits, n);
        // no two draws undo each other
        for i in 0..n {
            for j in 0..i {
                let mut seen = HashSet::new();
                let mut v = base.clone();
                for k in 0..if th { 61 } else { 6 } {
                    for l in 0..6 {
                        v[i] = class(if th { k } else { k * 9 + 1 });
                        v[j] = class(l * 9 + 1);
                        seen.insert(make(&v)?);
                    }
                }
                let want = if th { 61 * 6 } else { 36 };
                // draws that make no difference are counted above
                let alone = |a: usize| -> Res<bool> {
                    let mut v = base.clone();
                    v[a] = class(1);
                    let p = make(&v)?;
                    v[a] = class(46);
                    Ok(make(&v)? != p)
                };
                if seen.len() < want && alone(i)? && alone(j)? {
                    ensure!(seen.len() * 3 > want * 2, "entropy", "draws {} and {} of the {} boundary make {} boundaries out of {}", j, i, kind_name(kind), seen.len(), want);
                }
            }
        }
        x.log(|| format!("{}: {:?}, {} draws, {:.1} bits", kind_name(kind), first, n, bits));
        x.state((kind, first));
        Ok(())
    }));
    // one request after the other
    let len = if th { 4 } else { 3 };
    g.push(group("requests", (KINDS as u64).pow(len), 0, move |x, o| {
        let mut r = Radix(o);
        let kinds: Vec<usize> = (0..len).map(|_| r.take(KINDS)).collect();
        let first = x.all(5);
        let step = x.all(2);
        let all = programs();
        let bs: Vec<String> = scripted(&[], o, || kinds.iter().enumerate().map(|(i, &k)| request(k, &all[(first + i * step) % 5]).map(|r| r.0)).collect::<Res<Vec<_>>>()).0?;
        for (i, b) in bs.iter().enumerate() {
            legal(b)?;
            ensure!(!bs[..i].contains(b), "repeated", "the boundaries of {:?} are {:?}", kinds.iter().map(|&k| kind_name(k)).collect::<Vec<_>>(), bs);
            // nor one that is the beginning of another
            ensure!(bs[..i].iter().all(|c| !c.starts_with(&b[..]) && !b.starts_with(&c[..])), "prefix", "{:?}", bs);
        }
        x.state(bs);
        Ok(())
    }));
    // contents that almost are delimiters of the very request
    let ends = ["", "\r\n", "-", "--", "\r", "\n", "\0", "x"];
    let pre = ["", "\r\n", "\r", "x", "\r\n\r\n", "-"];
    g.push(group("near", 3 * pre.len() as u64 * ends.len() as u64 * if th { 4 } else { 2 }, 0, move |x, o| {
        let mut r = Radix(o);
        let kind = r.take(3);
        let (p, e) = (*r.pick(&pre), *r.pick(&ends));
        let seed = r.0;
        let bnd = scripted(&[], seed, || request(kind, &[])).0?.0;
        let full = format!("\r\n--{}", bnd);
        let mut almost = vec![];
        for i in 0..full.len() {
            almost.push(full[..i].to_string());
            almost.push(full[i..].to_string());
            // one character missing, or another
            almost.push(format!("{}{}", &full[..i], &full[i + 1..]));
            almost.push(format!("{}!{}", &full[..i], &full[i + 1..]));
        }
        almost.push(full.to_uppercase());
        almost.push(full.to_lowercase());
        almost.push(full.chars().rev().collect());
        almost.retain(|a| !format!("{}{}{}", p, a, e).contains(&format!("--{}", bnd)));
        for a in &almost {
            let t = format!("{}{}{}", p, a, e);
            let name: String = t.chars().map(|c| if c.is_control() || c == '"' { '.' } else { c }).collect();
            let ops = [text("t", &t), stream("s", Some(if name.is_empty() { "f" } else { &name }), Some("text/plain"), t.as_bytes()), text(&name, &t)];
            let (b, body) = scripted(&[], seed, || request(kind, &ops)).0?;
            if b != bnd {
                return Ok(());
            }
            let got = match parse_body(&body, &b) {
                Ok(g) => g,
                Err(e) => bail!("unreadable", "with content {:?}: {}", t, e),
            };
            ensure!(got.len() == 3, "fields", "{} fields with content {:?}", got.len(), t);
            for w in ops.iter().map(|o| o.sent()) {
                match got.iter().position(|g| g.name == w.name) {
                    Some(i) => same_field(i, &got[i], &w)?,
                    None => bail!("lost", "field {:?} is lost", w.name),
                }
            }
        }
        x.state((bnd, p, e, kind));
        Ok(())
    }));
    g
}

// ------------------------------------------------------------------ C33

/// How files of fields are named by the crate.
const PLACES: [&str; 7] = ["with_dir", "temp", "all with_dir", "all temp", "all with_temp_dir", "all with_entries", "all temp_with_prefix"];

struct Saved {
    /// what the save says of each field: the file, if it is one
    files: Vec<Option<(PathBuf, u64)>>,
    data: Vec<Option<Vec<u8>>>,
    failed: bool,
    /// where files may be
    dir: PathBuf,
    _keep: Option<Entries>,
}

/// Save the fields of the body, all to disk if they are large enough.
fn save_fields(w: &World, body: &Body, place: usize, thr: u64) -> Res<Saved> {
    let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), &body.boundary[..]);
    let mut s = Saved { files: vec![], data: vec![], failed: false, dir: w.s.join("d"), _keep: None };
    if place < 2 {
        if place == 1 {
            s.dir = std::env::temp_dir();
        }
        loop {
            let mut f = match mp.read_entry() {
                Ok(Some(f)) => f,
                Ok(None) => break,
                Err(e) => bail!("read", "{}", e),
            };
            let mut b = f.data.save().ignore_text().memory_threshold(thr);
            let r = if place == 0 { b.with_dir(w.s.join("d")) } else { b.temp() };
            let d = match r {
                SaveResult::Full(d) => Some(d),
                SaveResult::Partial(d, _) => {
                    s.failed = true;
                    Some(d)
                }
                SaveResult::Error(_) => {
                    s.failed = true;
                    None
                }
            };
            s.files.push(match d {
                Some(SavedData::File(ref p, n)) => Some((p.clone(), n)),
                _ => None,
            });
            s.data.push(match d {
                Some(ref d) => Some(stored(d, 1)?),
                None => None,
            });
            if s.failed {
                break;
            }
        }
        return Ok(s);
    }
    let b = mp.save().ignore_text().memory_threshold(thr);
    let r = match place {
        2 => b.with_dir(w.s.join("d")),
        3 => b.temp(),
        4 => b.with_temp_dir(tempfile::Builder::new().prefix("td").tempdir_in(&w.s).expect("temp dir")),
        5 => b.with_entries(Entries::new(SaveDir::Perm(w.s.join("d")))),
        _ => b.temp_with_prefix("pre"),
    };
    let e = match r {
        SaveResult::Full(e) => e,
        SaveResult::Partial(p, _) => {
            s.failed = true;
            p.entries
        }
        SaveResult::Error(_) => {
            s.failed = true;
            return Ok(s);
        }
    };
    s.dir = e.save_dir.as_path().to_path_buf();
    let mut i = 0;
    for p in &body.parts {
        for f in e.fields.get(&p.name[..]).map_or(&[][..], |v| &v[..]) {
            s.files.push(match f.data {
                SavedData::File(ref p, n) => Some((p.clone(), n)),
                _ => None,
            });
            s.data.push(Some(stored(&f.data, 1)?));
            i += 1;
        }
    }
    ensure!(i <= body.parts.len(), "extra", "{} entries of {} fields", i, body.parts.len());
    s._keep = Some(e);
    Ok(s)
}

fn named(s: &Saved, place: usize) -> Res<Vec<String>> {
    let mut v = vec![];
    for (p, _) in s.files.iter().flatten() {
        ensure!(p.parent() == Some(&s.dir), "place", "{}: {:?} is not in {:?}", PLACES[place], p, s.dir);
        let n = match p.file_name().and_then(|n| n.to_str()) {
            Some(n) => n.to_string(),
            None => bail!("name", "{:?}", p),
        };
        ensure!(!n.is_empty() && n.bytes().all(|c| c.is_ascii_alphanumeric()), "name", "{}: a name that is not alphanumeric: {:?}", PLACES[place], n);
        v.push(n);
    }
    Ok(v)
}

fn fields(n: usize, thr: u64) -> Body {
    Body::new("bnd", (0..n).map(|i| Part::file(&format!("f{}", i), "../x y.txt", "text/plain", filler(thr as usize + 4 + i))).collect())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum There {
    File,
    Empty,
    Link,
    Dangling,
    Dir,
    ReadOnly,
    Fifo,
}
const THERE: [There; 7] = [There::File, There::Empty, There::Link, There::Dangling, There::Dir, There::ReadOnly, There::Fifo];

pub fn c33(th: bool) -> Vec<Group> {
    let mut g = vec![];
    let seeds = if th { 8 } else { 2 };
    let places = PLACES.len();
    // every draw counts
    g.push(group("draws", places as u64 * seeds, 0, move |x, o| {
        let mut r = Radix(o);
        let place = r.take(places);
        let seed = r.0;
        let body = fields(1, 0);
        let make = |v: &[u64]| -> Res<String> {
            let w = World::fresh();
            let (s, _) = scripted(v, seed, || save_fields(&w, &body, place, 0));
            let s = s?;
            let n = named(&s, place)?;
            ensure!(!s.failed && n.len() == 1, "failed", "{}: not saved", PLACES[place]);
            Ok(n[0].clone())
        };
        let w = World::fresh();
        let (first, n) = scripted(&[], seed, || save_fields(&w, &body, place, 0));
        let first = named(&first?, place)?;
        if first.len() != 1 || first[0] != make(&[])? {
            x.log(|| "another random source".into());
            let mut all = vec![];
            for _ in 0..256 {
                let w = World::fresh();
                all.extend(named(&save_fields(&w, &body, place, 0)?, place)?);
            }
            let each: HashSet<&String> = all.iter().collect();
            ensure!(each.len() == 256, "repeated", "256 saves used {} names", each.len());
            let bits = variety(&all);
            ensure!(bits >= 48.0, "entropy", "{}: 256 names like {:?} vary by {:.0} bits", PLACES[place], all[0], bits);
            return Ok(());
        }
        let base: Vec<u64> = (0..n as u64).map(|i| fixed(seed, i)).collect();
        let mut bits = 0.0;
        for i in 0..n {
            bits += entropy(&base, i, make)?;
        }
        ensure!(bits >= 48.0, "entropy", "{}: the name {:?} holds {:.0} random bits ({} draws)", PLACES[place], first[0], bits, n);
        x.log(|| format!("{}: {:?}, {:.1} bits", PLACES[place], first[0], bits));
        x.state(first);
        Ok(())
    }));
    // many fields, every one in a file of its own
    let most = if th { 24 } else { 12 };
    g.push(group("fields", places as u64 * (most + 1) * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let place = r.take(places);
        let n = r.take(most as usize + 1);
        let thr = [0, 6][r.0 as usize];
        let body = fields(n, thr);
        let w = World::fresh();
        let s = scripted(&[], o, || save_fields(&w, &body, place, thr)).0?;
        ensure!(!s.failed, "failed", "{}: {} fields were not saved", PLACES[place], n);
        let names: HashSet<String> = named(&s, place)?.into_iter().collect();
        ensure!(names.len() == n, "shared", "{}: {} fields in {} files", PLACES[place], n, names.len());
        for (i, p) in body.parts.iter().enumerate() {
            check_data(s.data[i].as_ref().map_or(&[][..], |d| &d[..]), &p.content, &format!("{}: field {}", PLACES[place], i))?;
        }
        x.state(o);
        Ok(())
    }));
    // the name drawn is taken: by the file of an earlier field (the same draws again) or by something else
    g.push(group("taken", places as u64 * 4 * (THERE.len() as u64 + 1) * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let place = r.take(places);
        let seed = r.take(4) as u64;
        let what = r.take(THERE.len() + 1);
        let thr = [0, 6][r.0 as usize];
        let n = 3;
        let body = fields(n, thr);
        // the draws of one name
        let one = {
            let w = World::fresh();
            let b = fields(1, thr);
            let (a, used) = scripted(&[], seed, || save_fields(&w, &b, place, thr));
            let name = named(&a?, place)?;
            ensure!(name.len() == 1, "failed", "{}: not saved", PLACES[place]);
            (name[0].clone(), used)
        };
        let once: Vec<u64> = (0..one.1 as u64).map(|i| fixed(seed, i)).collect();
        let w = World::fresh();
        let outside = w.s.join("outside");
        std::fs::write(&outside, b"precious").unwrap();
        let mut script = once.clone();
        // with the second or third field's name, or an existing file
        let which = x.all(3);
        let there = THERE.get(what).copied();
        let dir = match place {
            0 | 2 | 5 => Some(w.s.join("d")),
            1 => Some(std::env::temp_dir()),
            _ => None,
        };
        match (there, &dir) {
            (Some(t), Some(d)) => {
                std::fs::create_dir_all(d).unwrap();
                let p = d.join(&one.0);
                match t {
                    There::File => std::fs::write(&p, b"precious").unwrap(),
                    There::Empty => std::fs::write(&p, b"").unwrap(),
                    There::Link => std::os::unix::fs::symlink(&outside, &p).unwrap(),
                    There::Dangling => std::os::unix::fs::symlink(w.s.join("nothing"), &p).unwrap(),
                    There::Dir => std::fs::create_dir(&p).unwrap(),
                    There::ReadOnly => {
                        std::fs::write(&p, b"precious").unwrap();
                        let mut m = std::fs::metadata(&p).unwrap().permissions();
                        m.set_readonly(true);
                        std::fs::set_permissions(&p, m).unwrap();
                    }
                    There::Fifo => {
                        use std::os::unix::ffi::OsStrExt;
                        let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                        // a reader, so that opening it would not wait
                        unsafe {
                            libc::mkfifo(c.as_ptr(), 0o600);
                        }
                    }
                }
                // the field it happens to
                script = vec![];
                for i in 0..which as u64 {
                    script.extend((0..one.1 as u64).map(|k| fixed(seed + 100 + i, k)));
                }
                script.extend(&once);
            }
            (Some(_), None) => return Ok(()),
            (None, _) => match which {
                // the first two, the first and the third, the last two
                0 => script.extend(&once),
                1 => {
                    script.extend((0..one.1 as u64).map(|k| fixed(seed + 100, k)));
                    script.extend(&once)
                }
                _ => {
                    let mut s: Vec<u64> = (0..one.1 as u64).map(|k| fixed(seed + 100, k)).collect();
                    s.extend(&once);
                    s.extend(&once);
                    script = s;
                }
            },
        }
        let fifo = there == Some(There::Fifo);
        let before = if fifo { Snap::new() } else { w.snap() };
        let s = scripted(&script, seed + 7, || save_fields(&w, &body, place, thr)).0?;
        x.log(|| format!("{}: {:?} {:?} failed {}", PLACES[place], there, s.files, s.failed));
        // nothing that was there is changed
        if !fifo {
            let after = w.snap();
            for (p, c) in &before {
                ensure!(after.get(p) == Some(c), "harmed", "{}: {:?} was there and is now {:?}", PLACES[place], p, after.get(p).map(|c| c.as_ref().map(|c| show(c))));
            }
            ensure!(!w.s.join("nothing").exists(), "harmed", "created through a dangling link");
        }
        // what is reported saved is there, each in a file of its own
        let names = named(&s, place)?;
        let distinct: HashSet<&String> = names.iter().collect();
        ensure!(distinct.len() == names.len(), "shared", "{}: two fields in one file: {:?}", PLACES[place], s.files);
        if !s.failed {
            ensure!(s.data.len() == n, "lost", "{}: {} of {} fields although everything was saved", PLACES[place], s.data.len(), n);
        }
        for (i, d) in s.data.iter().enumerate() {
            let d = match d {
                Some(d) => d,
                None => continue,
            };
            let c = &body.parts[i].content;
            // the one that failed may be there in part
            if s.failed && i + 1 == s.data.len() {
                ensure!(c.starts_with(d), "content", "{}: field {} holds {}", PLACES[place], i, show(d));
            } else {
                check_data(d, c, &format!("{}: field {}", PLACES[place], i))?;
            }
            if let Some((p, k)) = &s.files[i] {
                ensure!(*k == d.len() as u64, "size", "{:?} is said to hold {} bytes instead of {}", p, k, d.len());
            }
        }
        // those before the one it happened to are there
        let at = match (there, which) {
            (Some(_), k) => k,
            (None, 0) => 1,
            (None, _) => 2,
        };
        ensure!(s.data.iter().flatten().count() >= at, "lost", "{}: only {} fields although {} were saved before", PLACES[place], s.data.len(), at);
        x.state((place, what, which, thr, s.failed));
        Ok(())
    }));
    g
}
