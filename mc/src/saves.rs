//! C12-C19: saving fields to memory and disk.
use crate::env::*;
use crate::explore::*;
use crate::parse::{filler, range};
use crate::{bail, ensure};
use multipart::server::save::{Entries, PartialReason, SaveBuilder, SaveDir, SaveResult, SavedData, SavedField};
use multipart::server::{Multipart, MultipartData};
use std::collections::BTreeMap;
use std::io::{BufRead, ErrorKind, Read};
use std::path::{Path, PathBuf};
use std::rc::Rc;

// ------------------------------------------------------------------ the disk

/// Every file (with contents) and directory under the worker's private tree.
pub type Snap = BTreeMap<PathBuf, Option<Vec<u8>>>;

pub struct World {
    /// top of the worker's tree
    pub top: PathBuf,
    /// where applications under test are told to save
    pub s: PathBuf,
    /// the system temporary directory of this process
    pub tmp: PathBuf,
}

pub fn world() -> World {
    let base = PathBuf::from(std::env::var_os("MC_SCRATCH").expect("MC_SCRATCH"));
    World { top: base.parent().unwrap().parent().unwrap().parent().unwrap().to_path_buf(), s: base.join("s"), tmp: base.join("tmp") }
}

fn walk(dir: &Path, out: &mut Snap) {
    let rd = match std::fs::read_dir(dir) {
        Ok(rd) => rd,
        Err(_) => return,
    };
    for e in rd.flatten() {
        let p = e.path();
        let ft = match e.file_type() {
            Ok(t) => t,
            Err(_) => continue,
        };
        if ft.is_dir() {
            walk(&p, out);
            out.insert(p, None);
        } else {
            let n = e.file_name();
            if n == "out.jsonl" || n == "stdout" || n == "stderr" {
                continue;
            }
            let data = std::fs::read(&p).unwrap_or_else(|_| b"(unreadable)".to_vec());
            out.insert(p, Some(data));
        }
    }
}

fn empty(dir: &Path) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if e.file_type().map_or(false, |t| t.is_dir()) {
                if std::fs::remove_dir_all(&p).is_err() {
                    use std::os::unix::fs::PermissionsExt;
                    let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
                    let _ = std::fs::remove_dir_all(&p);
                }
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

impl World {
    /// Start over with an empty `s` and temporary directory.
    pub fn fresh() -> World {
        let w = world();
        empty(&w.s);
        empty(&w.tmp);
        // anything that escaped to the levels between
        for d in [w.s.parent().unwrap(), w.s.parent().unwrap().parent().unwrap(), w.s.parent().unwrap().parent().unwrap().parent().unwrap()] {
            if let Ok(rd) = std::fs::read_dir(d) {
                for e in rd.flatten() {
                    let n = e.file_name();
                    if !["x", "y", "z", "s", "tmp", "out.jsonl", "stdout", "stderr"].iter().any(|k| n == *k) {
                        if e.file_type().map_or(false, |t| t.is_dir()) {
                            let _ = std::fs::remove_dir_all(e.path());
                        } else {
                            let _ = std::fs::remove_file(e.path());
                        }
                    }
                }
            }
        }
        if !w.s.is_dir() {
            std::fs::create_dir_all(&w.s).expect("scratch");
        }
        w
    }
    pub fn snap(&self) -> Snap {
        let mut s = Snap::new();
        walk(&self.top, &mut s);
        s
    }
    /// Paths that are new or changed in `b`.
    pub fn news(a: &Snap, b: &Snap) -> Vec<(PathBuf, Option<Vec<u8>>)> {
        b.iter().filter(|(k, v)| a.get(*k) != Some(*v)).map(|(k, v)| (k.clone(), v.clone())).collect()
    }
}

/// While alive, no file can grow beyond `n` bytes.
pub struct FileCap(libc::rlimit);
impl FileCap {
    pub fn new(n: u64) -> FileCap {
        unsafe {
            let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
            let lim = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
            libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
            FileCap(old)
        }
    }
}
impl Drop for FileCap {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &self.0);
        }
    }
}

// ------------------------------------------------------------------ the model

pub const LIMIT: u32 = 1;
pub const STORE: u32 = 2;
pub const REST: u32 = 4;
pub const TEXT: u32 = 8;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pol {
    Default,
    Try,
    Force,
    Ignore,
}
pub const POLS: [Pol; 4] = [Pol::Default, Pol::Try, Pol::Force, Pol::Ignore];

#[derive(Clone, Debug)]
pub struct Conf {
    /// outer None: the default is left alone
    pub limit: Option<Option<u64>>,
    pub thr: Option<u64>,
    pub pol: Pol,
}
impl Conf {
    pub fn limit_val(&self) -> u64 {
        match self.limit {
            None => 8 << 20,
            Some(None) => u64::MAX,
            Some(Some(l)) => l,
        }
    }
    pub fn thr_val(&self) -> u64 {
        self.thr.unwrap_or(10 << 10)
    }
    pub fn apply<S>(&self, mut b: SaveBuilder<S>) -> SaveBuilder<S> {
        if let Some(l) = self.limit {
            b = b.size_limit(l);
        }
        if let Some(t) = self.thr {
            b = b.memory_threshold(t);
        }
        match self.pol {
            Pol::Default => b,
            Pol::Try => b.try_text(),
            Pol::Force => b.force_text(),
            Pol::Ignore => b.ignore_text(),
        }
    }
}

#[derive(Debug)]
pub enum Kind {
    Full,
    Size,
    Count,
    Utf8,
    Io(ErrorKind),
    Error(ErrorKind),
}

#[derive(Debug)]
pub struct Out {
    pub kind: Kind,
    pub data: Option<SavedData>,
    /// what was still readable afterwards
    pub rest: Vec<u8>,
    /// the files found on disk afterwards
    pub files: Vec<(PathBuf, Vec<u8>)>,
}

pub fn kind_of(r: PartialReason) -> Kind {
    match r {
        PartialReason::SizeLimit => Kind::Size,
        PartialReason::CountLimit => Kind::Count,
        PartialReason::Utf8Error(_) => Kind::Utf8,
        PartialReason::IoError(e) => Kind::Io(e.kind()),
    }
}

/// The bytes a saved field holds, read back in one of several ways.
pub fn stored(d: &SavedData, how: usize) -> Res<Vec<u8>> {
    let io = |r: std::io::Result<Vec<u8>>| r.or_else(|e| fail("readable", format!("saved data cannot be read back: {}", e)));
    match how {
        0 => match *d {
            SavedData::Text(ref t) => Ok(t.clone().into_bytes()),
            SavedData::Bytes(ref b) => Ok(b.clone()),
            SavedData::File(ref p, _) => io(std::fs::read(p)),
        },
        1 => io(d.readable().and_then(|mut r| {
            let mut v = vec![];
            r.read_to_end(&mut v).map(|_| v)
        })),
        2 => io(d.readable().and_then(|mut r| {
            let mut v = vec![];
            loop {
                let n = {
                    let b = r.fill_buf()?;
                    v.extend_from_slice(&b[..b.len().min(3)]);
                    b.len().min(3)
                };
                if n == 0 {
                    return Ok(v);
                }
                r.consume(n);
            }
        })),
        _ => io(d.readable().and_then(|mut r| {
            let mut v = vec![];
            let mut b = [0u8; 5];
            loop {
                let n = r.read(&mut b)?;
                if n == 0 {
                    return Ok(v);
                }
                v.extend_from_slice(&b[..n]);
            }
        })),
    }
}

pub fn same_kind(d: &SavedData) -> &'static str {
    match *d {
        SavedData::Text(_) => "text",
        SavedData::Bytes(_) => "bytes",
        SavedData::File(..) => "file",
    }
}

/// Compare a fault-free save of one field holding `c` with the model.
/// `texty`: text recognition applies to the field (before the policy).
pub fn judge(x: &X, asp: u32, c: &[u8], conf: &Conf, texty: bool, o: &Out) -> Res {
    let (lim, thr, n) = (conf.limit_val(), conf.thr_val(), c.len() as u64);
    let textual = texty && conf.pol != Pol::Ignore;
    let force = textual && conf.pol == Pol::Force;
    let valid_all = std::str::from_utf8(c).is_ok();
    let mem = lim.min(thr);
    // is invalid text certain to be noticed within the part that is validated?
    let seen = &c[..(mem.min(n)) as usize];
    let bad = match std::str::from_utf8(seen) {
        Ok(_) => None,
        Err(e) => {
            if e.error_len().is_some() || n <= mem {
                Some(e.valid_up_to())
            } else {
                None
            }
        }
    };
    x.log(|| format!("content {} ({} bytes), {:?} -> {:?} {:?} rest {} files {:?}", show(c), n, conf, o.kind, o.data.as_ref().map(|d| (same_kind(d), d.size())), show(&o.rest), o.files.iter().map(|f| &f.0).collect::<Vec<_>>()));
    let st = match o.data {
        Some(ref d) => stored(d, 0)?,
        None => vec![],
    };

    if let Kind::Utf8 = o.kind {
        if asp & (TEXT | LIMIT) != 0 {
            ensure!(force, "utf8-unforced", "reported invalid UTF-8 although text is not forced for this field");
            ensure!(!valid_all, "utf8-rejected", "valid text {} was rejected as invalid", show(c));
        }
        if asp & TEXT != 0 {
            let v = std::str::from_utf8(c).unwrap_err().valid_up_to();
            ensure!(st == &c[..v], "utf8-prefix", "rejected text holds {} instead of the valid prefix {}", show(&st), show(&c[..v]));
        }
    }
    if let (true, Some(v), false) = (force, bad, matches!(o.kind, Kind::Utf8)) {
        if asp & TEXT != 0 {
            bail!("utf8-accepted", "forced text is invalid at {} (within the threshold) but the outcome is {:?}", v, o.kind);
        }
    }
    let utf8 = matches!(o.kind, Kind::Utf8);

    if asp & LIMIT != 0 {
        ensure!(st.len() as u64 <= lim, "over-limit", "{} bytes were stored with a limit of {}", st.len(), lim);
        if let Some(ref d) = o.data {
            ensure!(d.size() <= lim, "over-limit", "stored size {} with a limit of {}", d.size(), lim);
        }
        for f in &o.files {
            ensure!(f.1.len() as u64 <= lim, "over-limit", "a file of {} bytes was written with a limit of {}", f.1.len(), lim);
        }
        if n > lim && !utf8 {
            ensure!(matches!(o.kind, Kind::Size), "limit-missed", "a field of {} bytes with a limit of {} ended with {:?}", n, lim, o.kind);
            ensure!(st == &c[..lim as usize], "not-truncated", "stored {} bytes, not exactly the limit of {}", st.len(), lim);
        }
        if n <= lim {
            ensure!(!matches!(o.kind, Kind::Size), "limit-early", "a field of {} bytes was reported over the limit of {}", n, lim);
            ensure!(utf8 || matches!(o.kind, Kind::Full), "not-full", "a field of {} bytes with a limit of {} ended with {:?}", n, lim, o.kind);
            ensure!(utf8 || st == c, "not-whole", "a field of {} bytes with a limit of {} was stored with {} bytes", n, lim, st.len());
        }
    }
    if asp & STORE != 0 {
        if let Kind::Full = o.kind {
            let d = o.data.as_ref().unwrap();
            for how in 0..4 {
                check_data(&stored(d, how)?, c, &format!("saved data read back (way {})", how))?;
            }
            ensure!(d.size() == n, "size", "reported size {} of a field of {} bytes", d.size(), n);
            ensure!(d.is_memory() == !matches!(d, SavedData::File(..)), "is-memory", "is_memory() is {}", d.is_memory());
            if n <= thr {
                ensure!(d.is_memory(), "on-disk", "{} bytes were put on disk with a threshold of {}", n, thr);
            } else {
                ensure!(!d.is_memory(), "in-memory", "{} bytes were kept in memory with a threshold of {}", n, thr);
            }
        } else if n <= lim && !utf8 {
            bail!("not-saved", "saving a field of {} bytes with a limit of {} ended with {:?}", n, lim, o.kind);
        }
        if lim <= thr {
            ensure!(o.files.is_empty(), "disk-touched", "the disk was touched with a size limit of {} and a threshold of {}", lim, thr);
        }
        match o.data {
            Some(SavedData::File(ref p, _)) => {
                ensure!(o.files.len() == 1 && o.files[0].0 == *p, "one-file", "saved to {:?} but the files written are {:?}", p, o.files.iter().map(|f| &f.0).collect::<Vec<_>>());
            }
            _ => ensure!(o.files.is_empty(), "disk-touched", "a field kept in memory left {:?} on disk", o.files.iter().map(|f| &f.0).collect::<Vec<_>>()),
        }
    }
    if asp & REST != 0 {
        check_rest(c, o)?;
    }
    if asp & TEXT != 0 {
        if let Some(ref d) = o.data {
            if let SavedData::Text(_) = *d {
                ensure!(textual, "not-text", "a field that is not text (or is not to be read as text) was saved as text");
                ensure!(c.starts_with(&st) && (!matches!(o.kind, Kind::Full) || st == c), "text-changed", "the text saved is {}, sent {}", show(&st), show(c));
            }
            if let Kind::Full = o.kind {
                if textual && n <= thr {
                    if valid_all {
                        ensure!(matches!(d, SavedData::Text(_)), "text-missed", "valid text {} was saved as {}", show(c), same_kind(d));
                    } else {
                        ensure!(!matches!(d, SavedData::Text(_)), "text-invented", "invalid text {} was saved as text", show(c));
                    }
                }
            }
        }
        if !force {
            ensure!(matches!(o.kind, Kind::Full | Kind::Size), "text-outcome", "saving without forced text ended with {:?}", o.kind);
        }
    }
    Ok(())
}

/// What was saved and what can still be read make up the field.
pub fn check_rest(c: &[u8], o: &Out) -> Res {
    let mut all = vec![];
    if let Some(ref d) = o.data {
        let st = stored(d, 0)?;
        ensure!(st.len() as u64 == d.size(), "true-size", "reported size {} but {} bytes are there", d.size(), st.len());
        all = st;
    } else {
        ensure!(o.rest.len() >= c.len() || o.rest == c, "consumed", "reported as not started, but only {} of {} bytes can still be read", o.rest.len(), c.len());
    }
    if let Kind::Full = o.kind {
        ensure!(o.rest.is_empty(), "rest-after-full", "a fully saved field still has {} to read", show(&o.rest));
    }
    let saved = all.len();
    all.extend_from_slice(&o.rest);
    check_data(&all, c, &format!("the {} bytes saved and the {} still readable", saved, o.rest.len()))
}

// ------------------------------------------------------------------ running saves

pub fn files_of(a: &Snap, b: &Snap) -> Vec<(PathBuf, Vec<u8>)> {
    World::news(a, b).into_iter().filter_map(|(p, d)| d.map(|d| (p, d))).collect()
}

/// Save one field through the single-field interface.
pub fn save_data<M: multipart::server::ReadEntry>(w: &World, d: &mut MultipartData<M>, conf: &Conf, api: usize) -> (Kind, Option<SavedData>) {
    let mut b = conf.apply(d.save());
    let r = match api {
        0 => b.with_path(w.s.join("p1").join("p2").join("file")),
        1 => b.with_dir(w.s.join("dir")),
        2 => b.with_filename("name"),
        3 => b.temp(),
        _ => b.with_path(w.s.join("again")),
    };
    match r {
        SaveResult::Full(d) => (Kind::Full, Some(d)),
        SaveResult::Partial(d, r) => (kind_of(r), Some(d)),
        SaveResult::Error(e) => (Kind::Error(e.kind()), None),
    }
}

pub fn next_is<R: Read>(mp: &mut Multipart<R>, parts: &[Part], from: usize) -> Res {
    for (i, p) in parts.iter().enumerate().skip(from) {
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                check_headers(&f.headers, p, &format!("later field {}", i))?;
                let mut v = vec![];
                if let Err(e) = f.data.read_to_end(&mut v) {
                    bail!("later-error", "reading later field {} failed: {}", i, e);
                }
                check_data(&v, &p.content, &format!("later field {}", i))?;
            }
            Ok(None) => bail!("later-lost", "the request ended before field {} of {}", i, parts.len()),
            Err(e) => bail!("later-error", "later field {} could not be read: {}", i, e),
        }
    }
    match mp.read_entry() {
        Ok(None) => Ok(()),
        Ok(Some(f)) => fail("later-extra", format!("field {:?} was invented", f.headers.name)),
        Err(e) => fail("later-error", format!("the end could not be read: {}", e)),
    }
}

/// Skip to part `t`, save it alone, then read what is left.
pub fn run_single(x: &X, w: &World, body: &Body, t: usize, src: Source, min: Option<usize>, conf: &Conf, api: usize, asp: u32) -> Res<Out> {
    let look = asp & (LIMIT | STORE) != 0;
    let snap = || if look { w.snap() } else { Snap::new() };
    let before = snap();
    let mut mp = Multipart::with_body(src, &body.boundary[..]);
    for i in 0..t {
        ensure!(matches!(mp.read_entry(), Ok(Some(_))), "skip", "field {} not found", i);
    }
    let out = {
        let mut f = match mp.read_entry() {
            Ok(Some(f)) => f,
            _ => bail!("skip", "the field to save was not found"),
        };
        if let Some(m) = min {
            f.data.set_min_buf_size(m);
        }
        let (kind, data) = save_data(w, &mut f.data, conf, api);
        let files = files_of(&before, &snap());
        let mut rest = vec![];
        if let Err(e) = f.data.read_to_end(&mut rest) {
            bail!("rest-error", "reading the rest failed: {}", e);
        }
        Out { kind, data, rest, files }
    };
    x.state((t, format!("{:?}", out.kind).len(), out.rest.len()));
    judge(x, asp, &body.parts[t].content, conf, true, &out)?;
    if asp & REST != 0 {
        next_is(&mut mp, &body.parts, t + 1)?;
    }
    Ok(out)
}

pub const WHOLE_APIS: usize = 5;

pub fn save_all<'a, R: Read>(w: &World, mp: &'a mut Multipart<R>, conf: &Conf, count: Option<Option<u32>>, api: usize) -> multipart::server::save::EntriesSaveResult<&'a mut Multipart<R>> {
    let mut b = conf.apply(mp.save());
    if let Some(c) = count {
        b = b.count_limit(c);
    }
    match api {
        0 => b.temp(),
        1 => b.with_dir(w.s.join("e").join("f")),
        2 => b.with_temp_dir(tempfile::TempDir::new_in(&w.s).expect("temp dir")),
        3 => b.with_entries(Entries::new(SaveDir::Perm(w.s.join("g")))),
        _ => b.temp_with_prefix("pre-fix"),
    }
}

/// Save a whole request whose first field is of interest and whose other fields are empty.
pub fn run_whole(x: &X, w: &World, body: &Body, src: Source, conf: &Conf, api: usize, asp: u32) -> Res<Out> {
    let p = &body.parts[0];
    let texty = p.ctype.as_ref().map_or(true, |c| c.to_lowercase().starts_with("text/"));
    let look = asp & (LIMIT | STORE) != 0;
    let snap = || if look { w.snap() } else { Snap::new() };
    let before = snap();
    let mut mp = Multipart::with_body(src, &body.boundary[..]);
    let out;
    let keep; // keep the directory alive until judged
    let mut ended = false;
    match save_all(w, &mut mp, conf, None, api) {
        SaveResult::Full(mut e) => {
            let files = files_of(&before, &snap());
            let mut v = e.fields.remove(&p.name[..]).unwrap_or_default();
            ensure!(!v.is_empty(), "field-lost", "the field is not among the saved ones");
            let f = v.remove(0);
            check_headers(&f.headers, p, "saved field")?;
            out = Out { kind: Kind::Full, data: Some(f.data), rest: vec![], files };
            keep = Some(e);
            ended = true;
        }
        SaveResult::Partial(mut pe, r) => {
            let files = files_of(&before, &snap());
            let kind = kind_of(r);
            match pe.partial.take() {
                Some(ps) => {
                    let mut src = ps.source;
                    check_headers(&src.headers, p, "partially saved field")?;
                    let mut rest = vec![];
                    if let Err(e) = src.data.read_to_end(&mut rest) {
                        bail!("rest-error", "reading the rest failed: {}", e);
                    }
                    out = Out { kind, data: ps.dest, rest, files };
                }
                None => bail!("no-partial", "the save stopped ({:?}) without handing back the field", kind),
            }
            keep = Some(pe.entries);
        }
        SaveResult::Error(e) => bail!("save-error", "saving failed: {}", e),
    }
    x.state((0, format!("{:?}", out.kind).len(), out.rest.len()));
    judge(x, asp, &p.content, conf, texty, &out)?;
    if asp & REST != 0 && !ended {
        next_is(&mut mp, &body.parts, 1)?;
    }
    drop(keep);
    Ok(out)
}

// ------------------------------------------------------------------ generators

const TEXTY: [&[u8]; 5] = [b"a", "\u{e9}".as_bytes(), b"\xff", "\u{20ac}".as_bytes(), b"\xe2\x82"];

/// Small contents at byte granularity: buffers of a few bytes, every limit and threshold around.
fn small(asp: u32, th: bool) -> Group {
    let len = if th { 4 } else { 3 };
    let n = count_upto(5, len);
    group("small", n * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let pol = *r.pick(&POLS);
        let c = string_upto(&TEXTY, len, r.0);
        let body = x.cached(0, || {
            let mut p = Part::typed("a", Some("text/plain"), &c[..]);
            p.extra = format!("X: {}\r\n", "h".repeat(930));
            Body::new("b", vec![p, Part::new("z", "tail")])
        });
        let l = c.len() as u64;
        let limit = match x.all(l as usize + 4) as u64 {
            0 => None,
            1 => Some(None),
            k => Some(Some(k - 2)),
        };
        let thr = match x.all(l as usize + 4) as u64 {
            0 => None,
            1 => Some(u64::MAX),
            k => Some(k - 2),
        };
        let conf = Conf { limit, thr, pol };
        let (h, s, e) = body.at[0];
        assert!(s - h >= 1000);
        let cuts = x.subset(&range(s.max(h + 1025), e + 3), if th { 3 } else { 2 });
        let w = World::fresh();
        let min = *x.pick(&[Some(0), None]);
        if min.is_none() && !cuts.is_empty() {
            return Ok(());
        }
        x.log(|| format!("cuts {:?} min {:?}", cuts, min));
        run_single(x, &w, &body, 0, Source::new(body.bytes.clone()).cuts(cuts), min, &conf, 0, asp).map(|_| ())
    })
}

/// Sizes around thresholds, limits and buffers, through every interface.
fn sizes(asp: u32, th: bool) -> Group {
    let mut ns: Vec<usize> = vec![0, 1, 2, 1000, 1023, 1024, 1025, 1026, 2048, 4000, 8100, 8185, 8190, 8191, 8192, 8193, 8200, 9000, 16384];
    if th {
        ns.extend([3, 5, 7, 100, 500, 1010, 1016, 1030, 1100, 1500, 2047, 2049, 8000, 8110, 8120, 8130, 8140, 8150, 8160, 8170, 8180, 8186, 8187, 8188, 8189, 8194, 8195, 8300, 16383, 16385, 20000, 24576]);
    }
    let cts: [Option<&'static str>; 3] = [None, Some("text/html"), Some("image/png")];
    let nn = ns.len();
    group("sizes", (nn * 3) as u64, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&ns);
        let ct = *r.pick(&cts);
        let flavour = x.all(3);
        let body = x.cached(flavour as u64, || {
            let mut c = filler(n);
            if n > 0 && flavour == 1 {
                c[n - 1] = 0xff;
            }
            if n > 3 && flavour == 2 {
                let k = n / 2 - 1;
                c[k..k + 2].copy_from_slice("\u{e9}".as_bytes());
            }
            Body::new("bnd", vec![Part::typed("a", ct, c), Part::new("z", "")])
        });
        if flavour == 1 && n == 0 || flavour == 2 && n <= 3 {
            return Ok(());
        }
        let m = n as u64;
        let mut lims = vec![None, Some(None), Some(Some(0)), Some(Some(1)), Some(Some(1024)), Some(Some(m)), Some(Some(m + 1)), Some(Some(m / 2))];
        if m > 0 {
            lims.push(Some(Some(m - 1)));
        }
        let mut thrs = vec![None, Some(u64::MAX), Some(0), Some(1), Some(m), Some(m + 1), Some(1024), Some(m / 2), Some(m / 2 + 1)];
        if m > 0 {
            thrs.push(Some(m - 1));
        }
        let conf = Conf { limit: *x.pick(&lims), thr: *x.pick(&thrs), pol: *x.pick(&POLS) };
        let single = ct.is_none() && x.flag();
        let api = if single { x.all(4) } else { x.all(WHOLE_APIS) };
        let maxes: &[usize] = if single || api == 0 { &[usize::MAX, 1000, 1024, 1030, 37] } else { &[usize::MAX, 1024] };
        let max = *x.pick(maxes);
        let w = World::fresh();
        let src = Source::new(body.bytes.clone()).max(max);
        x.log(|| format!("single {} api {} reads of at most {}", single, api, max));
        if single {
            run_single(x, &w, &body, 0, src, None, &conf, api, asp).map(|_| ())
        } else {
            run_whole(x, &w, &body, src, &conf, api, asp).map(|_| ())
        }
    })
}

/// What someone might be tempted to treat specially.
const SPECIAL: [&[u8]; 24] = [
    b"\0", b"\t", b"\n", b"\x0b", b"\x1a", b"\x1b", b"\x7f", b" ", b"\xc2\x80", b"\xc2\x85", b"\xc2\xa0", b"\xcc\x81", b"\xd7\x90", b"\xdf\xbf", b"\xe0\xa0\x80", b"\xe2\x80\xa8",
    b"\xef\xbb\xbf", b"\xef\xbf\xbe", b"\xef\xbf\xbf", b"\xf0\x90\x80\x80", b"\xf4\x8f\xbf\xbf", b"+%41&amp;=\\\"", b"\xff\xfe", b"e",
];

/// Contents which begin with, end with or consist of control characters, byte order marks, the
/// first and the last characters of each encoded length, and such.
fn specials(asp: u32, th: bool) -> Group {
    let k = if th { 3 } else { 2 };
    let n = count_upto(SPECIAL.len(), k);
    let cts: [Option<&'static str>; 4] = [None, Some("text/plain"), Some("text/html; charset=utf-16"), Some("application/json")];
    group("specials", n, 0, move |x, o| {
        let pat = string_upto(&SPECIAL, k, o);
        let shape = x.all(4);
        let cti = x.all(cts.len());
        let body = x.cached((shape * 4 + cti) as u64, || {
            let c = match shape {
                0 => pat.clone(),
                1 => [&pat[..], b"text"].concat(),
                2 => [b"text", &pat[..]].concat(),
                _ => [&pat[..], &filler(1500)[..], &pat[..]].concat(),
            };
            Body::new("bnd", vec![Part::typed("a", cts[cti], c), Part::new("z", "")])
        });
        let conf = Conf { limit: None, thr: *x.pick(&[None, Some(u64::MAX), Some(0)]), pol: *x.pick(&POLS) };
        let w = World::fresh();
        let src = Source::new(body.bytes.clone());
        if x.flag() {
            run_single(x, &w, &body, 0, src, None, &conf, 1, asp).map(|_| ())
        } else {
            run_whole(x, &w, &body, src, &conf, 0, asp).map(|_| ())
        }
    })
}

/// The default size limit of 8 MiB.
fn defaults(asp: u32) -> Group {
    let ns = [(8usize << 20) - 1, 8 << 20, (8 << 20) + 1, 9 << 20, 10239, 10240, 10241];
    group("defaults", 7 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&ns);
        let single = r.take(2) == 1;
        let body = x.cached(0, || Body::new("bnd", vec![Part::new("a", filler(n)), Part::new("z", "")]));
        let conf = Conf { limit: *x.pick(&[None, Some(None)]), thr: None, pol: Pol::Default };
        let w = World::fresh();
        let src = Source::new(body.bytes.clone()).max(*x.pick(&[usize::MAX, 1400]));
        if single {
            run_single(x, &w, &body, 0, src, None, &conf, 1, asp).map(|_| ())
        } else {
            run_whole(x, &w, &body, src, &conf, 0, asp).map(|_| ())
        }
    })
}

/// Fields of several megabytes.
fn mega(asp: u32, th: bool) -> Group {
    let mut ns = vec![65535usize, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (2 << 20) + 1, (4 << 20) + 1];
    if th {
        ns.extend([(1 << 17) + 1, (1 << 19) + 1, (1 << 21) - 1, 1 << 21, 3_000_000, (1 << 23) - 1, (1 << 23) + 1, (1 << 24) + 1, (1 << 25) + 1]);
    }
    group("mega", ns.len() as u64 * 2 * 3, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&ns);
        let ct = *r.pick(&[None, Some("image/png")]);
        let thr = match r.take(3) {
            0 => None,
            1 => Some(u64::MAX),
            _ => Some(n as u64 - x.all(2) as u64),
        };
        let body = x.cached(0, || Body::new("bnd", vec![Part::typed("a", ct, filler(n)), Part::new("z", "")]));
        let m = n as u64;
        let limit = match x.all(5) {
            0 => None,
            k => Some(*[None, Some(m), Some(m - 1), Some(m / 2)].get(k - 1).unwrap()),
        };
        if thr.map_or(false, |t| t < u64::MAX) && limit != Some(None) {
            return Ok(());
        }
        let conf = Conf { limit, thr, pol: *x.pick(&[Pol::Default, Pol::Ignore]) };
        let w = World::fresh();
        let src = Source::new(body.bytes.clone()).max(*x.pick(&[usize::MAX, 100_000]));
        if x.flag() {
            run_single(x, &w, &body, 0, src, None, &conf, 1, asp).map(|_| ())
        } else {
            run_whole(x, &w, &body, src, &conf, 0, asp).map(|_| ())
        }
    })
}

/// Limits of every remainder to the sizes of blocks and pages, above a megabyte.
fn remainders(asp: u32, th: bool) -> Group {
    let span = if th { 8192u64 } else { 4096 };
    group("remainders", span / 64 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let disk = r.take(2) == 1;
        let base = r.0 * 64;
        let body = x.cached(0, || Body::new("bnd", vec![Part::new("a", filler((1 << 20) + 9000)), Part::new("z", "")]));
        let limit = (1 << 20) + base + x.all(64) as u64;
        let conf = Conf { limit: Some(Some(limit)), thr: Some(if disk { 5000 } else { u64::MAX }), pol: if disk { Pol::Ignore } else { Pol::Default } };
        let w = World::fresh();
        run_single(x, &w, &body, 0, Source::new(body.bytes.clone()), None, &conf, 1, asp).map(|_| ())
    })
}

/// Limits and thresholds beyond 32 bits, and on their edges.
fn huge(asp: u32) -> Group {
    let ns = [0usize, 1, 5, 1100, 70000];
    let big = [1u64 << 16, (1 << 16) + 2, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 2, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX];
    group("huge-limits", (ns.len() * big.len()) as u64, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&ns);
        let limit = *r.pick(&big);
        let body = x.cached(0, || Body::new("bnd", vec![Part::new("a", filler(n)), Part::new("z", "")]));
        let thrs = [None, Some(0), Some(3), Some(1u64 << 16), Some(1 << 32), Some((1 << 32) + 2), Some(1 << 63), Some(u64::MAX - 1), Some(u64::MAX)];
        let conf = Conf { limit: Some(Some(limit)), thr: *x.pick(&thrs), pol: *x.pick(&POLS) };
        let w = World::fresh();
        let src = Source::new(body.bytes.clone());
        if x.flag() {
            run_single(x, &w, &body, 0, src, None, &conf, 1, asp).map(|_| ())
        } else {
            run_whole(x, &w, &body, src, &conf, 0, asp).map(|_| ())
        }
    })
}

/// Requests of several fields: the limit and the threshold are those of each field.
fn several(asp: u32, th: bool) -> Group {
    let ns = [0usize, 1, 29, 30, 31, 1500];
    let k = if th { 4 } else { 3 };
    group("several", 6u64.pow(k), 0, move |x, o| {
        let mut r = Radix(o);
        let ct = x.all(3);
        let parts: Vec<Part> = (0..k)
            .map(|i| {
                let mut c = filler(*r.pick(&ns));
                c.iter_mut().for_each(|b| *b = b.wrapping_add(i as u8 & 1));
                Part::typed(&format!("f{}", i / 2), [None, Some("text/plain"), Some("image/png")][ct], c)
            })
            .collect();
        let body = Body::new("bnd", parts);
        let limit = *x.pick(&[None, Some(Some(30)), Some(Some(60)), Some(Some(1500))]);
        let thr = *x.pick(&[None, Some(0), Some(29), Some(30), Some(45), Some(1500)]);
        let conf = Conf { limit, thr, pol: *x.pick(&[Pol::Default, Pol::Force, Pol::Ignore]) };
        let w = World::fresh();
        let before = w.snap();
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        let over = body.parts.iter().position(|p| p.content.len() as u64 > conf.limit_val());
        let res = save_all(&w, &mut mp, &conf, None, 1);
        let files = files_of(&before, &w.snap());
        let (entries, partial, kind) = match res {
            SaveResult::Full(e) => (e, None, Kind::Full),
            SaveResult::Partial(p, r) => (p.entries, p.partial, kind_of(r)),
            SaveResult::Error(e) => bail!("save-error", "saving failed: {}", e),
        };
        x.log(|| format!("{:?} of {} fields, {:?}", conf, body.parts.len(), kind));
        match (over, &kind) {
            (None, Kind::Full) | (Some(_), Kind::Size) => {}
            _ => bail!("outcome", "saving fields of {:?} with {:?} ended with {:?}", body.parts.iter().map(|p| p.content.len()).collect::<Vec<_>>(), conf, kind),
        }
        let mut fields = entries.fields;
        let mut used = 0;
        let texty = ct < 2;
        let mine = |d: &SavedData| match d {
            SavedData::File(p, _) => files.iter().filter(|f| f.0 == *p).cloned().collect(),
            _ => vec![],
        };
        for p in &body.parts[..over.unwrap_or(body.parts.len())] {
            let v = fields.entry((&p.name[..]).into()).or_default();
            ensure!(!v.is_empty(), "field-lost", "field {:?} is not among the saved ones", p.name);
            let f = v.remove(0);
            let fs: Vec<_> = mine(&f.data);
            used += fs.len();
            judge(x, asp, &p.content, &conf, texty, &Out { kind: Kind::Full, data: Some(f.data), rest: vec![], files: fs })?;
        }
        if let (Some(i), Some(mut ps)) = (over, partial) {
            let mut rest = vec![];
            ps.source.data.read_to_end(&mut rest).map_err(|e| Fail { key: "rest-error".into(), msg: e.to_string() })?;
            let fs: Vec<_> = ps.dest.as_ref().map_or(vec![], &mine);
            used += fs.len();
            judge(x, asp, &body.parts[i].content, &conf, texty, &Out { kind, data: ps.dest, rest, files: fs })?;
        }
        ensure!(fields.values().all(|v| v.is_empty()), "field-extra", "fields were invented");
        ensure!(used == files.len(), "files", "{} files are on disk, {} belong to fields", files.len(), used);
        x.state((o, used));
        Ok(())
    })
}

pub fn c12(th: bool) -> Vec<Group> {
    vec![small(LIMIT, th), sizes(LIMIT, th), defaults(LIMIT), mega(LIMIT, th), remainders(LIMIT, th), huge(LIMIT), several(LIMIT, th), crate::giant::save(th)]
}

pub fn c14(th: bool) -> Vec<Group> {
    vec![small(STORE, th), sizes(STORE, th), specials(STORE, th), defaults(STORE), mega(STORE, th), huge(STORE), several(STORE, th)]
}

// ------------------------------------------------------------------ C16

/// Valid and invalid sequences.
const PIECES: [&[u8]; 16] = [
    b"a", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xf0\x9f", b"\xf0", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80",
    b"\xff", b"\r\n", b"\xef\xbf\xbd",
];

pub fn c16(th: bool) -> Vec<Group> {
    let mut g = vec![small(TEXT, th), sizes(TEXT, th), mega(TEXT, th)];
    let k = if th { 3 } else { 2 };
    let n = count_upto(16, k);
    let cts: [Option<&'static str>; 5] = [None, Some("text/plain"), Some("text/csv; charset=utf-8"), Some("image/png"), Some("application/x-www-form-urlencoded")];
    // characters and broken characters at every position relative to the ends of buffers
    g.push(group("straddle", n * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let tail = r.take(2) * 2100;
        let pat = string_upto(&PIECES, k, r.0);
        let cti = x.all(cts.len());
        let body = x.cached(cti as u64, || Body::new("b", vec![Part::typed("a", cts[cti], [&filler(1100)[..], &pat, &filler(tail)].concat()), Part::new("z", "")]));
        let (_, s, e) = body.at[0];
        let m = (e - s) as u64;
        let p = s + 1100;
        let pol = *x.pick(&POLS[1..]);
        let thr = *x.pick(&[Some(u64::MAX), None, Some(m), Some(1100), Some(1101), Some(1102), Some(1103), Some(m.saturating_sub(1))]);
        let limit = if x.flag() { Some(Some(1100 + x.all(4) as u64)) } else { Some(None) };
        if cti > 1 && (limit != Some(None) || thr != Some(u64::MAX)) {
            return Ok(());
        }
        let conf = Conf { limit, thr, pol };
        let cuts = x.subset(&range(p, p + pat.len() + 1), if limit == Some(None) && thr == Some(u64::MAX) { 2 } else { 1 });
        let w = world();
        let how = if cti == 0 { x.all(3) } else { 0 };
        x.log(|| format!("cuts {:?} how {}", cuts, how));
        let src = Source::new(body.bytes.clone()).cuts(cuts);
        let r = match how {
            0 => run_whole(x, &w, &body, src, &conf, 3, TEXT),
            1 => run_single(x, &w, &body, 0, src, Some(0), &conf, 1, TEXT),
            _ => run_single(x, &w, &body, 0, src, None, &conf, 1, TEXT),
        };
        if let Ok(Out { data: Some(SavedData::File(ref p, _)), .. }) = r {
            let _ = std::fs::remove_file(p);
        }
        r.map(|_| ())
    }));
    g.push(specials(TEXT, th));
    // what a field is said to be: its type, its filename
    let types = [
        None, Some("text/plain"), Some("text/html"), Some("text/xml"), Some("text/css"), Some("TEXT/CSV"), Some("text/x-foo+xml"), Some("text/plain; charset=utf-8"), Some("text/plain; charset=iso-8859-1"), Some("text/plain; charset=utf-16"), Some("text/json"), Some("text/javascript"),
        Some("application/json"), Some("application/xml"), Some("application/text"), Some("application/javascript"), Some("application/x-www-form-urlencoded"), Some("image/svg+xml"), Some("multipart/mixed"), Some("message/rfc822"), Some("x-text/plain"), Some("application/octet-stream"), Some("application/octet-stream; charset=utf-8"), Some("image/text"),
    ];
    g.push(group("kinds", types.len() as u64 * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let ct = *r.pick(&types);
        let file = *r.pick(&[None, Some(""), Some("f.txt"), Some("f.bin")]);
        let content = *x.pick(&[&b""[..], b"abc", b"a\xe2\x82\xacb", b"ab\xff", b"\x80", b"{}", b"\0"]);
        let texty = ct.map_or(true, |t| t.to_lowercase().starts_with("text/"));
        let body = Body::new("b", vec![Part { name: "a".into(), filename: file.map(|f| f.into()), ctype: ct.map(|c| c.into()), extra: String::new(), content: content.into() }, Part::new("z", "")]);
        {
            let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "b");
            let f = mp.read_entry().map_err(|e| Fail { key: "op-error".into(), msg: e.to_string() })?.unwrap();
            ensure!(f.is_text() == texty, "is-text", "is_text() of a field of type {:?} and filename {:?} is {}", ct, file, f.is_text());
        }
        let conf = Conf { limit: *x.pick(&[None, Some(None), Some(Some(2))]), thr: *x.pick(&[None, Some(0), Some(2)]), pol: *x.pick(&POLS) };
        let w = world();
        let r = run_whole(x, &w, &body, Source::new(body.bytes.clone()), &conf, 3, TEXT);
        if let Ok(Out { data: Some(SavedData::File(ref p, _)), .. }) = r {
            let _ = std::fs::remove_file(p);
        }
        r.map(|_| ())
    }));
    // the same where the 8 KiB buffer wraps
    g.push(group("wrap", 16 * 40, 0, move |x, o| {
        let mut r = Radix(o);
        let pat = PIECES[r.take(16)];
        let n = 8080 + r.0 as usize * 3 + x.all(3);
        let body = Body::new("b", vec![Part::new("a", [&filler(n)[..], pat, pat, pat, &filler(100)].concat()), Part::new("z", "")]);
        let conf = Conf { limit: Some(None), thr: Some(u64::MAX), pol: *x.pick(&POLS[1..]) };
        let max = *x.pick(&[usize::MAX, 8000, 4096, 1024, 1000]);
        run_whole(x, &world(), &body, Source::new(body.bytes.clone()).max(max), &conf, 3, TEXT).map(|_| ())
    }));
    g
}

// ------------------------------------------------------------------ C15

/// Things that can go wrong with the destination.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dest {
    Fine,
    /// the path exists
    Exists,
    /// a parent of the path is a file
    ParentIsFile,
    /// the directory cannot be written
    ReadOnly,
    /// the path is a directory
    IsDir,
    /// the device is full from the start
    Full,
    /// the file cannot grow beyond this
    Cap(u64),
}

fn save_to<M: multipart::server::ReadEntry>(w: &World, d: &mut MultipartData<M>, conf: &Conf, dest: Dest) -> (Kind, Option<SavedData>) {
    let dir = w.s.join("t");
    let mut path = dir.join("f");
    let mut b = conf.apply(d.save());
    let mut cap = None;
    use std::os::unix::fs::PermissionsExt;
    match dest {
        Dest::Fine => {}
        Dest::Exists => {
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(&path, b"precious").unwrap();
        }
        Dest::ParentIsFile => std::fs::write(&dir, b"precious").unwrap(),
        Dest::ReadOnly => {
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o555)).unwrap();
        }
        Dest::IsDir => std::fs::create_dir_all(&path).unwrap(),
        Dest::Full => {
            path = PathBuf::from("/dev/full");
            b = b.mod_open_opts(|o| {
                o.create_new(false);
            });
        }
        Dest::Cap(n) => cap = Some(FileCap::new(n)),
    }
    let r = b.with_path(&path);
    drop(cap);
    if dest == Dest::ReadOnly {
        std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    match r {
        SaveResult::Full(d) => (Kind::Full, Some(d)),
        SaveResult::Partial(d, r) => (kind_of(r), Some(d)),
        SaveResult::Error(e) => (Kind::Error(e.kind()), None),
    }
}

/// One save under faults, then either read or save the rest.
fn faulty(x: &X, body: &Body, src: Source, min: Option<usize>, conf: &Conf, dest: Dest, cont: usize) -> Res {
    let w = World::fresh();
    let p = &body.parts[0];
    let c = &p.content;
    let stat = src.stat.clone();
    x.log(|| format!("content {} ({} bytes) {:?} dest {:?} faults {:?} then {}", show(c), c.len(), conf, dest, stat.faults.borrow(), cont));
    let mut mp = Multipart::with_body(src, &body.boundary[..]);
    {
        let mut f = match mp.read_entry() {
            Ok(Some(f)) => f,
            Ok(None) => bail!("setup", "no field"),
            Err(_) => return Ok(()), // the fault hit the headers: not this property
        };
        let planned = stat.faults.borrow().clone();
        let r0 = stat.raised.get();
        if let Some(m) = min {
            f.data.set_min_buf_size(m);
        }
        let (kind, data) = save_to(&w, &mut f.data, conf, dest);
        let raised: Vec<Fault> = planned[..].iter().filter(|p| !stat.faults.borrow().contains(p)).cloned().collect();
        let hard: Vec<ErrorKind> = raised.iter().map(|f| f.kind).filter(|&k| k != ErrorKind::Interrupted).collect();
        assert_eq!(raised.len(), stat.raised.get() - r0);
        x.log(|| format!("-> {:?} {:?} raised {:?}", kind, data.as_ref().map(|d| (same_kind(d), d.size())), raised));
        x.state((0, stat.pos.get(), data.as_ref().map(|d| d.size())));
        if let Some(&k) = hard.first() {
            ensure!(matches!(kind, Kind::Io(k2) | Kind::Error(k2) if k2 == k), "fault-outcome", "the transport failed with {:?} but the outcome is {:?}", k, kind);
        } else if dest == Dest::Fine {
            ensure!(!matches!(kind, Kind::Io(_) | Kind::Error(_)), "spurious-error", "nothing failed but the outcome is {:?}", kind);
        } else if let Kind::Full = kind {
            let on_disk = matches!(data, Some(SavedData::File(..)));
            let could = match dest {
                Dest::Cap(n) => c.len() as u64 <= n,
                _ => !on_disk,
            };
            ensure!(could || !on_disk, "fault-hidden", "the destination is unusable ({:?}) but the save is reported as complete", dest);
        }
        if dest == Dest::Full {
            if let Some(SavedData::File(_, n)) = data {
                // nothing can be read back from that device
                ensure!(n == 0, "true-size", "{} bytes reported as written to a full device", n);
            }
        }
        let st = match data {
            Some(SavedData::File(ref p, 0)) if *p == Path::new("/dev/full") => vec![],
            Some(ref d) => {
                let st = stored(d, 0)?;
                ensure!(st.len() as u64 == d.size(), "true-size", "reported size {} but {} bytes are there", d.size(), st.len());
                st
            }
            None => vec![],
        };
        if dest == Dest::Exists || dest == Dest::ParentIsFile {
            let keep = if dest == Dest::Exists { w.s.join("t").join("f") } else { w.s.join("t") };
            ensure!(std::fs::read(keep).ok() == Some(b"precious".to_vec()), "overwritten", "an existing file was modified");
        }
        let mut all = st.clone();
        let mut rest = vec![];
        let mut tries = 0;
        let what;
        if cont == 0 {
            what = "still readable";
            loop {
                match f.data.read_to_end(&mut rest) {
                    Ok(_) => break,
                    Err(e) => {
                        tries += 1;
                        ensure!(tries < 5, "rest-error", "the rest cannot be read: {}", e);
                    }
                }
            }
        } else {
            what = "saved by continuing";
            let conf2 = Conf { limit: Some(None), thr: Some(if cont == 1 { u64::MAX } else { 0 }), pol: conf.pol };
            loop {
                let mut b = conf2.apply(f.data.save());
                let r = b.with_path(w.s.join(format!("again{}", tries)));
                match r {
                    SaveResult::Full(d) => {
                        rest.extend(stored(&d, 0)?);
                        break;
                    }
                    SaveResult::Partial(d, r) => {
                        rest.extend(stored(&d, 0)?);
                        if let PartialReason::Utf8Error(_) = r {
                            while let Err(e) = f.data.read_to_end(&mut rest) {
                                tries += 1;
                                ensure!(tries < 5, "rest-error", "the rest cannot be read: {}", e);
                            }
                            break;
                        }
                        ensure!(matches!(r, PartialReason::IoError(_)), "continue", "continuing the save ended with {:?}", r);
                    }
                    SaveResult::Error(_) => {}
                }
                tries += 1;
                ensure!(tries < 5, "continue", "the save cannot be continued");
            }
        }
        all.extend_from_slice(&rest);
        if let Kind::Error(_) = kind {
            ensure!(data.is_none(), "kind", "error with data");
        }
        check_data(&all, c, &format!("the {} bytes saved and the {} {}", st.len(), rest.len(), what))?;
    }
    // faults past the field are the subject of C06
    stat.faults.borrow_mut().clear();
    next_is(&mut mp, &body.parts, 1)
}

const FAULTS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof];

pub fn c15(th: bool) -> Vec<Group> {
    let mut g = vec![small(REST, th), sizes(REST, th), crate::disk::field_calls(th)];
    let cs: Vec<Vec<u8>> = vec![b"".to_vec(), b"a".to_vec(), b"abcdef".to_vec(), "ab\u{e9}\u{20ac}z".into(), b"ab\xffcd".to_vec(), b"abcde\xe2\x82".to_vec(), b"a\r\n--bz".to_vec(), b"\xf0\x9f\x98\x80\r".to_vec(), b"a\xffb".to_vec()];
    let nc = cs.len() as u64;
    let cs1 = cs.clone();
    // transport faults anywhere in the field, byte by byte
    g.push(group("source", nc * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let c = r.pick(&cs1);
        let pol = *r.pick(&POLS);
        let body = x.cached(0, || {
            let mut p = Part::new("a", &c[..]);
            p.extra = format!("X: {}\r\n", "h".repeat(990));
            Body::new("bc", vec![p, Part::new("z", "tail")])
        });
        let (_, s, e) = body.at[0];
        let l = c.len() as u64;
        let conf = Conf { limit: *x.pick(&[Some(None), Some(Some(3)), Some(Some(l))]), thr: *x.pick(&[None, Some(0), Some(2), Some(l)]), pol };
        // up to the point where even the most eager reader has seen the whole delimiter
        let pos = range(s, e + 10);
        let faults: Vec<Fault> = x.subset(&pos, 2).into_iter().map(|p| Fault { pos: p, kind: *x.pick(&FAULTS) }).collect();
        let cuts = x.subset(&pos, if faults.len() < 2 || th { 1 } else { 0 });
        let cont = x.all(3);
        faulty(x, &body, Source::new(body.bytes.clone()).cuts(cuts).faults(faults), Some(0), &conf, Dest::Fine, cont)
    }));
    // the same at the scale of the default buffering
    let lens = [0usize, 10, 1023, 1024, 1500, 3000, 8191, 8192, 9000, 12000];
    g.push(group("source-big", lens.len() as u64 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&lens);
        let bad = r.take(2) == 1;
        let body = x.cached(0, || {
            let mut c = filler(n);
            if bad && n > 0 {
                c[n / 2] = 0xff;
            }
            Body::new("bound", vec![Part::new("a", c), Part::new("z", "tail")])
        });
        let (_, s, e) = body.at[0];
        let l = n as u64;
        let conf = Conf { limit: *x.pick(&[Some(None), Some(Some(l / 2)), Some(Some(l))]), thr: *x.pick(&[None, Some(0), Some(1000), Some(u64::MAX)]), pol: *x.pick(&POLS[1..]) };
        let mut pos = vec![s, s + 1, e, e + 4];
        pos.extend((s..e).step_by(e / 7 + 1));
        pos.sort();
        pos.dedup();
        let faults: Vec<Fault> = x.subset(&pos, 2).into_iter().map(|p| Fault { pos: p, kind: *x.pick(&FAULTS[..2]) }).collect();
        let max = *x.pick(&[usize::MAX, 700]);
        let cont = x.all(3);
        faulty(x, &body, Source::new(body.bytes.clone()).max(max).faults(faults), None, &conf, Dest::Fine, cont)
    }));
    // destination faults
    let cs2 = cs;
    g.push(group("dest", nc * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let c = r.pick(&cs2);
        let pol = *r.pick(&POLS);
        let body = x.cached(0, || {
            let mut p = Part::new("a", &c[..]);
            p.extra = format!("X: {}\r\n", "h".repeat(990));
            Body::new("bc", vec![p, Part::new("z", "tail")])
        });
        let (_, s, e) = body.at[0];
        let l = c.len() as u64;
        let conf = Conf { limit: *x.pick(&[None, Some(Some(l / 2 + 1)), Some(Some(l))]), thr: Some(x.all(l as usize + 2) as u64), pol };
        let mut ds = vec![Dest::Exists, Dest::ParentIsFile, Dest::ReadOnly, Dest::IsDir, Dest::Full];
        ds.extend((0..=l).map(Dest::Cap));
        let dest = *x.pick(&ds);
        let pos = range(s, e + 3);
        let cuts = x.subset(&pos, if th { 2 } else { 1 });
        let cont = x.all(3);
        faulty(x, &body, Source::new(body.bytes.clone()).cuts(cuts), Some(0), &conf, dest, cont)
    }));
    g.push(group("dest-big", 7 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&[100usize, 1024, 3000, 8192, 9000, 12000, 20000]);
        let body = x.cached(0, || Body::new("bound", vec![Part::new("a", filler(n)), Part::new("z", "tail")]));
        let l = n as u64;
        let pol = if r.take(2) == 0 { Pol::Try } else { Pol::Ignore };
        let conf = Conf { limit: *x.pick(&[Some(None), Some(Some(l - 1)), Some(Some(l))]), thr: *x.pick(&[None, Some(0), Some(1), Some(1000), Some(l - 1)]), pol };
        let mut ds = vec![Dest::Exists, Dest::ParentIsFile, Dest::ReadOnly, Dest::IsDir, Dest::Full];
        ds.extend([0, 1, 999, 1000, 1001, 1024, 2048, 5000, 8192, l - 1, l].iter().map(|&n| Dest::Cap(n)));
        let dest = *x.pick(&ds);
        let max = *x.pick(&[usize::MAX, 1024, 700]);
        let cont = x.all(3);
        faulty(x, &body, Source::new(body.bytes.clone()).max(max), None, &conf, dest, cont)
    }));
    // saving in instalments of the size limit
    g.push(group("instalments", 60, 0, move |x, o| {
        let c = if o < 40 { filler(o as usize) } else { filler((o as usize - 39) * 601) };
        let n = c.len();
        let step = *x.pick(&[1usize, 2, 3, 7, 100, 1000, 1024, 5000, 8192]);
        if n / step > 60 {
            return Ok(());
        }
        let thr = *x.pick(&[0u64, 1, 2, 999, 1024, u64::MAX]);
        let pol = *x.pick(&POLS[1..]);
        let w = World::fresh();
        let body = Body::new("bnd", vec![Part::new("a", c), Part::new("z", "tail")]);
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()).max(*x.pick(&[usize::MAX, 1030])), "bnd");
        {
            let mut f = match mp.read_entry() {
                Ok(Some(f)) => f,
                _ => bail!("setup", "no field"),
            };
            let conf = Conf { limit: Some(Some(step as u64)), thr: Some(thr), pol };
            let mut all = vec![];
            let mut i = 0;
            loop {
                let (kind, data) = {
                    let mut b = conf.apply(f.data.save());
                    match b.with_path(w.s.join(format!("i{}", i))) {
                        SaveResult::Full(d) => (Kind::Full, d),
                        SaveResult::Partial(d, r) => (kind_of(r), d),
                        SaveResult::Error(e) => bail!("error", "instalment {} failed: {}", i, e),
                    }
                };
                let st = stored(&data, 0)?;
                x.state((i, st.len()));
                ensure!(st.len() as u64 == data.size(), "true-size", "reported size {} but {} bytes are there", data.size(), st.len());
                all.extend_from_slice(&st);
                i += 1;
                match kind {
                    Kind::Full => break,
                    Kind::Size => ensure!(!st.is_empty(), "stuck", "an instalment of at most {} bytes saved nothing", step),
                    k => bail!("error", "instalment ended with {:?}", k),
                }
                ensure!(i <= n + 2, "stuck", "too many instalments");
            }
            check_data(&all, &body.parts[0].content, "the instalments together")?;
        }
        next_is(&mut mp, &body.parts, 1)
    }));
    g
}

// ------------------------------------------------------------------ C13

/// Content of a held field, and its headers, against the part it came from.
fn check_saved(f: &multipart::server::save::SavedField, p: &Part, what: &str) -> Res {
    check_headers(&f.headers, p, what)?;
    check_data(&stored(&f.data, 1)?, &p.content, what)
}

/// The entries hold exactly these parts.
pub fn check_entries(e: &Entries, want: &[&Part], what: &str) -> Res {
    let mut names: Vec<&str> = want.iter().map(|p| &p.name[..]).collect();
    names.sort();
    names.dedup();
    ensure!(e.fields.len() == names.len(), "entry-names", "{}: names {:?}, expected {:?}", what, e.fields.keys().collect::<Vec<_>>(), names);
    for n in names {
        let ps: Vec<&&Part> = want.iter().filter(|p| p.name == n).collect();
        let v = match e.fields.get(n) {
            Some(v) => v,
            None => bail!("entry-missing", "{}: no entry for {:?}", what, n),
        };
        ensure!(v.len() == ps.len(), "entry-count", "{}: {} fields under {:?}, expected {}", what, v.len(), n, ps.len());
        for (i, (f, p)) in v.iter().zip(ps).enumerate() {
            check_saved(f, p, &format!("{}: field {} under {:?}", what, i, n))?;
        }
    }
    ensure!(e.fields_count() as usize == want.len(), "fields-count", "{}: fields_count() is {} with {} fields held", what, e.fields_count(), want.len());
    ensure!(e.is_empty() == want.is_empty(), "is-empty", "{}: is_empty() is {} with {} fields", what, e.is_empty(), want.len());
    Ok(())
}

fn count_run(x: &X, parts: Vec<Part>, pre: usize, limit: Option<Option<u32>>, api: usize, thr: Option<u64>, max: usize, resume: usize) -> Res {
    let w = World::fresh();
    let n = parts.len();
    let body = Body::new("bnd", parts);
    let parts = &body.parts;
    let lim = match limit {
        None => 256,
        Some(None) => u32::MAX,
        Some(Some(l)) => l,
    } as usize;
    let conf = Conf { limit: None, thr, pol: Pol::Default };
    x.log(|| format!("{} fields, {} held before, limit {:?}, api {}, thr {:?}, reads of {}, resume {}", n, pre, limit, api, thr, max, resume));
    // entries held before come from another request
    let pre_parts: Vec<Part> = (0..pre).map(|i| Part::new(["old", "n0"][i % 2], format!("old {}", i))).collect();
    let pre_body = Body::new("bnd", pre_parts);
    let mut mp = Multipart::with_body(Source::new(body.bytes.clone()).max(max), "bnd");
    let res = if api == 3 {
        let mut pmp = Multipart::with_body(Source::new(pre_body.bytes.clone()), "bnd");
        let e = match pmp.save().memory_threshold(1000).with_entries(Entries::new(SaveDir::Perm(w.s.join("g")))) {
            SaveResult::Full(e) => e,
            _ => bail!("setup", "could not fill the entries"),
        };
        let mut b = conf.apply(mp.save());
        if let Some(c) = limit {
            b = b.count_limit(c);
        }
        b.with_entries(e)
    } else {
        save_all(&w, &mut mp, &conf, limit, api)
    };
    let mut held: Vec<&Part> = if api == 3 { pre_body.parts.iter().collect() } else { vec![] };
    let fit = lim.saturating_sub(held.len());
    match res {
        SaveResult::Full(e) => {
            ensure!(n <= fit, "limit-missed", "{} fields (and {} held) were saved with a count limit of {}", n, held.len(), lim);
            held.extend(parts.iter());
            check_entries(&e, &held, "all saved")?;
            x.state((0, n));
        }
        SaveResult::Error(e) => bail!("error", "the save failed: {}", e),
        SaveResult::Partial(pe, r) => {
            ensure!(matches!(r, PartialReason::CountLimit), "reason", "the save stopped because of {:?}", r);
            ensure!(n > fit, "limit-early", "{} fields (and {} held) hit a count limit of {}", n, held.len(), lim);
            held.extend(parts[..fit].iter());
            check_entries(&pe.entries, &held, "saved up to the limit")?;
            x.state((1, fit));
            let (entries, partial) = if resume == 3 { (pe.keep_partial(), None) } else { (pe.entries, pe.partial) };
            if resume == 3 {
                return check_entries(&entries, &held, "kept");
            }
            let ps = match partial {
                Some(p) => p,
                None => bail!("field-lost", "the field at which the save stopped is not handed back"),
            };
            ensure!(ps.dest.is_none(), "not-unread", "the field beyond the limit was saved to {:?}", ps.dest);
            let mut f = ps.source;
            let next = &parts[fit];
            check_headers(&f.headers, next, "field beyond the limit")?;
            match resume {
                0 => {
                    // read on by hand
                    let d = match slurp(&mut f, 0) {
                        Ok(d) => d,
                        Err(e) => bail!("resume", "cannot read the field beyond the limit: {}", e),
                    };
                    check_data(&d, &next.content, "field beyond the limit")?;
                    let mut i = fit + 1;
                    let mut cur = f;
                    loop {
                        use multipart::server::ReadEntryResult as R;
                        match cur.next_entry() {
                            R::Entry(mut g) => {
                                ensure!(i < n, "extra", "more fields than sent");
                                check_headers(&g.headers, &parts[i], "resumed field")?;
                                let d = slurp(&mut g, 1).or_else(|e| fail("resume", format!("{}", e)))?;
                                check_data(&d, &parts[i].content, "resumed field")?;
                                i += 1;
                                cur = g;
                            }
                            R::End(_) => {
                                ensure!(i == n, "rest-lost", "the request ended at field {} of {}", i, n);
                                break;
                            }
                            R::Error(_, e) => bail!("resume", "{}", e),
                        }
                    }
                }
                1 => {
                    // save that field, then the rest into fresh entries
                    let mut b = conf.apply(f.data.save());
                    let d = match b.with_dir(w.s.join("h")) {
                        SaveResult::Full(d) => d,
                        r => bail!("resume", "saving the field beyond the limit ended with {:?}", r),
                    };
                    check_data(&stored(&d, 1)?, &next.content, "field beyond the limit")?;
                    drop(f);
                    let mut e2 = entries;
                    e2.fields.clear();
                    let rest: Vec<&Part> = parts[fit + 1..].iter().collect();
                    match conf.apply(mp.save()).count_limit(None).with_entries(e2) {
                        SaveResult::Full(e2) => check_entries(&e2, &rest, "the rest")?,
                        r => bail!("resume", "saving the rest ended with {:?}", r.into_entries().map(|e| e.fields_count())),
                    }
                }
                _ => {
                    // save the rest with the same entries after making room, in steps of the limit
                    drop(f);
                    let mut e2 = entries;
                    let mut at = fit + 1;
                    let mut guard = 0;
                    loop {
                        guard += 1;
                        ensure!(guard < 20, "resume", "the save does not advance");
                        e2.fields.clear();
                        match conf.apply(mp.save()).count_limit(lim.max(1) as u32).with_entries(e2) {
                            SaveResult::Full(e) => {
                                check_entries(&e, &parts[at.min(n)..].iter().collect::<Vec<_>>(), "the rest")?;
                                break;
                            }
                            SaveResult::Partial(pe, PartialReason::CountLimit) => {
                                let k = lim.max(1);
                                ensure!(at + k < n, "limit-early", "{} remaining fields hit a count limit of {}", n - at.min(n), k);
                                check_entries(&pe.entries, &parts[at..at + k].iter().collect::<Vec<_>>(), "the next ones")?;
                                let p = pe.partial.as_ref().map(|p| p.source.headers.name.to_string());
                                ensure!(p.as_ref().map(|s| &s[..]) == Some(&parts[at + k].name[..]), "field-lost", "the field at which the save stopped is not handed back");
                                at += k + 1;
                                e2 = pe.entries;
                            }
                            _ => bail!("resume", "saving the rest failed"),
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c13(th: bool) -> Vec<Group> {
    let nmax = if th { 8 } else { 5 };
    let contents = ["", "abc", "\r\n", "longer content \u{e9}"];
    vec![
        group("count", (nmax + 1) as u64 * 6, 0, move |x, o| {
            let mut r = Radix(o);
            let n = r.take(nmax + 1);
            let flavour = r.take(6);
            let parts: Vec<Part> = (0..n)
                .map(|i| {
                    let name = if flavour % 2 == 0 { format!("n{}", i) } else { format!("n{}", i % 2) };
                    match flavour / 2 {
                        0 => Part::new(&name, contents[i % 4]),
                        1 => Part::file(&name, &format!("f{}", i), "image/png", filler(20 + i)),
                        _ => Part::new(&name, filler([0, 1023, 9000, 1][i % 4])),
                    }
                })
                .collect();
            let limit = match x.all(n + 4) {
                0 => None,
                1 => Some(None),
                k => Some(Some(k as u32 - 2)),
            };
            let api = x.all(WHOLE_APIS);
            let pre = if api == 3 { x.all(4) } else { 0 };
            let thr = *x.pick(&[None, Some(0)]);
            let max = *x.pick(&[usize::MAX, 61]);
            let resume = x.all(4);
            count_run(x, parts, pre, limit, api, thr, max, resume)
        }),
        // the default limit
        group("default", 8, 0, move |x, o| {
            let n = [0, 1, 254, 255, 256, 257, 258, 300][o as usize];
            let parts: Vec<Part> = (0..n).map(|i| Part::new(&format!("n{}", i), format!("{}", i))).collect();
            let limit = *x.pick(&[None, Some(None), Some(Some(u32::MAX)), Some(Some(255))]);
            let api = x.all(WHOLE_APIS);
            let resume = x.all(4);
            if resume == 2 {
                return Ok(());
            }
            count_run(x, parts, 0, limit, api, None, usize::MAX, resume)
        }),
        // more than fits sixteen bits
        group("thousands", 4 * 5, 0, move |x, o| {
            let mut r = Radix(o);
            let n = *r.pick(&[65535usize, 65536, 65537, 70_001]);
            let limit = *r.pick(&[Some(None), Some(Some(65535)), Some(Some(65536)), Some(Some(70_000)), Some(Some(u32::MAX))]);
            let body = Body::new("bnd", (0..n).map(|i| Part::new(&format!("n{}", i), "")).collect());
            let w = World::fresh();
            let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
            let most = limit.unwrap().map_or(n, |l| n.min(l as usize));
            let res = save_all(&w, &mut mp, &Conf { limit: None, thr: None, pol: Pol::Default }, Some(limit.unwrap()), 3);
            let (e, full) = match res {
                SaveResult::Full(e) => (e, true),
                SaveResult::Partial(pe, PartialReason::CountLimit) => (pe.entries, false),
                SaveResult::Partial(_, r) => bail!("outcome", "stopped by {:?}", r),
                SaveResult::Error(e) => bail!("outcome", "failed: {}", e),
            };
            ensure!(full == (most == n), "outcome", "{} fields with the limit {:?}: full is {}", n, limit, full);
            ensure!(e.fields_count() as usize == most && e.fields.len() == most, "count", "{} fields counted, {} there, {} expected of {} with the limit {:?}", e.fields_count(), e.fields.len(), most, n, limit);
            for i in 0..most {
                ensure!(e.fields.get(&format!("n{}", i)[..]).map_or(0, |v| v.len()) == 1, "lost", "field {} of {} is lost", i, n);
            }
            x.state((n, most));
            Ok(())
        }),
    ]
}

// ------------------------------------------------------------------ C19

#[derive(Clone)]
struct Held {
    name: String,
    part: Part,
    /// what of the content is held
    len: usize,
}

fn check_held(e: &Entries, held: &[Held], counted: usize, what: &str) -> Res {
    let mut names: Vec<&str> = held.iter().map(|h| &h.name[..]).collect();
    names.sort();
    names.dedup();
    for (k, v) in &e.fields {
        ensure!(!v.is_empty(), "empty-list", "{}: {:?} maps to an empty list", what, k);
    }
    ensure!(e.fields.len() == names.len(), "entry-names", "{}: names {:?}, expected {:?}", what, e.fields.keys().collect::<Vec<_>>(), names);
    let mut paths = std::collections::HashSet::new();
    for n in names {
        let hs: Vec<&Held> = held.iter().filter(|h| h.name == n).collect();
        let v = match e.fields.get(n) {
            Some(v) => v,
            None => bail!("entry-missing", "{}: no entry for {:?}", what, n),
        };
        ensure!(v.len() == hs.len(), "entry-count", "{}: {} fields under {:?}, expected {}", what, v.len(), n, hs.len());
        for (i, (f, h)) in v.iter().zip(hs).enumerate() {
            let wh = format!("{}: field {} under {:?}", what, i, n);
            check_headers(&f.headers, &h.part, &wh)?;
            check_data(&stored(&f.data, 1)?, &h.part.content[..h.len], &wh)?;
            ensure!(f.data.size() as usize == h.len, "size", "{}: size {} of {} bytes", wh, f.data.size(), h.len);
            if let SavedData::File(ref p, _) = f.data {
                ensure!(paths.insert(p.clone()), "shared-file", "{}: shares its file with another", wh);
            }
        }
    }
    ensure!(e.fields_count() as usize == counted, "fields-count", "{}: fields_count() is {}, expected {}", what, e.fields_count(), counted);
    ensure!(e.is_empty() == held.is_empty(), "is-empty", "{}: is_empty() is {} with {} fields", what, e.is_empty(), held.len());
    Ok(())
}

/// Sequences of: save with some limits; then keep or drop what was partial; then change the entries.
fn entries_run(x: &X, parts: &[Part], api: usize, stages: usize) -> Res {
    let w = World::fresh();
    let body = Body::new("bnd", parts.to_vec());
    let n = parts.len();
    let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
    let mut held: Vec<Held> = vec![];
    let mut at = 0;
    let mut over = false;
    let mut entries: Option<Entries> = None;
    for stage in 0..stages {
        let combos = [
            (None, None, Pol::Default),
            (Some(Some(3u64)), None, Pol::Force),
            (None, None, Pol::Force),
            (Some(Some(3)), None, Pol::Default),
            (Some(Some(3)), Some(0), Pol::Force),
        ];
        let few = stages > 2 && !x.thorough();
        let (limit, thr, pol) = *x.pick(if few { &combos[..2] } else { &combos });
        let conf = Conf { limit, thr, pol };
        let count = match x.all(if few { 2 } else { 3 }) {
            0 => u32::MAX,
            1 => held.len() as u32 + 1,
            _ => held.len() as u32 + 2,
        };
        x.log(|| format!("stage {}: {:?} count limit {}", stage, conf, count));
        // model
        let lim = conf.limit_val();
        let mut kind = "end";
        let mut part_len = 0;
        if !over {
            while at < n {
                if held.len() >= count as usize {
                    kind = "count";
                    break;
                }
                let p = &parts[at];
                let texty = p.ctype.as_ref().map_or(true, |c| c.to_lowercase().starts_with("text/"));
                let c = &p.content;
                let mem = lim.min(conf.thr_val()) as usize;
                if pol == Pol::Force && texty && mem > 0 {
                    if let Err(e) = std::str::from_utf8(&c[..c.len().min(mem)]) {
                        if e.error_len().is_some() || c.len() <= mem {
                            kind = "utf8";
                            part_len = e.valid_up_to();
                            break;
                        }
                    }
                }
                if c.len() as u64 > lim {
                    kind = "size";
                    part_len = lim as usize;
                    break;
                }
                held.push(Held { name: p.name.clone(), part: p.clone(), len: c.len() });
                at += 1;
            }
            if at >= n {
                over = true;
            }
        }
        let res = match entries.take() {
            None => save_all(&w, &mut mp, &conf, Some(Some(count)), api),
            Some(e) => conf.apply(mp.save()).count_limit(count).with_entries(e),
        };
        let mut e = match res {
            SaveResult::Full(e) => {
                ensure!(kind == "end", "outcome", "the save is complete, expected to stop: {}", kind);
                e
            }
            SaveResult::Partial(pe, r) => {
                let k = kind_of(r);
                let ks = match k {
                    Kind::Size => "size",
                    Kind::Count => "count",
                    Kind::Utf8 => "utf8",
                    _ => "io",
                };
                ensure!(kind == ks, "outcome", "the save stopped with {:?}, expected {}", k, kind);
                let p = &parts[at];
                at += 1;
                match x.all(4) {
                    0 => {
                        // keep what was saved of the field at which the save stopped
                        let dest = pe.partial.as_ref().map_or(false, |p| p.dest.is_some());
                        ensure!(dest == (kind != "count"), "partial-dest", "stopped with {} but saved data is {}", kind, if dest { "there" } else { "not there" });
                        if dest {
                            held.push(Held { name: p.name.clone(), part: p.clone(), len: part_len });
                        }
                        pe.keep_partial()
                    }
                    1 => Into::<Entries>::into(pe),
                    2 => {
                        // complete it by hand
                        let mut e = pe.entries;
                        let ps = match pe.partial {
                            Some(p) => p,
                            None => bail!("field-lost", "the field at which the save stopped is not handed back"),
                        };
                        let mut v = match ps.dest {
                            Some(ref d) => stored(d, 0)?,
                            None => vec![],
                        };
                        let mut s = ps.source;
                        if let Err(e) = s.data.read_to_end(&mut v) {
                            bail!("rest", "{}", e);
                        }
                        check_data(&v, &p.content, "completed by hand")?;
                        held.push(Held { name: p.name.clone(), part: p.clone(), len: v.len() });
                        let f = multipart::server::save::SavedField { headers: s.headers, data: SavedData::Bytes(v) };
                        e.fields.entry(f.headers.name.clone()).or_insert_with(Vec::new).push(f);
                        ensure!(e.recount_fields() as usize == held.len(), "recount", "recount_fields() is {} with {} fields", e.fields_count(), held.len());
                        e
                    }
                    _ => {
                        // move on by hand without dropping the source first
                        let e = pe.entries;
                        drop(pe.partial);
                        e
                    }
                }
            }
            SaveResult::Error(e) => bail!("error", "the save failed: {}", e),
        };
        x.state((stage, at, held.len(), kind.len()));
        check_held(&e, &held, held.len(), &format!("after stage {}", stage))?;
        if stage + 1 == stages {
            return Ok(());
        }
        let mut counted = held.len();
        match x.all(4) {
            0 => {}
            1 => {
                // remove a name
                if let Some(h) = held.first().cloned() {
                    e.fields.remove(&h.name[..]);
                    held.retain(|k| k.name != h.name);
                }
            }
            2 => {
                e.fields.clear();
                held.clear();
                counted = e.recount_fields() as usize;
                ensure!(counted == 0, "recount", "recount_fields() of nothing is {}", counted);
            }
            _ => {
                // take one field of the last name
                if let Some(h) = held.last().cloned() {
                    let gone = {
                        let v = e.fields.get_mut(&h.name[..]).unwrap();
                        v.pop();
                        v.is_empty()
                    };
                    if gone {
                        e.fields.remove(&h.name[..]);
                    }
                    held.pop();
                    counted = e.recount_fields() as usize;
                    ensure!(counted == held.len(), "recount", "recount_fields() is {} with {} fields", counted, held.len());
                }
            }
        }
        check_held(&e, &held, counted, &format!("after changes in stage {}", stage))?;
        entries = Some(e);
    }
    Ok(())
}

pub fn c19(th: bool) -> Vec<Group> {
    let kinds: Vec<Part> = vec![
        Part::new("a", "x"),
        Part::new("b", ""),
        Part::file("a", "f.png", "image/png", "four+"),
        Part::new("b", b"y\xff"),
        Part::typed("a", Some("text/plain"), "\u{20ac}\u{e9}"),
    ];
    let k = kinds.len();
    let n = if th { 4 } else { 3 };
    let total = count_upto(k, n);
    let seq = move |idx: u64| -> Vec<Part> {
        let mut idx = idx;
        for l in 0..=n {
            let m = (k as u64).pow(l as u32);
            if idx < m {
                return (0..l)
                    .map(|_| {
                        let p = kinds[(idx % k as u64) as usize].clone();
                        idx /= k as u64;
                        p
                    })
                    .collect();
            }
            idx -= m;
        }
        unreachable!()
    };
    let seq2 = seq.clone();
    vec![
        group("two-stages", total, 0, move |x, o| {
            let parts = seq(o);
            let api = *x.pick(&[3usize, 0]);
            entries_run(x, &parts, api, if th || parts.len() < 3 { 2 } else { 2 })
        }),
        group("three-stages", if th { 156 } else { 12 }, 0, move |x, o| {
            let parts = seq2(if th { o } else { 31 + o * 9 });
            entries_run(x, &parts, 3, 3)
        }),
        many_fields(th),
        counted(),
        crate::disk::whole_calls(false, th),
    ]
}

/// Entries put in by the application are counted as well, however many.
fn counted() -> Group {
    const COUNTS: [usize; 14] = [0, 1, 2, 127, 128, 255, 256, 257, 1000, 32_768, 65_535, 65_536, 65_537, 70_000];
    group("counted", COUNTS.len() as u64 * 3, 0, move |x, o| {
        let mut r = Radix(o);
        let n = *r.pick(&COUNTS);
        let spread = r.take(3);
        let body = Body::new("bnd", vec![Part::new("more", "x"), Part::new("f0", "y")]);
        let headers = {
            let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
            let h = mp.read_entry().unwrap().unwrap().headers;
            h
        };
        let w = World::fresh();
        let mut e = Entries::new(SaveDir::Perm(w.s.clone()));
        for i in 0..n {
            let name: std::sync::Arc<str> = match spread {
                0 => "f0".into(),
                1 => format!("f{}", i % 3).into(),
                _ => format!("f{}", i).into(),
            };
            e.fields.entry(name).or_insert_with(Vec::new).push(SavedField { headers: headers.clone(), data: SavedData::Bytes(vec![]) });
        }
        x.log(|| format!("{} fields, spread {}", n, spread));
        if x.flag() {
            ensure!(e.recount_fields() as usize == n && e.fields_count() as usize == n, "count", "{} fields are counted as {}", n, e.fields_count());
        }
        x.state((n, spread));
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        match mp.save().count_limit(n as u32 + 1).with_entries(e) {
            SaveResult::Partial(p, PartialReason::CountLimit) => {
                ensure!(p.entries.fields_count() as usize == n + 1, "count", "{} fields and another are counted as {}", n, p.entries.fields_count());
                Ok(())
            }
            SaveResult::Partial(_, r) => bail!("outcome", "{:?}", r),
            SaveResult::Full(e) => bail!("outcome", "two more than the {} held are saved with a limit of one more, counted as {}", n, e.fields_count()),
            SaveResult::Error(e) => bail!("outcome", "{}", e),
        }
    })
}

/// Longer requests, in two steps, against the same books.
fn many_fields(th: bool) -> Group {
    let kinds = [Part::new("a", "x"), Part::new("b", ""), Part::new("c", "four+")];
    let len = if th { 9 } else { 6 };
    let short = 3u64.pow(len);
    // then requests of many fields of few kinds
    let counts: [usize; 9] = [8, 15, 16, 17, 100, 255, 256, 257, 300];
    group("many-fields", short + counts.len() as u64 * 4, 0, move |x, o| {
        let mut parts: Vec<Part> = vec![];
        if o < short {
            let mut r = Radix(o);
            for _ in 0..len {
                parts.push(r.pick(&kinds).clone());
            }
        } else {
            let mut r = Radix(o - short);
            let n = *r.pick(&counts);
            let how = r.take(4);
            for i in 0..n {
                parts.push(match how {
                    0 => Part::new("a", "x"),
                    1 => Part::new(&format!("n{}", i), ""),
                    2 => kinds[i % 3].clone(),
                    _ => Part::new(&format!("n{}", i / 2 % 70), &format!("{}", i)[..]),
                });
            }
        }
        let n = parts.len();
        let first = match x.all(5) {
            0 => u32::MAX,
            1 => n as u32,
            2 => n as u32 - 1,
            3 => 0,
            _ => n as u32 / 2,
        } as usize;
        let thr = *x.pick(&[None, Some(1u64)]);
        let body = Body::new("bnd", parts);
        let w = World::fresh();
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        let conf = Conf { limit: None, thr, pol: Pol::Default };
        let held = |k: usize| -> Vec<Held> { body.parts[..k].iter().map(|p| Held { name: p.name.clone(), part: p.clone(), len: p.content.len() }).collect() };
        x.log(|| format!("{} fields, first at most {}, threshold {:?}", n, first, thr));
        let e = match save_all(&w, &mut mp, &conf, Some(Some(first as u32)), *x.pick(&[1usize, 2])) {
            SaveResult::Full(e) => {
                ensure!(first >= n, "outcome", "complete with a count limit of {} for {} fields", first, n);
                check_held(&e, &held(n), n, "saved at once")?;
                e
            }
            SaveResult::Partial(p, PartialReason::CountLimit) => {
                ensure!(first < n, "outcome", "stopped with a count limit of {} for {} fields", first, n);
                let mut mid = p.entries;
                check_held(&mid, &held(first), first, "stopped at the count limit")?;
                // take the field that was in the way by hand
                let ps = match p.partial {
                    Some(p) => p,
                    None => bail!("field-lost", "the field at which the save stopped is not handed back"),
                };
                let mut v = vec![];
                let mut s = ps.source;
                if let Err(e) = s.data.read_to_end(&mut v) {
                    bail!("rest", "{}", e);
                }
                let f = multipart::server::save::SavedField { headers: s.headers, data: SavedData::Bytes(v) };
                mid.fields.entry(f.headers.name.clone()).or_insert_with(Vec::new).push(f);
                ensure!(mid.recount_fields() as usize == first + 1, "recount", "recount_fields() is {} with {} fields", mid.fields_count(), first + 1);
                match conf.apply(mp.save()).count_limit(None).with_entries(mid) {
                    SaveResult::Full(e) => {
                        check_held(&e, &held(n), n, "saved in two steps")?;
                        e
                    }
                    r => bail!("outcome", "the second save ended with {:?}", r.into_result().err()),
                }
            }
            r => bail!("outcome", "the save ended with {:?}", r.into_result().err()),
        };
        let mut e = e;
        ensure!(e.recount_fields() as usize == n, "recount", "recount_fields() is {} with {} fields", e.fields_count(), n);
        x.state((n, first, thr));
        Ok(())
    })
}

// ------------------------------------------------------------------ C17

fn is_random(name: &std::ffi::OsStr) -> bool {
    name.to_str().map_or(false, |s| s.len() >= 8 && s.bytes().all(|b| b.is_ascii_alphanumeric()))
}

/// Everything new on disk must be one of these, and the files exactly `files`.
fn check_news(w: &World, before: &Snap, files: &[(PathBuf, Vec<u8>)], dirs: &[PathBuf]) -> Res {
    let after = w.snap();
    let mut left: Vec<&(PathBuf, Vec<u8>)> = files.iter().collect();
    for (p, d) in World::news(before, &after) {
        match d {
            None => ensure!(dirs.contains(&p), "stray-dir", "directory {:?} was created", p),
            Some(d) => {
                ensure!(!before.contains_key(&p) || files.iter().any(|f| f.0 == p), "overwritten", "the existing file {:?} was changed", p);
                match left.iter().position(|f| f.0 == p) {
                    Some(i) => {
                        check_data(&d, &left[i].1, &format!("file {:?}", p))?;
                        left.remove(i);
                    }
                    None => bail!("stray-file", "file {:?} was written", p),
                }
            }
        }
    }
    ensure!(left.is_empty(), "missing-file", "{:?} should have been written", left.iter().map(|f| &f.0).collect::<Vec<_>>());
    for p in before.keys() {
        ensure!(after.contains_key(p), "deleted", "{:?} was deleted", p);
    }
    Ok(())
}

pub fn c17(th: bool) -> Vec<Group> {
    let mut names: Vec<String> = ["n", "../evil", "../../evil", "/etc/evil", "..", ".", "", "a/b", "a\\b", "C:\\evil", "zebracrossing", "zebracrossing.png", "%2e%2e%2f", "~/x", "-rf", "con", "\u{e9}\u{4e2d}", "name with spaces", "tmp", "multipart-rs", "../tmp/evil"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    names.push("l".repeat(300));
    names.push("../".repeat(12) + "tmp/evil");
    let nn = names.len() as u64;
    let mut g = vec![];
    // request content never shows in paths, each field has its own file
    let nm = names.clone();
    g.push(group("names", nn * nn, 0, move |x, o| {
        let mut r = Radix(o);
        let name = r.pick(&nm).clone();
        let filename = r.pick(&nm).clone();
        let same = x.flag();
        let parts = vec![
            Part::file(&name, &filename, "image/png", "first"),
            if same { Part::file(&name, &filename, "image/png", "second") } else { Part::typed(&filename, None, "second") },
        ];
        let thr = *x.pick(&[0u64, 5, 1000]);
        let api = x.all(4 + WHOLE_APIS);
        x.log(|| format!("name {:?} filename {:?} same {} thr {} api {}", name, filename, same, thr, api));
        let w = World::fresh();
        std::fs::write(w.s.join("sentinel"), b"precious").unwrap();
        let before = w.snap();
        let conf = Conf { limit: None, thr: Some(thr), pol: Pol::Default };
        let body = Body::new("bnd", parts);
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        let mut files = vec![];
        let mut dirs: Vec<PathBuf> = vec![];
        let clash = |p: &Path| -> Res {
            let stem = p.file_name().unwrap().to_string_lossy().to_string();
            for s in [&name, &filename] {
                for chunk in s.split(|c: char| !c.is_ascii_alphanumeric()).filter(|c| c.len() >= 7 && *c != "multipart") {
                    ensure!(!stem.contains(chunk), "path-from-request", "the file name {:?} contains {:?} from the request", stem, chunk);
                }
            }
            Ok(())
        };
        if api < 4 {
            for (i, p) in body.parts.iter().enumerate() {
                let mut f = match mp.read_entry() {
                    Ok(Some(f)) => f,
                    _ => bail!("setup", "no field"),
                };
                if i == 1 && (api == 0 || api == 2) {
                    break;
                }
                let (kind, data) = save_data(&w, &mut f.data, &conf, api);
                let data = match (kind, data) {
                    (Kind::Full, Some(d)) => d,
                    (k, _) => bail!("outcome", "saving ended with {:?}", k),
                };
                x.state((i, api, data.is_memory()));
                if let SavedData::File(path, _) = data {
                    let dir = match api {
                        0 => {
                            ensure!(path == w.s.join("p1").join("p2").join("file"), "path", "saved to {:?}", path);
                            dirs.push(w.s.join("p1"));
                            w.s.join("p1").join("p2")
                        }
                        1 => w.s.join("dir"),
                        2 => {
                            ensure!(path == w.tmp.join("name"), "path", "with_filename saved to {:?}", path);
                            w.tmp.clone()
                        }
                        _ => w.tmp.clone(),
                    };
                    ensure!(path.parent() == Some(&dir), "path", "saved to {:?} instead of {:?}", path, dir);
                    if api == 1 || api == 3 {
                        ensure!(is_random(path.file_name().unwrap()), "not-random", "the file name {:?} is not a random alphanumeric one", path);
                        clash(&path)?;
                    }
                    dirs.push(dir);
                    ensure!(!files.iter().any(|f: &(PathBuf, Vec<u8>)| f.0 == path), "shared-file", "two fields share {:?}", path);
                    files.push((path, p.content.clone()));
                }
            }
            return check_news(&w, &before, &files, &dirs);
        }
        let e = match save_all(&w, &mut mp, &conf, None, api - 4) {
            SaveResult::Full(e) => e,
            SaveResult::Partial(_, r) => bail!("outcome", "saving ended with {:?}", r),
            SaveResult::Error(e) => bail!("outcome", "saving ended with {:?}", e),
        };
        let dir = e.save_dir.as_path().to_path_buf();
        match api - 4 {
            0 | 4 => {
                ensure!(dir.parent() == Some(&w.tmp), "path", "the temporary directory is {:?}", dir);
                let want = if api == 4 { "multipart-rs" } else { "pre-fix" };
                ensure!(dir.file_name().unwrap().to_string_lossy().starts_with(want), "prefix", "the temporary directory is {:?}", dir);
            }
            1 => ensure!(dir == w.s.join("e").join("f"), "path", "the directory is {:?}", dir),
            2 => ensure!(dir.parent() == Some(&w.s), "path", "the directory is {:?}", dir),
            _ => ensure!(dir == w.s.join("g"), "path", "the directory is {:?}", dir),
        }
        clash(&dir)?;
        dirs.push(w.s.join("e"));
        dirs.push(dir.clone());
        for v in e.fields.values() {
            for f in v {
                if let SavedData::File(ref path, _) = f.data {
                    ensure!(path.parent() == Some(&dir), "path", "saved to {:?} instead of {:?}", path, dir);
                    ensure!(is_random(path.file_name().unwrap()), "not-random", "the file name {:?} is not a random alphanumeric one", path);
                    clash(path)?;
                    ensure!(!files.iter().any(|f: &(PathBuf, Vec<u8>)| f.0 == *path), "shared-file", "two fields share {:?}", path);
                    files.push((path.clone(), stored(&f.data, 0)?));
                }
            }
        }
        x.state((api, files.len()));
        ensure!(files.len() == if thr < 5 { 2 } else { body.parts.iter().filter(|p| p.content.len() as u64 > thr).count() }, "files", "{} files with threshold {}", files.len(), thr);
        check_news(&w, &before, &files, &dirs)
    }));
    // what exists already stays as it is
    g.push(group("existing", 6 * 5, 0, move |x, o| {
        let mut r = Radix(o);
        let what = r.take(6);
        let thr = *r.pick(&[0u64, 1, 4, 5, 100]);
        let n = *x.pick(&[0usize, 1, 5, 20, 3000, 9000]);
        let max = *x.pick(&[usize::MAX, 1024]);
        let api = x.all(4);
        let w = World::fresh();
        let (dir, file) = match api {
            0 => (w.s.join("d"), w.s.join("d").join("f")),
            1 => (w.tmp.clone(), w.tmp.join("name")),
            2 => (w.s.join("d"), w.s.join("d").join("unrelated")),
            _ => (w.tmp.clone(), w.tmp.join("unrelated")),
        };
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(w.s.join("target"), b"precious target").unwrap();
        match what {
            0 => {}
            1 => std::fs::write(&file, b"").unwrap(),
            2 => std::fs::write(&file, b"precious").unwrap(),
            3 => std::os::unix::fs::symlink(w.s.join("target"), &file).unwrap(),
            4 => std::os::unix::fs::symlink(w.s.join("dangling"), &file).unwrap(),
            _ => std::fs::create_dir(&file).unwrap(),
        }
        let before = w.snap();
        let c = filler(n);
        let body = Body::new("bnd", vec![Part::new("a", &c[..]), Part::new("z", "tail")]);
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()).max(max), "bnd");
        let how = x.all(3);
        x.log(|| format!("existing {} threshold {} {} bytes api {} how {}", what, thr, n, api, how));
        let (res, path_ok) = {
            let mut f = match mp.read_entry() {
                Ok(Some(f)) => f,
                _ => bail!("setup", "no field"),
            };
            let mut b = f.data.save().memory_threshold(thr);
            if how == 1 {
                // options which still leave existing files alone
                b = b.mod_open_opts(|o| {
                    o.read(true).write(false);
                });
            }
            let over = how == 2 && (what == 1 || what == 2) && (api == 0 || api == 1);
            if over {
                // the application asks for replacement
                b = b.mod_open_opts(|o| {
                    o.create_new(false).create(true).truncate(true);
                });
            }
            let r = match api {
                0 => b.with_path(&file),
                1 => b.with_filename("name"),
                2 => b.with_dir(&dir),
                _ => b.temp(),
            };
            if over {
                let d = match r {
                    SaveResult::Full(d) => d,
                    r => bail!("replace", "replacing a file as told ended with {:?}", r),
                };
                check_data(&stored(&d, 1)?, &c, "the replaced file")?;
                let on_disk = if n as u64 > thr { vec![(file.clone(), c.clone())] } else { vec![] };
                return check_news(&w, &before, &on_disk, &[]);
            }
            (r, what == 0 || api >= 2)
        };
        x.state((what, api, path_ok));
        let needs_disk = n as u64 > thr;
        match res {
            SaveResult::Full(d) => {
                ensure!(path_ok || !needs_disk, "overwritten", "saved over what existed: {:?}", d);
                check_data(&stored(&d, 1)?, &c, "saved data")?;
                let files = match d {
                    SavedData::File(p, _) => {
                        ensure!(p.parent() == Some(&dir), "path", "saved to {:?}", p);
                        ensure!(api >= 2 || p == file, "path", "saved to {:?} instead of {:?}", p, file);
                        vec![(p, c.clone())]
                    }
                    _ => vec![],
                };
                check_news(&w, &before, &files, &[])
            }
            SaveResult::Partial(_, r) => {
                ensure!(needs_disk && !path_ok, "outcome", "saving ended with {:?}", r);
                check_news(&w, &before, &[], &[])
            }
            SaveResult::Error(e) => {
                ensure!(needs_disk && !path_ok, "outcome", "saving ended with {:?}", e);
                check_news(&w, &before, &[], &[])
            }
        }
    }));
    g.push(options());
    // paths that cannot be files
    g.push(group("odd-paths", 9 * 3, 0, move |x, o| {
        let mut r = Radix(o);
        let what = r.take(9);
        let thr = *r.pick(&[0u64, 3, 100]);
        let text = x.flag();
        let max = *x.pick(&[usize::MAX, 1]);
        let w = World::fresh();
        std::fs::write(w.s.join("file"), b"precious").unwrap();
        std::fs::create_dir_all(w.s.join("empty")).unwrap();
        let before = w.snap();
        let body = Body::new("bnd", vec![if text { Part::new("a", "content") } else { Part::file("a", "f", "image/png", "content") }, Part::new("b", "next")]);
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()).max(max), "bnd");
        let (got, rest) = {
            let mut f = match mp.read_entry() {
                Ok(Some(f)) => f,
                _ => bail!("setup", "no field"),
            };
            let res = {
                let mut b = f.data.save().memory_threshold(thr);
                match what {
                    0 => b.with_path(""),
                    1 => b.with_path("/"),
                    2 => b.with_path(w.s.join("empty")),
                    3 => b.with_path(w.s.join("file").join("below")),
                    4 => b.with_path(w.s.join("empty").join("..")),
                    5 => b.with_filename(""),
                    6 => b.with_filename(".."),
                    7 => b.with_dir(w.s.join("file")),
                    _ => b.with_path(w.s.join("x".repeat(300))),
                }
            };
            x.log(|| format!("path {}, threshold {}: {:?}", what, thr, res));
            let got = match res {
                SaveResult::Full(d) => {
                    ensure!(thr == 100, "outcome", "saved {:?} where nothing can be saved", d);
                    stored(&d, 0)?
                }
                SaveResult::Partial(d, PartialReason::IoError(_)) => {
                    ensure!(thr < 100 && d.is_memory(), "outcome", "the outcome is partial with {:?}", d);
                    stored(&d, 0)?
                }
                SaveResult::Error(e) => {
                    ensure!(thr < 100, "outcome", "failed with {}", e);
                    vec![]
                }
                r => bail!("outcome", "saving ended with {:?}", r),
            };
            let mut rest = vec![];
            if let Err(e) = f.data.read_to_end(&mut rest) {
                bail!("rest", "reading on: {}", e);
            }
            (got, rest)
        };
        check_data(&[got, rest].concat(), b"content", "what is saved and the rest")?;
        ensure!(matches!(mp.read_entry(), Ok(Some(_))), "next", "the next field is lost");
        x.state((o, text));
        check_news(&w, &before, &[], &[])
    }));
    // paths and file names of the application
    let targets = ["f", "f.txt", ".hidden", "sub/f", "sub/deep/er/f", "with space", "\u{e9}", "d/../e/f", "./f"];
    g.push(group("targets", targets.len() as u64 * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let t = *r.pick(&targets);
        let api = r.take(4);
        let thr = *x.pick(&[0u64, 3, 100]);
        let w = World::fresh();
        let base = match api {
            0 => w.s.clone(),
            1 => w.tmp.clone(),
            2 => w.s.parent().unwrap().to_path_buf(), // relative: the working directory
            _ => w.s.clone(),
        };
        let full = if api == 3 { w.s.join(t) } else { base.join(t) };
        let before = w.snap();
        let body = Body::new("bnd", vec![Part::file("a", "../evil", "image/png", "content")]);
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        x.log(|| format!("target {:?} api {} threshold {}", t, api, thr));
        let d = {
            let mut f = match mp.read_entry() {
                Ok(Some(f)) => f,
                _ => bail!("setup", "no field"),
            };
            let mut b = f.data.save().memory_threshold(thr);
            let r = match api {
                0 => b.with_path(full.clone()),
                1 => b.with_filename(t),
                2 => b.with_path(t),
                _ => b.with_dir(&full),
            };
            match r {
                SaveResult::Full(d) => d,
                r => bail!("outcome", "saving ended with {:?}", r),
            }
        };
        x.state((o, thr));
        let news = World::news(&before, &w.snap());
        if thr == 100 {
            ensure!(news.is_empty(), "stray", "the disk was touched: {:?}", news);
            return Ok(());
        }
        let real = |p: &Path| std::fs::canonicalize(p).unwrap_or_else(|_| p.to_path_buf());
        let base = real(&base);
        let files: Vec<_> = news.iter().filter(|n| n.1.is_some()).collect();
        ensure!(files.len() == 1, "files", "{:?} was written", files);
        check_data(files[0].1.as_ref().unwrap(), b"content", "the file")?;
        let p = match d {
            SavedData::File(ref p, _) => real(p),
            _ => bail!("in-memory", "kept in memory with threshold {}", thr),
        };
        ensure!(real(&files[0].0) == p, "path", "reported {:?} but wrote {:?}", p, files[0].0);
        if api == 3 {
            ensure!(p.parent().map(|q| q.to_path_buf()) == Some(real(&full)), "path", "wrote {:?} instead of into {:?}", p, full);
        } else {
            ensure!(p == real(&full), "path", "wrote {:?} instead of {:?}", p, full);
        }
        ensure!(p.starts_with(&base), "path", "wrote {:?} outside of {:?}", p, base);
        for n in news.iter().filter(|n| n.1.is_none()) {
            ensure!(real(&n.0).starts_with(&base), "stray-dir", "created {:?}", n.0);
        }
        // clean up what went to the working directory
        if api == 2 {
            for n in &news {
                let _ = std::fs::remove_file(&n.0);
            }
            for n in news.iter().rev() {
                let _ = std::fs::remove_dir(&n.0);
            }
        }
        Ok(())
    }));
    g.push(crate::disk::races(th));
    let _ = Rc::new(());
    g
}

/// The options for opening files are those which the application set, no more and no less: a save
/// does to the target what opening it so and writing to it does.
fn options() -> Group {
    // 0: as it is, 1: off, 2: on
    group("options", 3u64.pow(5) * 6, 0, move |x, o| {
        use std::fs::OpenOptions;
        use std::io::Write;
        let mut r = Radix(o);
        let what = r.take(6);
        let sets: Vec<usize> = (0..5).map(|_| r.take(3)).collect();
        let tune = |o: &mut OpenOptions| {
            for (i, s) in sets.iter().enumerate() {
                let on = match s {
                    0 => continue,
                    s => *s == 2,
                };
                match i {
                    0 => o.create_new(on),
                    1 => o.create(on),
                    2 => o.truncate(on),
                    3 => o.append(on),
                    _ => o.read(on),
                };
            }
        };
        let n = *x.pick(&[0usize, 1, 20, 9000]);
        let c = filler(n);
        let w = World::fresh();
        let prepare = |name: &str| -> PathBuf {
            let dir = w.s.join(name);
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("target"), b"precious target").unwrap();
            let f = dir.join("f");
            match what {
                0 => {}
                1 => std::fs::write(&f, b"").unwrap(),
                2 => std::fs::write(&f, b"precious").unwrap(),
                3 => std::os::unix::fs::symlink("target", &f).unwrap(),
                4 => std::os::unix::fs::symlink("dangling", &f).unwrap(),
                _ => std::fs::create_dir(&f).unwrap(),
            }
            f
        };
        let (ours, theirs) = (prepare("ours"), prepare("theirs"));
        let twice = x.flag();
        let mut model = OpenOptions::new();
        model.write(true).create_new(true);
        tune(&mut model);
        model.write(true);
        let want = model.open(&theirs).and_then(|mut f| f.write_all(&c));
        let body = Body::new("bnd", vec![Part::new("a", &c[..]), Part::new("z", "tail")]);
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        let whole = n > 0 && x.flag();
        let got = {
            let mut f = match mp.read_entry() {
                Ok(Some(f)) => f,
                _ => bail!("setup", "no field"),
            };
            let mut b = f.data.save().size_limit(None);
            if !whole {
                b = b.memory_threshold(0);
            } else {
                b = b.memory_threshold(n as u64 - 1);
            }
            b = b.mod_open_opts(|o| {
                tune(o);
            });
            if twice {
                // a second look changes nothing
                b = b.mod_open_opts(|_| ());
            }
            b.with_path(&ours)
        };
        x.log(|| format!("existing {} options {:?} {} bytes: expected {:?}", what, sets, n, want));
        x.state((o, n, want.is_ok()));
        if n == 0 {
            // nothing may ever reach the disk
            return Ok(());
        }
        match got {
            SaveResult::Full(ref d) => {
                ensure!(want.is_ok(), "opened", "saved although opening so fails with {:?}", want);
                ensure!(matches!(d, SavedData::File(p, s) if *p == ours && *s == n as u64), "path", "saved as {:?}", d);
            }
            SaveResult::Partial(_, ref r) => ensure!(want.is_err(), "refused", "{:?} although opening so works", r),
            SaveResult::Error(ref e) => match want {
                Ok(_) => bail!("refused", "{:?} although opening so works", e),
                Err(ref w) => ensure!(w.kind() == e.kind(), "error-kind", "{:?} instead of {:?}", e, w),
            },
        }
        let snap = |d: &str| -> Vec<(PathBuf, Option<Vec<u8>>)> {
            let base = w.s.join(d);
            w.snap().into_iter().filter_map(|(p, c)| p.strip_prefix(&base).ok().map(|q| (q.to_path_buf(), c))).collect()
        };
        let (a, b) = (snap("ours"), snap("theirs"));
        ensure!(a == b, "other-effect", "the disk is {:?} after saving and {:?} after opening so and writing", names(&a), names(&b));
        Ok(())
    })
}

fn names(v: &[(PathBuf, Option<Vec<u8>>)]) -> Vec<(&PathBuf, Option<usize>)> {
    v.iter().map(|f| (&f.0, f.1.as_ref().map(|c| c.len()))).collect()
}

// ------------------------------------------------------------------ C18

pub fn c18(th: bool) -> Vec<Group> {
    let nops = if th { 4 } else { 3 };
    vec![group("lifetimes", 7 * WHOLE_APIS as u64, 0, move |x, o| {
        let mut r = Radix(o);
        let outcome = r.take(7);
        let api = r.take(WHOLE_APIS);
        let w = World::fresh();
        std::fs::write(w.s.join("sentinel"), b"precious").unwrap();
        std::fs::write(w.tmp.join("sentinel"), b"precious").unwrap();
        std::fs::create_dir(w.tmp.join("multipart-rs-other")).unwrap();
        std::fs::write(w.tmp.join("multipart-rs-other").join("f"), b"precious").unwrap();
        let parts = vec![Part::new("a", "saved to disk"), Part::new("b", b"invalid \xff text"), Part::new("c", "third field")];
        let body = Body::new("bnd", parts);
        let mut conf = Conf { limit: Some(None), thr: Some(0), pol: Pol::Default };
        let mut count = None;
        let mut src = Source::new(body.bytes.clone());
        match outcome {
            0 => {}
            1 => conf.limit = Some(Some(13)),
            2 => count = Some(Some(1)),
            3 => {
                conf.thr = Some(15);
                conf.pol = Pol::Force;
            }
            4 => src = src.faults(vec![Fault { pos: body.at[1].1 + 3, kind: ErrorKind::Other }]).cuts(vec![body.at[1].1 + 2]),
            5 => src = src.truncated(body.at[2].1 + 2),
            _ => src = src.faults(vec![Fault { pos: body.at[0].0 - 3, kind: ErrorKind::Other }]),
        }
        let before = w.snap();
        let mut mp = Multipart::with_body(src, "bnd");
        let res = save_all(&w, &mut mp, &conf, count, api);
        let io = match res {
            SaveResult::Partial(_, PartialReason::IoError(_)) => true,
            _ => false,
        };
        // where is it?
        let path = match res {
            SaveResult::Full(ref e) => e.save_dir.as_path().to_path_buf(),
            SaveResult::Partial(ref pe, _) => pe.entries.save_dir.as_path().to_path_buf(),
            SaveResult::Error(ref e) => bail!("outcome", "failed: {}", e),
        };
        let is_temp = |d: &SaveDir| d.is_temporary();
        let temp = match res {
            SaveResult::Full(ref e) => is_temp(&e.save_dir),
            SaveResult::Partial(ref pe, _) => is_temp(&pe.entries.save_dir),
            SaveResult::Error(_) => false,
        };
        ensure!(temp == (api != 1 && api != 3), "is-temporary", "is_temporary() is {} for api {}", temp, api);
        // also something the application put there, and a link leading out
        let made = std::fs::create_dir_all(path.join("sub")).is_ok();
        ensure!(made, "directory", "the save directory {:?} does not exist and cannot be made", path);
        std::fs::write(path.join("sub").join("user"), b"user data").unwrap();
        std::os::unix::fs::symlink(&w.tmp.join("multipart-rs-other"), path.join("link")).unwrap();
        let with = w.snap();
        // the model: `alive` a handle exists, `temporary` it deletes, `there` the directory exists
        let check = |x: &X, there: bool, what: &str| -> Res {
            let now = w.snap();
            for (p, d) in &before {
                ensure!(now.get(p) == Some(d), "collateral", "{}: {:?} was deleted or changed", what, p);
            }
            for (p, d) in &with {
                if p.starts_with(&path) {
                    if there {
                        ensure!(now.get(p) == Some(d), "gone", "{}: {:?} is gone although the directory should exist", what, p);
                    } else {
                        ensure!(now.get(p).is_none(), "left", "{}: {:?} is still there", what, p);
                    }
                }
            }
            x.state((there, what.len()));
            Ok(())
        };
        check(x, true, "after the save")?;
        // how the handle gets out of the result
        let exit = x.all(8);
        x.log(|| format!("outcome {} api {} exit {} dir {:?}", outcome, api, exit, path));
        let mut handle: Option<Entries> = match exit {
            0 => res.into_entries(),
            1 => res.okish(),
            2 => res.into_result().ok(),
            3 => {
                let h = res.into_result_strict().ok();
                ensure!(h.is_none() == io, "strict", "into_result_strict() with outcome {}", outcome);
                h
            }
            4 => {
                let (e, err) = res.into_opt_both();
                ensure!(err.is_some() == io, "opt-both", "into_opt_both() with outcome {}", outcome);
                e
            }
            5 => match res {
                SaveResult::Full(e) => Some(e),
                SaveResult::Partial(pe, _) => Some(pe.keep_partial()),
                SaveResult::Error(_) => None,
            },
            6 => match res {
                SaveResult::Full(e) => Some(e),
                SaveResult::Partial(pe, _) => {
                    // the partial field outlives nothing
                    let e = pe.entries;
                    drop(pe.partial);
                    Some(e)
                }
                SaveResult::Error(_) => None,
            },
            _ => {
                drop(res);
                None
            }
        };
        let mut temporary = temp;
        if handle.is_none() {
            return check(x, !temporary, "after dropping the result");
        }
        check(x, true, "with the entries")?;
        for i in 0..nops {
            match x.all(7) {
                0 => {
                    drop(handle.take());
                    return check(x, !temporary, "after dropping the entries");
                }
                1 => {
                    handle.as_mut().unwrap().save_dir.keep();
                    temporary = false;
                    let d = &handle.as_ref().unwrap().save_dir;
                    ensure!(!d.is_temporary(), "keep", "still temporary after keep()");
                    ensure!(d.as_path() == path, "keep-path", "the path became {:?} after keep()", d.as_path());
                    ensure!(AsRef::<Path>::as_ref(d) == path, "keep-path", "as_ref differs after keep()");
                    check(x, true, "after keep()")?;
                }
                2 => {
                    let p = handle.take().unwrap().save_dir.into_path();
                    ensure!(p == path, "into-path", "into_path() gave {:?}", p);
                    return check(x, true, "after into_path()");
                }
                3 => {
                    let r = handle.take().unwrap().save_dir.delete();
                    ensure!(r.is_ok(), "delete", "delete() failed: {:?}", r);
                    return check(x, false, "after delete()");
                }
                4 => {
                    // entries saved elsewhere, directory handle kept
                    let e = handle.take().unwrap();
                    let Entries { fields, save_dir, .. } = e;
                    drop(fields);
                    check(x, true, "after dropping the fields only")?;
                    handle = Some(Entries::new(save_dir));
                    check(x, true, "after moving the directory")?;
                }
                5 => {
                    // replaced by another directory: the old handle is dropped
                    let e = handle.as_mut().unwrap();
                    e.save_dir = SaveDir::Perm(w.s.join("elsewhere"));
                    check(x, !temporary, "after replacing the directory")?;
                    return Ok(());
                }
                _ => {
                    if i > 0 {
                        return Ok(());
                    }
                    // saving another request into the same entries
                    let b2 = Body::new("q", vec![Part::new("later", "more")]);
                    let mut mp2 = Multipart::with_body(Source::new(b2.bytes.clone()), "q");
                    match mp2.save().memory_threshold(0).with_entries(handle.take().unwrap()) {
                        SaveResult::Full(e) => {
                            ensure!(e.fields["later"].len() == 1, "resumed", "field missing");
                            handle = Some(e);
                        }
                        _ => bail!("resumed", "saving into the entries failed"),
                    }
                    check(x, true, "after saving more")?;
                }
            }
        }
        Ok(())
    }),
    crate::disk::whole_calls(true, th),
    // temporary directories of two saves at once, whatever their prefix
    group("prefixes", 12 * 2, 0, move |x, o| {
        let long = "p".repeat(200);
        let prefixes = ["", "a", "multipart-rs", "multipart-upload-", "0123456789abcdef0123456789abcdef", &long[..100], &long[..], "\u{e9}\u{4e2d}", " a b ", "a.b", ".hidden", "-"];
        let mut r = Radix(o);
        let (pre, same) = (*r.pick(&prefixes), r.take(2) == 1);
        let w = World::fresh();
        if !pre.is_empty() {
            // of the same name
            std::fs::create_dir(w.tmp.join(pre)).unwrap();
            std::fs::write(w.tmp.join(pre).join("f"), b"precious").unwrap();
        }
        let before = w.snap();
        let body = Body::new("bnd", vec![Part::new("a", "first"), Part::new("b", "second")]);
        let thr = *x.pick(&[0u64, 100]);
        let mut save = |p: &str| -> Res<Entries> {
            let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
            let res = mp.save().memory_threshold(thr).temp_with_prefix(p);
            match res {
                SaveResult::Full(e) => Ok(e),
                SaveResult::Error(e) => bail!("outcome", "saving with the prefix {:?} fails: {}", p, e),
                SaveResult::Partial(_, r) => bail!("outcome", "saving with the prefix {:?} stops: {:?}", p, r),
            }
        };
        let a = save(pre)?;
        let b = save(if same { pre } else { "q" })?;
        let (pa, pb) = (a.save_dir.as_path().to_path_buf(), b.save_dir.as_path().to_path_buf());
        ensure!(pa != pb, "shared", "two saves share the temporary directory {:?}", pa);
        for e in [&a, &b] {
            let d = e.save_dir.as_path();
            ensure!(e.save_dir.is_temporary() && d.is_dir() && d.parent() == Some(&w.tmp), "directory", "{:?} is not a new directory among the temporary ones", d);
        }
        ensure!(pa.file_name().unwrap().to_string_lossy().starts_with(pre), "prefix", "{:?} does not start with {:?}", pa, pre);
        let gone = |d: &Path, what: &str| -> Res {
            ensure!(!d.exists(), "left", "{:?} is still there after {}", d, what);
            Ok(())
        };
        match x.all(3) {
            0 => {
                drop(a);
                gone(&pa, "dropping the entries")?;
                ensure!(pb.is_dir(), "gone", "the directory of the other save is gone");
                drop(b);
                gone(&pb, "dropping the entries")?;
            }
            1 => {
                let r = b.save_dir.delete();
                ensure!(r.is_ok(), "delete", "delete() fails: {:?}", r);
                gone(&pb, "delete()")?;
                ensure!(pa.is_dir(), "gone", "the directory of the other save is gone");
                drop(a);
                gone(&pa, "dropping the entries")?;
            }
            _ => {
                let kept = a.save_dir.into_path();
                ensure!(kept == pa && pa.is_dir(), "into-path", "into_path() gives {:?}", kept);
                drop(b);
                gone(&pb, "dropping the entries")?;
                ensure!(pa.is_dir(), "gone", "the directory that was kept is gone");
                std::fs::remove_dir_all(&pa).unwrap();
            }
        }
        x.state((o, thr));
        ensure!(w.snap() == before, "stray", "the disk was changed: {:?}", World::news(&before, &w.snap()));
        Ok(())
    }),
    // the path of a directory is the one given, through any number of keep()
    group("paths", 9, 0, move |x, o| {
        let w = World::fresh();
        std::fs::create_dir_all(w.s.join("d").join("sub")).unwrap();
        std::os::unix::fs::symlink(w.s.join("d"), w.s.join("link")).unwrap();
        let given = [PathBuf::new(), "rel".into(), "no/such/dir".into(), "./a/../b".into(), "/nonexistent/x".into(), w.s.join("d"), w.s.join("link"), w.s.join("d/./sub/.."), w.s.join("link/sub/")][o as usize].clone();
        let before = w.snap();
        let mut d = SaveDir::Perm(given.clone());
        for _ in 0..x.all(4) {
            d.keep();
            ensure!(!d.is_temporary(), "keep", "temporary after keep()");
        }
        ensure!(d.as_path().as_os_str() == given.as_os_str() && AsRef::<Path>::as_ref(&d).as_os_str() == given.as_os_str(), "keep-path", "the path {:?} became {:?}", given, d.as_path());
        x.state(o);
        if x.flag() {
            let p = d.into_path();
            ensure!(p.as_os_str() == given.as_os_str(), "into-path", "into_path() gave {:?} for {:?}", p, given);
        } else {
            drop(d);
        }
        ensure!(w.snap() == before, "stray", "the disk was changed");
        Ok(())
    }),
    // the directory given is there after the save, whatever was saved
    group("made", 5 * 4 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let at = *r.pick(&["d", "d/e/f", "there", "there/sub", "link/sub"]);
        let parts = match r.take(4) {
            0 => vec![],
            1 => vec![Part::new("a", "text")],
            2 => vec![Part::file("f", "f.bin", "image/png", "")],
            _ => vec![Part::file("f", "f.bin", "image/png", "content"), Part::new("a", "text")],
        };
        let relative = r.take(2) == 1;
        let w = World::fresh();
        std::fs::create_dir(w.s.join("there")).unwrap();
        std::fs::write(w.s.join("there").join("mine"), b"precious").unwrap();
        std::os::unix::fs::symlink("there", w.s.join("link")).unwrap();
        let before = w.snap();
        let full = w.s.join(at);
        let given = if relative { PathBuf::from("s").join(at) } else { full.clone() };
        let body = Body::new("bnd", parts);
        let cut = if body.parts.is_empty() { None } else { *x.pick(&[None, Some(body.bytes.len() - 12)]) };
        let src = body.bytes[..cut.unwrap_or(body.bytes.len())].to_vec();
        let mut mp = Multipart::with_body(Source::new(Rc::new(src)), "bnd");
        let thr = *x.pick(&[0u64, 100]);
        let limit = *x.pick(&[None, Some(2u64)]);
        let mut b = mp.save().memory_threshold(thr).size_limit(limit);
        let none = x.flag();
        if none {
            b = b.count_limit(0);
        }
        x.log(|| format!("{:?}, {} fields, cut {:?} threshold {} limit {:?} none {}", given, body.parts.len(), cut, thr, limit, none));
        let e = match b.with_dir(&given) {
            SaveResult::Full(e) => e,
            SaveResult::Partial(p, _) => p.entries,
            SaveResult::Error(e) => bail!("outcome", "saving to {:?} fails: {}", given, e),
        };
        x.state((o, thr, limit, none, cut));
        ensure!(!e.save_dir.is_temporary() && e.save_dir.as_path().as_os_str() == given.as_os_str(), "directory", "the directory is {:?} instead of {:?}", e.save_dir, given);
        ensure!(full.is_dir(), "not-made", "{:?} is not there after the save", full);
        if x.flag() {
            drop(e);
            ensure!(full.is_dir(), "gone", "{:?} is gone after the entries were dropped", full);
        } else if at != "there" {
            let r = e.save_dir.delete();
            ensure!(r.is_ok(), "delete", "deleting {:?} fails: {:?}", full, r);
            ensure!(!full.exists() && full.parent().unwrap().is_dir(), "delete", "{:?} is there or its parent is gone", full);
        }
        ensure!(before.iter().all(|(k, v)| w.snap().get(k) == Some(v)), "stray", "what was there before is changed");
        Ok(())
    }),
    // a directory that cannot be made or is already gone
    group("trouble", 4, 0, move |x, o| {
        let w = World::fresh();
        std::fs::write(w.s.join("file"), b"precious").unwrap();
        let body = Body::new("bnd", vec![Part::new("a", "content")]);
        let before = w.snap();
        let mut mp = Multipart::with_body(Source::new(body.bytes.clone()), "bnd");
        let thr = *x.pick(&[0u64, 100]);
        match o {
            0 => {
                // a parent is a file
                let r = mp.save().memory_threshold(thr).with_dir(w.s.join("file").join("sub").join("dir"));
                ensure!(matches!(r, SaveResult::Error(_)), "outcome", "saving below a file did not fail at the start");
                drop(r);
                ensure!(World::news(&before, &w.snap()).is_empty(), "stray", "the disk was changed");
                next_is(&mut mp, &body.parts, 0)?;
            }
            1 => {
                // no temporary directory
                let old = std::env::var_os("TMPDIR").unwrap();
                std::env::set_var("TMPDIR", w.s.join("missing"));
                let r = mp.save().memory_threshold(thr).temp();
                std::env::set_var("TMPDIR", old);
                ensure!(matches!(r, SaveResult::Error(_)), "outcome", "saving to a missing temporary directory did not fail at the start");
                drop(r);
                ensure!(World::news(&before, &w.snap()).is_empty(), "stray", "the disk was changed");
                next_is(&mut mp, &body.parts, 0)?;
            }
            2 => {
                // removed behind our back
                let r = mp.save().memory_threshold(thr).temp();
                if let SaveResult::Full(e) = r {
                    std::fs::remove_dir_all(e.save_dir.as_path()).unwrap();
                    if x.flag() {
                        ensure!(e.save_dir.delete().is_err(), "delete", "deleting what is gone reported success");
                    }
                } else {
                    bail!("outcome", "saving failed");
                }
                ensure!(World::news(&before, &w.snap()).is_empty(), "stray", "the disk was changed");
            }
            _ => {
                // a save that panics half way (the transport panics) still cleans up
                struct Bomb(Source, usize);
                impl Read for Bomb {
                    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                        if self.1 == 0 {
                            panic!("transport panic");
                        }
                        self.1 -= 1;
                        self.0.read(b)
                    }
                }
                let at = x.all(4);
                let b2 = Body::new("bnd", vec![Part::new("a", filler(9000)), Part::new("b", filler(9000))]);
                let src = Bomb(Source::new(b2.bytes.clone()), at + 1);
                let w2 = w.tmp.clone();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let mut mp = Multipart::with_body(src, "bnd");
                    let r = mp.save().memory_threshold(thr).temp();
                    assert!(w2.exists());
                    r.into_entries().map(|e| e.fields_count())
                }));
                let _ = r;
                ensure!(World::news(&before, &w.snap()).is_empty(), "stray", "the temporary directory survived a panic");
            }
        }
        Ok(())
    })]
}
