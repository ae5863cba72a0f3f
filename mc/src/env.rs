//! The environment the code under test runs in: scripted transports and writers, and bodies.
use crate::explore::*;
use crate::{bail, ensure};
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read};
use std::rc::Rc;

pub fn show(b: &[u8]) -> String {
    fn esc(b: &[u8]) -> String {
        let mut s = String::new();
        let mut i = 0;
        while i < b.len() {
            let mut j = i;
            while j < b.len() && b[j] == b[i] {
                j += 1;
            }
            let one: String = std::ascii::escape_default(b[i]).map(|c| c as char).collect();
            if j - i > 6 {
                s.push_str(&format!("{{{}x{}}}", one, j - i));
            } else {
                for _ in i..j {
                    s.push_str(&one);
                }
            }
            i = j;
        }
        s
    }
    let s = esc(b);
    if s.len() > 420 {
        format!("{}...{} ({} bytes)", &s[..160], &s[s.len() - 240..], b.len())
    } else {
        s
    }
}

// ------------------------------------------------------------------ bodies

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Part {
    pub name: String,
    pub filename: Option<String>,
    pub ctype: Option<String>,
    /// extra header lines (each with its CRLF) put before the others
    pub extra: String,
    pub content: Vec<u8>,
}

impl Part {
    pub fn new(name: &str, content: impl Into<Vec<u8>>) -> Part {
        Part { name: name.into(), content: content.into(), ..Default::default() }
    }
    pub fn file(name: &str, filename: &str, ctype: &str, content: impl Into<Vec<u8>>) -> Part {
        Part { name: name.into(), filename: Some(filename.into()), ctype: Some(ctype.into()), extra: String::new(), content: content.into() }
    }
    pub fn typed(name: &str, ctype: Option<&str>, content: impl Into<Vec<u8>>) -> Part {
        Part { name: name.into(), filename: None, ctype: ctype.map(|s| s.into()), extra: String::new(), content: content.into() }
    }
    pub fn head(&self) -> Vec<u8> {
        let mut h = self.extra.clone();
        h.push_str(&format!("Content-Disposition: form-data; name=\"{}\"", self.name));
        if let Some(ref f) = self.filename {
            h.push_str(&format!("; filename=\"{}\"", f));
        }
        h.push_str("\r\n");
        if let Some(ref c) = self.ctype {
            h.push_str(&format!("Content-Type: {}\r\n", c));
        }
        h.push_str("\r\n");
        h.into_bytes()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Body {
    pub bytes: Rc<Vec<u8>>,
    pub boundary: String,
    pub parts: Vec<Part>,
    /// offsets of: header block start, content start, content end (= start of CRLF before delimiter)
    pub at: Vec<(usize, usize, usize)>,
    /// offset of the first byte after the closing delimiter `--boundary--`
    pub end: usize,
}

pub fn has(h: &[u8], n: &[u8]) -> bool {
    find(h, n, 0).is_some()
}
pub fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
    if n.is_empty() {
        return Some(from);
    }
    if h.len() < n.len() {
        return None;
    }
    (from..=h.len() - n.len()).find(|&i| h[i] == n[0] && &h[i..i + n.len()] == n)
}

impl Body {
    pub fn new(boundary: &str, parts: Vec<Part>) -> Body {
        Body::full(boundary, b"", parts, b"\r\n")
    }
    /// `preamble` must be empty or end with CRLF to be well-formed.
    pub fn full(boundary: &str, preamble: &[u8], parts: Vec<Part>, epilogue: &[u8]) -> Body {
        let mut v = Vec::with_capacity(256 + parts.iter().map(|p| p.content.len() + 300).sum::<usize>());
        let mut at = vec![];
        v.extend_from_slice(preamble);
        v.extend_from_slice(b"--");
        v.extend_from_slice(boundary.as_bytes());
        for p in &parts {
            v.extend_from_slice(b"\r\n");
            let h = v.len();
            v.extend_from_slice(&p.head());
            let s = v.len();
            v.extend_from_slice(&p.content);
            at.push((h, s, v.len()));
            v.extend_from_slice(b"\r\n--");
            v.extend_from_slice(boundary.as_bytes());
        }
        v.extend_from_slice(b"--");
        let end = v.len();
        v.extend_from_slice(epilogue);
        Body { bytes: Rc::new(v), boundary: boundary.into(), parts, at, end }
    }
    pub fn delim(&self) -> Vec<u8> {
        format!("--{}", self.boundary).into_bytes()
    }
}

// ------------------------------------------------------------------ transport

/// A failing read: when the read position is exactly `pos`, the next read returns `kind`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub pos: usize,
    pub kind: ErrorKind,
}

#[derive(Default, Debug)]
pub struct Stat {
    pub pos: Cell<usize>,
    pub reads: Cell<u64>,
    pub eofs: Cell<u64>,
    pub faults: RefCell<Vec<Fault>>,
    pub raised: Cell<usize>,
}

#[derive(Clone)]
pub struct Source {
    data: Rc<Vec<u8>>,
    end: usize,
    cuts: Rc<Vec<usize>>,
    max: usize,
    pub stat: Rc<Stat>,
}

impl Source {
    pub fn new(data: Rc<Vec<u8>>) -> Source {
        let end = data.len();
        Source { data, end, cuts: Rc::new(vec![]), max: usize::MAX, stat: Default::default() }
    }
    pub fn bytes(b: &[u8]) -> Source {
        Source::new(Rc::new(b.to_vec()))
    }
    /// Reads never cross any of these offsets (sorted).
    pub fn cuts(mut self, mut cuts: Vec<usize>) -> Source {
        cuts.sort();
        self.cuts = Rc::new(cuts);
        self
    }
    /// No read returns more than `max` bytes.
    pub fn max(mut self, max: usize) -> Source {
        self.max = max;
        self
    }
    pub fn truncated(mut self, end: usize) -> Source {
        self.end = end;
        self
    }
    pub fn faults(self, mut f: Vec<Fault>) -> Source {
        f.sort_by_key(|f| f.pos);
        *self.stat.faults.borrow_mut() = f;
        self
    }
}

impl Read for Source {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let st = &self.stat;
        st.reads.set(st.reads.get() + 1);
        let pos = st.pos.get();
        if out.is_empty() {
            return Ok(0);
        }
        let mut stop = self.end;
        {
            let mut fs = st.faults.borrow_mut();
            if let Some(i) = fs.iter().position(|f| f.pos == pos) {
                let f = fs.remove(i);
                st.raised.set(st.raised.get() + 1);
                return Err(io::Error::new(f.kind, InjectedError));
            }
            for f in fs.iter() {
                if f.pos > pos {
                    stop = stop.min(f.pos);
                }
            }
        }
        if pos >= self.end {
            st.eofs.set(st.eofs.get() + 1);
            assert!(st.eofs.get() < 200_000, "the reader polls the exhausted transport endlessly");
            return Ok(0);
        }
        let i = self.cuts.partition_point(|&c| c <= pos);
        if i < self.cuts.len() {
            stop = stop.min(self.cuts[i]);
        }
        let n = out.len().min(stop - pos).min(self.max);
        out[..n].copy_from_slice(&self.data[pos..pos + n]);
        st.pos.set(pos + n);
        Ok(n)
    }
}

#[derive(Debug)]
pub struct InjectedError;
impl std::fmt::Display for InjectedError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("injected fault")
    }
}
impl std::error::Error for InjectedError {}

/// An error reported by the crate must be the injected one: same kind.
/// Every kind of error with a name, but for interruptions.
pub const ALL_KINDS: [ErrorKind; 19] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];
pub const KINDS: [ErrorKind; 6] = [
    ErrorKind::Interrupted,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
];

// ------------------------------------------------------------------ comparing what was read

use multipart::server::{FieldHeaders, MultipartField, ReadEntry};

#[derive(Clone, Debug, PartialEq)]
pub struct Got {
    pub name: String,
    pub filename: Option<String>,
    pub ctype: Option<String>,
    pub data: Vec<u8>,
}

pub fn headers_of(h: &FieldHeaders) -> (String, Option<String>, Option<String>) {
    (h.name.to_string(), h.filename.clone(), h.content_type.as_ref().map(|m| m.to_string()))
}

pub fn check_headers(h: &FieldHeaders, p: &Part, what: &str) -> Res {
    ensure!(*h.name == *p.name, "name", "{}: field name {:?}, sent {:?}", what, h.name, p.name);
    ensure!(h.filename == p.filename, "filename", "{}: filename {:?}, sent {:?}", what, h.filename, p.filename);
    let ct = h.content_type.as_ref().map(|m| m.to_string());
    // the letter case of a type does not matter
    let sent = p.ctype.as_ref().map(|c| c.parse::<mime::Mime>().map(|m| m.to_string()).unwrap_or_else(|_| c.clone()));
    ensure!(ct == p.ctype || ct == sent, "content-type", "{}: content type {:?}, sent {:?}", what, ct, p.ctype);
    Ok(())
}

pub fn check_data(got: &[u8], want: &[u8], what: &str) -> Res {
    if got == want {
        return Ok(());
    }
    let d = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let lo = d.saturating_sub(8);
    bail!(
        "data",
        "{}: content differs from what was sent at offset {}: got {} bytes [..{}], sent {} bytes [..{}]",
        what,
        d,
        got.len(),
        show(&got[lo.min(got.len())..(d + 24).min(got.len())]),
        want.len(),
        show(&want[lo.min(want.len())..(d + 24).min(want.len())])
    );
}

/// Ways of reading a field to its end.
pub fn slurp<M: ReadEntry>(f: &mut MultipartField<M>, style: usize) -> io::Result<Vec<u8>> {
    use std::io::BufRead;
    let mut v = vec![];
    match style {
        0 => {
            f.data.read_to_end(&mut v)?;
        }
        1 => loop {
            let n = {
                let b = f.data.fill_buf()?;
                v.extend_from_slice(b);
                b.len()
            };
            if n == 0 {
                break;
            }
            f.data.consume(n);
        },
        2 => {
            let mut b = [0u8; 1];
            while f.data.read(&mut b)? == 1 {
                v.push(b[0]);
            }
        }
        3 => {
            let mut b = [0u8; 7];
            loop {
                let n = f.data.read(&mut b)?;
                if n == 0 {
                    break;
                }
                v.extend_from_slice(&b[..n]);
            }
        }
        4 => loop {
            // peek, take one byte less than offered when possible
            let n = {
                let b = f.data.fill_buf()?;
                let n = if b.len() > 1 { b.len() - 1 } else { b.len() };
                v.extend_from_slice(&b[..n]);
                n
            };
            if n == 0 {
                break;
            }
            f.data.consume(n);
        },
        _ => {
            let mut b = [0u8; 1000];
            loop {
                let n = f.data.read(&mut b)?;
                if n == 0 {
                    break;
                }
                v.extend_from_slice(&b[..n]);
            }
        }
    }
    Ok(v)
}

/// All strings over `alphabet` of length `len`, by index.
pub fn string_at(alphabet: &[&[u8]], len: usize, mut idx: u64) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..len {
        v.extend_from_slice(alphabet[(idx % alphabet.len() as u64) as usize]);
        idx /= alphabet.len() as u64;
    }
    v
}
/// Number of strings of length 0..=max, and decoding of such an index.
pub fn count_upto(k: usize, max: usize) -> u64 {
    (0..=max as u32).map(|l| (k as u64).pow(l)).sum()
}
pub fn string_upto(alphabet: &[&[u8]], max: usize, mut idx: u64) -> Vec<u8> {
    for l in 0..=max {
        let n = (alphabet.len() as u64).pow(l as u32);
        if idx < n {
            return string_at(alphabet, l, idx);
        }
        idx -= n;
    }
    unreachable!()
}
