//! C01-C07, C22, C26: reading requests.
use crate::env::*;
use crate::explore::*;
use crate::{bail, ensure};
use multipart::server::Multipart;
use std::rc::Rc;

/// Read the whole request with one style and compare with what the body holds.
pub fn read_whole(x: &X, body: &Body, src: Source, style: usize, small_min: bool) -> Res {
    x.log(|| format!("body {} boundary {:?}", show(&body.bytes), body.boundary));
    let stat = src.stat.clone();
    let mut mp = Multipart::with_body(src, &body.boundary[..]);
    for (i, p) in body.parts.iter().enumerate() {
        let mut f = match mp.read_entry() {
            Ok(Some(f)) => f,
            Ok(None) => bail!("early-end", "end of request reported before field {} of {}", i, body.parts.len()),
            Err(e) => bail!("entry-error", "reading field {} of {} failed: {}", i, body.parts.len(), e),
        };
        check_headers(&f.headers, p, &format!("field {}", i))?;
        x.state((i, 0, stat.pos.get()));
        if small_min {
            f.data.set_min_buf_size(0);
        }
        let data = match slurp(&mut f, style) {
            Ok(d) => d,
            Err(e) => bail!("data-error", "reading the data of field {} failed: {}", i, e),
        };
        x.log(|| format!("field {} {:?}: {}", i, f.headers.name, show(&data)));
        check_data(&data, &p.content, &format!("field {}", i))?;
        x.state((i, 1, stat.pos.get()));
    }
    for _ in 0..2 {
        match mp.read_entry() {
            Ok(None) => {}
            Ok(Some(f)) => bail!("extra-field", "a field {:?} was invented after the last one", f.headers.name),
            Err(e) => bail!("end-error", "error instead of the end of the request: {}", e),
        }
    }
    x.state((body.parts.len(), 2, stat.pos.get()));
    Ok(())
}

/// Bytes that tell their own offset, so that lost, repeated or moved data shows.
pub fn filler(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    let mut i = 0;
    while v.len() < n {
        v.extend_from_slice(format!("{:06}.", i).as_bytes());
        i += 1;
    }
    v.truncate(n);
    v
}

/// Alphabet of single bytes built around a boundary.
fn bytes_around(b: &str) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![b"\r".to_vec(), b"\n".to_vec(), b"-".to_vec(), b"x".to_vec()];
    let first = vec![b.as_bytes()[0]];
    if !v.contains(&first) {
        v.push(first);
    }
    v
}

/// Delimiter look-alike pieces.
fn pieces_around(b: &str) -> Vec<Vec<u8>> {
    let d = format!("--{}", b);
    let mut v: Vec<Vec<u8>> = vec![b"\r\n".to_vec(), b"\r".to_vec(), b"\n".to_vec(), b"x".to_vec(), b"-".to_vec()];
    v.push(d.as_bytes()[..d.len() - 1].to_vec());
    v.push(d.as_bytes()[1..].to_vec());
    v.push(b.as_bytes().to_vec());
    v.push([b"\r\n", &d.as_bytes()[..d.len() - 1]].concat());
    v.dedup();
    v
}

fn refs(v: &[Vec<u8>]) -> Vec<&[u8]> {
    v.iter().map(|x| &x[..]).collect()
}

pub const LONG_BOUNDARY: &str = "----------------------------abcdefghijklmnopqrstuvwxyz0123456789ABCDEF";

/// A boundary of that length without a period shorter than itself.
pub fn boundary_of(n: usize) -> String {
    (0..n).map(|i| if i + 1 == n { '!' } else { (b'a' + (i * 7 + i / 26) as u8 % 26) as char }).collect()
}

pub fn range(a: usize, b: usize) -> Vec<usize> {
    (a..b).collect()
}

pub fn c01(th: bool) -> Vec<Group> {
    let mut g = vec![];

    // dense: pattern after 1 KiB of filler, smallest buffer, every set of cuts in the pattern,
    // delimiter and next header start
    {
        let bnds = ["b", "-", "ab", "aab", "--b"];
        let len = if th { 6 } else { 4 };
        let k = if th { 3 } else { 2 };
        let per = count_upto(5, len);
        g.push(group("dense", per * 5, 0, move |x, o| {
            let mut r = Radix(o);
            let b = *r.pick(&bnds);
            let alpha = bytes_around(b);
            let n = count_upto(alpha.len(), len);
            if r.0 >= n {
                return Ok(());
            }
            let pat = string_upto(&refs(&alpha), len, r.0);
            if has(&pat, format!("--{}", b).as_bytes()) {
                return Ok(());
            }
            let body = x.cached(o, || {
                let c = [&filler(1060)[..], &pat].concat();
                Body::new(b, vec![Part::new("a", c), Part::new("z", "tail")])
            });
            let (_, s, e) = body.at[0];
            let from = s + 1060 - 1;
            let cuts = x.subset(&range(from, e + 2 + 2 + b.len() + 3), k);
            let style = x.all(3);
            x.log(|| format!("cuts {:?} style {}", cuts, style));
            read_whole(x, &body, Source::new(body.bytes.clone()).cuts(cuts), style, true)
        }));
    }
    // boundaries far longer than the buffer the caller asks for, or than the default one
    {
        let lens: &'static [usize] = if th { &[71, 127, 130, 200, 511, 512, 513, 600, 1020, 1024, 1030, 2000, 4097] } else { &[71, 127, 131, 200, 511, 513, 600, 1020, 1030] };
        let fills = [0usize, 1, 900, 1060, 3000];
        g.push(group("long-boundary", (lens.len() * fills.len() * 2) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let n = *r.pick(lens);
            let fill = *r.pick(&fills);
            let near = r.take(2) == 1;
            let b = boundary_of(n);
            let d = format!("--{}", b);
            let body = x.cached(o, || {
                let mut c = filler(fill);
                if near {
                    // all of the delimiter but its last byte, twice
                    c = [&c[..], b"\r\n", &d.as_bytes()[..n + 1], b"\r\n", &d.as_bytes()[..n + 1]].concat();
                }
                Body::new(&b, vec![Part::new("a", c), Part::new("z", "tail")])
            });
            let (_, s, e) = body.at[0];
            let mut places = vec![1, 2, n / 2, n, n + 1, n + 2, n + 3, n + 4, s, s + fill, e - 1, e, e + 1, e + 2, e + 3, e + 4 + n / 2, e + 3 + n, e + 4 + n, e + 5 + n, e + 6 + n];
            places.push(body.bytes.len() - 3);
            places.sort();
            places.dedup();
            let (cuts, max) = match x.all(2) {
                0 => (x.subset(&places, if n > 600 { 1 } else if th { 3 } else { 2 }), usize::MAX),
                _ => (vec![], *x.pick(if n > 600 { &[100usize, 1000, 1024, 1025][..] } else { &[7, 100, 1023, 1024, 1025] })),
            };
            let style = x.all(3);
            let small = x.flag();
            read_whole(x, &body, Source::new(body.bytes.clone()).cuts(cuts).max(max), style, small)
        }));
    }
    // the same with look-alike pieces and long boundaries, default buffer, two pattern regions 1 KiB apart
    {
        let bnds = ["b", "a-b-", "X--", "ab\rc", LONG_BOUNDARY];
        let len = if th { 4 } else { 2 };
        g.push(group("pieces", count_upto(9, len) * 5 * 2, 0, move |x, o| {
            let mut r = Radix(o);
            let b = *r.pick(&bnds);
            let min = r.take(2) == 1;
            let alpha = pieces_around(b);
            if r.0 >= count_upto(alpha.len(), len) {
                return Ok(());
            }
            let pat = string_upto(&refs(&alpha), len, r.0);
            let delim = format!("--{}", b);
            if has(&[&pat[..], b"\r\n"].concat(), delim.as_bytes()) {
                return Ok(());
            }
            let body = x.cached(o, || {
                let c = [&filler(1060)[..], &pat, &filler(1040), &pat].concat();
                if has(&c, delim.as_bytes()) {
                    return None;
                }
                Some(Body::new(b, vec![Part::new("a", c), Part::new("z", "tail")]))
            });
            let body = match *body {
                Some(ref b) => b,
                None => return Ok(()),
            };
            let (_, s, e) = body.at[0];
            let p1 = range(s + 1060, s + 1060 + pat.len() + 1);
            let mut p2 = range(e - pat.len(), e + 2 + delim.len() + 3);
            if p2.len() > 24 && !th {
                // long boundary: the ends of the region and a few places between
                let n = p2.len();
                p2 = p2.iter().enumerate().filter(|&(i, _)| i < 10 || i + 10 >= n || i % 9 == 0).map(|(_, &p)| p).collect();
            }
            let cuts = if x.flag() {
                x.subset(&p2, 2)
            } else {
                let mut c = vec![*x.pick(&p1)];
                c.extend(x.subset(&p2, 1));
                c
            };
            let style = x.all(2);
            x.log(|| format!("cuts {:?} style {}", cuts, style));
            read_whole(x, body, Source::new(body.bytes.clone()).cuts(cuts), style, min)
        }));
    }
    // every alignment of a nasty tail against the 8 KiB buffer, uncut
    {
        let pats: [&[u8]; 10] = [b"", b"\r", b"\n", b"\r\n", b"\r\n\r\n", b"\r\r\n", b"\r\n-", b"\r\n--", b"--", b"\r\n--boundar"];
        let span = if th { 10000 } else { 2600 };
        let base = if th { 100 } else { 7000 };
        g.push(group("align", span, 0, move |x, o| {
            let pat = *x.pick(&pats);
            let style = *x.pick(&[0usize, 1, 4, 5]);
            let body = {
                let c = [&filler(base + o as usize)[..], pat].concat();
                Body::new("boundary", vec![Part::new("a", c), Part::file("z", "f", "text/plain", "tail")])
            };
            x.log(|| format!("style {}", style));
            read_whole(x, &body, Source::new(body.bytes.clone()), style, false)
        }));
    }
    // small uniform reads
    {
        let sizes: &'static [usize] = &[1, 2, 3, 5, 7, 11, 16, 64, 100, 511, 512, 1000, 1023, 1024, 1025, 1448, 4096, 8191, 8192];
        let pats: [&[u8]; 8] = [b"", b"\r", b"\r\n", b"\r\n\r", b"-", b"\r\n-", b"\r\n--", b"\r\n--bb"];
        let n = if th { 1200 } else { 140 };
        g.push(group("uniform", n * 8, 0, move |x, o| {
            let mut r = Radix(o);
            let pat = *r.pick(&pats);
            let fl = if th { r.0 as usize } else { 900 + 2 * r.0 as usize };
            let max = *x.pick(sizes);
            let small = x.flag();
            let body = x.cached(o, || {
                Body::new("bbb", vec![
                    Part::new("a", [&filler(fl)[..], pat].concat()),
                    Part::new("m", pat),
                    Part::file("z", "f", "text/plain", [pat, &filler(700)[..]].concat()),
                    Part::new("q", ""),
                ])
            });
            x.log(|| format!("reads of at most {} bytes", max));
            read_whole(x, &body, Source::new(body.bytes.clone()).max(max), 1, small)
        }));
    }
    // many small fields, contents from all short strings; cuts around delimiters beyond 1 KiB
    {
        let alpha: [&[u8]; 4] = [b"\r", b"\n", b"-", b"x"];
        let len = 2;
        let per = count_upto(4, len);
        g.push(group("fields", per * per * per, 0, move |x, o| {
            let mut r = Radix(o);
            let c: Vec<Vec<u8>> = (0..3).map(|_| string_upto(&alpha, len, r.take(per as usize) as u64)).collect();
            let pre = *x.pick(&[0usize, 1060]);
            let body = {
                let mut preamble = filler(pre);
                if pre > 0 {
                    preamble.extend_from_slice(b"\r\n");
                }
                let mut ps: Vec<Part> = c.iter().enumerate().map(|(i, c)| Part::new(&format!("n{}", i), &c[..])).collect();
                ps.push(Part::new("n0", "same name"));
                Body::full("b", &preamble, ps, b"")
            };
            let cuts = if pre == 0 {
                vec![]
            } else {
                let all: Vec<usize> = body.at.iter().flat_map(|&(h, s, e)| [h, s, e, e + 1, e + 2, e + 3, e + 4, e + 5, e + 6]).filter(|&c| c > 1040).collect();
                x.subset(&all, 1)
            };
            let style = x.all(2);
            x.log(|| format!("cuts {:?} style {}", cuts, style));
            read_whole(x, &body, Source::new(body.bytes.clone()).cuts(cuts), style, false)
        }));
    }
    // header blocks of any size against cuts and buffer edges
    {
        let mut sizes: Vec<usize> = vec![0, 100, 500, 900];
        sizes.extend((950..1100).step_by(if th { 1 } else { 7 }));
        sizes.extend([1500, 2000, 2047, 2048, 3000, 4000, 4096, 5000, 6000, 7000, 7500, 7900]);
        let n = sizes.len();
        let firsts = [0usize, 1, 600, 980, 1060, 5000, 8000, 8100, 8150, 8185, 8190, 8300];
        g.push(group("headers", (n * firsts.len()) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let hs = *r.pick(&sizes);
            let fs = *r.pick(&firsts);
            let body = x.cached(o, || {
                let mut p = Part::file("z", "f.txt", "text/plain", "content\r\n");
                if hs > 0 {
                    p.extra = format!("X-Filler: {}\r\n", "h".repeat(hs));
                }
                Body::new("bnd", vec![Part::new("a", filler(fs)), p, Part::new("l", "last")])
            });
            let (h, s, _) = body.at[1];
            let mut pos: Vec<usize> = range(h.saturating_sub(6), (h + 12).min(s));
            pos.extend((h + 12..s.saturating_sub(8)).step_by(if th { 13 } else { 61 }));
            pos.extend(range(s.saturating_sub(8), s + 3));
            pos.sort();
            pos.dedup();
            let (cuts, max) = match x.all(2) {
                0 => (x.subset(&pos, 1), usize::MAX),
                _ => (vec![], *x.pick(&[1usize, 7, 100, 512, 1000, 1024, 1100, 1448, 2000, 4096])),
            };
            x.log(|| format!("cuts {:?} max {}", cuts, max));
            read_whole(x, &body, Source::new(body.bytes.clone()).cuts(cuts).max(max), 1, false)
        }));
    }
    // preambles and epilogues
    {
        let pres: Vec<Vec<u8>> = {
            let mut v: Vec<Vec<u8>> = vec![b"".to_vec(), b"\r\n".to_vec(), b"x\r\n".to_vec(), b"-\r\n".to_vec(), b"--\r\n".to_vec(), b"--x\r\n".to_vec(), b"\r\n\r\n".to_vec(), b"\r\r\n".to_vec(), b"\n\r\n".to_vec(), b"This is\r\n-a pre-\r\n--amble\r\n".to_vec()];
            for n in (1000..1060).chain(8150..8200).chain([500, 2048, 9000, 20000]) {
                v.push([&filler(n)[..], b"\r\n"].concat());
            }
            v
        };
        let epis: [&'static [u8]; 9] = [b"", b"\r\n", b"--", b"\r\n--bnd\r\n", b"x", b"\r", b"\r\n--bnd\r\nContent-Disposition: form-data; name=\"evil\"\r\n\r\nx\r\n--bnd--", b"-", b"\r\nepilogue text"];
        let n = pres.len();
        g.push(group("preamble", (n * 9) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let pre = r.pick(&pres);
            let epi = *r.pick(&epis);
            let nparts = x.all(3);
            let body = Body::full("bnd", pre, vec![Part::new("a", "one"), Part::new("b", "two\r\n")][..nparts].to_vec(), epi);
            let first = pre.len();
            let pos: Vec<usize> = range(first.saturating_sub(4), (first + 10).min(body.bytes.len()));
            let (cuts, max) = match x.all(2) {
                0 => (x.subset(&pos, 2), usize::MAX),
                _ => (vec![], *x.pick(&[1usize, 3, 700, 1024])),
            };
            x.log(|| format!("cuts {:?} max {}", cuts, max));
            read_whole(x, &body, Source::new(body.bytes.clone()).cuts(cuts).max(max), 1, false)
        }));
    }
    // contents around powers of two up to megabytes
    {
        let mut ns = vec![32767usize, 32768, 65535, 65536, 65537, 131071, 262144, (1 << 20) + 1];
        if th {
            ns.extend([32769, 131072, 131073, 524288, (1 << 22) - 1, 10_000_000]);
        }
        let pats: [&[u8]; 8] = [b"", b"\r", b"\n", b"-", b"\r\n", b"\r\n--bn", b"--", b"\r\n--"];
        let k = ns.len() as u64;
        g.push(group("huge", k * 8, 0, move |x, o| {
            let mut r = Radix(o);
            let n = *r.pick(&ns);
            let pat = *r.pick(&pats);
            let body = x.cached(o, || {
                let c = if pat.is_empty() { filler(n) } else { pat.iter().cycle().take(n).cloned().collect() };
                Body::new("bnd", vec![Part::new("a", c), Part::new("z", "tail")])
            });
            let max = *x.pick(&[usize::MAX, 1000, 65536, 13]);
            let style = *x.pick(&[1usize, 0, 5]);
            x.log(|| format!("reads of at most {} style {}", max, style));
            read_whole(x, &body, Source::new(body.bytes.clone()).max(max), style, false)
        }));
    }
    // many fields
    {
        g.push(group("many", 5 * 4, 0, move |x, o| {
            let mut r = Radix(o);
            let n = *r.pick(&[100usize, 255, 256, 257, 1000]) * if th { 10 } else { 1 };
            let how = r.take(4);
            let body = x.cached(o, || {
                let ps = (0..n)
                    .map(|i| match how {
                        0 => Part::new("same", format!("{}", i)),
                        1 => Part::new(&format!("n{}", i), format!("{}", i)),
                        2 => Part::file(&format!("n{}", i % 7), &format!("f{}", i), "text/plain", filler(i % 97)),
                        _ => Part::new(&format!("n{}", i), ""),
                    })
                    .collect();
                Body::new("bnd", ps)
            });
            let max = *x.pick(&[usize::MAX, 100, 1]);
            let style = x.all(2);
            read_whole(x, &body, Source::new(body.bytes.clone()).max(max), style, false)
        }));
    }
    g.push(crate::giant::read(th));
    let _ = Rc::new(());
    g
}


// ------------------------------------------------------------------ C02

use multipart::server::MultipartField;
use std::io::{BufRead, Read};

/// One read-side operation on a field; `p` is the model's position in `content`.
/// Returns the new position.
fn field_op<M: multipart::server::ReadEntry>(x: &X, f: &mut MultipartField<M>, op: usize, content: &[u8], p: usize, last_peek: &mut Option<(usize, usize)>) -> Res<usize> {
    let rest = &content[p..];
    let e = |r: std::io::Result<usize>, what: &str| -> Res<usize> {
        match r {
            Ok(n) => Ok(n),
            Err(e) => fail("op-error", format!("{} failed: {}", what, e)),
        }
    };
    let mut np = p;
    let names = ["read(0)", "read(1)", "read(3)", "read(9000)", "peek", "peek+consume(1)", "peek+consume(all)", "peek+consume(all+9)", "peek+consume(all-1)", "min(0)", "min(1024)", "min(5000)", "min(8192)", "min(20000)", "read(700)"];
    match op {
        0 | 1 | 2 | 3 | 14 => {
            let n = [0, 1, 3, 9000, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 700][op];
            let mut b = vec![0u8; n];
            let k = e(f.data.read(&mut b), names[op])?;
            ensure!(k <= n, "read-count", "{} returned {}", names[op], k);
            ensure!(k <= rest.len() && b[..k] == rest[..k], "read-data", "{} at offset {} returned {} but the content goes on with {}", names[op], p, show(&b[..k]), show(&rest[..rest.len().min(40)]));
            ensure!(k > 0 || n == 0 || rest.is_empty(), "false-eof", "{} returned 0 at offset {} of {}", names[op], p, content.len());
            np = p + k;
        }
        4..=8 => {
            let k = {
                let b = match f.data.fill_buf() {
                    Ok(b) => b,
                    Err(e) => bail!("op-error", "fill_buf failed: {}", e),
                };
                ensure!(b.len() <= rest.len() && b == &rest[..b.len()], "peek-data", "fill_buf at offset {} returned {} but the content goes on with {}", p, show(b), show(&rest[..rest.len().min(40)]));
                ensure!(!b.is_empty() || rest.is_empty(), "false-eof", "fill_buf returned an empty buffer at offset {} of {}", p, content.len());
                if let Some((at, len)) = *last_peek {
                    ensure!(at != p || b.len() >= len, "peek-shrunk", "peeking again at offset {} without consuming returned {} bytes after {}", p, b.len(), len);
                }
                b.len()
            };
            let c = match op {
                4 => 0,
                5 => 1,
                6 => k,
                7 => k + 9,
                _ => k.saturating_sub(1),
            };
            f.data.consume(c);
            *last_peek = Some((p + c.min(k), k - c.min(k)));
            np = p + c.min(k);
        }
        9 => f.data.set_min_buf_size(0),
        10 => f.data.set_min_buf_size(1024),
        11 => f.data.set_min_buf_size(5000),
        12 => f.data.set_min_buf_size(8192),
        13 => f.data.set_min_buf_size(20000),
        _ => unreachable!(),
    }
    x.log(|| format!("{} at {} -> {}", names[op], p, np));
    Ok(np)
}

fn op_run(x: &X, body: &Body, src: Source, skip: usize, first: Option<usize>, ops: &[usize], depth: usize) -> Res {
    x.log(|| format!("body {}", show(&body.bytes)));
    let stat = src.stat.clone();
    let mut mp = Multipart::with_body(src, &body.boundary[..]);
    for (i, p) in body.parts.iter().enumerate() {
        let mut f = match mp.read_entry() {
            Ok(Some(f)) => f,
            Ok(None) => bail!("early-end", "end reported before field {}", i),
            Err(e) => bail!("entry-error", "reading field {} failed: {}", i, e),
        };
        check_headers(&f.headers, p, &format!("field {}", i))?;
        if i == 0 {
            let c = &p.content;
            let mut pos = 0;
            let mut lp = None;
            if let Some(op) = first {
                pos = field_op(x, &mut f, op, c, pos, &mut lp)?;
            }
            if skip > pos {
                let mut b = vec![0u8; skip - pos];
                if let Err(e) = f.data.read_exact(&mut b) {
                    bail!("op-error", "read_exact({}) failed: {}", skip - pos, e);
                }
                ensure!(b == c[pos..skip], "read-data", "read_exact({}) returned other bytes than sent", skip - pos);
                pos = skip;
                lp = None;
            }
            for d in 0..depth {
                let op = *x.pick(ops);
                pos = field_op(x, &mut f, op, c, pos, &mut lp)?;
                x.state((d, op, pos, stat.pos.get()));
            }
            let style = x.all(2);
            let rest = match slurp(&mut f, style) {
                Ok(r) => r,
                Err(e) => bail!("op-error", "reading the rest failed: {}", e),
            };
            check_data(&rest, &c[pos..], &format!("rest of field 0 from offset {}", pos))?;
            let mut lp = None;
            for op in [4, 3, 1, 7] {
                field_op(x, &mut f, op, c, c.len(), &mut lp)?;
            }
        } else {
            let d = slurp(&mut f, 0).map_err(|e| Fail { key: "op-error".into(), msg: e.to_string() })?;
            check_data(&d, &p.content, &format!("field {}", i))?;
        }
        x.state((100 + i, stat.pos.get()));
    }
    match mp.read_entry() {
        Ok(None) => Ok(()),
        Ok(Some(f)) => bail!("extra-field", "field {:?} invented", f.headers.name),
        Err(e) => bail!("end-error", "error at the end: {}", e),
    }
}

pub fn c02(th: bool) -> Vec<Group> {
    let mut g = vec![];
    // small contents, everything buffered
    {
        let conts: [&[u8]; 9] = [b"", b"x", b"\r", b"\n", b"\r\n", b"ab\r\ncd", b"--b\r\n-", b"\r\n--\r\n--", b"0123456789abcdef\r\n\r"];
        let ops: &'static [usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
        let depth = if th { 6 } else { 5 };
        g.push(group("small", conts.len() as u64 * 10 * 10, 0, move |x, o| {
            let mut r = Radix(o);
            let c = *r.pick(&conts);
            // the first two operations are part of the scenario to spread the work
            let (a, b) = (*r.pick(ops), *r.pick(ops));
            let body = Body::new("bnd", vec![Part::new("a", c), Part::new("z", "next\r")]);
            let _ = b;
            op_run(x, &body, Source::new(body.bytes.clone()), 0, Some(a), if b == 0 { ops } else { &ops[b..] }, if b == 0 { depth - 2 } else { depth - 2 })
        }));
    }
    // patterns beyond 1 KiB with the smallest buffer and cuts everywhere
    {
        let pats: [&[u8]; 7] = [b"", b"\r", b"\r\n", b"x\r\n-", b"\r\n--", b"-\r\n--b", b"\r\r\n--\n"];
        let ops: &'static [usize] = &[1, 2, 3, 4, 6, 7, 8, 10];
        let depth = if th { 4 } else { 3 };
        g.push(group("cut", pats.len() as u64 * 14, 0, move |x, o| {
            let mut r = Radix(o);
            let pat = *r.pick(&pats);
            let off = r.take(14);
            let body = x.cached(o, || Body::new("bn", vec![Part::new("a", [&filler(1060)[..], pat].concat()), Part::new("z", "next")]));
            let (_, s, e) = body.at[0];
            let pos = range(s + 1056, e + 8);
            if off >= pos.len() {
                return Ok(());
            }
            let mut cuts = vec![pos[off]];
            cuts.extend(x.subset(&pos[off + 1..], if th { 2 } else { 1 }));
            let skip = *x.pick(&[1055usize, 1059, 1060]);
            x.log(|| format!("cuts {:?}, {} bytes skipped", cuts, skip));
            op_run(x, &body, Source::new(body.bytes.clone()).cuts(cuts), skip, Some(9), ops, depth)
        }));
    }
    // everything else that can be done with a reader, and buffers of any size
    {
        let lens = [0usize, 40, 1500, 8192, 9000, 40_000, (1 << 20) + 70_000];
        const OPS: usize = 18;
        let depth = if th { 3 } else { 2 };
        g.push(group("adapters", (lens.len() * OPS * 2) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let len = *r.pick(&lens);
            let first = r.take(OPS);
            let min = r.take(2) == 1;
            let body = x.cached(o, || {
                let mut c = filler(len);
                let places = [1usize, 2, 30, 1030, 1031, 5000, 8190];
                for (i, &p) in places.iter().enumerate().filter(|&(_, &p)| p < len) {
                    c[p] = b'\n';
                    if i % 2 == 1 {
                        c[p - 1] = b'\r';
                    }
                }
                Body::new("bnd", vec![Part::new("a", c), Part::new("z", "next")])
            });
            let max = *x.pick(if len > 100_000 { &[usize::MAX, 1500][..] } else { &[usize::MAX, 1500, 37] });
            let mut mp = Multipart::with_body(Source::new(body.bytes.clone()).max(max), "bnd");
            let bad = |e: std::io::Error| Fail { key: "op-error".into(), msg: e.to_string() };
            {
                let mut f = mp.read_entry().map_err(bad)?.ok_or_else(|| Fail { key: "early-end".into(), msg: "no field".into() })?;
                if min {
                    f.data.set_min_buf_size(0);
                }
                let c = &body.parts[0].content;
                let mut at = 0;
                for d in 0..depth {
                    let op = if d == 0 { first } else { x.all(OPS) };
                    let rest = &c[at..];
                    let upto = |b: u8| rest.iter().position(|&y| y == b).map_or(rest.len(), |p| p + 1);
                    let (got, want) = match op {
                        0..=5 => {
                            let mut b = vec![0u8; [65536, 65537, 100_000, 1 << 20, (1 << 20) + 1, 1 << 22][op]];
                            let k = f.data.read(&mut b).map_err(bad)?;
                            ensure!(k > 0 || rest.is_empty(), "false-eof", "read({}) returned 0 at offset {} of {}", b.len(), at, len);
                            b.truncate(k);
                            (b, k.min(rest.len()))
                        }
                        6..=8 => {
                            let n = [10usize, 8193, 100_000][op - 6];
                            let mut b = vec![0u8; n];
                            match f.data.read_exact(&mut b) {
                                Ok(()) => (b, n),
                                Err(e) => {
                                    ensure!(rest.len() < n && e.kind() == std::io::ErrorKind::UnexpectedEof, "op-error", "read_exact({}) with {} left: {}", n, rest.len(), e);
                                    (rest.to_vec(), rest.len())
                                }
                            }
                        }
                        9 | 10 => {
                            let sep = [b'\n', b'.'][op - 9];
                            let mut b = vec![];
                            let k = f.data.read_until(sep, &mut b).map_err(bad)?;
                            ensure!(k == b.len(), "read-count", "read_until() returned {} for {} bytes", k, b.len());
                            (b, upto(sep))
                        }
                        11 => {
                            let mut t = String::new();
                            f.data.read_line(&mut t).map_err(bad)?;
                            (t.into_bytes(), upto(b'\n'))
                        }
                        12 => {
                            let l = (&mut f.data).lines().next();
                            let mut b = match l {
                                Some(l) => l.map_err(bad)?.into_bytes(),
                                None => vec![],
                            };
                            // without the end of the line
                            let n = upto(b'\n');
                            b.extend_from_slice(&rest[b.len().min(n)..n]);
                            (b, n)
                        }
                        13 | 14 => {
                            let n = [9u64, 20_000][op - 13];
                            let mut b = vec![];
                            (&mut f.data).take(n).read_to_end(&mut b).map_err(bad)?;
                            (b, rest.len().min(n as usize))
                        }
                        15 => {
                            let b: Result<Vec<u8>, _> = (&mut f.data).bytes().take(50).collect();
                            (b.map_err(bad)?, rest.len().min(50))
                        }
                        16 => {
                            let (mut p, mut q, mut e) = ([0u8; 3], vec![0u8; 5000], []);
                            let k = f.data.read_vectored(&mut [std::io::IoSliceMut::new(&mut e), std::io::IoSliceMut::new(&mut p), std::io::IoSliceMut::new(&mut q)]).map_err(bad)?;
                            let mut b = [&p[..], &q].concat();
                            ensure!(k > 0 || rest.is_empty(), "false-eof", "read_vectored() returned 0 at offset {} of {}", at, len);
                            b.truncate(k);
                            (b, k.min(rest.len()))
                        }
                        _ => {
                            let mut b = vec![];
                            let k = std::io::copy(&mut (&mut f.data).take(3000), &mut b).map_err(bad)?;
                            ensure!(k as usize == b.len(), "read-count", "copy() returned {} for {} bytes", k, b.len());
                            (b, rest.len().min(3000))
                        }
                    };
                    x.log(|| format!("operation {} at {}: {} bytes", op, at, got.len()));
                    check_data(&got, &rest[..want], &format!("operation {} at offset {}", op, at))?;
                    at += want;
                    x.state((d, op, at));
                }
                let mut rest = vec![];
                match x.all(3) {
                    0 => drop(f.data.read_to_end(&mut rest).map_err(bad)?),
                    1 => drop(std::io::copy(&mut f.data, &mut rest).map_err(bad)?),
                    _ => {
                        let mut t = String::new();
                        f.data.read_to_string(&mut t).map_err(bad)?;
                        rest = t.into_bytes();
                    }
                }
                check_data(&rest, &c[at..], &format!("rest from offset {}", at))?;
            }
            let mut f = mp.read_entry().map_err(bad)?.ok_or_else(|| Fail { key: "early-end".into(), msg: "no second field".into() })?;
            check_headers(&f.headers, &body.parts[1], "field 1")?;
            check_data(&slurp(&mut f, 0).map_err(bad)?, b"next", "field 1")
        }));
    }
    // contents larger than the buffer, all minimum sizes
    {
        let lens = [4000usize, 7168, 8100, 8192, 9000, 16384, 20000, 30000];
        let ops: &'static [usize] = &[3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14];
        let maxs = [usize::MAX, 700, 4096, 1];
        let depth = if th { 5 } else { 4 };
        g.push(group("large", (lens.len() * maxs.len() * ops.len()) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let len = *r.pick(&lens);
            let max = *r.pick(&maxs);
            let first = *r.pick(ops);
            if max == 1 && !(len == 9000) {
                return Ok(());
            }
            let body = x.cached(o, || Body::new("bnd", vec![Part::new("a", [&filler(len)[..], b"\r\n--bn"].concat()), Part::new("z", "next")]));
            let depth = if max == 1 { depth - 1 } else { depth };
            op_run(x, &body, Source::new(body.bytes.clone()).max(max), 0, Some(first), ops, depth)
        }));
    }
    // look-alikes of the delimiter wherever a buffer of any size may end
    {
        let lens = [1024usize, 4096, 8192, 16_384, 32_768, 65_536, 131_072, 200_000, 262_144];
        let pats: [&[u8]; 8] = [b"\r", b"\r\n", b"\n", b"-", b"x\r\n--bn", b"\r\n-", b"ab\r\n--bn\r\n--", b"\r\r\n"];
        g.push(group("repetitive", (lens.len() * pats.len()) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let len = *r.pick(&lens);
            let pat = *r.pick(&pats);
            let off = x.all(if th { 2 * pat.len() + 8 } else { (pat.len() + 1).max(7) });
            let min = *x.pick(&[None, Some(0), Some(3000), Some(9000), Some(70_000), Some(300_000)]);
            let mode = x.all(4);
            let max = *x.pick(&[usize::MAX, 5000]);
            let content: Vec<u8> = [&b"0123456789abcdefghijklmnopqrstuvwxyz"[..off], &pat.iter().cycle().take(len - 4).copied().collect::<Vec<u8>>()].concat();
            let body = Body::new("bnd", vec![Part::new("a", &content[..]), Part::new("z", "next")]);
            x.log(|| format!("{} bytes of {} after {}, minimum {:?}, mode {}, pieces of {}", len, show(pat), off, min, mode, max));
            let mut mp = Multipart::with_body(Source::new(body.bytes.clone()).max(max), "bnd");
            let e = |e: std::io::Error| Fail { key: "error".into(), msg: format!("reading failed: {}", e) };
            let mut got = vec![];
            {
                let mut f = match mp.read_entry().map_err(e)? {
                    Some(f) => f,
                    None => bail!("missing", "no field"),
                };
                if let Some(m) = min {
                    f.data.set_min_buf_size(m);
                }
                let mut buf = vec![0u8; 70_000];
                loop {
                    x.step();
                    let n = match mode {
                        0 => {
                            let b = f.data.fill_buf().map_err(e)?;
                            got.extend_from_slice(b);
                            b.len()
                        }
                        1 => {
                            let b = f.data.fill_buf().map_err(e)?;
                            let b = &b[..b.len().min(1001)];
                            got.extend_from_slice(b);
                            b.len()
                        }
                        m => {
                            let b = if m == 2 { &mut buf[..] } else { &mut buf[..777] };
                            let n = f.data.read(b).map_err(e)?;
                            got.extend_from_slice(&b[..n]);
                            n
                        }
                    };
                    if n == 0 {
                        break;
                    }
                    if mode < 2 {
                        f.data.consume(n);
                    }
                    ensure!(got.len() <= content.len(), "data", "more than the field is read");
                }
            }
            check_data(&got, &content, "the field")?;
            let mut rest = vec![];
            match mp.read_entry().map_err(e)? {
                Some(mut f) => drop(f.data.read_to_end(&mut rest).map_err(e)?),
                None => bail!("missing", "the field behind is missing"),
            }
            check_data(&rest, b"next", "the field behind")?;
            ensure!(mp.read_entry().map_err(e)?.is_none(), "end", "no end");
            x.state((o, off, min, mode));
            Ok(())
        }));
    }
    // the end of the field meets the buffer edge while the minimum is changed
    {
        let ops: &'static [usize] = &[4, 5, 6, 8, 9, 11, 12, 13, 14];
        let n = if th { 400 } else { 60 };
        g.push(group("edge", n, 0, move |x, o| {
            let len = if th { 7900 + o as usize } else { 8090 + o as usize };
            let pat = *x.pick(&[&b""[..], b"\r\n", b"\r\n--bn"]);
            let body = Body::new("bnd", vec![Part::new("a", [&filler(len)[..], pat].concat()), Part::new("z", "next")]);
            op_run(x, &body, Source::new(body.bytes.clone()), 0, None, ops, 3)
        }));
    }
    g
}

// ------------------------------------------------------------------ C03

/// Consume part of a field: (mode, amount) with mode 0 nothing, 1 peek only, 2 read exactly n,
/// 3 read all but n, 4 peek and consume n, 5 read to the end, 6 as 3 then peek, 7 peek twice then
/// consume all but one byte of what is visible.
fn partly<M: multipart::server::ReadEntry>(f: &mut MultipartField<M>, mode: usize, n: usize, c: &[u8]) -> Res {
    let e = |e: std::io::Error| Fail { key: "op-error".into(), msg: format!("reading part of a field failed: {}", e) };
    let exact = |f: &mut MultipartField<M>, k: usize| -> Res {
        let mut b = vec![0u8; k];
        f.data.read_exact(&mut b).map_err(e)?;
        ensure!(b == c[..k], "data", "the first {} bytes differ from what was sent", k);
        Ok(())
    };
    match mode {
        0 => {}
        1 => {
            f.data.fill_buf().map_err(e)?;
        }
        2 => exact(f, n.min(c.len()))?,
        3 => exact(f, c.len().saturating_sub(n))?,
        4 => {
            f.data.fill_buf().map_err(e)?;
            f.data.consume(n);
        }
        5 => exact(f, c.len()).and_then(|_| {
            let mut v = vec![];
            f.data.read_to_end(&mut v).map_err(e)?;
            ensure!(v.is_empty(), "data", "more data than sent: {}", show(&v));
            Ok(())
        })?,
        6 => {
            exact(f, c.len().saturating_sub(n))?;
            f.data.fill_buf().map_err(e)?;
        }
        _ => {
            f.data.fill_buf().map_err(e)?;
            let k = f.data.fill_buf().map_err(e)?.len();
            f.data.consume(k.saturating_sub(1));
        }
    }
    Ok(())
}

const PARTLY: [(usize, usize); 17] =
    [(0, 0), (1, 0), (2, 1), (2, 2), (2, 700), (3, 0), (3, 1), (3, 2), (3, 3), (3, 700), (4, 1), (4, 900), (5, 0), (6, 0), (6, 1), (6, 2), (7, 0)];

fn skip_run(x: &X, body: &Body, src: Source, acts: &[(usize, usize)], min: &[Option<usize>]) -> Res {
    x.log(|| format!("body {} actions {:?} min {:?}", show(&body.bytes), acts, min));
    let stat = src.stat.clone();
    let mut mp = Multipart::with_body(src, &body.boundary[..]);
    for (i, p) in body.parts.iter().enumerate() {
        let mut f = match mp.read_entry() {
            Ok(Some(f)) => f,
            Ok(None) => bail!("early-end", "end reported before field {} of {}", i, body.parts.len()),
            Err(e) => bail!("entry-error", "reading field {} failed after leaving the previous one: {}", i, e),
        };
        check_headers(&f.headers, p, &format!("field {}", i))?;
        if let Some(Some(m)) = min.get(i) {
            f.data.set_min_buf_size(*m);
        }
        if i < acts.len() {
            partly(&mut f, acts[i].0, acts[i].1, &p.content)?;
        } else {
            let d = slurp(&mut f, 0).map_err(|e| Fail { key: "op-error".into(), msg: e.to_string() })?;
            check_data(&d, &p.content, &format!("field {}", i))?;
        }
        x.state((i, stat.pos.get()));
    }
    for _ in 0..2 {
        match mp.read_entry() {
            Ok(None) => {}
            Ok(Some(f)) => bail!("extra-field", "field {:?} invented", f.headers.name),
            Err(e) => bail!("end-error", "error instead of the end: {}", e),
        }
    }
    x.state((body.parts.len(), stat.pos.get()));
    Ok(())
}

pub fn c03(th: bool) -> Vec<Group> {
    let mut g = vec![];
    // two abandoned fields of every small content
    {
        let alpha: [&[u8]; 4] = [b"\r", b"\n", b"-", b"x"];
        let len = if th { 3 } else { 2 };
        let per = count_upto(4, len);
        g.push(group("small", per * per, 0, move |x, o| {
            let mut r = Radix(o);
            let a = string_upto(&alpha, len, r.take(per as usize) as u64);
            let b = string_upto(&alpha, len, r.take(per as usize) as u64);
            let body = Body::new("b", vec![Part::new("a", a), Part::new("m", b), Part::new("z", "last\r\n")]);
            let acts = [*x.pick(&PARTLY), *x.pick(&PARTLY), *x.pick(&[(0, 0), (1, 0), (5, 0)])];
            skip_run(x, &body, Source::new(body.bytes.clone()), &acts[..2 + x.all(2)], &[])
        }));
    }
    // remainders around the buffer sizes, cuts around the delimiters
    {
        let pats: [&[u8]; 6] = [b"", b"\r", b"\r\n", b"-", b"\r\n--", b"\r\n--bn"];
        let lens = [0usize, 960, 1000, 1020, 1023, 1060, 2040, 2100, 3000];
        g.push(group("cut", (lens.len() * pats.len() * PARTLY.len()) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let pat = *r.pick(&pats);
            let len = *r.pick(&lens);
            let act = *r.pick(&PARTLY);
            let body = x.cached(o, || Body::new("bnd", vec![Part::new("a", [&filler(len)[..], pat].concat()), Part::new("m", "mid"), Part::file("z", "f", "text/html", "last")]));
            let (_, s, e) = body.at[0];
            let mut pos = range((e - pat.len()).max(s), e + 2 + 5 + 4);
            pos.extend([e + 20, body.at[1].1 - 2, body.at[1].1, body.at[1].2, body.at[1].2 + 3, body.at[1].2 + 8]);
            pos.extend([s + 3, s + len / 2].iter().filter(|&&p| p < e - pat.len()));
            pos.sort();
            let act2 = *x.pick(&[(0, 0), (1, 0), (2, 1), (5, 0)]);
            let (cuts, max) = match x.all(2) {
                0 => (x.subset(&pos, if th { 3 } else { 2 }), usize::MAX),
                _ => (vec![], *x.pick(&[1usize, 3, 500, 1024, 1030])),
            };
            let min = *x.pick(&[None, Some(0), Some(5000)]);
            x.log(|| format!("cuts {:?} max {}", cuts, max));
            skip_run(x, &body, Source::new(body.bytes.clone()).cuts(cuts).max(max), &[act, act2], &[min])
        }));
    }
    // large remainders against the 8 KiB buffer
    {
        let n = if th { 2400 } else { 330 };
        g.push(group("large", n, 0, move |x, o| {
            let len = if th { 7200 + o as usize } else if o < 230 { 8000 + o as usize } else { 16300 + o as usize };
            let act = *x.pick(&PARTLY);
            let pat = *x.pick(&[&b""[..], b"\r", b"\r\n--bn"]);
            let max = *x.pick(&[usize::MAX, 1000, 4096]);
            let min = *x.pick(&[None, Some(0), Some(8192)]);
            let body = Body::new("bnd", vec![Part::new("a", [&filler(len)[..], pat].concat()), Part::new("m", "mid"), Part::new("z", "last")]);
            skip_run(x, &body, Source::new(body.bytes.clone()).max(max), &[act, (1, 0)], &[min])
        }));
    }
    // many abandoned fields in a row
    {
        g.push(group("many", 17 * 8, 0, move |x, o| {
            let mut r = Radix(o);
            let act = *r.pick(&PARTLY);
            let fl = [0usize, 1, 90, 400, 900, 1100, 2500, 9000][r.take(8)];
            let n = *x.pick(&[1usize, 2, 7, 30]);
            let act2 = *x.pick(&PARTLY);
            let max = *x.pick(&[usize::MAX, 1, 1024]);
            if max == 1 && fl > 1100 {
                return Ok(());
            }
            let body = Body::new("bnd", (0..n).map(|i| Part::new(&format!("n{}", i), [&filler(fl)[..], format!("\r\n{}", i).as_bytes()].concat())).collect());
            let acts: Vec<_> = (0..n).map(|i| if i % 2 == 0 { act } else { act2 }).collect();
            skip_run(x, &body, Source::new(body.bytes.clone()).max(max), &acts, &[])
        }));
    }
    g.push(crate::giant::skip(th));
    g
}

// ------------------------------------------------------------------ C04

/// What `cut` leaves: number of fields whose terminating delimiter arrived (with the two bytes
/// after it), whether the request is complete.
fn truncated_run(x: &X, body: &Body, cut: usize, cuts: Vec<usize>, max: usize, style: usize, how: usize) -> Res {
    x.log(|| format!("body {} cut off after {} of {} bytes; cuts {:?} how {}", show(&body.bytes[..cut]), cut, body.bytes.len(), cuts, how));
    let src = || Source::new(body.bytes.clone()).truncated(cut).cuts(cuts.clone()).max(max);
    let dl = body.boundary.len() + 4;
    let arrived = body.at.iter().filter(|a| a.2 + dl <= cut).count();
    ensure!(cut < body.end, "harness", "not truncated");
    match how {
        0 | 1 => {
            let s = src();
            let stat = s.stat.clone();
            let mut mp = Multipart::with_body(s, &body.boundary[..]);
            let mut n = 0;
            loop {
                match mp.read_entry() {
                    Ok(Some(mut f)) => {
                        ensure!(n < body.parts.len(), "extra-field", "field {:?} invented in a truncated request", f.headers.name);
                        let p = &body.parts[n];
                        check_headers(&f.headers, p, &format!("field {}", n))?;
                        ensure!(cut >= body.at[n].1, "extra-field", "field {} delivered although its headers are incomplete", n);
                        if how == 0 {
                            let d = slurp(&mut f, style);
                            x.state((n, stat.pos.get(), d.is_ok()));
                            if let Ok(d) = d {
                                // bytes that may still turn out to be the delimiter are not content
                                if n < arrived || cut >= body.at[n].2 + 2 + dl - 4 {
                                    check_data(&d, &p.content, &format!("field {} (terminated)", n))?;
                                } else {
                                    ensure!(p.content.starts_with(&d), "prefix", "cut field {}: delivered {} which is not a prefix of its content", n, show(&d));
                                }
                            } else {
                                ensure!(n >= arrived, "data-error", "complete field {} could not be read", n);
                            }
                        }
                        n += 1;
                    }
                    Ok(None) => bail!("false-end", "a request cut off after {} of {} bytes was reported as complete", cut, body.end),
                    Err(_) => break,
                }
            }
            ensure!(n >= arrived, "lost-field", "only {} of {} fields that arrived were delivered", n, arrived);
            for _ in 0..3 {
                match mp.read_entry() {
                    Ok(None) => bail!("false-end", "the end of a cut off request was reported after an error"),
                    Ok(Some(f)) => bail!("extra-field", "field {:?} delivered after the error at the cut", f.headers.name),
                    Err(_) => {}
                }
            }
            Ok(())
        }
        2 => {
            let mut mp = Multipart::with_body(src(), &body.boundary[..]);
            let mut n = 0;
            let r = mp.foreach_entry(|_| n += 1);
            x.state((n, 7));
            ensure!(r.is_err(), "false-end", "foreach_entry succeeded on a request cut off after {} of {} bytes", cut, body.end);
            ensure!(n >= arrived, "lost-field", "only {} of {} fields that arrived were delivered", n, arrived);
            Ok(())
        }
        _ => {
            use multipart::server::save::SaveResult::*;
            let mut mp = Multipart::with_body(src(), &body.boundary[..]);
            let r = mp.save().memory_threshold(if how == 3 { 100_000 } else { 0 }).temp();
            match r {
                Full(_) => bail!("false-full", "saving a request cut off after {} of {} bytes was reported as full", cut, body.end),
                Partial(p, _) => {
                    x.state((p.entries.fields_count(), 8));
                    let mut n = 0;
                    for (i, part) in body.parts.iter().enumerate().take(arrived) {
                        let nth = body.parts[..i].iter().filter(|q| q.name == part.name).count();
                        let f = match p.entries.fields.get(&part.name[..]).and_then(|v| v.get(nth)) {
                            Some(f) => f,
                            None => bail!("lost-field", "field {} arrived completely but was not saved", i),
                        };
                        let mut v = vec![];
                        f.data.readable().and_then(|mut r| r.read_to_end(&mut v)).map_err(|e| Fail { key: "io".into(), msg: e.to_string() })?;
                        check_data(&v, &part.content, &format!("saved field {}", i))?;
                        n += 1;
                    }
                    ensure!(n >= arrived, "lost-field", "fields lost");
                    Ok(())
                }
                Error(_) => {
                    ensure!(arrived == 0, "lost-field", "the save failed as a whole although {} fields arrived", arrived);
                    Ok(())
                }
            }
        }
    }
}

pub fn c04(th: bool) -> Vec<Group> {
    let mut g = vec![crate::web::truncated(th)];
    // every cut of small bodies
    {
        let conts: [&[u8]; 8] = [b"", b"x", b"\r", b"\r\n", b"\r\n-", b"--", b"\r\n--b", b"\n--bn\r"];
        let n = conts.len() as u64;
        g.push(group("every-cut", n * n * 4, 0, move |x, o| {
            let mut r = Radix(o);
            let (a, b) = (*r.pick(&conts), *r.pick(&conts));
            let epi = *r.pick(&[&b"\r\n"[..], b""]);
            let pre = *r.pick(&[&b""[..], b"pre--\r\n"]);
            let body = x.cached(o, || Body::full("bnd", pre, vec![Part::new("a", a), Part::file("m", "f", "text/plain", b), Part::new("a", "last")], epi));
            let cut = x.all(body.end);
            let how = x.all(3);
            let style = if how == 0 { x.all(3) } else { 0 };
            truncated_run(x, &body, cut, vec![], usize::MAX, style, how)
        }));
        g.push(group("every-cut-save", n * 2, 0, move |x, o| {
            let mut r = Radix(o);
            let a = *r.pick(&conts);
            let epi = *r.pick(&[&b"\r\n"[..], b""]);
            let body = x.cached(o, || Body::full("bnd", b"", vec![Part::new("a", a), Part::file("m", "f", "text/plain", a), Part::new("a", "last")], epi));
            let cut = x.all(body.end);
            let how = 3 + x.all(2);
            truncated_run(x, &body, cut, vec![], usize::MAX, 0, how)
        }));
    }
    // long fields: cuts off around delimiters and headers, read cuts before it
    {
        let conts: [&[u8]; 5] = [b"", b"\r", b"\r\n", b"\r\n-", b"\r\n--bn"];
        let lens = [1000usize, 1060, 2080, 7000, 8120];
        g.push(group("long", (conts.len() * lens.len()) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let pat = *r.pick(&conts);
            let len = *r.pick(&lens);
            let body = x.cached(o, || {
                let mut p = Part::new("m", [&filler(1060)[..], pat].concat());
                p.extra = format!("X-Fill: {}\r\n", "y".repeat(1200));
                Body::new("bnd", vec![Part::new("a", [&filler(len)[..], pat].concat()), p, Part::new("l", "")])
            });
            let mut pos = vec![0, 1, 3, 40];
            for &(h, s, e) in &body.at {
                pos.extend(range(h.saturating_sub(3), h + 4));
                pos.extend([h + 500, h + 1100].iter().filter(|&&q| q < s));
                pos.extend(range(s - 4, s + 3));
                pos.extend([s + 30, s + 1024]);
                pos.extend(range(e.saturating_sub(if th { 30 } else { 10 }), e + 10));
            }
            pos.sort();
            pos.dedup();
            pos.retain(|&p| p < body.end);
            let cut = *x.pick(&pos);
            let (cuts, max) = match x.all(2) {
                0 => {
                    let near: Vec<usize> = pos.iter().cloned().filter(|&p| p < cut && p + 60 > cut).collect();
                    (x.subset(&near, if th { 2 } else { 1 }), usize::MAX)
                }
                _ => (vec![], *x.pick(&[1usize, 1024, 1100])),
            };
            let how = x.all(3);
            let style = if how == 0 { x.all(2) } else { 0 };
            truncated_run(x, &body, cut, cuts, max, style, how)
        }));
        g.push(group("long-save", (conts.len() * lens.len()) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let pat = *r.pick(&conts);
            let len = *r.pick(&lens);
            let body = x.cached(o, || Body::new("bnd", vec![Part::new("a", [&filler(len)[..], pat].concat()), Part::file("m", "f", "image/png", [&filler(1060)[..], pat].concat()), Part::new("l", "")]));
            let mut pos = vec![];
            for &(h, s, e) in &body.at {
                pos.extend([h - 1, h, h + 1, s - 2, s - 1, s, s + 1]);
                pos.extend(range(e.saturating_sub(8), e + 10));
            }
            pos.sort();
            pos.dedup();
            pos.retain(|&p| p < body.end);
            let cut = *x.pick(&pos);
            let max = *x.pick(&[usize::MAX, 1024, 1000]);
            let how = 3 + x.all(2);
            truncated_run(x, &body, cut, vec![], max, 0, how)
        }));
    }
    g
}

// ------------------------------------------------------------------ C05

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Field(Got),
    DataErr(std::io::ErrorKind),
    Err(std::io::ErrorKind),
    End,
}

/// Everything observable of one pass over arbitrary bytes.
fn observe(x: &X, src: Source, boundary: &str, style: usize, small: bool, max_fields: usize) -> Res<Vec<Ev>> {
    let stat = src.stat.clone();
    let mut mp = Multipart::with_body(src, boundary);
    let mut evs = vec![];
    let (mut fields, mut errs, mut ends) = (0, 0, 0);
    while errs < 6 && ends < 3 {
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                ensure!(ends == 0, "end-not-final", "a field {:?} follows the reported end", f.headers.name);
                fields += 1;
                ensure!(fields <= max_fields, "too-many-fields", "more fields than delimiters in the input");
                let (name, filename, ctype) = headers_of(&f.headers);
                if small {
                    f.data.set_min_buf_size(0);
                }
                if style == 9 {
                    evs.push(Ev::Field(Got { name, filename, ctype, data: vec![] }));
                } else {
                    match slurp(&mut f, style) {
                        Ok(data) => evs.push(Ev::Field(Got { name, filename, ctype, data })),
                        Err(e) => evs.push(Ev::DataErr(e.kind())),
                    }
                }
            }
            Ok(None) => {
                ends += 1;
                evs.push(Ev::End);
            }
            Err(e) => {
                ensure!(ends == 0, "end-not-final", "an error ({}) follows the reported end", e);
                errs += 1;
                evs.push(Ev::Err(e.kind()));
            }
        }
        x.state((fields, errs, ends, stat.pos.get()));
    }
    Ok(evs)
}

fn occurrences(h: &[u8], n: &[u8]) -> usize {
    let mut c = 0;
    let mut i = 0;
    while let Some(p) = find(h, n, i) {
        c += 1;
        i = p + 1;
    }
    c
}

fn check_inventions(input: &[u8], evs: &[Ev]) -> Res {
    let mut cur = 0;
    for e in evs {
        if let Ev::Field(ref g) = *e {
            // earliest place after the previous field where this data follows a header line
            let mut p = cur;
            let at = loop {
                match find(input, &g.data, p) {
                    Some(q) if q > cur && input[q - 1] == b'\n' && has(&input[cur..q], b":") => break Some(q),
                    Some(q) if q < input.len() => p = q + 1,
                    _ => break None,
                }
            };
            match at {
                Some(q) => cur = q + g.data.len(),
                None => bail!("invented", "the data {} of field {:?} is not a piece of the input after the preceding field", show(&g.data), g.name),
            }
        }
    }
    Ok(())
}

const HD: &str = "Content-Disposition: form-data; name=\"n\"\r\n\r\n";

fn tokens(b: &str) -> Vec<Vec<u8>> {
    let d = format!("--{}", b);
    vec![
        d.clone().into_bytes(),
        b"\r\n".to_vec(),
        HD.as_bytes().to_vec(),
        b"--".to_vec(),
        b"\r".to_vec(),
        b"x".to_vec(),
        format!("\r\n{}\r\n{}", d, HD).into_bytes(),
        b"\n".to_vec(),
        b"A: b\r\n".to_vec(),
        b"-".to_vec(),
        b"\xff".to_vec(),
    ]
}

pub fn c05(th: bool) -> Vec<Group> {
    let mut g = vec![];
    // all token strings
    {
        let bnds = ["b", "", "-", "\r\n", "\u{e9}b", LONG_BOUNDARY];
        let len = if th { 6 } else { 5 };
        let n = count_upto(11, len);
        let chunk = 121;
        g.push(group("tokens", bnds.len() as u64 * (n / chunk + 1), 0, move |x, o| {
            let mut r = Radix(o);
            let b = *r.pick(&bnds);
            let idx = r.0 * chunk + x.all(chunk as usize) as u64;
            if idx >= n {
                return Ok(());
            }
            let t = tokens(b);
            let input = string_upto(&refs(&t), len, idx);
            x.log(|| format!("boundary {:?} input {}", b, show(&input)));
            let maxf = occurrences(&input, format!("--{}", b).as_bytes());
            let style = *x.pick(&[0usize, 1, 9]);
            let small = style == 1;
            let rc = Rc::new(input);
            let ev = observe(x, Source::new(rc.clone()), b, style, small, maxf)?;
            x.log(|| format!("{:?}", ev));
            if style != 9 {
                check_inventions(&rc, &ev)?;
            }
            let ev1 = observe(x, Source::new(rc.clone()).max(1), b, style, small, maxf)?;
            ensure!(ev == ev1, "split", "outcome differs: whole {:?}, byte by byte {:?}", ev, ev1);
            Ok(())
        }));
    }
    // token strings after 1 KiB of preamble or field data, every cut
    {
        let bnds = ["b", "-b", ""];
        let len = if th { 4 } else { 3 };
        let n = count_upto(11, len);
        g.push(group("split", bnds.len() as u64 * 3 * n, 0, move |x, o| {
            let mut r = Radix(o);
            let b = *r.pick(&bnds);
            let mode = r.take(3);
            let t = tokens(b);
            let tail = string_upto(&refs(&t), len, r.0);
            let d = format!("--{}", b);
            let pre: Vec<u8> = match mode {
                0 => filler(1040),
                1 => [format!("{}\r\n{}", d, HD).as_bytes(), &filler(1040)].concat(),
                _ => format!("{}\r\nA: {}", d, "v".repeat(1040)).into_bytes(),
            };
            let (rc, maxf, whole) = &*x.cached(o, || {
                let input = [&pre[..], &tail].concat();
                let maxf = occurrences(&input, d.as_bytes());
                (Rc::new(input), maxf, std::cell::RefCell::new(None::<Vec<Vec<Ev>>>))
            });
            x.log(|| format!("boundary {:?} input {}", b, show(rc)));
            if whole.borrow().is_none() {
                let mut v = vec![];
                for (style, small) in [(0, false), (1, true), (9, false)] {
                    let ev = observe(x, Source::new(rc.clone()), b, style, small, *maxf)?;
                    if style != 9 {
                        check_inventions(rc, &ev)?;
                    }
                    v.push(ev);
                }
                ensure!(v[0] == v[1], "style", "outcome differs by reading style: {:?} and {:?}", v[0], v[1]);
                *whole.borrow_mut() = Some(v);
            }
            let si = x.all(3);
            let (style, small) = [(0, false), (1, true), (9, false)][si];
            let pos = range(pre.len() - 2, rc.len());
            let (cuts, max) = match x.all(2) {
                0 if pos.len() > 60 => (x.subset(&pos, 1), usize::MAX),
                0 => (x.subset(&pos, if th { 2 } else { 1 }), usize::MAX),
                _ => (vec![], *x.pick(&[1usize, 2, 3, 1024])),
            };
            x.log(|| format!("cuts {:?} max {} style {}", cuts, max, style));
            let ev = observe(x, Source::new(rc.clone()).cuts(cuts).max(max), b, style, small, *maxf)?;
            let w = whole.borrow();
            let w = &w.as_ref().unwrap()[si];
            x.log(|| format!("{:?}", ev));
            ensure!(ev == *w, "split", "outcome depends on the split: {:?}, in one piece {:?}", ev, w);
            Ok(())
        }));
    }
    // boundaries longer than half the smallest or the default buffer
    {
        let lens = [130usize, 200, 511, 513, 600, 1030, 1500];
        let len = if th { 3 } else { 2 };
        let n = count_upto(11, len);
        g.push(group("long-boundary", lens.len() as u64 * 2 * n, 0, move |x, o| {
            let mut r = Radix(o);
            let bn = *r.pick(&lens);
            let mode = r.take(2);
            let b = boundary_of(bn);
            let d = format!("--{}", b);
            let tail = string_upto(&refs(&tokens(&b)), len, r.0);
            let pre: Vec<u8> = match mode {
                0 => vec![],
                _ => [format!("{}\r\n{}", d, HD).as_bytes(), &filler(1040)].concat(),
            };
            let input = Rc::new([&pre[..], &tail].concat());
            let maxf = occurrences(&input, d.as_bytes());
            x.log(|| format!("boundary of {}, input {}", bn, show(&input)));
            let si = x.all(3);
            let (style, small) = [(0, false), (1, true), (9, false)][si];
            let ev = observe(x, Source::new(input.clone()), &b, style, small, maxf)?;
            if style != 9 {
                check_inventions(&input, &ev)?;
            }
            // one cut anywhere in steps of less than the room between the smallest buffer and the boundary
            let mut at: Vec<usize> = (pre.len()..input.len()).step_by(if th { 3 } else { 150 }).collect();
            at.extend((0..input.len()).step_by(211));
            for cut in at {
                let e1 = observe(x, Source::new(input.clone()).cuts(vec![cut.saturating_sub(1450), cut]), &b, style, small, maxf)?;
                ensure!(ev == e1, "split", "outcome differs: whole {:?}, cut at {} {:?}", ev, cut, e1);
            }
            for max in [100usize, 1000] {
                let e1 = observe(x, Source::new(input.clone()).max(max), &b, style, small, maxf)?;
                ensure!(ev == e1, "split", "outcome differs: whole {:?}, {} bytes at once {:?}", ev, max, e1);
            }
            Ok(())
        }));
    }
    // raw bytes: every string over a byte alphabet, headers cut short
    {
        let alpha: [&[u8]; 7] = [b"-", b"b", b"\r", b"\n", b":", b"a", b"\0"];
        let len = if th { 8 } else { 6 };
        let chunk = 343;
        let n = count_upto(7, len);
        g.push(group("bytes", 2 * (n / chunk + 1), 0, move |x, o| {
            let mut r = Radix(o);
            let pre = r.take(2);
            let idx = r.0 * chunk + x.all(chunk as usize) as u64;
            if idx >= n {
                return Ok(());
            }
            let tail = string_upto(&alpha, len, idx);
            let input = if pre == 0 { tail } else { [b"--b\r\nContent-Disposition: form-data; name=q\r\n", &tail[..], b"\r\n\r\nz\r\n--b--"].concat() };
            x.log(|| format!("input {}", show(&input)));
            let maxf = occurrences(&input, b"--b");
            let rc = Rc::new(input);
            let ev = observe(x, Source::new(rc.clone()), "b", 1, false, maxf)?;
            x.log(|| format!("{:?}", ev));
            check_inventions(&rc, &ev)
        }));
    }
    g
}

// ------------------------------------------------------------------ C06

fn retry<T>(x: &X, stat: &Stat, want: &mut Vec<Fault>, mut f: impl FnMut() -> std::io::Result<T>) -> Res<T> {
    loop {
        let before = stat.raised.get();
        let r = f();
        let raised = stat.raised.get() - before;
        let due: Vec<Fault> = want.drain(..raised).collect();
        match r {
            Ok(t) => {
                // only interruptions may be hidden
                for d in due {
                    ensure!(d.kind == std::io::ErrorKind::Interrupted, "swallowed", "the transport error {:?} was not reported", d);
                }
                return Ok(t);
            }
            Err(e) => {
                x.log(|| format!("error {:?} at {}", e.kind(), stat.pos.get()));
                let last = match due.last() {
                    Some(d) => *d,
                    None => bail!("spurious-error", "error {} ({:?}) although the transport did not fail", e, e.kind()),
                };
                ensure!(e.kind() == last.kind, "kind", "the transport failed with {:?} but {:?} ({}) was reported", last.kind, e.kind(), e);
                for d in &due[..due.len() - 1] {
                    ensure!(d.kind == std::io::ErrorKind::Interrupted, "swallowed", "the transport error {:?} was not reported", d);
                }
                x.state((1, stat.pos.get(), stat.raised.get()));
            }
        }
    }
}

fn fault_run(x: &X, body: &Body, src: Source, faults: Vec<Fault>, how: usize, small: bool) -> Res {
    x.log(|| format!("body {} faults {:?} how {}", show(&body.bytes), faults, how));
    let src = src.faults(faults.clone());
    let mut want = faults.clone();
    want.sort_by_key(|f| f.pos);
    let stat = src.stat.clone();
    let check_field = |h: &multipart::server::FieldHeaders, i: usize| -> Res {
        ensure!(i < body.parts.len(), "extra-field", "field {:?} invented", h.name);
        check_headers(h, &body.parts[i], &format!("field {}", i))
    };
    fn data<M: multipart::server::ReadEntry>(x: &X, f: &mut MultipartField<M>, stat: &Stat, want: &mut Vec<Fault>, how: usize) -> Res<Vec<u8>> {
        let mut v = vec![];
        match how % 4 {
            0 => loop {
                let mut b = [0u8; 100];
                let n = retry(x, stat, want, || f.data.read(&mut b))?;
                if n == 0 {
                    break;
                }
                v.extend_from_slice(&b[..n]);
            },
            1 => loop {
                let n = retry(x, stat, want, || f.data.fill_buf().map(|b| { v.extend_from_slice(b); b.len() }))?;
                if n == 0 {
                    break;
                }
                f.data.consume(n);
            },
            2 => {
                retry(x, stat, want, || f.data.read_to_end(&mut v))?;
            }
            _ => {}
        }
        Ok(v)
    }
    let mut i = 0;
    match how {
        0..=3 => {
            let mut mp = Multipart::with_body(src, &body.boundary[..]);
            loop {
                // the borrow of the field prevents retrying through a closure
                let before = stat.raised.get();
                let r = mp.read_entry();
                let mut outcome = Some(match r { Ok(Some(f)) => Ok(Some(f)), Ok(None) => Ok(None), Err(e) => Err(e) });
                let was_err = outcome.as_ref().unwrap().is_err();
                let raised = stat.raised.get() - before;
                let mut due: Vec<Fault> = want.drain(..raised).collect();
                if was_err {
                    let e = match outcome.take() { Some(Err(e)) => e, _ => unreachable!() };
                    let last = match due.pop() {
                        Some(d) => d,
                        None => bail!("spurious-error", "reading an entry failed with {} ({:?}) although the transport did not fail", e, e.kind()),
                    };
                    ensure!(e.kind() == last.kind, "kind", "the transport failed with {:?} but {:?} ({}) was reported", last.kind, e.kind(), e);
                    x.log(|| format!("read_entry: error {:?}", e.kind()));
                    x.state((i, 0, stat.pos.get()));
                }
                for d in due {
                    ensure!(d.kind == std::io::ErrorKind::Interrupted, "swallowed", "the transport error {:?} was not reported", d);
                }
                let mut f = match outcome {
                    None => continue,
                    Some(Ok(Some(f))) => f,
                    Some(Ok(None)) => break,
                    Some(Err(_)) => unreachable!(),
                };
                check_field(&f.headers, i)?;
                if small {
                    f.data.set_min_buf_size(0);
                }
                let v = data(x, &mut f, &stat, &mut want, how)?;
                if how != 3 {
                    check_data(&v, &body.parts[i].content, &format!("field {}", i))?;
                }
                x.state((i, 1, stat.pos.get()));
                i += 1;
            }
        }
        4 | 5 => {
            let mut mp = Multipart::with_body(src, &body.boundary[..]);
            let mut err: Option<Fail> = None;
            let want = std::cell::RefCell::new(want);
            loop {
                let before = stat.raised.get();
                let inner = std::cell::Cell::new(0);
                let r = mp.foreach_entry(|mut f| {
                    let at = stat.raised.get();
                    let mut go = || -> Res {
                        let mut w = want.borrow_mut();
                        // faults hidden by foreach_entry before this field
                        let hidden = at - before - inner.get();
                        for d in w.drain(..hidden) {
                            ensure!(d.kind == std::io::ErrorKind::Interrupted, "swallowed", "the transport error {:?} was not reported", d);
                        }
                        inner.set(inner.get() + hidden);
                        check_field(&f.headers, i)?;
                        if how == 4 {
                            let v = data(x, &mut f, &stat, &mut w, 0)?;
                            check_data(&v, &body.parts[i].content, &format!("field {}", i))?;
                        }
                        Ok(())
                    };
                    if err.is_none() {
                        if let Err(e) = go() {
                            err = Some(e);
                        }
                    }
                    inner.set(inner.get() + (stat.raised.get() - at));
                    i += 1;
                });
                if let Some(e) = err {
                    return Err(e);
                }
                let left = stat.raised.get() - before - inner.get();
                let mut due: Vec<Fault> = want.borrow_mut().drain(..left).collect();
                match r {
                    Ok(()) => {
                        for d in due {
                            ensure!(d.kind == std::io::ErrorKind::Interrupted, "swallowed", "the transport error {:?} was not reported", d);
                        }
                        break;
                    }
                    Err(e) => {
                        let last = match due.pop() {
                            Some(d) => d,
                            None => bail!("spurious-error", "foreach_entry failed with {} ({:?}) although the transport did not fail", e, e.kind()),
                        };
                        ensure!(e.kind() == last.kind, "kind", "the transport failed with {:?} but {:?} was reported", last.kind, e.kind());
                        x.state((i, 2, stat.pos.get()));
                    }
                }
            }
        }
        _ => {
            // owned chain: the request comes back with the error
            use multipart::server::ReadEntryResult::*;
            let mut cur = Multipart::with_body(src, &body.boundary[..]);
            'all: loop {
                let before = stat.raised.get();
                let r = cur.into_entry();
                let raised = stat.raised.get() - before;
                let mut due: Vec<Fault> = want.drain(..raised).collect();
                match r {
                    Entry(mut f) => {
                        check_field(&f.headers, i)?;
                        let v = data(x, &mut f, &stat, &mut want, if how == 6 { 1 } else { 3 })?;
                        if how == 6 {
                            check_data(&v, &body.parts[i].content, &format!("field {}", i))?;
                        }
                        i += 1;
                        cur = f.data.into_inner();
                    }
                    End(_) => break 'all,
                    Error(m, e) => {
                        let last = match due.pop() {
                            Some(d) => d,
                            None => bail!("spurious-error", "into_entry failed with {} although the transport did not fail", e),
                        };
                        ensure!(e.kind() == last.kind, "kind", "the transport failed with {:?} but {:?} was reported", last.kind, e.kind());
                        cur = m;
                    }
                }
                for d in due {
                    ensure!(d.kind == std::io::ErrorKind::Interrupted, "swallowed", "the transport error {:?} was not reported", d);
                }
                x.state((i, 3, stat.pos.get()));
            }
        }
    }
    ensure!(i == body.parts.len(), "lost-field", "only {} of {} fields were delivered", i, body.parts.len());
    Ok(())
}

fn fault_body(hdr: usize, len: usize, pat: &[u8]) -> Body {
    let mut p = Part::file("m", "f.bin", "image/png", [&filler(len)[..], pat].concat());
    if hdr > 0 {
        p.extra = format!("X-Fill: {}\r\n", "y".repeat(hdr));
    }
    Body::new("bnd", vec![Part::new("a", [&filler(len)[..], pat].concat()), p, Part::new("l", [pat, b"last"].concat())])
}

pub fn c06(th: bool) -> Vec<Group> {
    let mut g = vec![];
    let pats: [&'static [u8]; 5] = [b"", b"\r", b"\r\n", b"\r\n--b", b"-"];
    // one fault anywhere
    g.push(group("one", 2 * 4 * 5 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let hdr = *r.pick(&[0usize, 1200]);
        let len = *r.pick(&[0usize, 1060, 3000, 8150]);
        let pat = *r.pick(&pats);
        let small = r.take(2) == 1;
        let body = x.cached(o, || fault_body(hdr, len, pat));
        let n = body.bytes.len();
        let mut pos: Vec<usize> = vec![];
        for &(h, s, e) in &body.at {
            pos.extend(range(h.saturating_sub(8), h + 30));
            pos.extend((h..e).step_by(if th { 17 } else { 97 }));
            pos.extend(range(s.saturating_sub(10), s + 6));
            pos.extend(range(e.saturating_sub(10), e + 10));
        }
        pos.extend(range(n - 8, n + 1));
        pos.extend([0, 1, 1023, 1024, 1025, 2048, 8191, 8192, 8193]);
        pos.retain(|&p| p <= n);
        pos.sort();
        pos.dedup();
        let f = Fault { pos: *x.pick(&pos), kind: *x.pick(&KINDS) };
        let how = x.all(8);
        fault_run(x, &body, Source::new(body.bytes.clone()), vec![f], how, small)
    }));
    // two faults (or a fault repeated at the same place) near delimiters and headers
    g.push(group("two", 2 * 2 * 5 * 2, 0, move |x, o| {
        let mut r = Radix(o);
        let hdr = *r.pick(&[0usize, 1200]);
        let len = *r.pick(&[1060usize, 2100]);
        let pat = *r.pick(&pats);
        let small = r.take(2) == 1;
        let body = x.cached(o, || fault_body(hdr, len, pat));
        let mut pos: Vec<usize> = vec![];
        for &(h, s, e) in &body.at {
            pos.extend([h, h + 3, s - 2, s - 1, s, s + 1, e - 1, e, e + 1, e + 2, e + 3, e + 5, e + 7, e + 8]);
            if s - h > 1000 {
                pos.extend([h + 1023, h + 1030]);
            }
        }
        pos.retain(|&p| p <= body.bytes.len() && p > 1000);
        pos.sort();
        pos.dedup();
        let kinds = [std::io::ErrorKind::Interrupted, std::io::ErrorKind::TimedOut];
        let a = x.all(pos.len());
        let b = a + x.all(pos.len() - a);
        let f = vec![Fault { pos: pos[a], kind: *x.pick(&kinds) }, Fault { pos: pos[b], kind: *x.pick(&kinds) }];
        let how = x.all(8);
        let max = *x.pick(&[usize::MAX, 1024]);
        fault_run(x, &body, Source::new(body.bytes.clone()).max(max), f, how, small)
    }));
    // a fault before every small read
    g.push(group("every", 5 * 6, 0, move |x, o| {
        let mut r = Radix(o);
        let pat = *r.pick(&pats);
        let step = *r.pick(&[1usize, 7, 64, 300, 1024, 1500]);
        let body = x.cached(o, || fault_body(1200, 1060, pat));
        let kind = *x.pick(&KINDS);
        let phase = if step < 8 { 0 } else { x.all(4) * step / 4 };
        let f: Vec<Fault> = (phase..body.bytes.len() + 1).step_by(step).map(|pos| Fault { pos, kind }).collect();
        let how = x.all(8);
        let small = x.flag();
        fault_run(x, &body, Source::new(body.bytes.clone()), f, how, small)
    }));
    g
}

// ------------------------------------------------------------------ C07

type Want = Option<(String, Option<String>, Option<String>)>;

const FAKE: &[u8] = b"Content-Disposition: form-data; name=\"fake\"\r\n\r\nfake\r\n\r\nContent-Disposition: form-data; name=\"fake\"\r\n\r\nfake";

fn header_run(x: &X, pre: usize, block: &[u8], want: &Want, src_of: impl Fn(Source, usize, usize) -> Source) -> Res {
    let mut v = vec![];
    if pre > 0 {
        v.extend_from_slice(&filler(pre));
        v.extend_from_slice(b"\r\n");
    }
    v.extend_from_slice(b"--bnd\r\n");
    let h = v.len();
    v.extend_from_slice(block);
    let s = v.len();
    // what looks like a header is data nevertheless
    v.extend_from_slice(if want.is_some() { &b"content"[..] } else { FAKE });
    v.extend_from_slice(b"\r\n--bnd\r\nContent-Disposition: form-data; name=\"next\"\r\n\r\nx\r\n--bnd--\r\n");
    x.log(|| format!("headers {} expected {:?}", show(block), want));
    let src = src_of(Source::new(Rc::new(v)), h, s);
    let mut mp = Multipart::with_body(src, "bnd");
    let r = mp.read_entry();
    match (r, want) {
        (Err(_), None) => {
            let mut seen = 0;
            for _ in 0..4 {
                match mp.read_entry() {
                    Ok(Some(mut f)) => {
                        seen += 1;
                        ensure!(seen == 1 && headers_of(&f.headers) == ("next".into(), None, None), "invented", "after the malformed headers {} a field {:?} is delivered", show(block), f.headers);
                        let d = slurp(&mut f, 0).map_err(|e| Fail { key: "op-error".into(), msg: e.to_string() })?;
                        check_data(&d, b"x", "the field after the malformed one")?;
                    }
                    Ok(None) => break,
                    Err(e) => x.log(|| format!("then {}", e)),
                }
            }
        }
        (Err(e), Some(w)) => bail!("rejected", "valid headers {} (expected {:?}) were rejected: {}", show(block), w, e),
        (Ok(None), _) => bail!("early-end", "end reported instead of a field"),
        (Ok(Some(f)), None) => bail!("accepted", "malformed headers {} were accepted as {:?}", show(block), f.headers),
        (Ok(Some(mut f)), Some(w)) => {
            let got = headers_of(&f.headers);
            ensure!(got.0 == w.0, "name", "headers {}: name {:?}, sent {:?}", show(block), got.0, w.0);
            ensure!(got.1 == w.1, "filename", "headers {}: filename {:?}, sent {:?}", show(block), got.1, w.1);
            ensure!(got.2 == w.2, "content-type", "headers {}: content type {:?}, sent {:?}", show(block), got.2, w.2);
            let d = slurp(&mut f, 0).map_err(|e| Fail { key: "op-error".into(), msg: e.to_string() })?;
            check_data(&d, b"content", "content after the headers")?;
            let n = f.next_entry().unwrap_opt();
            ensure!(n.map_or(false, |n| &*n.headers.name == "next"), "next", "the following field was not delivered");
        }
    }
    x.state((h, block.len()));
    Ok(())
}

const QUOTED: [&str; 32] = [
    "a", "", "a b", "a;b", "a; b", "a;b;c", "a=b", "x; name=y", "x; filename=y", "x;name=y;filename=z", "name=", "filename=q", "\u{e9}\u{4e2d}\u{1f600}", "C:\\dir\\f.txt", "a\\", " lead", "trail ", "it's", "%22x%22", "a,b", "(x)", "<x>", ";", ";;", "=", "; ", "form-data",
    "a'b", "name", "filename", "\t", "very long value very long value very long value very long value very long value",
];
const BARE: [&str; 11] = ["a", "abc", "a-b_c.d", "\u{e9}", "name", "x=y", "C:\\f", "'a'", "`a`", "!#$%&'*+-.^_|~0", "it's"];
const CTS: [&str; 17] = [
    "multipart/mixed; boundary=AbCdE", "application/x-foo; V=Q; w=Zz", "image/svg+xml", "text/x-y; v=\"A b;C\"", "multipart/form-data",
    "text/plain", "image/png", "application/octet-stream", "text/plain; charset=utf-8", "text/html; charset=iso-8859-1", "multipart/mixed; boundary=inner", "application/vnd.api+json", "TEXT/PLAIN", "text/plain;charset=UTF-8", "application/x-foo; a=b; c=d", "video/mp4", "x-custom/x-type",
];

/// All orders of the elements of `v`.
fn perms(v: &[usize]) -> Vec<Vec<usize>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let h = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, h);
            out.push(p);
        }
    }
    out
}

fn recase(s: &str, how: usize) -> String {
    match how {
        0 => s.into(),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    }
}

pub fn c07(th: bool) -> Vec<Group> {
    let mut g = vec![];
    // names and filenames: every pair of values, orders, quoting, white space
    {
        // (text as sent, value)
        let mut vals: Vec<(String, String)> = QUOTED.iter().map(|q| (format!("\"{}\"", q), q.to_string())).collect();
        vals.extend(BARE.iter().map(|b| (b.to_string(), b.to_string())));
        let n = vals.len();
        g.push(group("params", (n * (n + 1)) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let name = r.pick(&vals).clone();
            let fi = r.take(n + 1);
            let filename = if fi == 0 { None } else { Some(vals[fi - 1].clone()) };
            let extra = *x.pick(&["", "size=3", "filename*=UTF-8''evil", "x=\"; name=evil; filename=evil\"", "flag", "xname=evil", "name2=\"evil\"", "xfilename=\"evil\""]);
            let ws = *x.pick(&["", " ", "  ", "\t"]);
            let mut ps: Vec<String> = vec![format!("name={}", name.0)];
            if let Some(ref f) = filename {
                ps.push(format!("filename={}", f.0));
            }
            if !extra.is_empty() {
                ps.push(extra.into());
            }
            let ids: Vec<usize> = (0..ps.len()).collect();
            let order = x.pick(&perms(&ids)).clone();
            let mut line = String::from("Content-Disposition: form-data");
            for i in order {
                line.push_str(&format!(";{}{}", ws, ps[i]));
            }
            if th && x.flag() {
                line.push(';');
            }
            let block = format!("{}\r\n\r\n", line);
            header_run(x, 0, block.as_bytes(), &Some((name.1, filename.map(|f| f.1), None)), |s, _, _| s)
        }));
    }
    // every character, and long values
    {
        let mut blocks: Vec<u64> = (0..0x3000 / 64).collect();
        blocks.extend((0x3000 / 64..0x110000 / 64).filter(|b| th || b % 64 == 0 || b % 64 == 63));
        g.push(group("characters", blocks.len() as u64, 0, move |x, o| {
            let o = blocks[o as usize];
            for c in o * 64..(o + 1) * 64 {
                let c = match char::from_u32(c as u32) {
                    Some(c) if !c.is_control() && c != '"' => c,
                    _ => continue,
                };
                for v in [c.to_string(), format!("{}b", c), format!("a{}", c), format!("a{}b", c)] {
                    let block = format!("Content-Disposition: form-data; name=\"{}\"; filename=\"{}\"\r\n\r\n", v, v);
                    header_run(x, 0, block.as_bytes(), &Some((v.clone(), Some(v), None)), |s, _, _| s)?;
                }
            }
            Ok(())
        }));
        let mut lens = vec![63usize, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1950, 2000, 2600, 3900, 4095, 4096, 4097, 7000, 7800];
        if th {
            lens.extend(1..1500);
        }
        let pieces = ["n", "\u{e9}", "\u{4e2d}", "\u{1F600}", "; ", "a/b.", "\u{e9}a\u{1F600}"];
        g.push(group("long", lens.len() as u64 * pieces.len() as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let n = *r.pick(&lens);
            let v: String = r.pick(&pieces).chars().cycle().take(n).collect();
            let how = x.all(4);
            if v.len() * if how == 2 { 2 } else { 1 } > 7800 {
                return Ok(());
            }
            let (name, file) = match how {
                0 => (v.clone(), None),
                1 => ("n".to_string(), Some(v.clone())),
                2 => (v.clone(), Some(v.clone())),
                // a long line besides
                _ => ("n".to_string(), None),
            };
            let mut block = format!("Content-Disposition: form-data; name=\"{}\"", name);
            if let Some(ref f) = file {
                block += &format!("; filename=\"{}\"", f);
            }
            if how == 3 {
                block = format!("X-Other: {}\r\n{}", v, block);
            }
            block += "\r\nContent-Type: text/plain\r\n\r\n";
            let max = *x.pick(&[usize::MAX, 1000, 1]);
            header_run(x, *x.pick(&[0, 1000]), block.as_bytes(), &Some((name, file, Some("text/plain".into()))), |s, _, _| s.max(max))
        }));
    }
    // header names, order, content types, other headers
    {
        let others = ["", "X-Other: y\r\n", "Content-Transfer-Encoding: binary\r\n", "Content-Length: 7\r\n", "X-Content-Disposition: form-data; name=\"evil\"\r\n", "Content-Dispositio: form-data; name=\"evil\"\r\n", "Content-Type-X: evil/evil\r\n", "Content-Disposition-X: form-data; name=\"evil\"\r\n", "Empty:\r\n"];
        let no = others.len();
        g.push(group("order", (CTS.len() + 1) as u64 * (no * no) as u64, 0, move |x, o| {
            let mut r = Radix(o);
            let ct = r.take(CTS.len() + 1);
            let (o1, o2) = (*r.pick(&others), *r.pick(&others));
            let c1 = x.all(4);
            let c2 = x.all(4);
            let ws = *x.pick(&[" ", "", "  ", "\t"]);
            let cd = format!("{}:{}form-data; name=\"n\"; filename=\"f\"\r\n", recase("Content-Disposition", c1), ws);
            let mut lines = vec![cd];
            if ct > 0 {
                lines.push(format!("{}:{}{}\r\n", recase("Content-Type", c2), ws, CTS[ct - 1]));
            } else if c2 > 0 {
                return Ok(());
            }
            lines.extend([o1, o2].iter().filter(|l| !l.is_empty()).map(|l| recase(&l[..l.find(':').unwrap()], c1) + &l[l.find(':').unwrap()..]));
            let ids: Vec<usize> = (0..lines.len()).collect();
            let order = x.pick(&perms(&ids)).clone();
            let block: String = order.iter().map(|&i| &lines[i][..]).collect::<String>() + "\r\n";
            let want_ct = if ct > 0 { Some(CTS[ct - 1].parse::<mime::Mime>().unwrap().to_string()) } else { None };
            header_run(x, 0, block.as_bytes(), &Some(("n".into(), Some("f".into()), want_ct)), |s, _, _| s)
        }));
    }
    // letter case of the parameters' names, white space around them and the type, several of a kind
    g.push(group("spelling", 4 * 4, 0, move |x, o| {
        let mut r = Radix(o);
        let (c1, c2) = (r.take(4), r.take(4));
        let ws = ["", " ", "\t", "  "];
        let before = *x.pick(&ws);
        let after = *x.pick(&ws);
        let end = *x.pick(&["", ";", "; ", " "]);
        let name = *x.pick(&[("\"n\"", "n"), ("n", "n"), ("\"a; filename=z\"", "a; filename=z")]);
        let file = *x.pick(&[None, Some(("\"f.txt\"", "f.txt")), Some(("'f'", "'f'")), Some(("\"\"", ""))]);
        let mut ps = vec![format!("{}={}", recase("name", c1), name.0)];
        if let Some(f) = file {
            ps.push(format!("{}={}", recase("filename", c2), f.0));
        } else if c2 > 0 {
            return Ok(());
        }
        if x.flag() {
            ps.reverse();
        }
        let line: String = ps.iter().map(|p| format!("{};{}{}", before, after, p)).collect();
        let block = format!("Content-Disposition: form-data{}{}\r\n\r\n", line, end);
        header_run(x, 0, block.as_bytes(), &Some((name.1.into(), file.map(|f| f.1.into()), None)), |s, _, _| s)
    }));
    // malformed
    {
        let bad: [&[u8]; 26] = [
            b"\r\n", b"X-Other: y\r\n\r\n", b"Content-Type: text/plain\r\n\r\n", b"Content-Disposition: form-data\r\n\r\n", b"Content-Disposition: form-data;\r\n\r\n", b"Content-Disposition: form-data; filename=\"f\"\r\n\r\n",
            b"Content-Disposition: form-data; filename=\"x; name=y\"\r\n\r\n", b"Content-Disposition: attachment; name=\"n\"\r\n\r\n", b"Content-Disposition: ; name=\"n\"\r\n\r\n", b"Content-Disposition: name=\"n\"\r\n\r\n", b"Content-Disposition:\r\n\r\n",
            b"Content-Disposition: form-data; name=\"n\"\r\nContent-Type: nonsense\r\n\r\n", b"Content-Disposition: form-data; name=\"n\"\r\nContent-Type:\r\n\r\n", b"Content-Disposition: form-data; name=\"n\"\r\nContent-Type: /plain\r\n\r\n",
            b"Content-Disposition: form-data; name=\"n\"\r\nContent-Type: text/plain; charset\r\n\r\n", b"Content-Disposition form-data; name=\"n\"\r\n\r\n", b"Content-Disposition: form-data; name=\"\xff\"\r\n\r\n", b"Content-Disposition: form-data; name=\"n\0\"\r\n\r\n",
            b"A: 1\r\nB: 2\r\nC: 3\r\nD: 4\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\n", b"Content-Disposition: form-data; xname=\"n\"\r\n\r\n", b"Content-Disposition: form-data; filename=\"n\"; xname=y\r\n\r\n", b"Content-Disposition: form-data; filename=name=n\r\n\r\n", b"X-Content-Disposition: form-data; name=\"n\"\r\n\r\n", b": form-data; name=\"n\"\r\n\r\n",
            b"Content-Disposition: form-data2; name=\"n\"\r\n\r\n", b"Content-Disposition: form-data; name\r\n\r\n",
        ];
        g.push(group("malformed", bad.len() as u64, 0, move |x, o| {
            let block = bad[o as usize];
            let pre = *x.pick(&[0usize, 1040]);
            let max = *x.pick(&[usize::MAX, 1, 1024]);
            let pos = range(0, if pre > 0 { block.len() + 12 } else { 0 });
            let cuts = x.subset(&pos, 1);
            header_run(x, pre, block, &None, |s, h, _| s.max(max).cuts(cuts.iter().map(|c| h - 6 + c).collect()))
        }));
    }
    // splits of the header block
    {
        let heads: [(&'static str, &'static str, Option<&'static str>, Option<&'static str>); 6] = [
            ("Content-Disposition: form-data; name=\"n\"\r\n\r\n", "n", None, None),
            ("Content-Disposition: form-data; name=\"n\"; filename=\"a; name=b.txt\"\r\nContent-Type: text/plain\r\n\r\n", "n", Some("a; name=b.txt"), Some("text/plain")),
            ("content-type: text/html; charset=utf-8\r\nCONTENT-DISPOSITION: form-data; filename=f; name=\"\u{e9}\"\r\n\r\n", "\u{e9}", Some("f"), Some("text/html; charset=utf-8")),
            ("Content-Type: image/png\r\nX-A: b\r\nContent-Disposition: form-data; filename=\"\"; name=\"\"\r\nX-B:\r\n\r\n", "", Some(""), Some("image/png")),
            ("Content-Disposition: form-data; name=\"--bn\"; filename=\"-\"\r\n\r\n", "--bn", Some("-"), None),
            ("Content-Disposition: form-data; name=\"\u{4e2d}\u{6587}\"\r\nContent-Type: application/json\r\n\r\n", "\u{4e2d}\u{6587}", None, Some("application/json")),
        ];
        g.push(group("split", 6 * 120, 0, move |x, o| {
            let mut r = Radix(o);
            let h = r.pick(&heads);
            let p = 900 + r.take(120) * 2;
            let block = h.0.as_bytes();
            let pos = range(0, block.len() + 14);
            let cuts = x.subset(&pos, if th { 3 } else { 2 });
            let pre = p;
            header_run(x, pre, block, &Some((h.1.into(), h.2.map(|s| s.into()), h.3.map(|s| s.into()))), |s, hs, _| s.cuts(cuts.iter().map(|c| hs - 8 + c).collect()))
        }));
    }
    g
}
