//! HTTP client, snappy and protobuf as Prometheus uses them, independent of the code under test.
use crate::fw::*;
use crate::gen::Ls;
use crate::world::{Answer, Points};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::time::Duration;

// ---------------------------------------------------------------------------------------------
// protobuf

pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn key(num: u64, wt: u64, out: &mut Vec<u8>) {
    varint(num << 3 | wt, out)
}
pub fn bytes(num: u64, b: &[u8], out: &mut Vec<u8>) {
    key(num, 2, out);
    varint(b.len() as u64, out);
    out.extend_from_slice(b);
}
fn int(num: u64, v: i64, explicit: bool, out: &mut Vec<u8>) {
    if v != 0 || explicit {
        key(num, 0, out);
        varint(v as u64, out);
    }
}
/// A field the schema does not know, of any of the wire types.
fn unknown(e: &mut Enc, out: &mut Vec<u8>) {
    match e.pick(8) {
        0 => int(15, 7, true, out),
        1 => bytes(100, b"\x08\x01more", out),
        2 => {
            key(19, 1, out);
            out.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
        }
        3 => {
            key(31, 5, out);
            out.extend_from_slice(&[1, 2, 3, 4]);
        }
        _ => {}
    }
}

/// Choices an encoder is free in, drawn from a number.
pub struct Enc(u64);
impl Enc {
    pub fn new(n: u32) -> Enc {
        Enc(n as u64)
    }
    /// 0 in `of - 1` of `of` times the whole encoding is the plain one
    fn pick(&mut self, of: u64) -> u64 {
        if self.0 == 0 {
            return u64::MAX;
        }
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % of
    }
}

#[derive(Clone, Debug)]
pub struct WSeries {
    pub labels: Vec<(String, String)>,
    pub samples: Vec<(i64, u64)>,
}
#[derive(Clone, Debug)]
pub struct WQuery {
    pub start: i64,
    pub end: i64,
    /// type, name, value
    pub matchers: Vec<(i64, String, String)>,
}

pub fn enc_write(series: &[WSeries], enc: u32) -> Vec<u8> {
    let mut e = Enc::new(enc);
    let mut out = vec![];
    for s in series {
        let mut m = vec![];
        let mut labels = vec![];
        for (n, v) in &s.labels {
            let mut l = vec![];
            if e.pick(4) == 0 {
                bytes(2, v.as_bytes(), &mut l);
                bytes(1, n.as_bytes(), &mut l);
            } else {
                bytes(1, n.as_bytes(), &mut l);
                unknown(&mut e, &mut l);
                if !v.is_empty() || e.pick(2) == 0 {
                    bytes(2, v.as_bytes(), &mut l);
                }
            }
            bytes(1, &l, &mut labels);
        }
        let mut samples = vec![];
        for (t, b) in &s.samples {
            let mut p = vec![];
            let flip = e.pick(4) == 0;
            if flip {
                int(2, *t, false, &mut p);
            }
            if *b != 0 || e.pick(2) == 0 {
                key(1, 1, &mut p);
                p.extend_from_slice(&b.to_le_bytes());
            }
            unknown(&mut e, &mut p);
            if !flip {
                let explicit = e.pick(2) == 0;
                int(2, *t, explicit, &mut p);
            }
            bytes(2, &p, &mut samples);
        }
        if e.pick(4) == 0 {
            m.extend(samples);
            m.extend(labels);
        } else {
            m.extend(labels);
            unknown(&mut e, &mut m);
            m.extend(samples);
        }
        bytes(1, &m, &mut out);
        unknown(&mut e, &mut out);
    }
    if e.pick(4) == 0 {
        // metadata, as later versions of Prometheus send along
        bytes(3, b"\x08\x01\x12\x04name", &mut out);
    }
    out
}

pub fn enc_read(queries: &[WQuery], enc: u32) -> Vec<u8> {
    let mut e = Enc::new(enc);
    let mut out = vec![];
    if e.pick(4) == 0 {
        int(2, 0, true, &mut out);
    }
    for q in queries {
        let mut m = vec![];
        let mut ms = vec![];
        for (t, n, v) in &q.matchers {
            let mut x = vec![];
            let explicit = e.pick(3) == 0;
            int(1, *t, explicit, &mut x);
            bytes(2, n.as_bytes(), &mut x);
            unknown(&mut e, &mut x);
            bytes(3, v.as_bytes(), &mut x);
            bytes(3, &x, &mut ms);
        }
        let early = e.pick(4) == 0;
        if early {
            m.extend(&ms);
        }
        let explicit = e.pick(2) == 0;
        int(1, q.start, explicit, &mut m);
        int(2, q.end, explicit, &mut m);
        if !early {
            m.extend(&ms);
        }
        unknown(&mut e, &mut m);
        if e.pick(3) == 0 {
            let mut h = vec![];
            int(1, [15_000, 0, 1, 3_600_000, -1][e.pick(5) as usize], false, &mut h);
            let func: &[u8] = [&b"rate"[..], b"series", b"", b"max_over_time", "\u{fc}".as_bytes()][e.pick(5) as usize];
            bytes(2, func, &mut h);
            // hints may be wider or narrower than what is asked for, and do not change it
            let (start, end) = match e.pick(5) {
                0 | 1 => (q.start, q.end),
                2 => (q.start.saturating_add(1), q.end.saturating_sub(1)),
                3 => (q.start.saturating_sub(300_000), q.end.saturating_add(1)),
                _ => (0, 0),
            };
            int(3, start, false, &mut h);
            int(4, end, false, &mut h);
            if e.pick(3) == 0 {
                bytes(5, b"job", &mut h);
                int(6, 1, false, &mut h);
                int(7, 60_000, false, &mut h);
            }
            bytes(4, &h, &mut m);
        }
        bytes(1, &m, &mut out);
    }
    if e.pick(4) == 0 {
        key(2, 0, &mut out);
        varint(1, &mut out);
    }
    out
}

/// What a message says, or that it cannot be one, or that decoders may differ about it.
#[derive(Debug, PartialEq)]
pub enum Dec<T> {
    Valid(T),
    Invalid,
    Unclear,
}

pub enum F<'a> {
    Int(u64),
    Fix(u64),
    Bytes(&'a [u8]),
    Other,
}

/// The fields of a message; None: cannot be decoded; Some(Err): decoders may differ
pub fn fields(b: &[u8]) -> Dec<Vec<(u64, F<'_>)>> {
    let mut out = vec![];
    let mut i = 0;
    let mut unclear = false;
    fn vint(b: &[u8], i: &mut usize, unclear: &mut bool) -> Option<u64> {
        let mut v = 0u64;
        for n in 0..10 {
            let x = *b.get(*i)?;
            *i += 1;
            if n == 9 && x > 1 {
                *unclear = true;
            }
            v |= ((x & 0x7f) as u64).checked_shl(7 * n).unwrap_or(0);
            if x < 0x80 {
                return Some(v);
            }
        }
        // more than ten bytes
        None
    }
    // decoders may differ about what comes after something they differ about
    macro_rules! bad {
        () => {
            return if unclear { Dec::Unclear } else { Dec::Invalid }
        };
    }
    while i < b.len() {
        let at = i;
        let k = match vint(b, &mut i, &mut unclear) {
            Some(k) => k,
            None => bad!(),
        };
        if k >> 3 == 0 || k > u32::MAX as u64 || i - at > 5 {
            unclear = true;
        }
        match k & 7 {
            0 => match vint(b, &mut i, &mut unclear) {
                Some(v) => out.push((k >> 3, F::Int(v))),
                None => bad!(),
            },
            1 => {
                if b.len() < i + 8 {
                    bad!();
                }
                out.push((k >> 3, F::Fix(u64::from_le_bytes(b[i..i + 8].try_into().unwrap()))));
                i += 8;
            }
            2 => {
                let n = match vint(b, &mut i, &mut unclear) {
                    Some(n) => n,
                    None => bad!(),
                };
                unclear |= n > i32::MAX as u64;
                if n > (b.len() - i) as u64 {
                    bad!();
                }
                out.push((k >> 3, F::Bytes(&b[i..i + n as usize])));
                i += n as usize;
            }
            5 => {
                if b.len() < i + 4 {
                    bad!();
                }
                out.push((k >> 3, F::Other));
                i += 4;
            }
            3 | 4 => return Dec::Unclear, // groups
            _ => bad!(),
        }
    }
    if unclear {
        Dec::Unclear
    } else {
        Dec::Valid(out)
    }
}

macro_rules! get {
    ($e:expr, $worst:ident) => {
        match $e {
            Dec::Valid(v) => v,
            Dec::Invalid => {
                $worst = 2;
                continue;
            }
            Dec::Unclear => {
                $worst = $worst.max(1);
                continue;
            }
        }
    };
}

fn text(b: &[u8]) -> Dec<String> {
    match std::str::from_utf8(b) {
        Ok(s) => Dec::Valid(s.to_string()),
        Err(_) => Dec::Invalid,
    }
}

fn done<T>(worst: u8, v: T) -> Dec<T> {
    match worst {
        0 => Dec::Valid(v),
        1 => Dec::Unclear,
        _ => Dec::Invalid,
    }
}

fn dec_pair(b: &[u8]) -> Dec<(String, String)> {
    let mut w = 0u8;
    let mut r = (String::new(), String::new());
    for _once in 0..1 {
        for (n, f) in get!(fields(b), w) {
            match (n, f) {
                (1, F::Bytes(x)) => r.0 = get!(text(x), w),
                (2, F::Bytes(x)) => r.1 = get!(text(x), w),
                (1, _) | (2, _) => w = w.max(1),
                _ => {}
            }
        }
    }
    done(w, r)
}

fn dec_sample(b: &[u8]) -> Dec<(i64, u64)> {
    let mut w = 0u8;
    let mut r = (0, 0);
    for _once in 0..1 {
        for (n, f) in get!(fields(b), w) {
            match (n, f) {
                (1, F::Fix(x)) => r.1 = x,
                (2, F::Int(x)) => r.0 = x as i64,
                (1, _) | (2, _) => w = w.max(1),
                _ => {}
            }
        }
    }
    done(w, r)
}

fn dec_series(b: &[u8]) -> Dec<WSeries> {
    let mut w = 0u8;
    let mut r = WSeries { labels: vec![], samples: vec![] };
    for _once in 0..1 {
        for (n, f) in get!(fields(b), w) {
            match (n, f) {
                (1, F::Bytes(x)) => r.labels.push(get!(dec_pair(x), w)),
                (2, F::Bytes(x)) => r.samples.push(get!(dec_sample(x), w)),
                (1, _) | (2, _) => w = w.max(1),
                _ => {}
            }
        }
    }
    done(w, r)
}

pub fn dec_write(b: &[u8]) -> Dec<Vec<WSeries>> {
    let mut w = 0u8;
    let mut r = vec![];
    for _once in 0..1 {
        for (n, f) in get!(fields(b), w) {
            match (n, f) {
                (1, F::Bytes(x)) => r.push(get!(dec_series(x), w)),
                (1, _) => w = w.max(1),
                _ => {}
            }
        }
    }
    done(w, r)
}

pub fn dec_read(b: &[u8]) -> Dec<Vec<WQuery>> {
    let mut w = 0u8;
    let mut r = vec![];
    for _once in 0..1 {
        for (n, f) in get!(fields(b), w) {
            match (n, f) {
                (1, F::Bytes(x)) => {
                    let mut q = WQuery { start: 0, end: 0, matchers: vec![] };
                    for (n, f) in get!(fields(x), w) {
                        match (n, f) {
                            (1, F::Int(v)) => q.start = v as i64,
                            (2, F::Int(v)) => q.end = v as i64,
                            (3, F::Bytes(m)) => {
                                let mut t = (0, String::new(), String::new());
                                for (n, f) in get!(fields(m), w) {
                                    match (n, f) {
                                        (1, F::Int(v)) => {
                                            t.0 = v as i64;
                                            if !(0..4).contains(&t.0) {
                                                w = w.max(1);
                                            }
                                        }
                                        (2, F::Bytes(s)) => t.1 = get!(text(s), w),
                                        (3, F::Bytes(s)) => t.2 = get!(text(s), w),
                                        (1, _) | (2, _) | (3, _) => w = w.max(1),
                                        _ => {}
                                    }
                                }
                                q.matchers.push(t);
                            }
                            (4, F::Bytes(h)) => {
                                for (n, f) in get!(fields(h), w) {
                                    match (n, f) {
                                        (1, F::Int(_)) | (3, F::Int(_)) | (4, F::Int(_)) => {}
                                        (2, F::Bytes(s)) => {
                                            get!(text(s), w);
                                        }
                                        (1, _) | (2, _) | (3, _) | (4, _) => w = w.max(1),
                                        _ => {}
                                    }
                                }
                            }
                            (1, _) | (2, _) | (3, _) | (4, _) => w = w.max(1),
                            _ => {}
                        }
                    }
                    r.push(q);
                }
                (2, F::Int(v)) if v < 2 => {}
                (1, _) | (2, _) => w = w.max(1),
                _ => {}
            }
        }
    }
    done(w, r)
}

/// The results of a read response. Series come with labels in the order sent.
pub fn dec_response(b: &[u8]) -> Option<Vec<Vec<WSeries>>> {
    let mut out = vec![];
    match fields(b) {
        Dec::Valid(fs) => {
            for (n, f) in fs {
                if let (1, F::Bytes(x)) = (n, f) {
                    match dec_write(x) {
                        Dec::Valid(s) => out.push(s),
                        _ => return None,
                    }
                }
            }
            Some(out)
        }
        _ => None,
    }
}

pub fn snap_enc(b: &[u8]) -> Vec<u8> {
    snap::raw::Encoder::new().compress_vec(b).unwrap()
}
pub fn snap_dec(b: &[u8]) -> Option<Vec<u8>> {
    snap::raw::Decoder::new().decompress_vec(b).ok()
}

/// One result of a read response as an answer; checks order on the way.
pub fn answer(series: &[WSeries]) -> R<Answer> {
    let mut out = Answer::new();
    for s in series {
        let mut ls: Ls = s.labels.clone();
        if ls.windows(2).any(|w| w[0].0 > w[1].0) {
            return fail("label-order", format!("labels are not sorted by name: {:?}", ls));
        }
        ls.sort();
        let pts: Points = s.samples.iter().map(|p| (p.0 as u64, p.1)).collect();
        if out.insert(ls.clone(), pts).is_some() {
            return fail("series-twice", format!("series {:?} occurs twice in a result", ls));
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------------------------------------
// HTTP

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Transfer {
    Length,
    /// with chunks of this many bytes
    Chunked(u16),
    /// the length, and the client asks to be told to continue
    Expect,
}

pub fn request(method: &str, path: &str, body: &[u8], how: Transfer, close: bool) -> Vec<u8> {
    let mut out = format!(
        "{} {} HTTP/1.1\r\nHost: 127.0.0.1\r\nUser-Agent: Prometheus/2.13.1\r\nContent-Encoding: snappy\r\nContent-Type: application/x-protobuf\r\n",
        method, path
    )
    .into_bytes();
    if close {
        out.extend_from_slice(b"Connection: close\r\n");
    }
    match how {
        Transfer::Length | Transfer::Expect => {
            if how == Transfer::Expect {
                out.extend_from_slice(b"Expect: 100-continue\r\n");
            }
            out.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            out.extend_from_slice(body);
        }
        Transfer::Chunked(n) => {
            out.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in body.chunks(n.max(1) as usize) {
                out.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                out.extend_from_slice(c);
                out.extend_from_slice(b"\r\n");
            }
            out.extend_from_slice(b"0\r\n\r\n");
        }
    }
    out
}

#[derive(Debug)]
pub struct Resp {
    pub status: u16,
    pub body: Vec<u8>,
}

pub struct Conn {
    s: TcpStream,
    buf: Vec<u8>,
}

pub const WAIT: Duration = Duration::from_secs(20);

impl Conn {
    pub fn open(port: u16) -> std::io::Result<Conn> {
        let s = TcpStream::connect_timeout(&([127, 0, 0, 1], port).into(), WAIT)?;
        s.set_read_timeout(Some(WAIT))?;
        s.set_write_timeout(Some(WAIT))?;
        s.set_nodelay(true)?;
        Ok(Conn { s, buf: vec![] })
    }
    pub fn send(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.s.write_all(b)
    }
    pub fn end(&mut self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
    /// Close with a reset.
    pub fn reset(self) {
        use std::os::fd::AsRawFd;
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
        }
    }
    fn more(&mut self) -> std::io::Result<()> {
        let mut b = [0u8; 16384];
        // else the second half of a response may wait for 40 ms
        let on: libc::c_int = 1;
        unsafe {
            use std::os::fd::AsRawFd;
            libc::setsockopt(self.s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &on as *const _ as *const _, 4);
        }
        match self.s.read(&mut b)? {
            0 => Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "closed")),
            n => {
                self.buf.extend_from_slice(&b[..n]);
                Ok(())
            }
        }
    }
    fn line(&mut self) -> std::io::Result<String> {
        loop {
            if let Some(i) = self.buf.windows(2).position(|w| w == b"\r\n") {
                let l: Vec<u8> = self.buf.drain(..i + 2).collect();
                return Ok(String::from_utf8_lossy(&l[..i]).to_string());
            }
            self.more()?;
        }
    }
    fn take(&mut self, n: usize) -> std::io::Result<Vec<u8>> {
        while self.buf.len() < n {
            self.more()?;
        }
        Ok(self.buf.drain(..n).collect())
    }
    pub fn response(&mut self, head: bool) -> std::io::Result<Resp> {
        loop {
            let first = self.line()?;
            let status: u16 = first.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, first.clone()))?;
            let (mut len, mut chunked) = (None, false);
            loop {
                let l = self.line()?;
                if l.is_empty() {
                    break;
                }
                let l = l.to_ascii_lowercase();
                if let Some(v) = l.strip_prefix("content-length:") {
                    len = v.trim().parse::<usize>().ok();
                }
                if l.starts_with("transfer-encoding:") && l.contains("chunked") {
                    chunked = true;
                }
            }
            if status == 100 {
                continue;
            }
            let mut body = vec![];
            if head || status == 204 || status == 304 {
            } else if chunked {
                loop {
                    let l = self.line()?;
                    let n = usize::from_str_radix(l.split(';').next().unwrap().trim(), 16).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
                    body.extend(self.take(n)?);
                    self.line()?;
                    if n == 0 {
                        break;
                    }
                }
            } else if let Some(n) = len {
                body = self.take(n)?;
            } else {
                loop {
                    match self.more() {
                        Ok(()) => {}
                        Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => break,
                        Err(e) => return Err(e),
                    }
                }
                body = std::mem::take(&mut self.buf);
            }
            return Ok(Resp { status, body });
        }
    }
}
