//! Message data: stream (unstuffing), sink (stuffing), push-back.
use crate::frame::*;
use bytes::{Bytes, BytesMut};
use futures::prelude::*;
use futures::task::{noop_waker, Context, Poll};
use smtp_message::{DataSink, DataStream, Prependable, StreamExt as SmtpExt};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::pin::Pin;
use std::rc::Rc;

/// A connection that delivers the given packets (None = not ready) and records how it was polled.
pub struct Conn {
    pub q: VecDeque<Option<Vec<u8>>>,
    pub polls: Rc<RefCell<Vec<String>>>,
    pub ended: bool,
}
impl Conn {
    pub fn new(q: Vec<Option<Vec<u8>>>) -> Conn {
        Conn {
            q: q.into(),
            polls: Rc::new(RefCell::new(vec![])),
            ended: false,
        }
    }
}
impl Stream for Conn {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<BytesMut>> {
        if self.ended {
            self.polls.borrow_mut().push("poll after end".into());
            return Poll::Ready(None);
        }
        match self.q.pop_front() {
            None => {
                self.ended = true;
                Poll::Ready(None)
            }
            Some(None) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(Some(b)) => Poll::Ready(Some(BytesMut::from(&b[..]))),
        }
    }
}

/// Reference: unstuff line by line. Some((data, rest)) or None without a terminating line.
pub fn ref_decode(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut out = vec![];
    let mut i = 0;
    loop {
        // i is at the start of a line; the line runs up to and including its CRLF
        let e = b[i..]
            .windows(2)
            .position(|w| w == b"\r\n")
            .map(|p| i + p + 2);
        let line = &b[i..e.unwrap_or(b.len())];
        if line == b".\r\n" {
            return Some((out, b[i + 3..].to_vec()));
        }
        out.extend_from_slice(if line.first() == Some(&b'.') {
            &line[1..]
        } else {
            line
        });
        match e {
            None => return None,
            Some(e) => i = e,
        }
    }
}
/// What may already be given out when no terminator came (everything decided)
fn ref_prefix(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    loop {
        let e = b[i..]
            .windows(2)
            .position(|w| w == b"\r\n")
            .map(|p| i + p + 2);
        let line = &b[i..e.unwrap_or(b.len())];
        out.extend_from_slice(if line.first() == Some(&b'.') {
            &line[1..]
        } else {
            line
        });
        match e {
            None => return out,
            Some(e) => i = e,
        }
    }
}
pub fn ref_stuff(m: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for i in 0..m.len() {
        if m[i] == b'.' && (i == 0 || (i >= 2 && &m[i - 2..i] == b"\r\n")) {
            out.push(b'.');
        }
        out.push(m[i]);
    }
    out
}
pub fn ref_term(m: &[u8]) -> &'static [u8] {
    if m.is_empty() || m.ends_with(b"\r\n") {
        b".\r\n"
    } else {
        b"\r\n.\r\n"
    }
}

pub fn rand_text(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = rng.below(max + 1);
    let mut v = vec![];
    let style = rng.below(4);
    while v.len() < n {
        match style {
            0 => v.push(*rng.pick(b"\r\n.a")),
            1 => v.extend_from_slice(*rng.pick(&[
                &b"\r\n"[..],
                b".",
                b"\r\n.",
                b"..",
                b"a",
                b"\r",
                b"\n",
                b"\r\n..",
                b"xyz",
                b".\r",
                b"\r\r\n",
                b"\n.",
            ])),
            2 => v.push(rng.next() as u8),
            _ => {
                let k = rng.below(40);
                for _ in 0..k {
                    v.push(*rng.pick(b"abc .\t"))
                }
                v.extend_from_slice(b"\r\n");
            }
        }
    }
    v.truncate(n);
    v
}
pub fn rand_split(rng: &mut Rng, b: &[u8], pend: bool) -> Vec<Option<Vec<u8>>> {
    let mut q = vec![];
    let mut i = 0;
    let mode = rng.below(4);
    while i < b.len() {
        let k = match mode {
            0 => 1,
            1 => 1 + rng.below(3),
            2 => 1 + rng.below(b.len()),
            _ => 1 + rng.below(9),
        };
        let e = (i + k).min(b.len());
        if rng.one_in(6) {
            q.push(Some(vec![]));
        }
        if pend && rng.one_in(4) {
            q.push(None);
        }
        q.push(Some(b[i..e].to_vec()));
        i = e;
    }
    if rng.one_in(6) {
        q.push(Some(vec![]));
    }
    if pend && rng.one_in(4) {
        q.push(None);
    }
    q
}
pub fn show_q(q: &[Option<Vec<u8>>]) -> String {
    q.iter()
        .map(|x| match x {
            None => "pending".to_string(),
            Some(b) => format!("\"{}\"", show(b)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn drain<S: Stream<Item = BytesMut> + Unpin>(
    s: &mut S,
    limit: usize,
) -> Result<Vec<u8>, String> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut out = vec![];
    for _ in 0..limit {
        match Pin::new(&mut *s).poll_next(&mut cx) {
            Poll::Pending => {}
            Poll::Ready(None) => return Ok(out),
            Poll::Ready(Some(b)) => out.extend_from_slice(&b),
        }
    }
    Err(format!("stream did not end after {} polls", limit))
}

pub const RULE_D: &str = "bytes with 1-2 messages, cut into packets with empty packets and pending polls; non-trivial: contains CR LF or a dot; distinct by packets";
fn one_stream(q: &[Option<Vec<u8>>], pre: Option<&[u8]>) -> Result<(), String> {
    let mut all: Vec<u8> = pre.map(|x| x.to_vec()).unwrap_or_default();
    for x in q.iter().flatten() {
        all.extend_from_slice(x);
    }
    let limit = 10 + 4 * (all.len() + q.len());
    let conn = Conn::new(q.to_vec());
    let mut src = conn.prependable();
    if let Some(p) = pre {
        src.prepend(BytesMut::from(p))
            .map_err(|_| "prepend refused on a fresh stream".to_string())?;
    }
    let mut rest = all.clone();
    for round in 0..3 {
        let exp = ref_decode(&rest);
        let mut ds = DataStream::new(&mut src);
        if ds.was_completed() {
            return Err("completed before anything was read".into());
        }
        let out = drain(&mut ds, limit)?;
        match &exp {
            Some((o, _)) => {
                want_b("data", &out, o)?;
                let again = drain(&mut ds, 2)?;
                want_b("data after the end", &again, b"")?;
                want("complete", ds.complete(), Ok(()))?;
            }
            None => {
                let p = ref_prefix(&rest);
                if out.len() > p.len() || out[..] != p[..out.len()] {
                    return want_b("data of a truncated message (prefix of)", &out, &p);
                }
                want("complete after early end", ds.complete(), Err(()))?;
            }
        }
        if !ds.was_completed() {
            return Err("not completed after complete()".into());
        }
        match exp {
            None => return Ok(()),
            Some((_, r)) => {
                rest = r;
                if round == 2 || ref_decode(&rest).is_none() {
                    let left = drain(&mut src, limit)?;
                    return want_b("bytes after the terminator", &left, &rest);
                }
            }
        }
    }
    Ok(())
}
pub fn stream(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    for t in big(&mut rng.clone()) {
        for (tail, sizes) in [&b"\r\n.\r\n"[..], b"\r\n.\r\nNOOP\r\n", b""].iter().flat_map(|x| SIZES.iter().map(move |y| (*x, *y))) {
            let t = [&t[..], tail].concat();
            let q: Vec<Option<Vec<u8>>> = cut(&t, sizes).into_iter().map(Some).collect();
            rec.case(&format!("packets of {:?} bytes: \"{}\"", sizes, show(&t)), true, || one_stream(&q, None))?;
        }
    }
    // exhaustive: every string over {CR, LF, dot, a} up to length 6, every split
    'ex: for len in 0..=6usize {
        for code in 0..4usize.pow(len as u32) {
            let mut s = vec![];
            let mut c = code;
            for _ in 0..len {
                s.push(b"\r\n.a"[c % 4]);
                c /= 4;
            }
            for tail in &[&b""[..], b".\r\n", b"\r\n.\r\nQ"] {
                let mut t = s.clone();
                t.extend_from_slice(tail);
                let cuts = if len <= 4 {
                    1usize << (t.len().max(1) - 1)
                } else {
                    1usize << (len.max(1) - 1)
                };
                for cut in 0..cuts.min(64) {
                    let mut q = vec![];
                    let mut cur = vec![];
                    for (i, b) in t.iter().enumerate() {
                        cur.push(*b);
                        if cut >> i & 1 == 1 {
                            q.push(Some(std::mem::take(&mut cur)));
                        }
                    }
                    q.push(Some(cur));
                    let d = show_q(&q);
                    rec.case(&d, t.contains(&b'.') || t.contains(&b'\n'), || {
                        one_stream(&q, None)
                    })?;
                }
                if !rec.time_left() {
                    break 'ex;
                }
            }
        }
        rec.exhaustive
            .push(format!("strings over CR LF dot a of length {}", len));
    }
    while rec.time_left() {
        let max = *rng.pick(&[8, 12, 30, 200, 3000]);
        let mut t = rand_text(rng, max);
        match rng.below(6) {
            0 => {}
            1 => t.extend_from_slice(b"\r\n.\r\n"),
            2 => t.extend_from_slice(b"\r\n."),
            _ => {
                t.extend_from_slice(b"\r\n.\r\n");
                t.extend(rand_text(rng, 20));
                if rng.one_in(2) {
                    t.extend_from_slice(b"\r\n.\r\n");
                    t.extend(rand_text(rng, 6));
                }
            }
        }
        let pend = rng.one_in(2);
        let k = if rng.one_in(3) {
            Some(rng.below(t.len() + 1))
        } else {
            None
        };
        let (pre, rest) = match k {
            Some(k) => (Some(t[..k].to_vec()), t[k..].to_vec()),
            None => (None, t.clone()),
        };
        let q = rand_split(rng, &rest, pend);
        let d = match &pre {
            Some(p) => format!("pushed back \"{}\"; {}", show(p), show_q(&q)),
            None => show_q(&q),
        };
        rec.case(&d, t.contains(&b'.') || t.contains(&b'\n'), || {
            one_stream(&q, pre.as_ref().map(|x| &x[..]))
        })?;
    }
    Ok(())
}

/// collects what is sent; not ready now and then
struct Wire {
    got: Rc<RefCell<Vec<u8>>>,
    slow: u32,
    n: u32,
}
impl Sink<Bytes> for Wire {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        self.n += 1;
        if self.slow > 0 && self.n % self.slow != 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        self.got.borrow_mut().extend_from_slice(&b);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
}
fn has_term(w: &[u8]) -> bool {
    w.starts_with(b".\r\n") || w.windows(5).any(|x| x == b"\r\n.\r\n")
}
fn stuff(pieces: &[Vec<u8>], slow: u32) -> Result<Vec<u8>, String> {
    let got = Rc::new(RefCell::new(vec![]));
    let wire = Wire {
        got: got.clone(),
        slow,
        n: 0,
    };
    let m: Vec<u8> = pieces.concat();
    let g2 = got.clone();
    futures::executor::block_on(async move {
        let mut d = DataSink::new(wire);
        for p in pieces {
            d.send(Bytes::from(&p[..]))
                .await
                .map_err(|_| "send failed though the sink accepted".to_string())?;
            if has_term(&g2.borrow()) {
                return Err(format!(
                    "a terminator is on the wire before the end: \"{}\"",
                    show(&g2.borrow())
                ));
            }
        }
        d.end()
            .await
            .map_err(|_| "end failed though the sink accepted".to_string())?;
        Ok(())
    })?;
    let w = got.borrow().clone();
    let mut exp = ref_stuff(&m);
    exp.extend_from_slice(ref_term(&m));
    want_b("wire", &w, &exp)?;
    Ok(w)
}
pub const RULE_S: &str = "message cut into pieces (empty ones included); non-trivial: contains a dot or CR; distinct by pieces";
fn pieces(rng: &mut Rng, m: &[u8]) -> Vec<Vec<u8>> {
    rand_split(rng, m, false).into_iter().flatten().collect()
}
fn show_p(p: &[Vec<u8>]) -> String {
    p.iter()
        .map(|b| format!("\"{}\"", show(b)))
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn sink(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    for t in big(&mut rng.clone()) {
        for sizes in SIZES {
            let q = cut(&t, sizes);
            rec.case(&format!("pieces of {:?} bytes: \"{}\"", sizes, show(&t)), true, || stuff(&q, 0).map(|_| ()))?;
        }
    }
    'ex: for len in 0..=6usize {
        for code in 0..4usize.pow(len as u32) {
            let mut s = vec![];
            let mut c = code;
            for _ in 0..len {
                s.push(b"\r\n.a"[c % 4]);
                c /= 4;
            }
            for cut in 0..(1usize << (len.max(1) - 1)) {
                let mut q = vec![];
                let mut cur = vec![];
                for (i, b) in s.iter().enumerate() {
                    cur.push(*b);
                    if cut >> i & 1 == 1 {
                        q.push(std::mem::take(&mut cur));
                    }
                }
                q.push(cur);
                rec.case(&show_p(&q), s.contains(&b'.') || s.contains(&b'\r'), || {
                    stuff(&q, 0).map(|_| ())
                })?;
            }
            if !rec.time_left() {
                break 'ex;
            }
        }
        rec.exhaustive.push(format!(
            "messages over CR LF dot a of length {}, every cut",
            len
        ));
    }
    while rec.time_left() {
        let max = *rng.pick(&[8, 12, 30, 200, 3000]);
        let m = rand_text(rng, max);
        let q = pieces(rng, &m);
        let slow = rng.below(3) as u32;
        rec.case(&show_p(&q), m.contains(&b'.') || m.contains(&b'\r'), || {
            stuff(&q, slow).map(|_| ())
        })?;
    }
    Ok(())
}
/// long texts: few or many dots and line ends, at and around the sizes of buffers
pub fn big(rng: &mut Rng) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for base in &[512usize, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 70000] {
        for d in 0..7usize {
            let n = base + d - 3;
            let mut t = vec![b'a'; n];
            match d % 4 {
                0 => (),
                1 => t.extend_from_slice(b"\r\n"),
                2 => {
                    for i in 0..n / 100 {
                        t[i * 100..i * 100 + 4].copy_from_slice(b"\r\n.x");
                    }
                }
                _ => {
                    for _ in 0..4 {
                        let i = rng.below(n - 6);
                        t[i..i + 5].copy_from_slice(*rng.pick(&[&b"\r\n..\r"[..], b"\r\n.a.", b"\n.\r\nx", b"\r\r\n.b"]));
                    }
                }
            }
            t.extend_from_slice(*rng.pick(&[&b""[..], b"\r\n.x", b"\r", b"\r\n", b"\r\n.", b"z"]));
            v.push(t);
        }
    }
    v
}
/// packets of the given sizes, over and over
pub fn cut(b: &[u8], sizes: &[usize]) -> Vec<Vec<u8>> {
    let (mut q, mut i, mut k) = (vec![], 0, 0);
    while i < b.len() {
        let n = sizes[k % sizes.len()].min(b.len() - i);
        q.push(b[i..i + n].to_vec());
        i += n;
        k += 1;
    }
    q
}
pub const SIZES: &[&[usize]] = &[&[usize::MAX], &[1400, 1500, 1], &[4096], &[8191, 2], &[16384, 16385], &[65536]];
pub const RULE_R: &str = "message, pieces on the way out, packets on the way in, following bytes; non-trivial: message contains a dot or CR";
pub fn round(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    let mut n = 0usize;
    let large = big(&mut rng.clone());
    while rec.time_left() {
        n += 1;
        let m = if n <= large.len() {
            large[n - 1].clone()
        } else if n < 5000 {
            let mut s = vec![];
            let mut c = n;
            while c > 1 {
                s.push(b"\r\n.a"[c % 4]);
                c /= 4;
            }
            s
        } else {
            rand_text(rng, *rng.clone().pick(&[10, 40, 400, 3000]))
        };
        let p = if m.len() > 5000 { cut(&m, SIZES[n % SIZES.len()]) } else { pieces(rng, &m) };
        let f = rand_text(rng, 8);
        let seed = rng.next();
        let d = format!(
            "pieces {}; followed by \"{}\"; split seed {}",
            show_p(&p),
            show(&f),
            seed
        );
        rec.case(&d, m.contains(&b'.') || m.contains(&b'\r'), || {
            let mut w = {
                // the wire as the real sink makes it
                let got = Rc::new(RefCell::new(vec![]));
                let wire = Wire {
                    got: got.clone(),
                    slow: 0,
                    n: 0,
                };
                let p = &p;
                futures::executor::block_on(async move {
                    let mut d = DataSink::new(wire);
                    for x in p {
                        d.send(Bytes::from(&x[..])).await?;
                    }
                    d.end().await.map(|_| ())
                })
                .map_err(|_| "sink failed".to_string())?;
                let w = got.borrow().clone();
                w
            };
            w.extend_from_slice(&f);
            let mut r2 = Rng::new(seed);
            let q = if w.len() > 5000 { cut(&w, SIZES[n / 7 % SIZES.len()]).into_iter().map(Some).collect() } else { rand_split(&mut r2, &w, true) };
            let mut src = Conn::new(q).prependable();
            let limit = 10 + 4 * w.len() + 100;
            let mut ds = DataStream::new(&mut src);
            let out = drain(&mut ds, limit)?;
            let mut exp = m.clone();
            if !(m.is_empty() || m.ends_with(b"\r\n")) {
                exp.extend_from_slice(b"\r\n");
            }
            want_b("message read back", &out, &exp)?;
            want("complete", ds.complete(), Ok(()))?;
            let left = drain(&mut src, limit)?;
            want_b("bytes left", &left, &f)
        })?;
    }
    Ok(())
}

struct Script<T> {
    q: VecDeque<Option<T>>,
    polls: Rc<RefCell<usize>>,
}
impl<T: Unpin> Stream for Script<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Option<T>> {
        *self.polls.borrow_mut() += 1;
        match self.q.pop_front() {
            None => Poll::Ready(None),
            Some(None) => Poll::Pending,
            Some(Some(x)) => Poll::Ready(Some(x)),
        }
    }
}
pub const RULE_H: &str = "script of items and pending polls, history of reads and push-backs; non-trivial: at least one push-back; distinct by script and history";
fn prependable_of<T: Unpin + Clone + PartialEq + std::fmt::Debug + 'static>(
    rec: &mut Rec,
    rng: &mut Rng,
    ty: &str,
    mk: impl Fn(usize) -> T,
) -> Result<(), Fail> {
    let n = rng.below(7);
    let script: Vec<Option<T>> = (0..n)
        .map(|i| if rng.one_in(3) { None } else { Some(mk(i)) })
        .collect();
    let ops: Vec<bool> = (0..rng.below(14)).map(|_| rng.one_in(2)).collect();
    let d = format!(
        "items of type {}; script {:?}; ops {}",
        ty,
        script,
        ops.iter()
            .map(|x| if *x { "P" } else { "r" })
            .collect::<String>()
    );
    rec.case(&d, ops.contains(&true), || {
        let polls = Rc::new(RefCell::new(0));
        let mut s = Prependable::new(Script {
            q: script.clone().into(),
            polls: polls.clone(),
        });
        let mut model: VecDeque<Option<T>> = script.clone().into();
        let mut held: Option<T> = None;
        let w = noop_waker();
        let mut cx = Context::from_waker(&w);
        let mut np = 0usize;
        for (i, o) in ops.iter().enumerate() {
            if *o {
                let item = mk(100 + i);
                let exp = if held.is_none() {
                    held = Some(item.clone());
                    Ok(())
                } else {
                    Err(())
                };
                want(&format!("push-back at step {}", i), s.prepend(item), exp)?;
            } else {
                let exp = match held.take() {
                    Some(x) => Poll::Ready(Some(x)),
                    None => {
                        np += 1;
                        match model.pop_front() {
                            None => Poll::Ready(None),
                            Some(None) => Poll::Pending,
                            Some(Some(x)) => Poll::Ready(Some(x)),
                        }
                    }
                };
                want(
                    &format!("read at step {}", i),
                    Pin::new(&mut s).poll_next(&mut cx),
                    exp,
                )?;
            }
            want(
                &format!("polls of the wrapped stream after step {}", i),
                *polls.borrow(),
                np,
            )?;
        }
        Ok(())
    })
}

pub fn prependable(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    let mut k = 0u64;
    while rec.time_left() && k < 3_000_000 {
        match k % 6 {
            0 => prependable_of(rec, rng, "()", |_| ())?,
            1 => prependable_of(rec, rng, "u8", |i| i as u8)?,
            2 => prependable_of(rec, rng, "bool", |i| i % 2 == 0)?,
            3 => prependable_of(rec, rng, "Vec<u8>", |i| vec![i as u8; i % 4])?,
            4 => prependable_of(rec, rng, "[u64; 20]", |i| [i as u64; 20])?,
            _ => prependable_of(rec, rng, "u32", |i| i as u32)?,
        }
        k += 1;
    }
    Ok(())
}
