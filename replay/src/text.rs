//! Reply lines, SMTP strings, byte views.
use crate::cmd::{ser_check, Wr};
use crate::frame::*;
use bytes::Bytes;
use nom::{Compare, CompareResult, FindSubstring, InputIter, InputLength, Slice};
use smtp_message::{ByteSlice, IsLastLine, ReplyCode, ReplyLine, Sendable, SmtpString};

fn legal(c: u8) -> bool {
    c == 9 || (c >= 32 && c <= 126)
}
fn serialise(r: &ReplyLine) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    r.send_to(&mut v).map_err(|e| format!("send_to failed: {}", e))?;
    Ok(v)
}
fn wire(code: u16, last: bool, t: &[u8]) -> Vec<u8> {
    let mut v = format!("{:03}{}", code, if last { ' ' } else { '-' }).into_bytes();
    v.extend_from_slice(t);
    v.extend_from_slice(b"\r\n");
    v
}
fn yes(last: bool) -> IsLastLine {
    if last {
        IsLastLine::Yes
    } else {
        IsLastLine::No
    }
}
fn g_text(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(5) {
        0 => rng.below(4),
        1 => 500 + rng.below(20),
        2 => rng.below(1200),
        _ => rng.below(60),
    };
    let style = rng.below(4);
    (0..n)
        .map(|_| match style {
            0 => 32 + rng.below(95) as u8,
            1 => *rng.pick(b"\t ~a"),
            2 => if rng.one_in(100) { rng.next() as u8 } else { 32 + rng.below(95) as u8 },
            _ => if rng.one_in(20) { *rng.pick(b"\r\n\x00\x7f\x1f\x80\x08\x0a\x0b") } else { b'x' },
        })
        .collect()
}
pub const RULE_R1: &str = "texts of length 0 to 1200, legal or with stray bytes; non-trivial: not empty; distinct by text";
fn one_build(t: &[u8], code: u16, last: bool) -> Result<(), String> {
    let r = ReplyLine::build(ReplyCode::custom(code), yes(last), SmtpString::from(t));
    let bad = t.iter().position(|c| !legal(*c));
    match r {
        Ok(l) => {
            if t.len() > 506 {
                return Err(format!("a text of {} bytes was accepted", t.len()));
            }
            if let Some(p) = bad {
                return Err(format!("a text with byte {} at {} was accepted", t[p], p));
            }
            let w = serialise(&l)?;
            if w.len() > 512 || w[..w.len() - 2].iter().any(|c| *c == b'\r' || *c == b'\n') {
                return Err("illegal line on the wire".into());
            }
            want_b("line", &w, &wire(code, last, t))
        }
        Err(e) => {
            let d = format!("{:?}", e);
            let exp = if t.len() > 506 {
                format!("LineTooLong {{ length: {}, limit: 506 }}", t.len())
            } else {
                match bad {
                    None => return Err(format!("a legal text of {} bytes was refused: {}", t.len(), d)),
                    Some(p) => format!("DisallowedByte {{ b: {}, pos: {} }}", t[p], p),
                }
            };
            want("error", d, exp)
        }
    }
}
pub fn build(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    for c in 0..=255u8 {
        for t in &[vec![c], vec![b'a', c], vec![c, 13], vec![b' ', c, b'b', c]] {
            rec.case(&show(t), true, || one_build(t, 250, true))?;
        }
        for n in &[505usize, 506, 507] {
            for at in &[0, n / 2, n - 1] {
                let mut t = vec![b'a'; *n];
                t[*at] = c;
                rec.case(&show(&t), true, || one_build(&t, 250, true))?;
            }
        }
    }
    for n in 0..1100 {
        let t = vec![b'a'; n];
        rec.case(&show(&t), n > 0, || one_build(&t, 999, false))?;
    }
    rec.exhaustive.push("every single byte; every length up to 1100".into());
    while rec.time_left() {
        let t = g_text(rng);
        let code = rng.below(1000) as u16;
        let l = rng.one_in(2);
        rec.case(&format!("{} {} \"{}\"", code, l, show(&t)), !t.is_empty(), || one_build(&t, code, l))?;
    }
    Ok(())
}
pub const RULE_R2: &str = "code, flag and legal text, into writers that fail at any point; non-trivial: all; distinct by line";
fn one_line(code: u16, last: bool, t: &[u8]) -> Result<(), String> {
    let c = ReplyCode::custom(code);
    want("code", c.code(), code)?;
    let l = ReplyLine::build(c, yes(last), SmtpString::from(t)).map_err(|e| format!("refused: {:?}", e))?;
    let x = wire(code, last, t);
    want("byte_len", l.byte_len(), x.len())?;
    ser_check(|w| l.send_to(w), &|o| o == &x[..], &format!("\"{}\"", show(&x)))?;
    if x.len() > 512 {
        return Err("longer than 512 bytes".into());
    }
    Ok(())
}
pub fn line(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    for code in 0..1000u16 {
        for last in &[true, false] {
            for t in &[&b""[..], b"a", b"\t~ x"] {
                rec.case(&show(&wire(code, *last, t)), true, || one_line(code, *last, t))?;
            }
        }
    }
    for code in (1000..=65535u16).step_by(1) {
        rec.case(&format!("custom({})", code), true, || match panics(|| ReplyCode::custom(code)) {
            None => Ok(()),
            Some(_) => Err(format!("code {} was accepted", code)),
        })?;
    }
    let consts = [
        (ReplyCode::SYSTEM_STATUS, 211), (ReplyCode::HELP_MESSAGE, 214), (ReplyCode::SERVICE_READY, 220), (ReplyCode::CLOSING_CHANNEL, 221),
        (ReplyCode::OKAY, 250), (ReplyCode::USER_NOT_LOCAL_WILL_FORWARD, 251), (ReplyCode::CANNOT_VRFY_BUT_PLEASE_TRY, 252),
        (ReplyCode::START_MAIL_INPUT, 354), (ReplyCode::SERVICE_NOT_AVAILABLE, 421), (ReplyCode::MAILBOX_TEMPORARILY_UNAVAILABLE, 450),
        (ReplyCode::LOCAL_ERROR, 451), (ReplyCode::INSUFFICIENT_STORAGE, 452), (ReplyCode::UNABLE_TO_ACCEPT_PARAMETERS, 455),
        (ReplyCode::COMMAND_UNRECOGNIZED, 500), (ReplyCode::SYNTAX_ERROR, 501), (ReplyCode::COMMAND_UNIMPLEMENTED, 502),
        (ReplyCode::BAD_SEQUENCE, 503), (ReplyCode::PARAMETER_UNIMPLEMENTED, 504), (ReplyCode::MAILBOX_UNAVAILABLE, 550),
        (ReplyCode::POLICY_REASON, 550), (ReplyCode::USER_NOT_LOCAL, 551), (ReplyCode::EXCEEDED_STORAGE, 552),
        (ReplyCode::MAILBOX_NAME_INCORRECT, 553), (ReplyCode::TRANSACTION_FAILED, 554), (ReplyCode::MAIL_OR_RCPT_PARAMETER_UNIMPLEMENTED, 555),
    ];
    for (c, n) in consts.iter() {
        rec.case(&format!("constant {}", n), true, || want("constant", c.code(), *n))?;
    }
    rec.exhaustive.push("every code with both flags; every u16 given to custom; all named codes".into());
    while rec.time_left() {
        let t: Vec<u8> = g_text(rng).into_iter().filter(|c| legal(*c)).take(506).collect();
        let code = rng.below(1000) as u16;
        let last = rng.one_in(2);
        rec.case(&show(&wire(code, last, &t)), true, || one_line(code, last, &t))?;
    }
    Ok(())
}
pub const RULE_R3: &str = "reply lines from codes, flags and texts (including texts the builder refuses), and damaged ones; non-trivial: longer than 4 bytes; distinct by text";
fn ref_reply(b: &[u8]) -> Option<(u16, bool, Vec<u8>)> {
    let e = b.windows(2).position(|w| w == b"\r\n")?;
    if e + 2 != b.len() || e < 4 || !b[..3].iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let last = match b[3] {
        b' ' => true,
        b'-' => false,
        _ => return None,
    };
    let code = b[..3].iter().fold(0u16, |a, c| a * 10 + (*c - b'0') as u16);
    Some((code, last, b[4..e].to_vec()))
}
fn one_parse(b: &[u8]) -> Result<(), String> {
    let got = panics(|| ReplyLine::parse(Bytes::from(b)).ok()).ok_or("panic")?;
    match (got, ref_reply(b)) {
        (None, None) => Ok(()),
        (Some(_), None) => Err("accepted, but it is no reply line".into()),
        (None, Some(_)) => Err("refused, but it is a reply line".into()),
        (Some(l), Some((code, last, t))) => {
            let w = serialise(&l)?;
            want_b("parsed parts, serialised", &w, &wire(code, last, &t))?;
            want("byte_len", l.byte_len(), w.len())
        }
    }
}
pub fn reply_parse(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    for i in 0..8 {
        for c in 0..=255u8 {
            for base in &[&b"250 ab\r\n"[..], b"099-\r\n\r\n", b"999-a\rb\r\n", b"000 \r\n"] {
                if i < base.len() {
                    let mut t = base.to_vec();
                    t[i] = c;
                    rec.case(&show(&t), true, || one_parse(&t))?;
                    let mut t = base.to_vec();
                    t.insert(i, c);
                    rec.case(&show(&t), true, || one_parse(&t))?;
                }
            }
        }
    }
    for code in 0..1000u16 {
        for last in &[true, false] {
            let t = wire(code, *last, b"x y");
            rec.case(&show(&t), true, || one_parse(&t))?;
        }
    }
    let al = b"0+9 -\r\na\xc3\xa9";
    for len in 0..=5u32 {
        for k in 0..al.len().pow(len) {
            let mut c = k;
            let mut t = vec![];
            for _ in 0..len {
                t.push(al[c % al.len()]);
                c /= al.len();
            }
            t.extend_from_slice(b" \r\n");
            rec.case(&show(&t), true, || one_parse(&t))?;
        }
    }
    rec.exhaustive.push("every code and flag; every byte at every position of some lines; 5 letters over a 10 letter alphabet before CRLF".into());
    while rec.time_left() {
        let mut t = wire(rng.below(1000) as u16, rng.one_in(2), &g_text(rng));
        if rng.one_in(2) {
            let i = rng.below(t.len());
            match rng.below(3) {
                0 => t[i] = rng.next() as u8,
                1 => {
                    t.remove(i);
                }
                _ => t.insert(i, *rng.pick(b"\r\n+- 0x")),
            }
        }
        rec.case(&show(&t), t.len() > 4, || one_parse(&t))?;
    }
    Ok(())
}
pub const RULE_T: &str = "byte strings and chunk sizes; non-trivial: not empty; distinct by string and size";
fn one_string(a: &[u8], b: &[u8], n: usize) -> Result<(), String> {
    for s in &[SmtpString::from(a), SmtpString::from(a.to_vec()), SmtpString::from(Bytes::from(a))] {
        want("byte_len", s.byte_len(), a.len())?;
        want_b("bytes", &s.bytes()[..], a)?;
        want_b("iter_bytes", &s.iter_bytes().cloned().collect::<Vec<_>>(), a)?;
        for i in (0..a.len()).take(50).chain(a.len().saturating_sub(3)..a.len()) {
            want("byte", s.byte(i), a[i])?;
        }
        if panics(|| s.byte(a.len())).is_some() {
            return Err("byte past the end".into());
        }
        if a.len() < 80 || a.len() % 16 == 0 {
            ser_check(|w| s.send_to(w), &|o| o == a, "the bytes themselves")?;
        }
        want_b("from_sendable", &SmtpString::from_sendable(s).map_err(|_| "from_sendable failed")?.bytes()[..], a)?;
    }
    if let Ok(t) = std::str::from_utf8(a) {
        want_b("from str", &SmtpString::from(t).bytes()[..], a)?;
    }
    let s = SmtpString::from(a);
    let j = SmtpString::from(a) + SmtpString::from(b);
    want_b("concatenation", &j.bytes()[..], &[a, b].concat())?;
    let keep = s.clone();
    let j = s.clone() + SmtpString::from(b);
    want_b("concatenation", &j.bytes()[..], &[a, b].concat())?;
    want_b("a clone after concatenation", &keep.bytes()[..], a)?;
    want("equality", SmtpString::from(a) == SmtpString::from(b), a == b)?;
    let got: Vec<Vec<u8>> = s.byte_chunks(n).take(a.len() + 2).map(|x| x.bytes().to_vec()).collect();
    let exp: Vec<Vec<u8>> = a.chunks(n).map(|x| x.to_vec()).collect();
    want("chunks", got, exp)
}
struct Bad;
impl Sendable for Bad {
    fn send_to(&self, w: &mut dyn std::io::Write) -> std::io::Result<()> {
        w.write_all(b"abc")?;
        Err(std::io::Error::new(std::io::ErrorKind::Other, "no"))
    }
}
pub fn strings(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    rec.case("from_sendable of a failing value", true, || {
        if SmtpString::from_sendable(&Bad).is_ok() {
            Err("the error was dropped".into())
        } else {
            Ok(())
        }
    })?;
    rec.case("from_static", true, || want_b("from_static", &SmtpString::from_static(b"abc\r\n").bytes()[..], b"abc\r\n"))?;
    for len in 0..70usize {
        let a: Vec<u8> = (0..len as u8).collect();
        for n in (1..75).chain(vec![usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1]) {
            rec.case(&format!("\"{}\" chunks of {}", show(&a), n), len > 0, || one_string(&a, b"xyz", n))?;
        }
    }
    for len in &[255usize, 256, 1000, 4096, 8193, 65535, 65536, 65537, 100_000] {
        let a: Vec<u8> = (0..*len).map(|i| (i % 251) as u8).collect();
        for n in &[1usize, 255, 256, 506, 1000, 65535, 65536, 70_000, usize::MAX] {
            rec.case(&format!("{} bytes \"{}\" chunks of {}", len, show(&a), n), true, || one_string(&a, &a, *n))?;
        }
    }
    rec.exhaustive.push("lengths 0 to 69 with chunk sizes 1 to 74 and the largest sizes".into());
    while rec.time_left() {
        let (x, y) = (*rng.pick(&[0usize, 3, 40, 700, 3000]), *rng.pick(&[0usize, 3, 40, 700]));
        let a: Vec<u8> = (0..rng.below(x + 1)).map(|_| rng.next() as u8).collect();
        let b: Vec<u8> = (0..rng.below(y + 1)).map(|_| rng.next() as u8).collect();
        let k = *rng.pick(&[1, 5, 40, 506, 4000]);
        let n = 1 + rng.below(k);
        rec.case(&format!("\"{}\" and \"{}\" chunks of {}", show(&a), show(&b), n), !a.is_empty(), || one_string(&a, &b, n))?;
    }
    Ok(())
}
pub const RULE_B: &str = "a buffer and a chain of sub-ranges of every kind; non-trivial: at least one range; distinct by chain";
#[derive(Clone, Debug)]
enum Rg {
    Both(usize, usize),
    To(usize),
    From(usize),
    Full,
}
fn check_view(v: &ByteSlice, m: &[u8], whole: &Bytes) -> Result<(), String> {
    want("len", v.len(), m.len())?;
    want("input_len", v.input_len(), m.len())?;
    want_b("content", &v[..], m)?;
    want_b("demote", v.demote(), m)?;
    want_b("promote", &v.promote()[..], m)?;
    want_b("iter_elements", &v.iter_elements().collect::<Vec<_>>(), m)?;
    want("iter_indices", v.iter_indices().collect::<Vec<_>>(), m.iter().cloned().enumerate().collect::<Vec<_>>())?;
    want("into_utf8", v.into_utf8().map(|s| s.as_bytes().to_vec()).ok(), std::str::from_utf8(m).map(|s| s.as_bytes().to_vec()).ok())?;
    for c in &[0u8, 1, 5, m.first().cloned().unwrap_or(9), m.last().cloned().unwrap_or(9)] {
        want("position", v.position(|x| x == *c), m.iter().position(|x| x == c))?;
    }
    for n in 0..m.len() + 2 {
        want("slice_index", v.slice_index(n), if n <= m.len() { Some(n) } else { None })?;
    }
    for t in &[&b""[..], &m[..m.len().min(2)], &m[m.len() - m.len().min(2)..], b"zzzz", &whole[..whole.len().min(3)], &whole[..]] {
        let e = if t.len() <= m.len() {
            if &m[..t.len()] == *t { CompareResult::Ok } else { CompareResult::Error }
        } else if &t[..m.len()] == m {
            CompareResult::Incomplete
        } else {
            CompareResult::Error
        };
        want("compare", v.compare(*t), e)?;
        let (lm, lt) = (m.to_ascii_lowercase(), t.to_ascii_lowercase());
        let e = if lt.len() <= lm.len() {
            if lm[..lt.len()] == lt[..] { CompareResult::Ok } else { CompareResult::Error }
        } else if lt[..lm.len()] == lm[..] {
            CompareResult::Incomplete
        } else {
            CompareResult::Error
        };
        want("compare_no_case", v.compare_no_case(*t), e)?;
        // nom's own search overflows for a longer needle
        if !t.is_empty() && t.len() <= m.len() {
            want("find_substring", v.find_substring(*t), m.windows(t.len()).position(|w| w == *t))?;
        }
    }
    let same = ByteSlice::from(whole);
    let whole_view = m.len() == whole.len();
    want("equality with the whole", *v == same, whole_view)?;
    // equal views show equal bytes: views as long as this one, elsewhere and of another buffer
    for k in (0..=whole.len() - m.len()).take(9) {
        let w = same.slice(k..k + m.len());
        if *v == w {
            want_b("an equal view", &w[..], m)?;
        }
        if v.slice(..) == w && w != *v {
            return Err("equality depends on the order of the operands".into());
        }
    }
    let other = Bytes::from(whole.iter().map(|x| x ^ 1).collect::<Vec<u8>>());
    let w = ByteSlice::from(&other);
    for k in (0..=whole.len() - m.len()).take(9) {
        if *v == w.slice(k..k + m.len()) {
            want_b("an equal view of another buffer", &w.slice(k..k + m.len())[..], m)?;
        }
    }
    want("equality with itself", *v == v.slice(..), true)
}
fn one_chain(buf: &Bytes, chain: &[Rg]) -> Result<(), String> {
    let mut v = ByteSlice::from(buf);
    let mut m: &[u8] = &buf[..];
    check_view(&v, m, buf)?;
    for r in chain {
        let ok = match r {
            Rg::Both(a, b) => a <= b && *b <= m.len(),
            Rg::To(b) => *b <= m.len(),
            Rg::From(a) => *a <= m.len(),
            Rg::Full => true,
        };
        let w = panics(|| match r {
            Rg::Both(a, b) => v.slice(*a..*b),
            Rg::To(b) => v.slice(..*b),
            Rg::From(a) => v.slice(*a..),
            Rg::Full => v.slice(..),
        });
        match w {
            None if ok => return Err(format!("{:?} of a view of {} bytes was refused", r, m.len())),
            None => {}
            Some(_) if !ok => return Err(format!("{:?} of a view of {} bytes was not refused", r, m.len())),
            Some(w) => {
                m = match r {
                    Rg::Both(a, b) => &m[*a..*b],
                    Rg::To(b) => &m[..*b],
                    Rg::From(a) => &m[*a..],
                    Rg::Full => m,
                };
                v = w;
                check_view(&v, m, buf)?;
            }
        }
    }
    Ok(())
}
pub fn views(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    let buf = Bytes::from(&b"\x00aBc4\xff6"[..]);
    let n = buf.len();
    let mut ks = vec![Rg::Full];
    for a in 0..=n + 1 {
        ks.push(Rg::To(a));
        ks.push(Rg::From(a));
        for b in 0..=n + 1 {
            ks.push(Rg::Both(a, b));
        }
    }
    for a in &ks {
        for b in &ks {
            let c = vec![a.clone(), b.clone()];
            rec.case(&format!("7 bytes {:?}", c), true, || one_chain(&buf, &c))?;
        }
    }
    rec.exhaustive.push("every two ranges on a buffer of 7 bytes".into());
    while rec.time_left() {
        let n = *rng.pick(&[0usize, 1, 5, 30, 31, 32, 100]);
        let b: Vec<u8> = (0..n).map(|_| if rng.one_in(2) { rng.next() as u8 } else { *rng.pick(b"aAbB\r\n@[`{") }).collect();
        let buf = Bytes::from(b.clone());
        let mut c = vec![];
        let mut len = n;
        for _ in 0..1 + rng.below(4) {
            let x = rng.below(len + 1);
            let y = rng.below(len + 2);
            let (k, l) = match rng.below(7) {
                0 => (Rg::To(y), y),
                1 | 2 => (Rg::From(x), len - x),
                3 => (Rg::Full, len),
                4 if rng.one_in(9) => (Rg::Both(*rng.pick(&[usize::MAX, x]), *rng.pick(&[usize::MAX, usize::MAX / 2, 0])), len),
                _ => (Rg::Both(x.min(y), x.max(y)), x.max(y) - x.min(y)),
            };
            c.push(k);
            len = l.min(len);
        }
        rec.case(&format!("\"{}\" {:?}", show(&b), c), true, || one_chain(&buf, &c))?;
    }
    let _ = Wr { out: vec![], room: 0, step: 0 };
    Ok(())
}
