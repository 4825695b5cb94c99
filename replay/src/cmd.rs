//! Commands, addresses, domains: an independent grammar, and the search against it.
use crate::frame::*;
use bytes::Bytes;
use smtp_message::{Command, Email, Sendable};
use std::collections::HashMap;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

// ---- the grammar, over whole byte strings ------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum RDom {
    Host(Vec<u8>),
    Addr(IpAddr),
}
#[derive(Clone, Debug, PartialEq)]
pub struct REmail {
    pub local: Vec<u8>,
    pub host: Option<RDom>,
}
pub type RParams = HashMap<Vec<u8>, Option<Vec<u8>>>;
#[derive(Clone, Debug, PartialEq)]
pub enum RCmd {
    Word(&'static str),
    Text(&'static str, Vec<u8>),
    Dom(&'static str, RDom),
    Mail(Option<REmail>, RParams),
    Rcpt(REmail, RParams),
}
fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
pub fn is_label(l: &[u8]) -> bool {
    !l.is_empty() && l[0].is_ascii_alphanumeric() && l.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-')
}
pub fn ref_domain(b: &[u8]) -> Option<RDom> {
    if b.first() == Some(&b'[') {
        if b.last() != Some(&b']') || b[..b.len() - 1].contains(&b']') {
            return None;
        }
        let t = std::str::from_utf8(&b[1..b.len() - 1]).ok()?;
        if t.starts_with("IPv6:") {
            return t[5..].parse::<Ipv6Addr>().ok().map(|a| RDom::Addr(a.into()));
        }
        return t.parse::<Ipv4Addr>().ok().map(|a| RDom::Addr(a.into()));
    }
    if b.split(|c| *c == b'.').all(is_label) {
        Some(RDom::Host(b.to_vec()))
    } else {
        None
    }
}
fn atext(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-/=?^_`{|}~".contains(&c)
}
/// length of the quoted string at the start of b
fn quoted_len(b: &[u8]) -> Option<usize> {
    if b.first() != Some(&b'"') {
        return None;
    }
    let mut i = 1;
    loop {
        match *b.get(i)? {
            b'"' => return Some(i + 1),
            b'\\' => {
                let c = *b.get(i + 1)?;
                if c < 32 || c > 126 {
                    return None;
                }
                i += 2;
            }
            32..=126 => i += 1,
            _ => return None,
        }
    }
}
pub fn ref_email(b: &[u8]) -> Option<REmail> {
    let n = match quoted_len(b) {
        Some(n) => n,
        None => {
            let n = b.iter().position(|c| !(atext(*c) || *c == b'.')).unwrap_or(b.len());
            if b[..n].split(|c| *c == b'.').any(|a| a.is_empty()) {
                return None;
            }
            n
        }
    };
    let local = b[..n].to_vec();
    if n == b.len() {
        return Some(REmail { local, host: None });
    }
    if b[n] != b'@' {
        return None;
    }
    Some(REmail {
        local,
        host: Some(ref_domain(&b[n + 1..])?),
    })
}
/// address, optionally preceded by @a,@b:
fn ref_path(b: &[u8]) -> Option<REmail> {
    if b.first() == Some(&b'@') {
        // a domain literal may hold colons, a name may not
        let mut i = 0;
        loop {
            if b.get(i) != Some(&b'@') {
                return None;
            }
            i += 1;
            let e = if b.get(i) == Some(&b'[') {
                i + b[i..].iter().position(|c| *c == b']')? + 1
            } else {
                i + b[i..].iter().position(|c| *c == b':' || *c == b',')?
            };
            ref_domain(&b[i..e])?;
            i = e;
            match b.get(i) {
                Some(b':') => return ref_email(&b[i + 1..]),
                Some(b',') => i += 1,
                _ => return None,
            }
        }
    }
    ref_email(b)
}
/// length of the unbracketed path at the start: up to the first blank or CR outside a quoted string
fn ref_params(b: &[u8]) -> Option<RParams> {
    // b starts with a blank or is empty (before CRLF)
    let mut m = HashMap::new();
    if b.iter().any(|c| *c == b'\r' || *c == b'\n') {
        return None;
    }
    if !b.is_empty() && !blank(b[0]) {
        return None;
    }
    for p in b.split(|c| blank(*c)).filter(|p| !p.is_empty()) {
        let (k, v) = match p.iter().position(|c| *c == b'=') {
            None => (p, None),
            Some(i) => (&p[..i], Some(&p[i + 1..])),
        };
        if !is_label(k) {
            return None;
        }
        if let Some(v) = v {
            if v.is_empty() || !v.iter().all(|c| *c > 32 && *c < 127 && *c != b'=') {
                return None;
            }
        }
        m.insert(k.to_vec(), v.map(|v| v.to_vec()));
    }
    Some(m)
}
fn strip_verb<'a>(b: &'a [u8], v: &str) -> Option<&'a [u8]> {
    if b.len() >= v.len() && b[..v.len()].eq_ignore_ascii_case(v.as_bytes()) {
        Some(&b[v.len()..])
    } else {
        None
    }
}
fn trim_l(mut b: &[u8]) -> &[u8] {
    while !b.is_empty() && blank(b[0]) {
        b = &b[1..];
    }
    b
}
fn trim_r(mut b: &[u8]) -> &[u8] {
    while !b.is_empty() && blank(b[b.len() - 1]) {
        b = &b[..b.len() - 1];
    }
    b
}
/// what follows the verb of MAIL or RCPT, without the CRLF
fn ref_path_params(b: &[u8], empty_ok: bool) -> Option<(Option<REmail>, RParams)> {
    let b = trim_l(b);
    if empty_ok && b.starts_with(b"<>") {
        return Some((None, ref_params(&b[2..])?));
    }
    if b.first() == Some(&b'<') {
        // the closing bracket: the first one outside a quoted string
        let mut i = 1;
        while *b.get(i)? != b'>' {
            i += if b[i] == b'"' { quoted_len(&b[i..])? } else { 1 };
        }
        return Some((Some(ref_path(&b[1..i])?), ref_params(&b[i + 1..])?));
    }
    let mut i = 0;
    while i < b.len() && !blank(b[i]) {
        i += if b[i] == b'"' { quoted_len(&b[i..])? } else { 1 };
    }
    Some((Some(ref_path(&b[..i])?), ref_params(&b[i..])?))
}
pub fn ref_command(b: &[u8]) -> Option<RCmd> {
    for v in &["DATA", "QUIT", "RSET"] {
        if let Some(r) = strip_verb(b, v) {
            return if trim_l(r) == b"\r\n" { Some(RCmd::Word(v)) } else { None };
        }
    }
    for (v, opt) in &[("EXPN", false), ("VRFY", false), ("HELP", true), ("NOOP", true)] {
        if let Some(r) = strip_verb(b, v) {
            let e = r.windows(2).position(|w| w == b"\r\n")?;
            if e + 2 != r.len() {
                return None;
            }
            let r = &r[..e];
            if r.is_empty() {
                return if *opt { Some(RCmd::Text(v, vec![])) } else { None };
            }
            return if blank(r[0]) { Some(RCmd::Text(v, r[1..].to_vec())) } else { None };
        }
    }
    if let Some(r) = strip_verb(b, "MAIL FROM:") {
        let r = if r.ends_with(b"\r\n") { &r[..r.len() - 2] } else { return None };
        let (e, p) = ref_path_params(r, true)?;
        return Some(RCmd::Mail(e, p));
    }
    if let Some(r) = strip_verb(b, "RCPT TO:") {
        let r = if r.ends_with(b"\r\n") { &r[..r.len() - 2] } else { return None };
        let (e, p) = ref_path_params(r, false)?;
        return Some(RCmd::Rcpt(e?, p));
    }
    let b = trim_r(trim_l(b));
    for v in &["EHLO", "HELO"] {
        if let Some(r) = strip_verb(b, v) {
            let r = if r.ends_with(b"\r\n") { &r[..r.len() - 2] } else { return None };
            return ref_domain(trim_r(trim_l(r))).map(|d| RCmd::Dom(v, d));
        }
    }
    None
}
pub fn dom_bytes(d: &RDom) -> Vec<u8> {
    match d {
        RDom::Host(h) => h.clone(),
        RDom::Addr(IpAddr::V4(a)) => format!("[{}]", a).into_bytes(),
        RDom::Addr(IpAddr::V6(a)) => format!("[IPv6:{}]", a).into_bytes(),
    }
}
pub fn email_bytes(e: &REmail) -> Vec<u8> {
    let mut v = e.local.clone();
    if let Some(h) = &e.host {
        v.push(b'@');
        v.extend(dom_bytes(h));
    }
    v
}
/// canonical local part
pub fn ref_local(l: &[u8]) -> Vec<u8> {
    if l.first() != Some(&b'"') {
        return l.to_vec();
    }
    let mut o = vec![];
    let mut i = 1;
    while i < l.len() - 1 {
        if l[i] == b'\\' {
            i += 1;
        }
        o.push(l[i]);
        i += 1;
    }
    o
}

// ---- reading the real values -------------------------------------------------------------------
/// the value behind a host; its type is not exported, so it is read off its debug form where that
/// has the derived look, and off its serialised form otherwise
fn dom_of<D: Sendable + std::fmt::Debug>(d: &D) -> RDom {
    let dbg = format!("{:?}", d);
    let within = |pre: &str, post: &str| if dbg.starts_with(pre) && dbg.ends_with(post) && dbg.len() >= pre.len() + post.len() { Some(&dbg[pre.len()..dbg.len() - post.len()]) } else { None };
    if let Some(x) = within("Addr(", ")").or(within("Addr(V4(", "))")).or(within("Addr(V6(", "))")).and_then(|x| x.parse().ok()) {
        return RDom::Addr(x);
    }
    if let Some(x) = within("Host(SmtpString(b\"", "\"))").and_then(|x| unescape(x)) {
        return RDom::Host(x);
    }
    let mut v = vec![];
    d.send_to(&mut v).unwrap();
    if dbg.starts_with("Addr(") {
        match ref_domain(&v) {
            Some(x) => x,
            None => RDom::Host(dbg.into_bytes()),
        }
    } else {
        RDom::Host(v)
    }
}
/// the bytes that `Bytes` shows as `s`
fn unescape(s: &str) -> Option<Vec<u8>> {
    let mut v = vec![];
    let mut i = s.bytes();
    while let Some(c) = i.next() {
        if c != b'\\' {
            v.push(c);
            continue;
        }
        v.push(match i.next()? {
            b'n' => b'\n',
            b'r' => b'\r',
            b't' => b'\t',
            b'0' => 0,
            b'\\' => b'\\',
            b'"' => b'"',
            b'x' => {
                let h = [i.next()?, i.next()?];
                u8::from_str_radix(std::str::from_utf8(&h).ok()?, 16).ok()?
            }
            _ => return None,
        });
    }
    Some(v)
}
pub fn email_of(e: &Email) -> REmail {
    REmail {
        local: e.raw_localpart().bytes().to_vec(),
        host: e.hostname().as_ref().map(|h| dom_of(h)),
    }
}
fn cmd_of(c: &Command) -> RCmd {
    let ps = |m: &HashMap<smtp_message::SmtpString, Option<smtp_message::SmtpString>>| -> RParams {
        m.iter().map(|(k, v)| (k.bytes().to_vec(), v.as_ref().map(|v| v.bytes().to_vec()))).collect()
    };
    match c {
        Command::Data(_) => RCmd::Word("DATA"),
        Command::Quit(_) => RCmd::Word("QUIT"),
        Command::Rset(_) => RCmd::Word("RSET"),
        Command::Expn(x) => RCmd::Text("EXPN", x.name().bytes().to_vec()),
        Command::Vrfy(x) => RCmd::Text("VRFY", x.name().bytes().to_vec()),
        Command::Help(x) => RCmd::Text("HELP", x.subject().bytes().to_vec()),
        Command::Noop(x) => RCmd::Text("NOOP", x.string().bytes().to_vec()),
        Command::Ehlo(x) => RCmd::Dom("EHLO", dom_of(x.domain())),
        Command::Helo(x) => RCmd::Dom("HELO", dom_of(x.domain())),
        Command::Mail(x) => RCmd::Mail(x.from.as_ref().map(email_of), ps(&x.params.0)),
        Command::Rcpt(x) => RCmd::Rcpt(email_of(&x.to), ps(&x.params.0)),
    }
}
pub fn parse(b: &[u8]) -> Option<Command> {
    // a buffer that is neither inline nor aligned to the text
    Command::parse(Bytes::from(b)).ok()
}

/// a writer that takes `room` bytes in pieces of at most `step`, then fails
pub struct Wr {
    pub out: Vec<u8>,
    pub room: usize,
    pub step: usize,
}
impl std::io::Write for Wr {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.room == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.room).min(self.step);
        self.out.extend_from_slice(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// serialise under every kind of writer; the bytes must be one of `ok`
pub fn ser_check<F: Fn(&mut dyn std::io::Write) -> std::io::Result<()>>(f: F, is_ok: &dyn Fn(&[u8]) -> bool, exp: &str) -> Result<Vec<u8>, String> {
    let mut v = Wr { out: vec![], room: usize::MAX, step: usize::MAX };
    f(&mut v).map_err(|e| format!("serialising failed: {}", e))?;
    let full = v.out;
    if !is_ok(&full) {
        return Err(format!("serialised as \"{}\", the contract says {}", show(&full), exp));
    }
    let mut v = Wr { out: vec![], room: usize::MAX, step: 1 };
    f(&mut v).map_err(|e| format!("serialising byte by byte failed: {}", e))?;
    if v.out.len() != full.len() || !is_ok(&v.out) {
        return Err(format!("serialised byte by byte as \"{}\"", show(&v.out)));
    }
    for room in 0..full.len().min(60) {
        let mut v = Wr { out: vec![], room, step: 7 };
        if f(&mut v).is_ok() {
            return Err(format!("no error although the writer failed after {} of {} bytes", room, full.len()));
        }
        if v.out.len() > room {
            return Err("wrote too much".into());
        }
    }
    if full.len() > 60 {
        let mut v = Wr { out: vec![], room: full.len() - 1, step: 7 };
        if f(&mut v).is_ok() {
            return Err("no error although the writer failed on the last byte".into());
        }
    }
    Ok(full)
}
fn params_ok(b: &[u8], m: &RParams) -> bool {
    // " k=v k2" in any order
    if m.is_empty() {
        return b.is_empty();
    }
    if b.first() != Some(&b' ') {
        return false;
    }
    let mut n = 0;
    let mut seen = HashMap::new();
    for p in b[1..].split(|c| *c == b' ') {
        n += 1;
        let (k, v) = match p.iter().position(|c| *c == b'=') {
            None => (p.to_vec(), None),
            Some(i) => (p[..i].to_vec(), Some(p[i + 1..].to_vec())),
        };
        seen.insert(k, v);
    }
    n == m.len() && seen == *m
}
fn between<'a>(b: &'a [u8], pre: &[u8], post: &[u8]) -> Option<&'a [u8]> {
    if b.len() >= pre.len() + post.len() && b.starts_with(pre) && b.ends_with(post) {
        Some(&b[pre.len()..b.len() - post.len()])
    } else {
        None
    }
}
fn ser_ok(c: &RCmd, b: &[u8]) -> bool {
    match c {
        RCmd::Word(v) => b == format!("{}\r\n", v).as_bytes(),
        RCmd::Text(v, t) => between(b, format!("{} ", v).as_bytes(), b"\r\n") == Some(&t[..]),
        RCmd::Dom(v, d) => between(b, format!("{} ", v).as_bytes(), b"\r\n") == Some(&dom_bytes(d)[..]),
        RCmd::Mail(e, p) => {
            let mut pre = b"MAIL FROM:<".to_vec();
            if let Some(e) = e {
                pre.extend(email_bytes(e));
            }
            pre.push(b'>');
            between(b, &pre, b"\r\n").map_or(false, |r| params_ok(r, p))
        }
        RCmd::Rcpt(e, p) => {
            let mut pre = b"RCPT TO:<".to_vec();
            pre.extend(email_bytes(e));
            pre.push(b'>');
            between(b, &pre, b"\r\n").map_or(false, |r| params_ok(r, p))
        }
    }
}

// ---- generators --------------------------------------------------------------------------------
fn rb(rng: &mut Rng, set: &[u8], lo: usize, hi: usize) -> Vec<u8> {
    let n = lo + rng.below(hi - lo + 1);
    (0..n).map(|_| *rng.pick(set)).collect()
}
const ALNUM: &[u8] = b"abcxyzABCXYZ0189";
fn g_label(rng: &mut Rng) -> Vec<u8> {
    let big = rng.one_in(20);
    let mut v = rb(rng, ALNUM, 1, 1);
    v.extend(rb(rng, b"abzAZ059---", 0, if big { 300 } else { 4 }));
    v
}
pub fn g_domain(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => {
            let t: Vec<String> = (0..if rng.one_in(8) { rng.below(6) } else { 4 })
                .map(|_| match rng.below(6) {
                    0 => "0".into(),
                    1 => "255".into(),
                    2 => if rng.one_in(6) { "256".into() } else { "254".into() },
                    3 => if rng.one_in(6) { "01".into() } else { "1".into() },
                    _ => rng.below(256).to_string(),
                })
                .collect();
            format!("[{}]", t.join(".")).into_bytes()
        }
        1 => {
            let a: Ipv6Addr = match rng.below(4) {
                0 => Ipv6Addr::from((rng.next() as u128) << 64 | rng.next() as u128),
                1 => Ipv6Addr::from(rng.next() as u128 & 0xffff),
                2 => Ipv4Addr::from(rng.next() as u32).to_ipv6_mapped(),
                _ => Ipv6Addr::from((rng.below(65536) as u128) << 112 | rng.below(65536) as u128),
            };
            let mut s = a.to_string();
            if rng.one_in(3) {
                s = s.to_uppercase();
            }
            if rng.one_in(4) {
                s = rng.pick(&["::", "::1", "1::", "0:0:0:0:0:0:0:1", "::ffff:1.2.3.4", "1:2:3:4:5:6:7::", "::1.2.3.4", "1:2:3:4:5:6:1.2.3.4"]).to_string();
            }
            format!("[IPv6:{}]", s).into_bytes()
        }
        _ => {
            let n = if rng.one_in(30) { 40 } else { 1 + rng.below(3) };
            let v: Vec<Vec<u8>> = (0..n).map(|_| g_label(rng)).collect();
            v.join(&b'.')
        }
    }
}
pub fn g_local(rng: &mut Rng) -> Vec<u8> {
    if rng.one_in(3) {
        let mut v = vec![b'"'];
        for _ in 0..if rng.one_in(30) { 200 } else { rng.below(7) } {
            match rng.below(5) {
                0 => {
                    v.push(b'\\');
                    v.push(*rng.pick(b"\"\\a ~"));
                }
                1 => {
                    v.push(b'\\');
                    v.push(32 + rng.below(95) as u8);
                }
                _ => {
                    let c = 32 + rng.below(95) as u8;
                    v.push(if c == b'"' || c == b'\\' { b'>' } else { c });
                }
            }
        }
        v.push(b'"');
        v
    } else {
        let n = if rng.one_in(30) { 40 } else { 1 + rng.below(3) };
        let v: Vec<Vec<u8>> = (0..n).map(|_| rb(rng, b"abzAZ09!#$%&'*+-/=?^_`{|}~", 1, 4)).collect();
        v.join(&b'.')
    }
}
pub fn g_email(rng: &mut Rng) -> Vec<u8> {
    let mut v = g_local(rng);
    if !rng.one_in(4) {
        v.push(b'@');
        v.extend(g_domain(rng));
    }
    v
}
fn g_path(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let br = !rng.one_in(4);
    if br {
        v.push(b'<');
    }
    if rng.one_in(4) {
        for i in 0..1 + if rng.one_in(20) { rng.below(40) } else { rng.below(3) } {
            if i > 0 {
                v.push(b',');
            }
            v.push(b'@');
            v.extend(g_domain(rng));
        }
        v.push(b':');
    }
    v.extend(g_email(rng));
    if br {
        v.push(b'>');
    }
    v
}
fn g_params(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let n = if rng.one_in(3) { 0 } else if rng.one_in(20) { rng.below(40) } else { rng.below(4) };
    for _ in 0..n {
        v.extend(rb(rng, b" \t", 1, 3));
        v.extend(g_label(rng));
        if rng.one_in(2) {
            v.push(b'=');
            let k = 1 + if rng.one_in(30) { rng.below(300) } else { rng.below(6) };
            for _ in 0..k {
                let c = 33 + rng.below(94) as u8;
                v.push(if c == b'=' { b'<' } else { c });
            }
        }
    }
    v
}
fn g_case(rng: &mut Rng, w: &str) -> Vec<u8> {
    let m = rng.below(4);
    w.bytes()
        .map(|c| match m {
            0 => c,
            1 => c.to_ascii_lowercase(),
            _ => if rng.one_in(2) { c.to_ascii_lowercase() } else { c },
        })
        .collect()
}
fn g_text(rng: &mut Rng) -> Vec<u8> {
    let n = if rng.one_in(30) { 1200 } else { rng.below(12) };
    let mut v: Vec<u8> = (0..n).map(|_| if rng.one_in(6) { *rng.pick(b"\r\n \t\x00\xff") } else { rng.next() as u8 }).collect();
    while let Some(p) = v.windows(2).position(|w| w == b"\r\n") {
        v.remove(p);
    }
    v
}
const VERBS: &[&str] = &["DATA", "QUIT", "RSET", "EXPN", "VRFY", "HELP", "NOOP", "MAIL FROM:", "RCPT TO:", "EHLO", "HELO"];
fn g_command(rng: &mut Rng, verb: &str) -> Vec<u8> {
    let mut v = g_case(rng, verb);
    match verb {
        "DATA" | "QUIT" | "RSET" => v.extend(rb(rng, b" \t", 0, 3)),
        "EXPN" | "VRFY" => {
            v.extend(rb(rng, b" \t", 1, 1));
            v.extend(g_text(rng));
        }
        "HELP" | "NOOP" => {
            if !rng.one_in(4) {
                v.extend(rb(rng, b" \t", 1, 1));
                v.extend(g_text(rng));
            }
        }
        "MAIL FROM:" | "RCPT TO:" => {
            v.extend(rb(rng, b" \t", 0, 2));
            if rng.one_in(8) {
                v.extend_from_slice(b"<>");
            } else {
                v.extend(g_path(rng));
            }
            v.extend(g_params(rng));
            v.extend(rb(rng, b" \t", 0, 2));
        }
        _ => {
            if rng.one_in(4) {
                let mut w = rb(rng, b" \t", 0, 2);
                w.extend(v);
                v = w;
            }
            let lo = if rng.one_in(5) { 0 } else { 1 };
            v.extend(rb(rng, b" \t", lo, 3));
            v.extend(g_domain(rng));
            v.extend(rb(rng, b" \t", 0, 2));
        }
    }
    v.extend_from_slice(b"\r\n");
    if verb == "EHLO" && rng.one_in(9) {
        v.extend(rb(rng, b" \t", 1, 2));
    }
    v
}
/// damage a text a little
fn mutate(rng: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..1 + rng.below(2) {
        let n = v.len();
        let c = match rng.below(4) {
            0 => rng.next() as u8,
            1 => *rng.pick(b"\r\n \t"),
            _ => *rng.pick(b"<>@.,:;\"\\[]=-+()aZ0 \t\r\n\x7f\x1f\x80/{`^_~!'*?|"),
        };
        match rng.below(6) {
            0 if n > 0 => {
                let i = rng.below(n);
                v.remove(i);
            }
            1 if n > 0 => {
                let i = rng.below(n);
                v[i] = c;
            }
            2 if n > 0 => {
                let i = rng.below(n);
                v.truncate(i);
            }
            3 if n > 1 => {
                let i = rng.below(n - 1);
                v.swap(i, i + 1);
            }
            4 if n > 0 => {
                let i = rng.below(n);
                let x = v[i];
                v.insert(i, x);
            }
            _ => {
                let i = rng.below(n + 1);
                v.insert(i, c);
            }
        }
    }
}

// ---- per-property checks -----------------------------------------------------------------------
fn verb_of(b: &[u8]) -> Option<&'static str> {
    let t = trim_l(b);
    VERBS.iter().copied().find(|v| strip_verb(b, v).is_some() || ((*v == "EHLO" || *v == "HELO") && strip_verb(t, v).is_some()))
}
/// what property `p` says about parsing b
fn check_parse(p: &str, verbs: &[&str], b: &[u8]) -> Result<(), String> {
    let got = panics(|| parse(b)).ok_or("parsing panicked")?;
    let got = got.as_ref().map(cmd_of);
    if p == "C01" {
        return if let Some(_) = got {
            match b.windows(2).position(|w| w == b"\r\n") {
                None => Err("accepted a line without CRLF".into()),
                Some(i) if !trim_l(&b[i + 2..]).is_empty() => Err("accepted with bytes left after the line".into()),
                _ => Ok(()),
            }
        } else {
            Ok(())
        };
    }
    let exp = ref_command(b);
    let mine = |c: &Option<RCmd>| match c {
        None => false,
        Some(RCmd::Word(v)) | Some(RCmd::Text(v, _)) | Some(RCmd::Dom(v, _)) => verbs.contains(v),
        Some(RCmd::Mail(..)) => verbs.contains(&"MAIL FROM:"),
        Some(RCmd::Rcpt(..)) => verbs.contains(&"RCPT TO:"),
    };
    if !mine(&got) && !mine(&exp) {
        return Ok(());
    }
    want("parsed", got, exp)
}
fn verbs_for(p: &str) -> Vec<&'static str> {
    match p {
        "C02" => vec!["DATA", "QUIT", "RSET"],
        "C03" => vec!["EXPN", "VRFY", "HELP", "NOOP"],
        "C04" => vec!["MAIL FROM:", "RCPT TO:"],
        "C06" => vec!["EHLO", "HELO"],
        _ => VERBS.to_vec(),
    }
}
fn check_ser(b: &[u8]) -> Result<(), String> {
    let c = match parse(b) {
        None => return Ok(()),
        Some(c) => c,
    };
    let r = cmd_of(&c);
    let out = ser_check(|w| c.send_to(w), &|o| ser_ok(&r, o), &format!("the form of {:?}", r))?;
    match parse(&out) {
        None => Err(format!("serialised as \"{}\", which does not parse", show(&out))),
        Some(c2) => want("parsed again", cmd_of(&c2), r),
    }
}
fn check_email(p: &str, b: &[u8]) -> Result<(), String> {
    let got = panics(|| Email::parse_slice(b).ok()).ok_or("parsing panicked")?;
    let exp = ref_email(b);
    match p {
        "E02" => {
            want("address", got.as_ref().map(email_of), exp.clone())?;
            if let (Some(e), Some(r)) = (got, exp) {
                let s = email_bytes(&r);
                ser_check(|w| e.send_to(w), &|o| o == &s[..], &format!("\"{}\"", show(&s)))?;
                let again = Email::parse_slice(&s).map_err(|_| "serialised address does not parse".to_string())?;
                if again != e {
                    return Err("the serialised address parses to another one".into());
                }
                let e2 = Some(e);
                ser_check(|w| e2.send_to(w), &|o| o == &s[..], &format!("\"{}\"", show(&s)))?;
                let none: Option<Email> = None;
                ser_check(|w| none.send_to(w), &|o| o.is_empty(), "nothing")?;
            }
            Ok(())
        }
        "E01" => {
            if let (Some(e), Some(r)) = (got, exp) {
                let l = panics(|| e.localpart()).ok_or("localpart panicked")?;
                want_b("raw local part", &e.raw_localpart().bytes()[..], &r.local)?;
                want_b("canonical local part", &l.bytes()[..], &ref_local(&r.local))?;
            }
            Ok(())
        }
        "E03" => {
            // the domain is the part after "a@"
            let d = &b[2..];
            let exp = ref_domain(d);
            want("host", got.as_ref().map(|e| e.hostname().as_ref().map(|h| dom_of(h))), exp.clone().map(Some))?;
            if let (Some(e), Some(r)) = (got, exp) {
                let s = dom_bytes(&r);
                let h = e.hostname().as_ref().unwrap();
                ser_check(|w| h.send_to(w), &|o| o == &s[..], &format!("\"{}\"", show(&s)))?;
                let again = Email::parse_slice(&[b"a@", &s[..]].concat()).map_err(|_| "the serialised host does not parse".to_string())?;
                if again.hostname() != e.hostname() {
                    return Err("the serialised host parses to another one".into());
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
/// commands built from values rather than parsed
fn check_built(t: &[u8], e: &[u8]) -> Result<(), String> {
    use smtp_message::*;
    let s = || SmtpString::from(t);
    let eq = |x: Vec<u8>| move |o: &[u8]| o == &x[..];
    let text = |v: &str| [v.as_bytes(), t, b"\r\n"].concat();
    let c = ExpnCommand::new(s());
    want_b("name", &c.name().bytes()[..], t)?;
    ser_check(|w| c.send_to(w), &eq(text("EXPN ")), "EXPN name CRLF")?;
    let c = VrfyCommand::new(s());
    want_b("name", &c.name().bytes()[..], t)?;
    ser_check(|w| c.send_to(w), &eq(text("VRFY ")), "VRFY name CRLF")?;
    let c = HelpCommand::new(s());
    want_b("subject", &c.subject().bytes()[..], t)?;
    ser_check(|w| c.send_to(w), &eq(text("HELP ")), "HELP subject CRLF")?;
    let c = NoopCommand::new(s());
    want_b("string", &c.string().bytes()[..], t)?;
    ser_check(|w| c.send_to(w), &eq(text("NOOP ")), "NOOP string CRLF")?;
    ser_check(|w| DataCommand::new().take_ownership().send_to(w), &eq(b"DATA\r\n".to_vec()), "DATA CRLF")?;
    ser_check(|w| QuitCommand::new().take_ownership().send_to(w), &eq(b"QUIT\r\n".to_vec()), "QUIT CRLF")?;
    ser_check(|w| RsetCommand::new().take_ownership().send_to(w), &eq(b"RSET\r\n".to_vec()), "RSET CRLF")?;
    if let Ok(m) = Email::parse_slice(e) {
        if let Some(h) = m.hostname() {
            let d = dom_bytes(&dom_of(h));
            let c = EhloCommand::new(h.clone());
            ser_check(|w| c.send_to(w), &eq([b"EHLO ", &d[..], b"\r\n"].concat()), "EHLO domain CRLF")?;
            if c.domain() != h {
                return Err("EhloCommand::domain is not the given domain".into());
            }
            let c = HeloCommand::new(h.clone());
            ser_check(|w| c.send_to(w), &eq([b"HELO ", &d[..], b"\r\n"].concat()), "HELO domain CRLF")?;
            if c.domain() != h {
                return Err("HeloCommand::domain is not the given domain".into());
            }
        }
        // an address built from parts
        let b = Email::new(s(), m.hostname().clone());
        let mut x = t.to_vec();
        if let Some(h) = m.hostname() {
            x.push(b'@');
            x.extend(dom_bytes(&dom_of(h)));
        }
        ser_check(|w| b.send_to(w), &eq(x.clone()), "local part @ host")?;
        if let Some(Command::Mail(mc)) = parse(b"MAIL FROM:<a> K=V z\r\n") {
            let c = MailCommand::new(Some(b), mc.params);
            let r = cmd_of(&Command::Mail(c));
            if let RCmd::Mail(Some(g), p) = r {
                want("MailCommand::new", (g.local, p.len()), (t.to_vec(), 2))?;
            } else {
                return Err("MailCommand::new lost the sender".into());
            }
        }
    }
    Ok(())
}
const LONG: &[usize] = &[62, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 320, 500, 510, 512, 513, 998, 1000, 1001, 1024, 2047, 2048, 2049, 4096, 8192, 20000, 66000];
fn rep(b: &[u8], n: usize) -> Vec<u8> {
    b.iter().cloned().cycle().take(n).collect()
}
/// hosts, then addresses, with one long part or many parts
fn long_hosts() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for &n in LONG {
        v.push(rep(b"x", n));
        v.push([&rep(b"ab.", n / 3 * 3)[..], b"c"].concat());
        v.push([&b"a."[..], &rep(b"x-9", n), b".b"].concat());
    }
    v
}
fn long_addresses() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for &n in LONG {
        v.push(rep(b"x", n));
        v.push([&rep(b"x", n)[..], b"@a.b"].concat());
        v.push([&rep(b"ab.", n / 3 * 3)[..], b"c@a.b"].concat());
        v.push([&b"\""[..], &rep(b"x y@", n), b"\"@a.b"].concat());
        v.push([&b"\""[..], &rep(b"\\\"\\\\z", n / 5 * 5), b"\"@a.b"].concat());
    }
    for h in long_hosts() {
        v.push([&b"l@"[..], &h].concat());
    }
    v
}
fn long_lines(verb: &str) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let w = verb.as_bytes();
    match verb {
        "MAIL FROM:" | "RCPT TO:" => {
            for a in long_addresses() {
                v.push([w, b"<", &a, b">\r\n"].concat());
            }
            for &n in LONG {
                v.push([w, b"<a@b> k=", &rep(b"v", n), b" l\r\n"].concat());
                v.push([w, b"<a@b> ", &rep(b"k", n), b"=v l\r\n"].concat());
                v.push([w, b"<a@b>", &rep(b" \t", n), b"k=v l\r\n"].concat());
                v.push([w, b"<a@b> k=v", &rep(b"\t ", n), b"\r\n"].concat());
                v.push([w, &rep(b" ", n), b"<a@b>\r\n"].concat());
                let m = n.min(3000);
                let hops: Vec<String> = (0..m).map(|i| format!("@h{}.x", i)).collect();
                v.push([w, b"<", hops.join(",").as_bytes(), b":a@b>\r\n"].concat());
                let par: String = (0..m).map(|i| format!(" k{}=v{}", i, i)).collect();
                v.push([w, b"<a@b>", par.as_bytes(), b"\r\n"].concat());
                let par: String = (0..m).map(|i| format!(" k{}=v{}", i % 7, i)).collect();
                v.push([w, b"<a@b>", par.as_bytes(), b"\r\n"].concat());
            }
        }
        "EHLO" | "HELO" => {
            for h in long_hosts() {
                v.push([w, b" ", &h, b"\r\n"].concat());
            }
            for &n in LONG {
                v.push([w, &rep(b" \t", n), b"a.b", &rep(b" ", n), b"\r\n"].concat());
            }
        }
        _ => {
            for &n in LONG {
                v.push([w, b" ", &rep(b"x", n), b"\r\n"].concat());
                v.push([w, b"\t", &rep(b"a \r\xffb\n", n / 6 * 6), b"\r\n"].concat());
                v.push([w, &rep(b" ", n), b"\r\n"].concat());
            }
        }
    }
    v
}
pub const RULE_C: &str = "command lines drawn from the grammar and damaged copies of them, and random bytes; non-trivial: the line starts with one of the property's verbs; distinct by line";
pub fn commands(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    let p = rec.prop.clone();
    let vs = verbs_for(&p);
    let one = |rec: &mut Rec, b: &[u8]| -> Result<(), Fail> {
        let nt = verb_of(b).map_or(false, |v| vs.contains(&v));
        rec.case(&show(b), nt, || if p == "C05" { check_ser(b) } else { check_parse(&p, &vs, b) })
    };
    for v in &vs {
        for l in long_lines(v) {
            one(rec, &l)?;
        }
    }
    rec.exhaustive.push("long forms of each verb, up to 66000 bytes".into());
    rec.third(|rec| drawn_commands(rec, rng))?;
    // complete: each verb followed by up to 3 bytes of a small alphabet
    for v in &vs {
        for pre in &["", " "] {
            for tail in &["\r\n", "", " x\r\n"] {
                for len in 0..=3u32 {
                    let al = b"\r\n a.@<>\"\\-=[";
                    for code in 0..al.len().pow(len) {
                        let mut s = pre.as_bytes().to_vec();
                        s.extend_from_slice(v.as_bytes());
                        let mut c = code;
                        for _ in 0..len {
                            s.push(al[c % al.len()]);
                            c /= al.len();
                        }
                        s.extend_from_slice(tail.as_bytes());
                        one(rec, &s)?;
                    }
                }
            }
        }
        if !rec.time_left() {
            break;
        }
    }
    if rec.time_left() {
        rec.exhaustive.push("each verb with up to 3 bytes over a 13 letter alphabet".into());
    }
    // every byte at every position of some lines
    for v in &vs {
        for k in 0..6 {
            let mut r = Rng::new(k);
            let s = g_command(&mut r, v);
            if s.len() > 80 {
                continue;
            }
            for i in 0..s.len() {
                for c in 0..=255u8 {
                    let mut t = s.clone();
                    t[i] = c;
                    one(rec, &t)?;
                    if k < 2 {
                        let mut t = s.clone();
                        t.insert(i, c);
                        one(rec, &t)?;
                    }
                }
            }
            if !rec.time_left() {
                return Ok(());
            }
        }
    }
    rec.exhaustive.push("every byte value at every position of several valid lines of each verb".into());
    drawn_commands(rec, rng)
}
fn drawn_commands(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    let p = rec.prop.clone();
    let vs = verbs_for(&p);
    let one = |rec: &mut Rec, b: &[u8]| -> Result<(), Fail> {
        let nt = verb_of(b).map_or(false, |v| vs.contains(&v));
        rec.case(&show(b), nt, || if p == "C05" { check_ser(b) } else { check_parse(&p, &vs, b) })
    };
    while rec.time_left() {
        if p == "C05" && rng.one_in(10) {
            let t = g_text(rng);
            let e = g_email(rng);
            rec.case(&format!("built from \"{}\" and \"{}\"", show(&t), show(&e)), true, || check_built(&t, &e))?;
        }
        let v = *rng.pick(&vs);
        let mut b = g_command(rng, v);
        match rng.below(8) {
            0 | 1 | 2 => {}
            3 | 4 | 5 => mutate(rng, &mut b),
            6 => {
                mutate(rng, &mut b);
                mutate(rng, &mut b);
            }
            _ => {
                if rng.one_in(3) {
                    b = (0..rng.below(20)).map(|_| rng.next() as u8).collect();
                } else {
                    b.truncate(b.len() - 2);
                    let g = g_text(rng);
                    b.extend(g);
                    b.extend_from_slice(b"\r\n");
                }
            }
        }
        one(rec, &b)?;
    }
    Ok(())
}
pub const RULE_E: &str = "addresses and hosts drawn from the grammar and damaged copies; non-trivial: non-empty; distinct by text";
pub fn emails(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    let p = rec.prop.clone();
    let one = |rec: &mut Rec, b: &[u8]| -> Result<(), Fail> {
        let t = if p == "E03" { [b"a@", b].concat() } else { b.to_vec() };
        rec.case(&show(&t), !b.is_empty(), || check_email(&p, &t))
    };
    for t in if p == "E03" { long_hosts() } else { long_addresses() } {
        one(rec, &t)?;
    }
    rec.exhaustive.push("long texts, up to 66000 bytes".into());
    rec.third(|rec| drawn_emails(rec, rng))?;
    let al: &[u8] = if p == "E03" { b"a0-.[]:\x80_1I" } else { b"a.\"\\@-\x1f<~ 0" };
    'ex: for len in 0..=6u32 {
        for code in 0..al.len().pow(len) {
            let mut s = vec![];
            let mut c = code;
            for _ in 0..len {
                s.push(al[c % al.len()]);
                c /= al.len();
            }
            one(rec, &s)?;
            if code % 1024 == 0 && !rec.time_left() {
                break 'ex;
            }
            if len >= 5 && rec.evals > 300_000 {
                break 'ex;
            }
        }
        rec.exhaustive.push(format!("texts of length {} over an 11 letter alphabet", len));
    }
    for k in 0..60 {
        let mut r = Rng::new(k);
        let s = if p == "E03" { g_domain(&mut r) } else { g_email(&mut r) };
        if s.len() > 60 {
            continue;
        }
        for i in 0..s.len() {
            for c in 0..=255u8 {
                let mut t = s.clone();
                t[i] = c;
                one(rec, &t)?;
            }
        }
        if !rec.time_left() {
            return Ok(());
        }
    }
    rec.exhaustive.push("every byte value at every position of 60 valid texts".into());
    drawn_emails(rec, rng)
}
fn drawn_emails(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    let p = rec.prop.clone();
    let one = |rec: &mut Rec, b: &[u8]| -> Result<(), Fail> {
        let t = if p == "E03" { [b"a@", b].concat() } else { b.to_vec() };
        rec.case(&show(&t), !b.is_empty(), || check_email(&p, &t))
    };
    while rec.time_left() {
        let mut b = if p == "E03" { g_domain(rng) } else { g_email(rng) };
        if rng.one_in(2) {
            mutate(rng, &mut b);
        }
        one(rec, &b)?;
    }
    Ok(())
}
/// C01: anything at all, into every parser
pub const RULE_T: &str = "random bytes, damaged command lines, reply lines and addresses into every parser; non-trivial: not empty; distinct by text";
pub fn total(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    let one = |rec: &mut Rec, b: &[u8]| -> Result<(), Fail> {
        rec.case(&show(b), !b.is_empty(), || {
            check_parse("C01", VERBS, b)?;
            let r = panics(|| smtp_message::ReplyLine::parse(Bytes::from(b)).is_ok()).ok_or("ReplyLine::parse panicked")?;
            if r && b.windows(2).position(|w| w == b"\r\n") != Some(b.len() - 2) {
                return Err("a reply line was accepted with bytes left".into());
            }
            let e = panics(|| Email::parse_slice(b).ok()).ok_or("Email::parse_slice panicked")?;
            if let Some(e) = e {
                if e.hostname().is_none() && e.raw_localpart().bytes()[..] != *b {
                    return Err("an address was accepted with bytes left".into());
                }
                if e.hostname().is_some() && ref_email(b).is_none() {
                    return Err("an address was accepted that is none".into());
                }
            }
            Ok(())
        })
    };
    for len in 0..=2u32 {
        for code in 0..256usize.pow(len) {
            let s: Vec<u8> = (0..len).map(|i| (code >> (8 * i)) as u8).collect();
            one(rec, &s)?;
        }
    }
    rec.exhaustive.push("all texts of up to 2 bytes".into());
    for v in VERBS {
        for l in long_lines(v) {
            one(rec, &l)?;
        }
    }
    for t in long_addresses() {
        one(rec, &t)?;
    }
    for n in LONG {
        one(rec, &[&b"250-"[..], &rep(b"x", *n), b"\r\n"].concat())?;
        one(rec, &[&b"250 "[..], &rep(b"\t x", *n)].concat())?;
    }
    // every prefix of valid texts
    for k in 0..200 {
        let mut r = Rng::new(k);
        let v = *r.pick(VERBS);
        for s in &[g_command(&mut r, v), g_email(&mut r), b"250 abc\r\n".to_vec()] {
            for i in 0..s.len().min(100) {
                one(rec, &s[..i])?;
            }
        }
    }
    while rec.time_left() {
        let mut b = match rng.below(5) {
            0 => g_email(rng),
            1 => {
                let mut v = rb(rng, b"0123456789+- ", 3, 4);
                v.extend(rb(rng, b" -", 0, 1));
                v.extend(g_text(rng));
                v.extend_from_slice(b"\r\n");
                v
            }
            2 => (0..rng.below(300)).map(|_| rng.next() as u8).collect(),
            3 if rng.one_in(50) => {
                // long and deep
                let unit: &[u8] = *rng.pick(&[&b"a."[..], b"@a,", b"\\a", b" k=v", b"-", b"(", b"[", b"\"", b"a", b"\r"]);
                let mut v = b"MAIL FROM:<".to_vec();
                if rng.one_in(2) {
                    v.push(b'"');
                }
                for _ in 0..20000 {
                    v.extend_from_slice(unit);
                }
                v.extend_from_slice(b">\r\n");
                v
            }
            _ => {
                let v = *rng.pick(VERBS);
                g_command(rng, v)
            }
        };
        for _ in 0..rng.below(3) {
            mutate(rng, &mut b);
        }
        one(rec, &b)?;
    }
    Ok(())
}
