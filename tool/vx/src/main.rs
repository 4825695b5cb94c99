mod dehyg;
mod source;
mod xform;

use quote::quote;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Stmt};
use xform::*;

fn die(s: &str) -> ! {
    eprintln!("vx: {}", s);
    std::process::exit(3)
}

struct Ghost {
    id: usize,
    before: bool,
    name: String,
    nth: Option<usize>,
}
/// inserts `vx_ghost!(ID)` next to the statement holding the nth call of a name
struct Place<'a> {
    g: &'a [Ghost],
    seen: HashMap<String, usize>,
    pending: Vec<usize>,
    placed: BTreeSet<usize>,
}
impl<'a> Place<'a> {
    fn note(&mut self, n: &str) {
        let c = self.seen.entry(n.to_string()).or_insert(0);
        let k = *c;
        *c += 1;
        for g in self.g {
            if g.name == n && g.nth.map_or(true, |x| x == k) {
                self.pending.push(g.id);
            }
        }
    }
    fn flush(&mut self) -> (Vec<Stmt>, Vec<Stmt>) {
        let (mut a, mut b) = (vec![], vec![]);
        for id in std::mem::take(&mut self.pending) {
            let l = proc_macro2::Literal::usize_unsuffixed(id);
            let s: Stmt = parse_quote!(vx_ghost!(#l););
            self.placed.insert(id);
            if self.g.iter().find(|g| g.id == id).unwrap().before {
                a.push(s)
            } else {
                b.push(s)
            }
        }
        (a, b)
    }
}
impl<'a> VisitMut for Place<'a> {
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        self.note(&m.method.to_string());
    }
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            self.note(&n);
        }
    }
    fn visit_expr_return_mut(&mut self, r: &mut syn::ExprReturn) {
        visit_mut::visit_expr_return_mut(self, r);
        self.note("return");
    }
    fn visit_expr_break_mut(&mut self, r: &mut syn::ExprBreak) {
        visit_mut::visit_expr_break_mut(self, r);
        self.note("break");
    }
    fn visit_expr_continue_mut(&mut self, _: &mut syn::ExprContinue) {
        self.note("continue");
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let outer = std::mem::take(&mut self.pending);
        visit_mut::visit_arm_mut(self, a);
        let (b, c) = self.flush();
        if !b.is_empty() || !c.is_empty() {
            let x = &a.body;
            let body: Expr = if c.is_empty() {
                parse_quote!({ #(#b)* #x })
            } else {
                parse_quote!({ #(#b)* let vx_r = #x; #(#c)* vx_r })
            };
            *a.body = body;
            a.comma = Some(Default::default());
        }
        self.pending = outer;
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let n = b.stmts.len();
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let outer = std::mem::take(&mut self.pending);
            self.visit_stmt_mut(&mut s);
            let (x, y) = self.flush();
            self.pending = outer;
            out.extend(x);
            if y.is_empty() {
                out.push(s);
            } else if i + 1 == n {
                if let Stmt::Expr(e, None) = &s {
                    let st: Stmt = parse_quote!(let vx_r = #e;);
                    out.push(st);
                    out.extend(y);
                    out.push(Stmt::Expr(parse_quote!(vx_r), None));
                } else {
                    out.push(s);
                    out.extend(y);
                }
            } else {
                out.push(s);
                out.extend(y);
            }
        }
        b.stmts = out;
    }
}

/// token stream to text, one statement per line
fn pretty(ts: proc_macro2::TokenStream) -> String {
    let mut out = String::new();
    let mut depth = 0usize;
    fn go(ts: proc_macro2::TokenStream, out: &mut String, depth: &mut usize) {
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        let mut prev_joint = false;
        for t in v.iter() {
            match t {
                proc_macro2::TokenTree::Group(g) => match g.delimiter() {
                    proc_macro2::Delimiter::Brace => {
                        out.push_str(" {");
                        *depth += 1;
                        nl(out, *depth);
                        go(g.stream(), out, depth);
                        *depth -= 1;
                        nl(out, *depth);
                        out.push('}');
                        nl(out, *depth);
                        prev_joint = false;
                    }
                    d => {
                        let (a, b) = match d {
                            proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                            proc_macro2::Delimiter::Bracket => ("[", "]"),
                            _ => ("", ""),
                        };
                        out.push_str(a);
                        go(g.stream(), out, depth);
                        while out.ends_with(' ') {
                            out.pop();
                        }
                        out.push_str(b);
                        out.push(' ');
                        prev_joint = false;
                    }
                },
                proc_macro2::TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if (c == ';' || c == ',' || c == '.' || c == '?') && !prev_joint {
                        while out.ends_with(' ') {
                            out.pop();
                        }
                    }
                    out.push(c);
                    if p.spacing() == proc_macro2::Spacing::Joint {
                        prev_joint = true;
                    } else {
                        prev_joint = false;
                        if c == ';' {
                            nl(out, *depth);
                        } else if c != '.' && c != '&' && c != '!' {
                            out.push(' ');
                        }
                    }
                }
                t => {
                    out.push_str(&t.to_string());
                    out.push(' ');
                    prev_joint = false;
                }
            }
        }
    }
    fn nl(out: &mut String, depth: usize) {
        while out.ends_with(' ') {
            out.pop();
        }
        if !out.ends_with('\n') {
            out.push('\n');
        }
        for _ in 0..depth {
            out.push_str("    ");
        }
    }
    go(ts, &mut out, &mut depth);
    // `}` newline `else`
    let mut s = out;
    loop {
        let mut changed = false;
        for kw in ["else", ")", ";", ",", ".", "?"] {
            while let Some(p) = find_brace_then(&s, kw) {
                s.replace_range(p.0..p.1, " ");
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    s
}
fn find_brace_then(s: &str, kw: &str) -> Option<(usize, usize)> {
    let b = s.as_bytes();
    let mut i = 0;
    while let Some(p) = s[i..].find('}') {
        let p = p + i + 1;
        let mut q = p;
        let mut seen = false;
        while q < b.len() && (b[q] == b' ' || b[q] == b'\n') {
            if b[q] == b'\n' {
                seen = true;
            }
            q += 1;
        }
        if seen && s[q..].starts_with(kw) {
            return Some((p, q));
        }
        i = p;
    }
    None
}

struct FnDir {
    file: String,
    path: String,
    opts: HashMap<String, String>,
    header: Vec<String>,
    loops: BTreeMap<usize, Vec<String>>,
    start: Vec<String>,
    loop_start: BTreeMap<usize, Vec<String>>,
    loop_end: BTreeMap<usize, Vec<String>>,
    loop_after: BTreeMap<usize, Vec<String>>,
    ghosts: Vec<(Ghost, Vec<String>)>,
    /// parser blocks made into functions of their own: numbers, contract, ghost code at the start
    outlines: Vec<(Vec<usize>, Vec<String>, Vec<String>)>,
}

/// nom macros expand to blocks `{ let i_ = INPUT.clone(); .. }`; the chosen ones become functions of INPUT
struct Outliner {
    want: BTreeSet<usize>,
    next: usize,
    tags: usize,
    got: Vec<(usize, Block)>,
    names: HashMap<usize, String>,
    list: Vec<String>,
}
impl VisitMut for Outliner {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let input: Option<Expr> = match &*e {
            Expr::Block(b) if b.label.is_none() => {
                let mut found = None;
                for (n, st) in b.block.stmts.iter().take(3).enumerate() {
                    if let Stmt::Local(l) = st {
                        if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                            let name = p.ident.to_string();
                            if (n == 0 && name.starts_with("i___h")) || name.starts_with("input__h") {
                                if let Expr::MethodCall(m) = &*i.expr {
                                    if m.method == "clone" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_)) {
                                        // `let i_ = i.clone()` of one expansion: a later step of do_parse!
                                        let from = quote!(#m).to_string();
                                        let step = name.strip_prefix("i__").map_or(false, |k| from.starts_with(&format!("i_{} ", k)));
                                        if !step {
                                            found = Some((*m.receiver).clone());
                                        }
                                    }
                                }
                                break;
                            }
                        }
                    }
                }
                found
            }
            // wrap_sep!: `match separator(INPUT) { .. }`
            Expr::Match(m) => match &*m.expr {
                Expr::Call(c) if c.args.len() == 1 && quote!(#c).to_string().contains("eat_") => match &c.args[0] {
                    x @ Expr::Path(_) => Some(x.clone()),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        // tag!: `{ let res_ = match INPUT.compare(TEXT) { .. }; res_ }`
        let mut tag = false;
        let input = input.or_else(|| match &*e {
            Expr::Block(b) if b.label.is_none() => match b.block.stmts.first() {
                Some(Stmt::Local(l)) => match l.init.as_ref().map(|i| &*i.expr) {
                    Some(Expr::Match(m)) => match &*m.expr {
                        Expr::MethodCall(c) if (c.method == "compare" || c.method == "compare_no_case") && matches!(&*c.receiver, Expr::Path(_)) => {
                            tag = true;
                            Some((*c.receiver).clone())
                        }
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        });
        let k = if tag { 1000 + self.tags } else { self.next };
        if input.is_some() {
            if tag {
                self.tags += 1;
            } else {
                self.next += 1;
            }
            let t = quote!(#e).to_string();
            self.list.push(format!("{}: {}", k, t.chars().take(400).collect::<String>()));
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = input {
            if self.want.contains(&k) {
                {
                    let mut b: Block = match &*e {
                        Expr::Block(b) => b.block.clone(),
                        x => parse_quote!({ #x }),
                    };
                    b.stmts.insert(0, parse_quote!(let #x = vx_in;));
                    self.got.push((k, b));
                }
                let f = syn::Ident::new(&self.names[&k], proc_macro2::Span::call_site());
                *e = parse_quote!(#f(#x.clone()));
            }
        }
    }
}

/// `0...64` is `0..=64`
fn old_ranges(t: &str) -> String {
    let b: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if i > 0 && i + 3 < b.len() && b[i] == '.' && b[i + 1] == '.' && b[i + 2] == '.' && b[i - 1].is_ascii_digit() && b[i + 3].is_ascii_digit() {
            o.push_str("..=");
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        die("usage: vx unit TEMPLATE --repo DIR [--expanded NAME=FILE]... --out FILE --report FILE | vx names ...");
    }
    let mut repo = PathBuf::new();
    let mut expanded: Vec<(String, PathBuf)> = vec![];
    let mut plain: Vec<(String, PathBuf)> = vec![];
    let (mut out, mut report) = (PathBuf::new(), PathBuf::new());
    let template = PathBuf::from(&a[2]);
    let mut canary = false;
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "--repo" => repo = PathBuf::from(&a[i + 1]),
            "--canary" => canary = a[i + 1] == "1",
            "--out" => out = PathBuf::from(&a[i + 1]),
            "--report" => report = PathBuf::from(&a[i + 1]),
            "--expanded" => {
                let (n, f) = a[i + 1].split_once('=').unwrap();
                expanded.push((n.into(), f.into()));
            }
            "--file" => {
                let (n, f) = a[i + 1].split_once('=').unwrap();
                plain.push((n.into(), f.into()));
            }
            _ => die("bad argument"),
        }
        i += 2;
    }
    let mut ix = source::Index::default();
    for krate in ["smtp-message", "smtp-server", "smtp-queue"] {
        for f in source::rs_files(&repo.join(krate).join("src")) {
            let name = f.strip_prefix(&repo).unwrap().to_string_lossy().to_string();
            let text = std::fs::read_to_string(&f).unwrap_or_default();
            match syn::parse_file(&text) {
                Ok(x) => ix.add(&name, x),
                Err(e) => die(&format!("cannot parse {}: {}", name, e)),
            }
        }
    }
    // source of a dependency, as it lies in cargo's registry (ranges in the old notation `a...b`, trait objects without `dyn`)
    for (n, f) in &plain {
        let text = std::fs::read_to_string(f).unwrap_or_else(|_| die(&format!("no file {}", f.display())));
        let t = old_ranges(&text).replace("Box<Fn(", "Box<dyn Fn(");
        match syn::parse_file(&t) {
            Ok(x) => ix.add(n, x),
            Err(e) => die(&format!("cannot parse {}: {} at {:?}", n, e, e.span().start())),
        }
    }
    for (n, f) in &expanded {
        let text = std::fs::read_to_string(f).unwrap_or_else(|_| die("no expanded file"));
        let t = dehyg::annotate(&text);
        if let Ok(p) = std::env::var("VX_DUMP") {
            std::fs::write(p, &t).unwrap();
        }
        match syn::parse_file(&t) {
            Ok(mut x) => {
                dehyg::strip(&mut x);
                ix.add(n, x)
            }
            Err(e) => die(&format!(
                "cannot parse expanded {}: {} at {:?}",
                n,
                e,
                e.span().start()
            )),
        }
    }

    let lines = load(&template, &mut BTreeSet::new());
    // names with contracts: every `fn NAME` in the template
    let mut known: BTreeSet<String> = BTreeSet::new();
    for l in &lines {
        let mut r = l.as_str();
        while let Some(p) = r.find("fn ") {
            let ok = p == 0 || !r.as_bytes()[p - 1].is_ascii_alphanumeric();
            let n: String = r[p + 3..]
                .trim_start()
                .chars()
                .take_while(|c| c.is_alphanumeric() || *c == '_')
                .collect();
            if ok && !n.is_empty() {
                known.insert(n);
            }
            r = &r[p + 3..];
        }
    }
    for k in ["unwrap", "expect", "len", "is_empty", "is_some", "is_none", "take", "push", "clone", "vx_into"] {
        known.insert(k.into());
    }

    // constants the contract file declares
    let mut consts: BTreeSet<String> = BTreeSet::new();
    let mut futures01 = false;
    for l in &lines {
        if let Some(r) = l.trim().strip_prefix("//@const ") {
            if let Some(n) = r.split_whitespace().nth(1) {
                consts.insert(n.rsplit("::").next().unwrap().to_string());
            }
        } else if let Some(p) = l.find("const ") {
            consts.insert(l[p + 6..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
        }
    }
    let mut thread: Vec<(String, String)> = vec![];
    let mut outtext = String::new();
    let mut rep_fns: Vec<serde_json::Value> = vec![];
    let mut problems: Vec<String> = vec![];
    let mut hoist_pos: Option<usize> = None;
    let mut hoisted: Vec<String> = vec![];
    let mut li = 0;
    while li < lines.len() {
        let l = lines[li].clone();
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@helpers ") {
            ix.helpers_from = r
                .split_whitespace()
                .flat_map(|s| {
                    if let Some(dir) = s.strip_suffix("/*") {
                        ix.files.keys().filter(|k| k.starts_with(dir)).cloned().collect::<Vec<_>>()
                    } else {
                        vec![s.to_string()]
                    }
                })
                .collect();
        } else if let Some(r) = t.strip_prefix("//@thread ") {
            let (names, arg) = r.split_once(" : ").unwrap_or_else(|| die("bad thread"));
            for n in names.split_whitespace() {
                thread.push((n.to_string(), arg.trim().to_string()));
            }
        } else if t == "//@futures01" {
            futures01 = true;
        } else if t == "//@hoist" {
            hoist_pos = Some(outtext.len());
        } else if let Some(r) = t.strip_prefix("//@type ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            match emit_type(&ix, w[0], w[1], &w[2..]) {
                Ok(s) => {
                    outtext.push_str(&s);
                    outtext.push('\n');
                }
                Err(e) => problems.push(e),
            }
        } else if let Some(r) = t.strip_prefix("//@const ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            match emit_const(&ix, w[0], w[1]) {
                Ok(s) => {
                    outtext.push_str(&s);
                    outtext.push('\n');
                }
                Err(e) => problems.push(e),
            }
        } else if let Some(r) = t.strip_prefix("//@fn ") {
            let (d, next) = parse_fn(r, &lines, li + 1);
            li = next;
            let mut cx = Ctx::default();
            cx.known = known.clone();
            cx.thread = thread.clone();
            cx.futures01 = futures01;
            cx.consts = consts.clone();
            match emit_fn(&d, &ix, &mut cx, canary) {
                Ok(s) => {
                    let line0 = outtext.matches('\n').count() + 1;
                    outtext.push_str(&s);
                    let line1 = outtext.matches('\n').count() + 1;
                    hoisted.extend(cx.hoisted.clone());
                    rep_fns.push(serde_json::json!({
                        "file": d.file, "path": d.path, "rules": cx.rules, "inlined": cx.inlined,
                        "loops": cx.loops, "lines": [line0, line1],
                        "problems": cx.problems,
                        "vname": d.header.iter().find_map(|h| h.split("fn ").nth(1).map(|x| x.chars().take_while(|c| c.is_alphanumeric()||*c=='_').collect::<String>())),
                    }));
                    for p in &cx.problems {
                        problems.push(format!("{}: unsupported {}", d.path, p));
                    }
                }
                Err(e) => problems.push(e),
            }
            continue;
        } else {
            outtext.push_str(&l);
            outtext.push('\n');
        }
        li += 1;
    }
    if !hoisted.is_empty() {
        let mut seen = BTreeSet::new();
        let h: String = hoisted
            .into_iter()
            .filter(|x| seen.insert(x.clone()))
            .map(|x| x + "\n")
            .collect();
        // one line per hoisted item would shift line numbers: keep on one line
        let h = h.replace('\n', " ");
        match hoist_pos {
            Some(p) => outtext.insert_str(p, &h),
            None => problems.push("hoisted items but no //@hoist".into()),
        }
    }
    std::fs::write(&out, outtext).unwrap();
    std::fs::write(
        &report,
        serde_json::to_string_pretty(&serde_json::json!({"functions": rep_fns, "problems": problems})).unwrap(),
    )
    .unwrap();
    if !problems.is_empty() {
        for p in problems {
            eprintln!("vx: {}", p);
        }
        std::process::exit(2);
    }
}

fn load(p: &PathBuf, seen: &mut BTreeSet<PathBuf>) -> Vec<String> {
    let text = std::fs::read_to_string(p).unwrap_or_else(|_| die(&format!("no template {}", p.display())));
    let mut v = vec![];
    for l in text.lines() {
        if let Some(r) = l.trim().strip_prefix("//@include ") {
            let q = p.parent().unwrap().join(r.trim());
            if seen.insert(q.clone()) {
                v.extend(load(&q, seen));
            }
        } else if let Some(r) = l.trim().strip_prefix("//@proved ") {
            // a file of specifications whose lemmas are proved in another unit
            let (f, unit) = r.split_once(" in ").unwrap_or_else(|| die("bad proved"));
            let q = p.parent().unwrap().join(f.trim());
            if seen.insert(q.clone()) {
                for x in load(&q, seen) {
                    let y = x.trim_start();
                    let y = y.strip_prefix("pub ").unwrap_or(y);
                    if y.strip_prefix("broadcast ").unwrap_or(y).starts_with("proof fn ") && !v.last().map_or(false, |l: &String| l.contains("via_fn")) {
                        v.push(format!("#[verifier::external_body] // lemma proved in unit {}", unit.trim()));
                    }
                    v.push(x);
                }
            }
        } else if let Some(r) = l.trim().strip_prefix("//@contracts ") {
            // a file of contracts proved in another unit: bodies are left out, contracts assumed
            let (f, unit) = r.split_once(" from ").unwrap_or_else(|| die("bad contracts"));
            let q = p.parent().unwrap().join(f.trim());
            if seen.insert(q.clone()) {
                v.extend(contracts_only(load(&q, seen), unit.trim()));
            }
        } else {
            v.push(l.to_string());
        }
    }
    v
}

fn contracts_only(lines: Vec<String>, unit: &str) -> Vec<String> {
    let mut v = vec![];
    let mut st = 0; // 0 outside, 1 header of a function, 2 its annotations
    for l in lines {
        let t = l.trim();
        if t.starts_with("//@fn ") {
            st = 1;
            v.push(format!("#[verifier::external_body] // contract proved in unit {}", unit));
        } else if st > 0 && t == "//@end" {
            if st == 1 {
                v.push("{ unimplemented!() }".into());
            }
            st = 0;
        } else if st == 1 && t.starts_with("//@") {
            st = 2;
            v.push("{ unimplemented!() }".into());
        } else if st < 2 {
            v.push(l);
        }
    }
    v
}

fn parse_fn(r: &str, lines: &[String], mut li: usize) -> (FnDir, usize) {
    // FILE PATH [k=v ...]; PATH may be `<A for B>::c`
    let r = r.trim();
    let (file, rest) = r.split_once(' ').unwrap_or_else(|| die("bad //@fn"));
    let rest = rest.trim();
    let (path, opts) = if rest.starts_with('<') {
        let e = rest.rfind(">::").unwrap();
        let e2 = rest[e..].find(' ').map(|x| x + e).unwrap_or(rest.len());
        (rest[..e2].to_string(), rest[e2..].to_string())
    } else {
        match rest.split_once(' ') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (rest.to_string(), String::new()),
        }
    };
    let opts: HashMap<String, String> = opts
        .split_whitespace()
        .map(|x| {
            let (k, v) = x.split_once('=').unwrap_or((x, "1"));
            (k.to_string(), v.to_string())
        })
        .collect();
    let mut d = FnDir {
        file: file.to_string(),
        path,
        opts,
        header: vec![],
        loops: Default::default(),
        start: vec![],
        loop_start: Default::default(),
        loop_end: Default::default(),
        loop_after: Default::default(),
        ghosts: vec![],
        outlines: vec![],
    };
    enum Sec {
        O,
        OS,
        H,
        Loop(usize),
        Start,
        LS(usize),
        LE(usize),
        LA(usize),
        G(usize),
    }
    let mut sec = Sec::H;
    let mut gid = 0;
    loop {
        if li >= lines.len() {
            die("missing //@end");
        }
        let l = &lines[li];
        li += 1;
        let t = l.trim();
        if t == "//@end" {
            break;
        }
        if let Some(r) = t.strip_prefix("//@loop ") {
            sec = Sec::Loop(r.trim().parse().unwrap());
            continue;
        }
        if let Some(r) = t.strip_prefix("//@ghost ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            match w[0] {
                "start" if !d.outlines.is_empty() => sec = Sec::OS,
                "start" => sec = Sec::Start,
                "loopstart" => sec = Sec::LS(w[1].parse().unwrap()),
                "loopend" => sec = Sec::LE(w[1].parse().unwrap()),
                "loopafter" => sec = Sec::LA(w[1].parse().unwrap()),
                "before" | "after" => {
                    let g = Ghost {
                        id: gid,
                        before: w[0] == "before",
                        name: w[1].into(),
                        nth: w.get(2).and_then(|x| if *x == "*" { None } else { Some(x.parse().unwrap()) }),
                    };
                    d.ghosts.push((g, vec![]));
                    sec = Sec::G(gid);
                    gid += 1;
                }
                _ => die("bad //@ghost"),
            }
            continue;
        }
        if let Some(r) = t.strip_prefix("//@outline ") {
            d.outlines.push((r.split_whitespace()
                    // tN: the Nth comparison with a text, counted apart from the other blocks
                    .map(|x| match x.strip_prefix('t') { Some(n) => 1000 + n.parse::<usize>().unwrap(), None => x.parse().unwrap() })
                    .collect(), vec![], vec![]));
            sec = Sec::O;
            continue;
        }
        match &sec {
            Sec::O => d.outlines.last_mut().unwrap().1.push(l.clone()),
            Sec::OS => d.outlines.last_mut().unwrap().2.push(l.clone()),
            Sec::H => d.header.push(l.clone()),
            Sec::Loop(n) => d.loops.entry(*n).or_default().push(l.clone()),
            Sec::Start => d.start.push(l.clone()),
            Sec::LS(n) => d.loop_start.entry(*n).or_default().push(l.clone()),
            Sec::LE(n) => d.loop_end.entry(*n).or_default().push(l.clone()),
            Sec::LA(n) => d.loop_after.entry(*n).or_default().push(l.clone()),
            Sec::G(n) => d.ghosts[*n].1.push(l.clone()),
        }
    }
    (d, li)
}

fn find_closure(b: &Block, nth: usize) -> Option<syn::ExprClosure> {
    struct F(usize, Option<syn::ExprClosure>);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
            if self.0 == 0 && self.1.is_none() {
                self.1 = Some(c.clone());
            } else if self.0 > 0 {
                self.0 -= 1;
                syn::visit::visit_expr_closure(self, c);
            }
        }
    }
    let mut f = F(nth, None);
    syn::visit::Visit::visit_block(&mut f, b);
    f.1
}

// the closure passed to .METHOD(..)
fn find_closure_arg(b: &Block, method: &str) -> Option<syn::ExprClosure> {
    struct F<'m>(&'m str, Option<syn::ExprClosure>);
    impl<'a, 'm> syn::visit::Visit<'a> for F<'m> {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, m);
            if m.method == self.0 && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    self.1 = Some(c.clone());
                }
            }
        }
    }
    let mut f = F(method, None);
    syn::visit::Visit::visit_block(&mut f, b);
    f.1
}

fn emit_fn(d: &FnDir, ix: &source::Index, cx: &mut Ctx, canary: bool) -> Result<String, String> {
    let f = ix.find(&d.file, &d.path)?;
    cx.macro_expanded = d.file.starts_with('@');
    cx.byte_vars = d.opts.get("bytes").map_or(Default::default(), |x| x.split('|').map(|s| s.to_string()).collect());
    cx.panics_forbidden = d.opts.get("panics").map_or(true, |x| x == "forbid");
    cx.panics_guarded = d.opts.get("panics").map_or(false, |x| x == "guarded");
    cx.self_ty = f.ty.clone().unwrap_or_default();
    let mut block = f.block.clone();
    let mut inputs: Vec<syn::FnArg> = f.sig.inputs.iter().cloned().collect();
    if let Some(n) = d.opts.get("closure") {
        let c = match n.parse() {
            Ok(i) => find_closure(&block, i),
            Err(_) => find_closure_arg(&block, n),
        }
        .ok_or(format!("{}: closure {} not found", d.path, n))?;
        inputs = c
            .inputs
            .iter()
            .map(|p| {
                let (p, t): (syn::Pat, syn::Type) = match p {
                    syn::Pat::Type(t) => ((*t.pat).clone(), (*t.ty).clone()),
                    p => (p.clone(), parse_quote!(_)),
                };
                let a: syn::PatType = syn::PatType {
                    attrs: vec![],
                    pat: Box::new(p),
                    colon_token: Default::default(),
                    ty: Box::new(t),
                };
                syn::FnArg::Typed(a)
            })
            .collect();
        block = match &*c.body {
            Expr::Block(b) => b.block.clone(),
            x => parse_quote!({ #x }),
        };
        cx.hit("closure-lifted");
    }
    // parameters
    let canon: Vec<String> = d
        .opts
        .get("params")
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect())
        .unwrap_or_default();
    if canon.len() != inputs.len() {
        return Err(format!(
            "{}: {} parameters, contract has {}",
            d.path,
            inputs.len(),
            canon.len()
        ));
    }
    let mut ren: HashMap<String, String> = HashMap::new();
    let mut pre: Vec<Stmt> = vec![];
    for (a, c) in inputs.iter().zip(canon.iter()) {
        match a {
            syn::FnArg::Receiver(r) => {
                let pin = quote!(#r).to_string().contains("Pin");
                if pin {
                    cx.pinned.insert("self".into());
                }
                if r.mutability.is_some() && !pin {
                    if let syn::ReceiverKind::Value = r.kind {
                        ren.insert("self".into(), "vx_self".into());
                        pre.push(parse_quote!(let mut vx_self = self;));
                        cx.hit("mut-self-rebound");
                    }
                }
            }
            syn::FnArg::Typed(t) => {
                let ty = &t.ty;
                let pin = quote!(#ty).to_string().contains("Pin <");
                let cid = syn::Ident::new(c, proc_macro2::Span::call_site());
                match &*t.pat {
                    syn::Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => {
                        if pin {
                            cx.pinned.insert(c.clone());
                        }
                        if p.ident != c.as_str() {
                            ren.insert(p.ident.to_string(), c.clone());
                            cx.hit("parameter-renamed");
                        }
                        if p.mutability.is_some() && !pin {
                            pre.push(parse_quote!(let mut #cid = #cid;));
                        }
                    }
                    syn::Pat::Wild(_) => {}
                    p => {
                        pre.push(parse_quote!(let #p = #cid;));
                        cx.hit("parameter-pattern");
                    }
                }
            }
        }
    }
    if !ren.is_empty() {
        Renamer(&ren).visit_block_mut(&mut block);
        // patterns rebound above may use renamed names
    }
    if let Some(drop) = d.opts.get("replace_closure_arg") {
        // METHOD: the (single) closure argument of .METHOD(..) is dropped; it is verified lifted
        struct R(String, usize);
        impl VisitMut for R {
            fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
                visit_mut::visit_expr_method_call_mut(self, m);
                if m.method == self.0 && m.args.len() == 1 {
                    if let Expr::Closure(_) = &m.args[0] {
                        m.args.clear();
                        self.1 += 1;
                    }
                }
            }
        }
        let mut r = R(drop.clone(), 0);
        r.visit_block_mut(&mut block);
        if r.1 != 1 {
            return Err(format!("{}: .{}(closure) not found once", d.path, drop));
        }
        cx.hit("lifted-closure-argument");
    }
    let mut stmts = pre;
    stmts.extend(block.stmts.clone());
    block.stmts = stmts;
    // impl Iterator result: the lazy iterator is collected eagerly
    if let syn::ReturnType::Type(_, t) = &f.sig.output {
        let s = quote!(#t).to_string();
        if s.starts_with("impl Iterator") {
            cx.hit("impl-iterator-as-vec");
        }
    }
    {
        let mut p = Pass { cx, ix, depth: 0 };
        p.visit_block_mut(&mut block);
    }
    let fname = |h: &Vec<String>| -> String {
        h.iter()
            .find_map(|x| x.split("fn ").nth(1).map(|x| x.chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '$').collect::<String>()))
            .unwrap_or_default()
    };
    let mut ol = Outliner {
        want: d.outlines.iter().flat_map(|o| o.0.iter().cloned()).collect(),
        next: 0,
        tags: 0,
        got: vec![],
        names: d.outlines.iter().flat_map(|o| o.0.iter().map(move |k| (*k, fname(&o.1).replace('$', &k.to_string())))).collect(),
        list: vec![],
    };
    ol.visit_block_mut(&mut block);
    if let Ok(p) = std::env::var("VX_BLOCKS") {
        if p == d.path {
            for x in &ol.list {
                eprintln!("{}", x);
            }
        }
    }
    if ol.got.len() != ol.want.len() {
        return Err(format!("{}: contract names {} parser blocks, {} found", d.path, ol.want.len(), ol.got.len()));
    }
    for _ in &ol.got {
        cx.hit("parser-block-outlined");
    }
    let gs: Vec<Ghost> = d
        .ghosts
        .iter()
        .map(|(g, _)| Ghost {
            id: g.id,
            before: g.before,
            name: g.name.clone(),
            nth: g.nth,
        })
        .collect();
    let mut pl = Place {
        g: &gs,
        seen: Default::default(),
        pending: vec![],
        placed: Default::default(),
    };
    pl.visit_block_mut(&mut block);
    if canary {
        // a point that must be reachable: `assert(false)` at the end and before every return
        let g = vec![Ghost { id: 999999, before: true, name: "return".into(), nth: None }];
        let mut pl = Place { g: &g, seen: Default::default(), pending: vec![], placed: Default::default() };
        pl.visit_block_mut(&mut block);
        match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) => {
                block.stmts.push(parse_quote!(let vx_ret = #e;));
                block.stmts.push(parse_quote!(vx_ghost!(999999);));
                block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
            }
            Some(s) => {
                block.stmts.push(s);
                block.stmts.push(parse_quote!(vx_ghost!(999999);));
            }
            None => block.stmts.push(parse_quote!(vx_ghost!(999999);)),
        }
    }
    let mut text = pretty(quote!(#block));
    if canary {
        for m in ["vx_ghost !(999999) ;", "vx_ghost !(999999);"] {
            text = text.replace(m, "proof { assert(false); }");
        }
    }
    let fill = |mut text: String| -> Result<String, String> {
    // markers
    for n in 0..cx.loops {
        let inv = d.loops.get(&n).cloned().unwrap_or_default().join("\n");
        let ls = d.loop_start.get(&n).cloned().unwrap_or_default().join("\n");
        let le = d.loop_end.get(&n).cloned().unwrap_or_default().join("\n");
        let vars = cx.loop_vars.get(&n).cloned().unwrap_or_default();
        let why = |e: String| format!("{}: {}", d.path, e);
        let (inv, ls, le) = (
            xform::resolve(&inv, &vars).map_err(why)?,
            xform::resolve(&ls, &vars).map_err(why)?,
            xform::resolve(&le, &vars).map_err(why)?,
        );
        let m = format!("vx_loop !({}) ;", n);
        let m2 = format!("vx_loop !({});", n);
        let p = text.find(&m).map(|p| (p, m.len())).or(text.find(&m2).map(|p| (p, m2.len())));
        if let Some((p, len)) = p {
            // the brace before p
            let b = text[..p].rfind('{').unwrap();
            let rest = text[p + len..].to_string();
            let head = text[..b].to_string();
            let rest = match d.loop_after.get(&n) {
                None => rest,
                Some(a) => {
                    let mut dpt = 1;
                    let mut e = rest.len();
                    for (i, c) in rest.char_indices() {
                        if c == '{' {
                            dpt += 1
                        } else if c == '}' {
                            dpt -= 1;
                            if dpt == 0 {
                                e = i + 1;
                                break;
                            }
                        }
                    }
                    format!("{}\n{}\n{}", &rest[..e], xform::resolve(&a.join("\n"), &vars).map_err(why)?, &rest[e..])
                }
            };
            text = format!("{}\n{}\n{{\n{}\n{}", head, inv, ls, rest);
        }
        for m in [format!("vx_loopend !({}) ;", n), format!("vx_loopend !({});", n)] {
            text = text.replace(&m, &format!("\n{}\n", le));
        }
    }
    for (g, body) in &d.ghosts {
        for m in [format!("vx_ghost !({}) ;", g.id), format!("vx_ghost !({});", g.id)] {
            text = text.replace(&m, &format!("\n{}\n", body.join("\n")));
        }
    }
    Ok(text)
    };
    text = fill(text)?;
    let mut front = String::new();
    for (k, b) in &ol.got {
        let o = d.outlines.iter().find(|o| o.0.contains(k)).unwrap();
        let t = fill(pretty(quote!(#b)))?;
        let p = t.find('{').unwrap();
        let t = format!("{}{{\n{}\n{}", &t[..p], o.2.join("\n"), &t[p + 1..]);
        front.push_str(&format!("{}\n{}\n", o.1.join("\n").replace('$', &k.to_string()), t));
    }
    for n in d.loops.keys() {
        if *n >= cx.loops {
            return Err(format!("{}: contract has loop {} but the code has {}", d.path, n, cx.loops));
        }
    }
    if let Some(n) = d.opts.get("loops") {
        if n.parse::<usize>().unwrap() != cx.loops {
            return Err(format!("{}: {} loops expected, {} found", d.path, n, cx.loops));
        }
    }
    // element type of a collected vector
    for (k, v) in &d.opts {
        if let Some(n) = k.strip_prefix("out") {
            if n.parse::<usize>().is_ok() {
                let v = v.replace('~', " ");
                text = text.replace(&format!("let mut vx_out{} =", n), &format!("let mut vx_out{}: Vec<{}> =", n, v));
            }
        }
    }
    // start ghost
    if !d.start.is_empty() {
        let b = text.find('{').unwrap();
        text = format!("{}{{\n{}\n{}", &text[..b], d.start.join("\n"), &text[b + 1..]);
    }
    Ok(format!("{}{}\n{}\n", front, d.header.join("\n"), text))
}

fn clean_ty(t: &mut syn::Type) {
    struct T;
    impl VisitMut for T {
        fn visit_type_mut(&mut self, t: &mut syn::Type) {
            visit_mut::visit_type_mut(self, t);
        }
    }
    T.visit_type_mut(t);
}

fn emit_type(ix: &source::Index, file: &str, name: &str, opts: &[&str]) -> Result<String, String> {
    let it = ix.item(file, name).ok_or(format!("type {} not found in {}", name, file))?;
    let mut derive = String::new();
    for o in opts {
        if let Some(d) = o.strip_prefix("derive=") {
            derive = format!("#[derive({})]\n", d);
        }
    }
    // what is taken for derived must be
    let attrs = match &it {
        syn::Item::Struct(s) => s.attrs.clone(),
        syn::Item::Enum(s) => s.attrs.clone(),
        _ => vec![],
    };
    let mut have: Vec<String> = vec![];
    for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
        let _ = a.parse_nested_meta(|m| {
            have.extend(m.path.segments.last().map(|s| s.ident.to_string()));
            Ok(())
        });
    }
    for o in opts {
        if let Some(d) = o.strip_prefix("derived=") {
            for x in d.split(',') {
                if !have.iter().any(|h| h == x) {
                    return Err(format!("type {} no longer derives {}", name, x));
                }
            }
        }
    }
    let fix_generics = |g: &mut syn::Generics| {
        g.where_clause = None;
        for p in g.params.iter_mut() {
            if let syn::GenericParam::Type(t) = p {
                t.bounds.clear();
                t.colon_token = None;
            }
        }
    };
    let bounds: Option<&str> = opts.iter().find_map(|o| o.strip_prefix("generics="));
    let s = match it {
        syn::Item::Struct(mut s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            fix_generics(&mut s.generics);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
                clean_ty(&mut f.ty);
            }
            pretty(quote!(#s))
        }
        syn::Item::Enum(mut s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            fix_generics(&mut s.generics);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            pretty(quote!(#s))
        }
        _ => return Err(format!("{} is not a type", name)),
    };
    let s = if let Some(b) = bounds {
        let b = b.replace('~', " ");
        // replace the generics list textually
        match s.find('<') {
            Some(p) => {
                let mut dpt = 0;
                let mut e = p;
                for (i, c) in s[p..].char_indices() {
                    if c == '<' {
                        dpt += 1
                    } else if c == '>' {
                        dpt -= 1;
                        if dpt == 0 {
                            e = p + i + 1;
                            break;
                        }
                    }
                }
                format!("{}<{}>{}", &s[..p], b, &s[e..])
            }
            None => s,
        }
    } else {
        s
    };
    Ok(format!("{}{}", derive, s))
}

fn emit_const(ix: &source::Index, file: &str, path: &str) -> Result<String, String> {
    if let Some((t, n)) = path.split_once("::") {
        let c = ix.assoc_const(file, t, n).ok_or(format!("const {} not found", path))?;
        let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
        let s = quote!(pub const #id : #ty = #e ;);
        Ok(pretty(s))
    } else {
        match ix.item(file, path) {
            Some(syn::Item::Const(c)) => {
                let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                Ok(pretty(quote!(pub const #id : #ty = #e ;)))
            }
            _ => Err(format!("const {} not found", path)),
        }
    }
}
