//! The mechanical rules that turn a function of /repo into the subset Verus accepts.
//! Every rule application is counted under its name in the report.
use crate::source::Index;
use quote::quote;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt};

#[derive(Default)]
pub struct Ctx {
    pub rules: BTreeMap<String, usize>,
    pub problems: Vec<String>,
    pub loops: usize,
    pub pinned: BTreeSet<String>,
    pub known: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub thread: Vec<(String, String)>,
    pub hoisted: Vec<String>,
    pub empty_fns: BTreeSet<String>,
    pub panics_forbidden: bool,
    // panics are allowed exactly where the contract file says so (`vx_check_if`, `vx_panic_if`, `vx_owed_if`)
    pub panics_guarded: bool,
    pub self_ty: String,
    pub uniq: usize,
    pub calls: BTreeMap<String, usize>,
    pub lift_closures: Vec<String>,
    pub keep_closures: bool,
    pub macro_expanded: bool,
    /// variables known to be byte slices (directive option `bytes`)
    pub byte_vars: BTreeSet<String>,
    pub futures01: bool,
    pub consts: BTreeSet<String>,
    pub loop_vars: HashMap<usize, Vec<String>>,
}

impl Ctx {
    pub fn hit(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_insert(0) += 1;
    }
    fn fresh(&mut self) -> usize {
        self.uniq += 1;
        self.uniq
    }
}

pub fn toks<T: quote::ToTokens>(t: &T) -> String {
    quote!(#t).to_string()
}

fn paren_strip(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => paren_strip(&p.expr),
        Expr::Group(p) => paren_strip(&p.expr),
        _ => e.clone(),
    }
}
/// `&mut *x` / `&mut x` / `(x)` as a receiver is just `x`.
fn strip_ref(e: &Expr) -> Expr {
    match paren_strip(e) {
        Expr::Reference(r) => match paren_strip(&r.expr) {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => strip_ref(&u.expr),
            x => x,
        },
        Expr::Block(b) if b.block.stmts.len() == 1 && b.label.is_none() => {
            if let Stmt::Expr(x, None) = &b.block.stmts[0] {
                strip_ref(x)
            } else {
                Expr::Block(b)
            }
        }
        x => x,
    }
}
fn is_place(e: &Expr) -> bool {
    match paren_strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}
fn path_last(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        p.path.segments.last().map(|s| s.ident.to_string())
    } else {
        None
    }
}
fn path_str(e: &Expr) -> String {
    toks(e).replace(' ', "")
}
fn byte_array(b: &[u8]) -> Expr {
    let items: Vec<proc_macro2::TokenStream> = b
        .iter()
        .map(|x| {
            let l = proc_macro2::Literal::u8_suffixed(*x);
            quote!(#l)
        })
        .collect();
    parse_quote!(&[#(#items),*])
}

struct Subst<'a> {
    from: &'a str,
    to: &'a Expr,
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident(self.from) {
                *e = self.to.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub struct Renamer<'a>(pub &'a HashMap<String, String>);
impl<'a> VisitMut for Renamer<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = syn::Ident::new(n, p.ident.span());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) {
                p.path.segments[0].ident = if n == "self" {
                    syn::Ident::new("self", p.path.segments[0].ident.span())
                } else {
                    syn::Ident::new(n, p.path.segments[0].ident.span())
                };
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        // `S { x }` shorthand
        if f.colon_token.is_none() {
            if let syn::Member::Named(id) = &f.member {
                if self.0.contains_key(&id.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = rename_tokens(m.tokens.clone(), self.0);
    }
}
fn rename_tokens(ts: proc_macro2::TokenStream, m: &HashMap<String, String>) -> proc_macro2::TokenStream {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) => {
                if let Some(n) = m.get(&i.to_string()) {
                    proc_macro2::TokenTree::Ident(proc_macro2::Ident::new(n, i.span()))
                } else {
                    proc_macro2::TokenTree::Ident(i)
                }
            }
            proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(
                g.delimiter(),
                rename_tokens(g.stream(), m),
            )),
            t => t,
        })
        .collect()
}

// ---------------------------------------------------------------- variables for closures and iterators

/// `let it = v.iter();` or `let f = |x| …;`, used once: the use gets the expression, if nothing between
/// mentions what the expression mentions
fn inline_lets(stmts: &mut Vec<Stmt>) -> usize {
    let mut hits = 0;
    let mut i = 0;
    while i < stmts.len() {
        if let Some(j) = inline_let(stmts, i) {
            let _ = j;
            stmts.remove(i);
            hits += 1;
        } else {
            i += 1;
        }
    }
    hits
}
fn inline_let(stmts: &mut Vec<Stmt>, i: usize) -> Option<usize> {
    let (x, e) = match &stmts[i] {
        Stmt::Local(l) => match (&l.pat, &l.init) {
            (Pat::Ident(p), Some(n)) if p.by_ref.is_none() && p.subpat.is_none() && n.diverge.is_none() => (p.ident.to_string(), (*n.expr).clone()),
            _ => return None,
        },
        _ => return None,
    };
    let lazy = match &e {
        Expr::Closure(c) => c.asyncness.is_none(),
        Expr::MethodCall(m) => {
            !expr_has_return(&e)
                && matches!(
                    m.method.to_string().as_str(),
                    "iter" | "into_iter" | "iter_bytes" | "byte_chunks" | "windows" | "with_position" | "enumerate" | "map" | "filter" | "filter_map" | "scan" | "skip" | "zip" | "cloned" | "copied"
                )
        }
        _ => false,
    };
    if !lazy {
        return None;
    }
    let count = |s: &Stmt| -> usize {
        fn n(ts: proc_macro2::TokenStream, x: &str) -> usize {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == x => 1,
                    proc_macro2::TokenTree::Group(g) => n(g.stream(), x),
                    _ => 0,
                })
                .sum()
        }
        n(quote::quote!(#s), &x)
    };
    let uses: Vec<usize> = (i + 1..stmts.len()).map(|j| count(&stmts[j])).collect();
    if uses.iter().sum::<usize>() != 1 {
        return None;
    }
    let j = i + 1 + uses.iter().position(|n| *n == 1)?;
    let mut own = Default::default();
    idents(quote::quote!(#e), &mut own);
    for s in &stmts[i + 1..j] {
        let mut other = Default::default();
        idents(quote::quote!(#s), &mut other);
        if !matches!(s, Stmt::Local(_)) || other.iter().any(|o| own.contains(o) && !matches!(o.as_str(), "let" | "mut" | "ref" | "move" | "match" | "if" | "else" | "as") && o.starts_with(|c: char| c.is_lowercase() || c == '_')) {
            return None;
        }
    }
    // not in a loop, not in a closure: there it would be evaluated again
    struct Put<'a> {
        x: &'a str,
        e: &'a Expr,
        n: usize,
    }
    impl<'a> VisitMut for Put<'a> {
        fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
            let at = |y: &Expr, x: &str| matches!(y, Expr::Path(p) if p.path.is_ident(x));
            if at(&m.receiver, self.x) && !matches!(self.e, Expr::Closure(_)) {
                *m.receiver = self.e.clone();
                self.n += 1;
            }
            for a in m.args.iter_mut() {
                if at(a, self.x) {
                    *a = self.e.clone();
                    self.n += 1;
                }
            }
            visit_mut::visit_expr_method_call_mut(self, m);
        }
        fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
            for a in c.args.iter_mut() {
                if matches!(a, Expr::Path(p) if p.path.is_ident(self.x)) {
                    *a = self.e.clone();
                    self.n += 1;
                }
            }
            visit_mut::visit_expr_call_mut(self, c);
        }
        fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
            if matches!(&*f.expr, Expr::Path(p) if p.path.is_ident(self.x)) {
                *f.expr = self.e.clone();
                self.n += 1;
            } else {
                self.visit_expr_mut(&mut f.expr);
            }
        }
        fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
        fn visit_expr_while_mut(&mut self, _: &mut syn::ExprWhile) {}
        fn visit_expr_loop_mut(&mut self, _: &mut syn::ExprLoop) {}
        fn visit_expr_async_mut(&mut self, _: &mut syn::ExprAsync) {}
        fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    }
    let mut t = stmts[j].clone();
    let mut put = Put { x: &x, e: &e, n: 0 };
    put.visit_stmt_mut(&mut t);
    if put.n != 1 {
        return None;
    }
    stmts[j] = t;
    Some(j)
}

// ---------------------------------------------------------------- iterator chains

enum Adaptor {
    Enumerate,
    Skip(Expr),
    Map(Expr),
    FilterMap(Expr),
    Filter(Expr),
    Scan(Expr, Expr),
    Cloned,
    WithPosition,
    /// with the elements of another slice; the shorter one ends it
    Zip(Expr),
}
struct Chain {
    kind: Kind,
    adaptors: Vec<Adaptor>,
}
enum Kind {
    Elems(Expr),          // by reference
    Owned(Expr),          // by value, a Vec
    Windows(Expr, Expr),  // slices of n
    Range(Expr, Expr),
}

fn chain_of(e: &Expr, cx: &Ctx) -> Option<Chain> {
    match paren_strip(e) {
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            let args: Vec<Expr> = m.args.iter().cloned().collect();
            let wrap = |a: Adaptor| -> Option<Chain> {
                let mut c = chain_of(&m.receiver, cx)?;
                c.adaptors.push(a);
                Some(c)
            };
            match (name.as_str(), args.len()) {
                ("iter", 0) | ("iter_bytes", 0) => Some(Chain {
                    kind: Kind::Elems((*m.receiver).clone()),
                    adaptors: vec![],
                }),
                ("windows", 1) => Some(Chain {
                    kind: Kind::Windows((*m.receiver).clone(), args[0].clone()),
                    adaptors: vec![],
                }),
                ("byte_chunks", 1) => Some(Chain {
                    kind: Kind::Owned(Expr::MethodCall(m.clone())),
                    adaptors: vec![],
                }),
                ("into_iter", 0) => Some(Chain {
                    kind: Kind::Owned((*m.receiver).clone()),
                    adaptors: vec![],
                }),
                ("by_ref", 0) => chain_of(&m.receiver, cx),
                ("enumerate", 0) => wrap(Adaptor::Enumerate),
                ("zip", 1) => {
                    let c = chain_of(&m.receiver, cx)?;
                    if !c.adaptors.is_empty() || !matches!(c.kind, Kind::Elems(_)) {
                        return None;
                    }
                    let o = match paren_strip(&args[0]) {
                        Expr::MethodCall(r) if r.method == "iter" && r.args.is_empty() => (*r.receiver).clone(),
                        x => x,
                    };
                    if !is_place(&o) {
                        return None;
                    }
                    Some(Chain { kind: c.kind, adaptors: vec![Adaptor::Zip(o)] })
                }
                ("skip", 1) => wrap(Adaptor::Skip(args[0].clone())),
                ("map", 1) => wrap(Adaptor::Map(args[0].clone())),
                ("filter_map", 1) => wrap(Adaptor::FilterMap(args[0].clone())),
                ("filter", 1) => wrap(Adaptor::Filter(args[0].clone())),
                ("scan", 2) => wrap(Adaptor::Scan(args[0].clone(), args[1].clone())),
                ("cloned", 0) | ("copied", 0) => wrap(Adaptor::Cloned),
                ("with_position", 0) => wrap(Adaptor::WithPosition),
                _ => None,
            }
        }
        Expr::Range(r) => {
            let (a, b) = (r.start?, r.end?);
            if let syn::RangeLimits::HalfOpen(_) = r.limits {
                Some(Chain {
                    kind: Kind::Range(*a, *b),
                    adaptors: vec![],
                })
            } else {
                None
            }
        }
        _ => None,
    }
}

/// `let PAT = item;` with reference patterns turned into dereferences.
fn bind(pat: &Pat, item: Expr) -> Vec<Stmt> {
    match pat {
        Pat::Reference(r) => {
            let p = &r.pat;
            bind(p, parse_quote!(*#item))
        }
        Pat::Paren(p) => bind(&p.pat, item),
        Pat::Type(t) => {
            let (p, ty) = (&t.pat, &t.ty);
            let _ = ty;
            bind(p, item)
        }
        Pat::Wild(_) => vec![],
        Pat::Tuple(t) => {
            // bind components one by one when the item is a literal tuple
            if let Expr::Tuple(et) = &item {
                if et.elems.len() == t.elems.len() {
                    return t
                        .elems
                        .iter()
                        .zip(et.elems.iter())
                        .flat_map(|(p, e)| bind(p, e.clone()))
                        .collect();
                }
            }
            vec![parse_quote!(let #pat = #item;)]
        }
        _ => vec![parse_quote!(let #pat = #item;)],
    }
}

/// variables a block assigns or pushes to
fn assigned(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
            if let Expr::Path(p) = &*a.left {
                self.0.push(toks(p));
            }
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if m.method == "push" {
                if let Expr::Path(p) = &*m.receiver {
                    self.0.push(toks(p));
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0.sort();
    v.0.dedup();
    v.0
}
/// `$name` in a contract text: the variable of that name (hygiene mark aside) the loop changes
pub fn resolve(text: &str, vars: &[String]) -> Result<String, String> {
    let mut out = String::new();
    let mut r = text;
    while let Some(p) = r.find('$') {
        out.push_str(&r[..p]);
        let n: String = r[p + 1..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        let c: Vec<&String> = vars.iter().filter(|v| v.rsplit_once("__h").map_or(v.as_str(), |x| x.0) == n).collect();
        if c.len() != 1 {
            return Err(format!("variable {} of a loop: {} candidates", n, c.len()));
        }
        out.push_str(c[0]);
        r = &r[p + 1 + n.len()..];
    }
    out.push_str(r);
    Ok(out)
}
fn lit_bytes(e: &Expr) -> Option<Vec<u8>> {
    match paren_strip(e) {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(s.value().into_bytes()),
            syn::Lit::ByteStr(b) => Some(b.value()),
            _ => None,
        },
        Expr::Reference(r) => match paren_strip(&r.expr) {
            x @ Expr::Lit(_) => lit_bytes(&x),
            _ => None,
        },
        _ => None,
    }
}
/// `x` is one of these bytes, as a test of ranges
fn member_of(x: &Expr, set: &[u8]) -> Expr {
    let mut v = set.to_vec();
    v.sort();
    v.dedup();
    let mut alts: Vec<Expr> = vec![];
    let mut i = 0;
    let simple = matches!(paren_strip(x), Expr::Path(_));
    let id: Expr = if simple { paren_strip(x) } else { parse_quote!(vx_c) };
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && v[j + 1] == v[j] + 1 {
            j += 1;
        }
        let (a, b) = (proc_macro2::Literal::u8_suffixed(v[i]), proc_macro2::Literal::u8_suffixed(v[j]));
        alts.push(if i == j { parse_quote!(#id == #a) } else { parse_quote!((#a <= #id && #id <= #b)) });
        i = j + 1;
    }
    let t: Expr = if alts.is_empty() { parse_quote!(false) } else { parse_quote!((#(#alts)||*)) };
    if simple {
        t
    } else {
        parse_quote!({ let vx_c: u8 = #x; #t })
    }
}
/// `|x| E` with a simple parameter and an expression without control flow
fn plain_closure(e: &Expr) -> Option<(syn::Ident, Expr)> {
    if let Expr::Closure(c) = paren_strip(e) {
        if c.inputs.len() != 1 {
            return None;
        }
        let id = match &c.inputs[0] {
            Pat::Ident(p) if p.subpat.is_none() => p.ident.clone(),
            _ => return None,
        };
        let mut b = (*c.body).clone();
        while let Expr::Block(x) = &b {
            if x.label.is_some() || x.block.stmts.len() != 1 {
                return None;
            }
            match &x.block.stmts[0] {
                Stmt::Expr(t, None) => b = t.clone(),
                _ => return None,
            }
        }
        fn pure_(e: &Expr) -> bool {
            match e {
                Expr::Paren(p) => pure_(&p.expr),
                Expr::Unary(u) => pure_(&u.expr),
                Expr::Binary(b) => pure_(&b.left) && pure_(&b.right),
                Expr::Lit(_) | Expr::Path(_) => true,
                Expr::MethodCall(m) => m.method == "find_token" && pure_(&m.receiver) && m.args.len() == 1 && lit_bytes(&m.args[0]).is_some(),
                _ => false,
            }
        }
        if !pure_(&b) {
            return None;
        }
        return Some((id, b));
    }
    None
}
/// `|(_, item)| { let i = item.as_char(); for (_, c) in LIT.iter_indices() { if c.as_char() == i { return false; } } true }`
/// (nom's eat_separator!) is `|item| !item.find_token(LIT)`
/// A call whose result is an `Option` whatever it is called on (standard library names).
fn gives_option(e: &Expr) -> bool {
    match paren_strip(e) {
        Expr::MethodCall(m) => matches!(
            m.method.to_string().as_str(),
            "position" | "first" | "last" | "checked_add" | "checked_sub" | "checked_mul" | "ok" | "err"
        ),
        _ => false,
    }
}

fn separator_closure(e: &Expr) -> Option<Expr> {
    let c = match paren_strip(e) {
        Expr::Closure(c) => c,
        _ => return None,
    };
    if c.inputs.len() != 1 {
        return None;
    }
    let item = match &c.inputs[0] {
        Pat::Tuple(t) if t.elems.len() == 2 && matches!(t.elems[0], Pat::Wild(_)) => match &t.elems[1] {
            Pat::Ident(p) => p.ident.clone(),
            _ => return None,
        },
        _ => return None,
    };
    let mut b = (*c.body).clone();
    let stmts: Vec<Stmt> = loop {
        let st: Vec<Stmt> = match &b {
            Expr::Block(x) => x.block.stmts.iter().filter(|s| !matches!(s, Stmt::Item(syn::Item::Use(_)))).cloned().collect(),
            _ => return None,
        };
        if st.len() == 1 {
            if let Stmt::Expr(x @ Expr::Block(_), None) = &st[0] {
                b = x.clone();
                continue;
            }
        }
        break st;
    };
    if stmts.len() != 3 {
        return None;
    }
    let i = match &stmts[0] {
        Stmt::Local(l) => match (&l.pat, &l.init) {
            (Pat::Ident(p), Some(x)) if toks(&x.expr).replace(' ', "") == format!("{}.as_char()", item) => p.ident.clone(),
            _ => return None,
        },
        _ => return None,
    };
    let (lit, cvar, body) = match &stmts[1] {
        Stmt::Expr(Expr::ForLoop(f), _) => {
            let lit = match paren_strip(&f.expr) {
                Expr::MethodCall(m) if m.method == "iter_indices" => paren_strip(&m.receiver),
                _ => return None,
            };
            lit_bytes(&lit)?;
            let cv = match &*f.pat {
                Pat::Tuple(t) if t.elems.len() == 2 => match &t.elems[1] {
                    Pat::Ident(p) => p.ident.clone(),
                    _ => return None,
                },
                _ => return None,
            };
            (lit, cv, f.body.clone())
        }
        _ => return None,
    };
    let want = format!("{{if{}.as_char()=={}{{returnfalse;}}}}", cvar, i);
    if toks(&body).replace(' ', "") != want {
        return None;
    }
    match &stmts[2] {
        Stmt::Expr(x, None) if toks(x) == "true" => {}
        _ => return None,
    }
    Some(parse_quote!(|#item| !#item.find_token(#lit)))
}

/// apply a closure or path to arguments
fn apply(f: &Expr, args: Vec<Expr>) -> Option<Expr> {
    match paren_strip(f) {
        // `closure as fn(..) -> ..`
        Expr::Cast(c) if matches!(*c.ty, syn::Type::FnPtr(_)) => apply(&c.expr, args),
        Expr::Closure(c) => {
            if c.asyncness.is_some() || c.inputs.len() != args.len() {
                return None;
            }
            let mut st: Vec<Stmt> = vec![];
            for (p, a) in c.inputs.iter().zip(args) {
                st.extend(bind(p, a));
            }
            let body = &c.body;
            match &**body {
                Expr::Block(b) if b.label.is_none() => {
                    if has_return(&b.block) {
                        st.extend(tailify(&b.block.stmts)?);
                    } else {
                        st.extend(b.block.stmts.clone());
                    }
                    Some(parse_quote!({ #(#st)* }))
                }
                body if expr_has_return(body) => {
                    st.extend(tailify(&[Stmt::Expr(body.clone(), None)])?);
                    Some(parse_quote!({ #(#st)* }))
                }
                body => {
                    if st.is_empty() {
                        Some(parse_quote!((#body)))
                    } else {
                        Some(parse_quote!({ #(#st)* #body }))
                    }
                }
            }
        }
        Expr::Path(p) => {
            let p = &p;
            Some(parse_quote!(#p(#(#args),*)))
        }
        _ => None,
    }
}

/// `let _ = 0;`, `let _ = x;`, `();`
fn does_nothing(s: &Stmt) -> bool {
    fn plain(e: &Expr) -> bool {
        match e {
            Expr::Lit(_) | Expr::Path(_) => true,
            Expr::Tuple(t) => t.elems.iter().all(plain),
            Expr::Paren(p) => plain(&p.expr),
            Expr::Reference(r) => plain(&r.expr),
            _ => false,
        }
    }
    match s {
        Stmt::Local(l) => matches!(l.pat, Pat::Wild(_)) && l.init.as_ref().map_or(false, |i| i.diverge.is_none() && plain(&i.expr)),
        Stmt::Expr(e, Some(_)) => matches!(e, Expr::Lit(_) | Expr::Tuple(_)) && plain(e),
        _ => false,
    }
}

/// a statement that makes a value nobody uses: a future made this way never runs
fn dropped_future(s: &Stmt, rest: &[Stmt]) -> Option<String> {
    fn makes(e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => m.method != "clone",
            Expr::Call(c) => path_last(&c.func).map_or(true, |n| n != "Ok::<(),()>"),
            Expr::Paren(p) => makes(&p.expr),
            Expr::If(_) | Expr::Match(_) | Expr::Block(_) => true,
            _ => false,
        }
    }
    let gen = |t: &str| t.contains("vx_");
    match s {
        Stmt::Expr(e, Some(_)) if makes(e) && !gen(&toks(e)) => Some(toks(e)),
        Stmt::Local(l) => {
            let i = l.init.as_ref()?;
            if !makes(&i.expr) {
                return None;
            }
            match &l.pat {
                Pat::Wild(_) if !gen(&toks(&i.expr)) && !toks(&i.expr).contains("Tracked") => Some(toks(&i.expr)),
                Pat::Ident(p) if p.ident == "vx_spawned" => None,
                Pat::Ident(p) => {
                    let used = rest.iter().any(|r| quote!(#r).to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| p.ident == w));
                    if used { None } else { Some(toks(&i.expr)) }
                }
                _ => None,
            }
        }
        _ => None,
    }
}

enum Consumer<'a> {
    For(&'a Pat, &'a Block),
    Position(&'a Expr),
    Any(&'a Expr),
    All(&'a Expr),
    Collect,
}

fn gen_chain(c: &Chain, cons: Consumer, cx: &mut Ctx) -> Option<Expr> {
    let n = cx.loops;
    cx.loops += 1;
    let nn = proc_macro2::Literal::usize_unsuffixed(n);
    let iv = quote::format_ident!("vx_i{}", n);
    let mut pre: Vec<Stmt> = vec![];
    let mut skip: Option<Expr> = None;
    let mut ads: Vec<&Adaptor> = c.adaptors.iter().collect();
    if let Some(Adaptor::Skip(e)) = ads.first() {
        skip = Some(e.clone());
        ads.remove(0);
    }
    let src_bind = |e: &Expr, pre: &mut Vec<Stmt>, byref: bool| -> Expr {
        if is_place(e) && byref {
            paren_strip(e)
        } else {
            let v = quote::format_ident!("vx_src{}", n);
            if byref {
                pre.push(parse_quote!(let #v = &#e;));
            } else {
                pre.push(parse_quote!(let #v = #e;));
            }
            parse_quote!(#v)
        }
    };
    let (start, mut cond, mut item, mut lenx): (Expr, Expr, Expr, Expr) = match &c.kind {
        Kind::Elems(e) => {
            let s = src_bind(&strip_ref(e), &mut pre, true);
            (
                parse_quote!(0),
                parse_quote!(#iv < #s.len()),
                parse_quote!(#s.vx_at(#iv)),
                parse_quote!(#s.len()),
            )
        }
        Kind::Owned(e) => {
            let s = src_bind(e, &mut pre, false);
            (
                parse_quote!(0),
                parse_quote!(#iv < #s.len()),
                parse_quote!(#s.vx_own(#iv)),
                parse_quote!(#s.len()),
            )
        }
        Kind::Windows(e, k) => {
            let s = src_bind(&strip_ref(e), &mut pre, true);
            (
                parse_quote!(0),
                parse_quote!(#iv < vx_win(#s.len(), #k)),
                parse_quote!(#s.vx_range(#iv, #iv + #k)),
                parse_quote!(vx_win(#s.len(), #k)),
            )
        }
        Kind::Range(a, b) => {
            let v = quote::format_ident!("vx_end{}", n);
            pre.push(parse_quote!(let #v = #b;));
            (a.clone(), parse_quote!(#iv < #v), parse_quote!(#iv), parse_quote!(#v))
        }
    };
    if let Some(Adaptor::Zip(o)) = ads.first() {
        let o = strip_ref(o);
        cond = parse_quote!(#cond && #iv < #o.len());
        item = parse_quote!((#item, #o.vx_at(#iv)));
        lenx = parse_quote!(min(#lenx, #o.len()));
        ads.remove(0);
    }
    let start = match skip {
        Some(s) => s,
        None => start,
    };
    pre.push(parse_quote!(let mut #iv: usize = #start;));
    // body built inside out
    let mut stmts: Vec<Stmt> = vec![];
    let incr_top = matches!(cons, Consumer::For(..));
    let kv = quote::format_ident!("vx_k{}", n);
    if incr_top {
        stmts.push(parse_quote!(let #kv = #iv;));
        struct R(String, String);
        impl VisitMut for R {
            fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
                if *i == self.0 {
                    *i = syn::Ident::new(&self.1, i.span());
                }
            }
        }
        R(iv.to_string(), kv.to_string()).visit_expr_mut(&mut item);
        // the item is read before the index advances
        stmts.push(parse_quote!(#iv = #iv + 1;));
    }
    let idx: Expr = if incr_top { parse_quote!(#kv) } else { parse_quote!(#iv) };
    let mut closers: Vec<Box<dyn FnOnce(Vec<Stmt>) -> Vec<Stmt>>> = vec![];
    let mut frames: Vec<Vec<Stmt>> = vec![stmts];
    for (j, a) in ads.iter().enumerate() {
        let x = quote::format_ident!("vx_x{}_{}", n, j);
        match a {
            Adaptor::Enumerate => {
                item = parse_quote!((#idx, #item));
            }
            Adaptor::Skip(_) | Adaptor::Zip(_) => return None,
            Adaptor::Cloned => item = parse_quote!(*#item),
            Adaptor::WithPosition => {
                // itertools::with_position: Only / First / Middle / Last
                item = parse_quote!(vx_position(#item, #idx, #lenx));
            }
            Adaptor::Map(f) => {
                let v = apply(f, vec![item])?;
                frames.last_mut().unwrap().push(parse_quote!(let #x = #v;));
                item = parse_quote!(#x);
            }
            Adaptor::FilterMap(f) => {
                let v = apply(f, vec![item])?;
                let xc = x.clone();
                frames.push(vec![]);
                closers.push(Box::new(move |inner| {
                    vec![parse_quote!(if let Some(#xc) = #v { #(#inner)* })]
                }));
                item = parse_quote!(#x);
            }
            Adaptor::Filter(f) => {
                frames.last_mut().unwrap().push(parse_quote!(let #x = #item;));
                let v = apply(f, vec![parse_quote!(&#x)])?;
                frames.push(vec![]);
                closers.push(Box::new(move |inner| vec![parse_quote!(if #v { #(#inner)* })]));
                item = parse_quote!(#x);
            }
            Adaptor::Scan(init, f) => {
                let st = quote::format_ident!("vx_st{}", n);
                pre.push(parse_quote!(let mut #st = #init;));
                // `|state, PAT| body` with `*state` read and written: substitute the variable
                let c = match paren_strip(f) {
                    Expr::Closure(c) if c.inputs.len() == 2 => c,
                    _ => return None,
                };
                let sname = match &c.inputs[0] {
                    Pat::Ident(p) => p.ident.to_string(),
                    _ => return None,
                };
                let mut body = (*c.body).clone();
                struct D(String, syn::Ident, bool);
                impl VisitMut for D {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if let Expr::Unary(u) = e {
                            if matches!(u.op, syn::UnOp::Deref(_)) {
                                if let Expr::Path(p) = &*u.expr {
                                    if p.path.is_ident(&self.0) {
                                        let i = &self.1;
                                        *e = parse_quote!(#i);
                                        return;
                                    }
                                }
                            }
                        }
                        if let Expr::Path(p) = e {
                            if p.path.is_ident(&self.0) {
                                self.2 = true;
                            }
                        }
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
                let mut d = D(sname, st, false);
                d.visit_expr_mut(&mut body);
                if d.2 {
                    return None;
                }
                let mut b = bind(&c.inputs[1], item);
                let tail: Expr = body;
                b.push(Stmt::Expr(tail, None));
                let xc = x.clone();
                frames.push(vec![]);
                closers.push(Box::new(move |inner| {
                    vec![parse_quote!(if let Some(#xc) = { #(#b)* } { #(#inner)* } else { break; })]
                }));
                item = parse_quote!(#x);
            }
        }
    }
    let filtered = ads.iter().any(|a| matches!(a, Adaptor::FilterMap(_) | Adaptor::Filter(_)));
    let mut post: Vec<Stmt> = vec![];
    match cons {
        Consumer::For(p, b) => {
            let f = frames.last_mut().unwrap();
            f.extend(bind(p, item));
            f.extend(b.stmts.clone());
        }
        Consumer::Position(f) => {
            if filtered {
                return None;
            }
            let r = quote::format_ident!("vx_pos{}", n);
            pre.push(parse_quote!(let mut #r: Option<usize> = None;));
            let v = apply(f, vec![item])?;
            frames.last_mut().unwrap().push(parse_quote!(if #v { #r = Some(#idx); break; }));
            post.push(Stmt::Expr(parse_quote!(#r), None));
        }
        Consumer::Any(f) => {
            let r = quote::format_ident!("vx_any{}", n);
            pre.push(parse_quote!(let mut #r: bool = false;));
            let v = apply(f, vec![item])?;
            frames.last_mut().unwrap().push(parse_quote!(if #v { #r = true; break; }));
            post.push(Stmt::Expr(parse_quote!(#r), None));
        }
        Consumer::All(f) => {
            let r = quote::format_ident!("vx_all{}", n);
            pre.push(parse_quote!(let mut #r: bool = true;));
            let v = apply(f, vec![item])?;
            frames.last_mut().unwrap().push(parse_quote!(if !(#v) { #r = false; break; }));
            post.push(Stmt::Expr(parse_quote!(#r), None));
        }
        Consumer::Collect => {
            let r = quote::format_ident!("vx_out{}", n);
            pre.push(parse_quote!(let mut #r = Vec::new();));
            frames.last_mut().unwrap().push(parse_quote!(#r.push(#item);));
            post.push(Stmt::Expr(parse_quote!(#r), None));
        }
    }
    while let Some(cl) = closers.pop() {
        let inner = frames.pop().unwrap();
        frames.last_mut().unwrap().extend(cl(inner));
    }
    let mut body = frames.pop().unwrap();
    if !incr_top {
        body.push(parse_quote!(#iv = #iv + 1;));
    }
    Some(parse_quote!({
        #(#pre)*
        while #cond { vx_loop!(#nn); #(#body)* vx_loopend!(#nn); }
        #(#post)*
    }))
}

// ---------------------------------------------------------------- helper inlining

struct Returns(bool);
impl<'a> syn::visit::Visit<'a> for Returns {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn has_return(b: &Block) -> bool {
    let mut f = Returns(false);
    syn::visit::Visit::visit_block(&mut f, b);
    f.0
}
fn expr_has_return(e: &Expr) -> bool {
    let mut f = Returns(false);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}

/// Rewrite a block so that its value is the value returned, without `return` or `?`.
fn tailify(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let rest = &stmts[i + 1..];
        let last = rest.is_empty();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.clone().map(|x| *x).unwrap_or_else(|| parse_quote!(()));
                if expr_has_return(&e) {
                    return None;
                }
                out.push(Stmt::Expr(e, None));
                return Some(out);
            }
            Stmt::Expr(e, semi) if last && expr_has_return(e) => {
                if semi.is_some() && !diverges(e) {
                    // falls through with ()
                    if let Some(t) = tail_expr(e, &[]) {
                        out.push(Stmt::Expr(t, None));
                        return Some(out);
                    }
                }
                let t = tail_expr(e, &[])?;
                out.push(Stmt::Expr(t, None));
                return Some(out);
            }
            Stmt::Expr(e, _) if expr_has_return(e) => {
                if let Expr::Try(t) = e {
                    let inner = &t.expr;
                    if expr_has_return(inner) {
                        return None;
                    }
                    let rest = tailify(rest)?;
                    out.push(Stmt::Expr(
                        parse_quote!(match #inner { Ok(_) => { #(#rest)* }, Err(vx_e) => Err(vx_e) }),
                        None,
                    ));
                    return Some(out);
                }
                let t = tail_expr(e, rest)?;
                out.push(Stmt::Expr(t, None));
                return Some(out);
            }
            Stmt::Local(l) if l.init.as_ref().map_or(false, |i| expr_has_return(&i.expr)) => {
                let init = l.init.as_ref().unwrap();
                if init.diverge.is_some() {
                    return None;
                }
                if let Expr::Try(t) = &*init.expr {
                    let inner = &t.expr;
                    if expr_has_return(inner) {
                        return None;
                    }
                    let rest = tailify(rest)?;
                    let p = &l.pat;
                    let p: Pat = if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() };
                    out.push(Stmt::Expr(
                        parse_quote!(match #inner { Ok(#p) => { #(#rest)* }, Err(vx_e) => Err(vx_e) }),
                        None,
                    ));
                    return Some(out);
                }
                let p: Pat = if let Pat::Type(t) = &l.pat { (*t.pat).clone() } else { l.pat.clone() };
                out.push(Stmt::Expr(local_tail(&init.expr, &p, rest)?, None));
                return Some(out);
            }
            Stmt::Local(l)
                if l.init
                    .as_ref()
                    .map_or(false, |i| i.diverge.is_some()) =>
            {
                let init = l.init.as_ref().unwrap();
                let (_, els) = init.diverge.as_ref().unwrap();
                let els = match &**els {
                    Expr::Block(b) => tailify(&b.block.stmts)?,
                    e => tailify(&[Stmt::Expr(e.clone(), None)])?,
                };
                let rest = tailify(rest)?;
                let (p, e) = (&l.pat, &init.expr);
                out.push(Stmt::Expr(
                    parse_quote!(if let #p = #e { #(#rest)* } else { #(#els)* }),
                    None,
                ));
                return Some(out);
            }
            Stmt::Macro(_) | Stmt::Item(_) | _ => out.push(s.clone()),
        }
    }
    Some(out)
}
/// `let P = e; rest` where parts of `e` return: the rest follows the other parts
fn local_tail(e: &Expr, p: &Pat, rest: &[Stmt]) -> Option<Expr> {
    let block = |b: &Block| -> Option<Vec<Stmt>> {
        let (last, init) = match b.stmts.split_last() {
            Some((l, i)) => (l, i),
            None => return None,
        };
        if init.iter().any(|s| matches!(s, Stmt::Expr(Expr::Return(_), _))) || captures(init, None, p, rest) {
            return None;
        }
        let mut v = init.to_vec();
        match last {
            Stmt::Expr(x @ Expr::Return(_), _) => v.push(Stmt::Expr(x.clone(), None)),
            Stmt::Expr(x, None) if v.iter().all(|s| !has_return(&parse_quote!({ #s }))) => {
                v.push(Stmt::Expr(local_tail(x, p, rest)?, None));
                return Some(v);
            }
            _ => return None,
        }
        tailify(&v)
    };
    match e {
        Expr::Return(r) => {
            let e = r.expr.clone().map(|x| *x).unwrap_or_else(|| parse_quote!(()));
            if expr_has_return(&e) {
                return None;
            }
            Some(e)
        }
        Expr::If(i) => {
            if expr_has_return(&i.cond) || captures_expr(&i.cond, p, rest) {
                return None;
            }
            let (cond, t) = (&i.cond, block(&i.then_branch)?);
            let el = match &i.else_branch {
                Some((_, x)) => match &**x {
                    Expr::Block(b) => block(&b.block)?,
                    x => vec![Stmt::Expr(local_tail(x, p, rest)?, None)],
                },
                None => return None,
            };
            Some(parse_quote!(if #cond { #(#t)* } else { #(#el)* }))
        }
        Expr::Match(m) => {
            if expr_has_return(&m.expr) {
                return None;
            }
            let mut m2 = m.clone();
            for a in m2.arms.iter_mut() {
                let returns = matches!(&*a.body, Expr::Return(_));
                if !returns && captures(&[], Some(&a.pat), p, rest) {
                    return None;
                }
                let v = match &*a.body {
                    Expr::Block(b) => block(&b.block)?,
                    x => vec![Stmt::Expr(local_tail(x, p, rest)?, None)],
                };
                *a.body = parse_quote!({ #(#v)* });
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m2))
        }
        Expr::Block(b) => {
            let v = block(&b.block)?;
            Some(parse_quote!({ #(#v)* }))
        }
        e if !expr_has_return(e) => {
            let rest = tailify(rest)?;
            Some(parse_quote!({ let #p = #e; #(#rest)* }))
        }
        e => {
            let (inner, x) = dig_try(e)?;
            let rest = tailify(rest)?;
            Some(parse_quote!(match #inner { Ok(vx_v) => { let #p = #x; #(#rest)* } Err(vx_e) => Err(vx_e) }))
        }
    }
}
fn bound_in(p: &Pat, out: &mut Vec<String>) {
    struct F<'b>(&'b mut Vec<String>);
    impl<'a, 'b> syn::visit::Visit<'a> for F<'b> {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.0.push(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    syn::visit::Visit::visit_pat(&mut F(out), p);
}
fn idents(ts: proc_macro2::TokenStream, out: &mut std::collections::HashSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
/// Would statements moved behind these (and under this pattern) read other variables than before?
fn captures(before: &[Stmt], arm: Option<&Pat>, p: &Pat, rest: &[Stmt]) -> bool {
    let (mut bound, mut own) = (vec![], vec![]);
    if let Some(a) = arm {
        bound_in(a, &mut bound);
    }
    for s in before {
        if let Stmt::Local(l) = s {
            bound_in(&l.pat, &mut bound);
        }
    }
    bound_in(p, &mut own);
    let mut used = Default::default();
    for s in rest {
        idents(quote::quote!(#s), &mut used);
    }
    // (a constant or variant in a pattern is no variable)
    bound.iter().any(|b| !own.contains(b) && used.contains(b) && !b.starts_with(|c: char| c.is_uppercase()))
}
fn captures_expr(cond: &Expr, p: &Pat, rest: &[Stmt]) -> bool {
    struct F(Vec<Pat>);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_expr_let(&mut self, l: &'a syn::ExprLet) {
            self.0.push((*l.pat).clone());
            syn::visit::visit_expr_let(self, l);
        }
    }
    let mut f = F(vec![]);
    syn::visit::Visit::visit_expr(&mut f, cond);
    f.0.iter().any(|a| captures(&[], Some(a), p, rest))
}
fn diverges(e: &Expr) -> bool {
    matches!(e, Expr::Return(_))
}
fn ends_in_return(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => {
            ends_in_return(&i.then_branch)
                && match &i.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => ends_in_return(&b.block),
                        _ => false,
                    },
                    None => false,
                }
        }
        _ => false,
    }
}
fn tail_expr(e: &Expr, rest: &[Stmt]) -> Option<Expr> {
    match e {
        Expr::If(i) => {
            if expr_has_return(&i.cond) {
                return None;
            }
            let cond = &i.cond;
            let none: Pat = parse_quote!(_);
            if !ends_in_return(&i.then_branch) && captures_expr(cond, &none, rest) {
                return None;
            }
            let branch = |b: &Block| -> Option<Vec<Stmt>> {
                let mut v = b.stmts.clone();
                if !ends_in_return(b) && !rest.is_empty() {
                    if captures(&v, None, &none, rest) {
                        return None;
                    }
                    if let Some(Stmt::Expr(x, semi)) = v.last_mut() {
                        if semi.is_none() {
                            // unit-valued tail
                            *semi = Some(Default::default());
                            let _ = x;
                        }
                    }
                    v.extend(rest.iter().cloned());
                }
                tailify(&v)
            };
            let t = branch(&i.then_branch)?;
            let el = match &i.else_branch {
                None => tailify(rest)?,
                Some((_, x)) => match &**x {
                    Expr::Block(b) => branch(&b.block)?,
                    x @ Expr::If(_) => {
                        let y = tail_expr(x, rest)?;
                        vec![Stmt::Expr(y, None)]
                    }
                    _ => return None,
                },
            };
            Some(parse_quote!(if #cond { #(#t)* } else { #(#el)* }))
        }
        Expr::Match(m) => {
            if expr_has_return(&m.expr) {
                return None;
            }
            let mut m2 = m.clone();
            for a in m2.arms.iter_mut() {
                let b: Block = match &*a.body {
                    Expr::Block(b) => b.block.clone(),
                    x => parse_quote!({ #x }),
                };
                let mut v = b.stmts.clone();
                if !ends_in_return(&b) && !rest.is_empty() {
                    if captures(&v, Some(&a.pat), &parse_quote!(_), rest) {
                        return None;
                    }
                    if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                    v.extend(rest.iter().cloned());
                }
                let v = tailify(&v)?;
                *a.body = parse_quote!({ #(#v)* });
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m2))
        }
        Expr::Block(b) => {
            let mut v = b.block.stmts.clone();
            if !rest.is_empty() {
                if captures(&v, None, &parse_quote!(_), rest) {
                    return None;
                }
                v.extend(rest.iter().cloned());
            }
            let v = tailify(&v)?;
            Some(parse_quote!({ #(#v)* }))
        }
        Expr::Return(r) => {
            let e = r.expr.clone().map(|x| *x).unwrap_or_else(|| parse_quote!(()));
            Some(e)
        }
        Expr::Try(t) if rest.is_empty() => {
            // value position: e? as the returned value only works when wrapped by the caller
            let _ = t;
            None
        }
        _ if rest.is_empty() => nested_try(e),
        _ => None,
    }
}
/// a value `F(G(inner?))` where nothing else is evaluated before `inner?`: match on inner
fn nested_try(e: &Expr) -> Option<Expr> {
    let (inner, x) = dig_try(e)?;
    Some(parse_quote!(match #inner { Ok(vx_v) => #x, Err(vx_e) => Err(vx_e) }))
}
fn dig_try(e: &Expr) -> Option<(Expr, Expr)> {
    fn dig(e: &mut Expr) -> Option<Expr> {
        match e {
            Expr::Try(t) => {
                if expr_has_return(&t.expr) {
                    return None;
                }
                let inner = (*t.expr).clone();
                *e = parse_quote!(vx_v);
                Some(inner)
            }
            Expr::Paren(p) => dig(&mut p.expr),
            Expr::MethodCall(m) => dig(&mut m.receiver),
            Expr::Call(c) if c.args.len() == 1 && matches!(*c.func, Expr::Path(_)) => dig(&mut c.args[0]),
            _ => None,
        }
    }
    let mut x = e.clone();
    let inner = dig(&mut x)?;
    if expr_has_return(&x) {
        return None;
    }
    Some((inner, x))
}

// ---------------------------------------------------------------- main pass

pub struct Pass<'a> {
    pub cx: &'a mut Ctx,
    pub ix: &'a Index,
    pub depth: usize,
}

impl<'a> Pass<'a> {
    fn problem(&mut self, s: String) {
        self.cx.problems.push(s);
    }

    fn try_inline(&mut self, name: &str, ty: Option<&str>, recv: Option<&Expr>, args: &[Expr]) -> Option<Expr> {
        if self.cx.known.contains(name) || self.depth > 6 {
            return None;
        }
        let f = self.ix.lookup_helper(ty, name)?;
        let mut params: Vec<(Pat, bool)> = vec![];
        let mut has_self = false;
        for a in f.sig.inputs.iter() {
            match a {
                syn::FnArg::Receiver(_) => has_self = true,
                syn::FnArg::Typed(t) => params.push(((*t.pat).clone(), true)),
            }
        }
        let mut all_args: Vec<Expr> = args.to_vec();
        let mut body = f.block.clone();
        if has_self {
            let r = match recv {
                Some(r) => strip_ref(r),
                None => {
                    if all_args.is_empty() {
                        return None;
                    }
                    let x = all_args.remove(0);
                    strip_ref(&x)
                }
            };
            if !is_place(&r) {
                return None;
            }
            if path_str(&r) != "self" {
                Subst { from: "self", to: &r }.visit_block_mut(&mut body);
            }
        }
        if params.len() != all_args.len() {
            return None;
        }
        let stmts = if has_return(&body) {
            tailify(&body.stmts)?
        } else {
            body.stmts.clone()
        };
        // avoid capture: rename parameters, evaluate arguments first
        let u = self.cx.fresh();
        let mut pre: Vec<Stmt> = vec![];
        let mut names: Vec<(syn::Ident, Pat)> = vec![];
        let argtys: Vec<Option<syn::Type>> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Typed(t) => Some(Some((*t.ty).clone())),
                _ => None,
            })
            .collect();
        for (i, ((p, _), a)) in params.iter().zip(all_args.iter()).enumerate() {
            let id = quote::format_ident!("vx_a{}_{}", u, i);
            let _ = &argtys;
            pre.push(parse_quote!(let #id = #a;));
            names.push((id, p.clone()));
        }
        for (id, p) in names {
            pre.extend(bind(&p, parse_quote!(#id)));
        }
        self.cx.inlined.push(match ty {
            Some(t) => format!("{}::{}", t, name),
            None => name.to_string(),
        });
        self.cx.hit("inline-helper");
        let mut e: Expr = parse_quote!({ #(#pre)* #(#stmts)* });
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Some(e)
    }

    /// futures 0.1 combinators as sequential code on the results of the futures
    fn futures01(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = (*m.receiver).clone();
                let (v, w) = {
                    let n = self.cx.fresh();
                    (quote::format_ident!("vx_v{}", n), quote::format_ident!("vx_e{}", n))
                };
                let x: Expr = match (name.as_str(), m.args.len()) {
                    ("and_then", 1) => {
                        let b = apply(&m.args[0], vec![parse_quote!(#v)])?;
                        parse_quote!(match #recv { Ok(#v) => #b, Err(#w) => Err(#w) })
                    }
                    ("or_else", 1) => {
                        let b = apply(&m.args[0], vec![parse_quote!(#w)])?;
                        parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#w) => #b })
                    }
                    ("map", 1) => {
                        let b = apply(&m.args[0], vec![parse_quote!(#v)])?;
                        parse_quote!(match #recv { Ok(#v) => Ok(#b), Err(#w) => Err(#w) })
                    }
                    ("map_err", 1) => {
                        let b = apply(&m.args[0], vec![parse_quote!(#w)])?;
                        parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#w) => Err(#b) })
                    }
                    ("then", 1) => {
                        let b = apply(&m.args[0], vec![parse_quote!(#v)])?;
                        parse_quote!({ let #v = #recv; #b })
                    }
                    ("into_future", 0) => recv,
                    ("for_each", 1) => {
                        let mut recv = recv;
                        self.visit_expr_mut(&mut recv);
                        let n = self.cx.loops;
                        self.cx.loops += 1;
                        let nn = proc_macro2::Literal::usize_unsuffixed(n);
                        let (s, r) = (quote::format_ident!("vx_s{}", n), quote::format_ident!("vx_r{}", n));
                        let mut b = apply(&m.args[0], vec![parse_quote!(#v)])?;
                        self.visit_expr_mut(&mut b);
                        let t = self.thread_arg("vx_next");
                        let t = t.iter();
                        self.cx.hit("stream-for_each-to-loop");
                        return Some(parse_quote!({
                            let mut #s = #recv;
                            let mut #r: Result<(), ()> = Ok(());
                            loop {
                                vx_loop!(#nn);
                                match #s.vx_next(#(#t)*) {
                                    Ok(Some(#v)) => match #b { Ok(_) => {} Err(#w) => { #r = Err(#w); break; } },
                                    Ok(None) => { break; }
                                    Err(#w) => { #r = Err(#w); break; }
                                }
                                vx_loopend!(#nn);
                            }
                            #r
                        }));
                    }
                    _ => return None,
                };
                self.cx.hit(&format!("future-{}", name));
                let mut x = x;
                self.visit_expr_mut(&mut x);
                Some(x)
            }
            Expr::Call(c) => {
                let segs: Vec<String> = match &*c.func {
                    Expr::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect(),
                    _ => return None,
                };
                let last2 = if segs.len() >= 2 { format!("{}::{}", segs[segs.len() - 2], segs[segs.len() - 1]) } else { segs.join("::") };
                let a = c.args.first().cloned();
                let mut x: Expr = match (last2.as_str(), c.args.len()) {
                    ("Box::new", 1) | ("Arc::new", 1) | ("Either::A", 1) | ("Either::B", 1) | ("future::result", 1) => a?,
                    ("Arc::clone", 1) => {
                        let r = strip_ref(&a?);
                        parse_quote!(#r.clone())
                    }
                    ("future::ok", 1) => {
                        let a = a?;
                        parse_quote!(Ok(#a))
                    }
                    ("future::err", 1) => {
                        let a = a?;
                        parse_quote!(Err(#a))
                    }
                    ("future::lazy", 1) => apply(&a?, vec![])?,
                    // the spawned task runs on its own; what it comes to is not seen by the caller
                    ("tokio::spawn", 1) => {
                        let a = a?;
                        parse_quote!({ let vx_spawned: Result<(), ()> = #a; Ok::<(), ()>(()) })
                    }
                    _ => return None,
                };
                self.cx.hit(&format!("future-{}", last2.rsplit("::").next().unwrap()));
                self.visit_expr_mut(&mut x);
                Some(x)
            }
            _ => None,
        }
    }

    fn thread_arg(&self, name: &str) -> Option<Expr> {
        for (n, a) in &self.cx.thread {
            if n == name {
                return Some(syn::parse_str(a).unwrap());
            }
        }
        None
    }
}

fn split_args(ts: proc_macro2::TokenStream) -> Vec<Expr> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
    match p.parse2(ts) {
        Ok(v) => v.into_iter().collect(),
        Err(_) => vec![],
    }
}

/// `&P(ref x)` on a reference means what `P(x)` means; None where a part is bound by value
fn under_reference(p: &Pat) -> Option<Pat> {
    struct D(bool);
    impl VisitMut for D {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            match p {
                Pat::Ident(i) => match i.by_ref.take() {
                    Some(_) if i.mutability.is_none() => {}
                    _ => self.0 = false,
                },
                Pat::Reference(_) => self.0 = false,
                _ => visit_mut::visit_pat_mut(self, p),
            }
        }
    }
    if matches!(p, Pat::Ident(_)) {
        return None;
    }
    let mut q = p.clone();
    let mut d = D(true);
    d.visit_pat_mut(&mut q);
    if d.0 {
        Some(q)
    } else {
        None
    }
}

impl<'a> VisitMut for Pass<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if r.mutability.is_none() {
                if let Some(q) = under_reference(&r.pat) {
                    self.cx.hit("reference-pattern");
                    *p = q;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.leading_colon.is_some() && p.segments.first().map_or(false, |s| s.ident == "nom") {
            p.leading_colon = None;
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        if !self.cx.macro_expanded {
            for _ in 0..inline_lets(&mut b.stmts) {
                self.cx.hit("iterator-variable-substituted");
            }
        }
        let mut out: Vec<Stmt> = vec![];
        let rest = if self.cx.futures01 { b.stmts.clone() } else { vec![] };
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            if does_nothing(&s) {
                self.cx.hit("drop-statement-without-effect");
                continue;
            }
            if self.cx.futures01 {
                if let Some(w) = dropped_future(&s, &rest[i + 1..]) {
                    self.problem(format!("future dropped without being run: {}", w));
                }
            }
            match &mut s {
                Stmt::Item(syn::Item::Use(u)) => {
                    let t = toks(&u.tree).replace(' ', "");
                    let root = t.split("::").next().unwrap_or("").to_string();
                    if root == "itertools" || root == "nom" || root == "" || t.starts_with("std") {
                        self.cx.hit("drop-use");
                        continue;
                    }
                    if u.leading_colon.is_some() {
                        self.cx.hit("drop-use");
                        continue;
                    }
                    out.push(s);
                    continue;
                }
                Stmt::Item(syn::Item::Enum(e)) => {
                    e.attrs.clear();
                    let e2 = e.clone();
                    self.cx.hit("hoist-local-enum");
                    self.cx.hoisted.push(format!(
                        "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\npub {}",
                        toks(&e2)
                    ));
                    continue;
                }
                Stmt::Item(syn::Item::Fn(f)) => {
                    if f.block.stmts.is_empty() {
                        self.cx.empty_fns.insert(f.sig.ident.to_string());
                        self.cx.hit("drop-empty-local-fn");
                        continue;
                    }
                    if f.sig.ident == "_unify" {
                        continue;
                    }
                    self.problem(format!("nested fn {}", f.sig.ident));
                    continue;
                }
                Stmt::Item(syn::Item::Const(_)) => {
                    out.push(s);
                    continue;
                }
                Stmt::Item(i) => {
                    self.problem(format!("nested item {}", toks(i)));
                    continue;
                }
                Stmt::Macro(m) => {
                    let mut e: Expr = Expr::Macro(syn::ExprMacro {
                        attrs: vec![],
                        mac: m.mac.clone(),
                    });
                    let marker = matches!(
                        path_mac(&m.mac).as_str(),
                        "vx_loop" | "vx_loopend" | "vx_ghost"
                    );
                    if marker {
                        out.push(s);
                        continue;
                    }
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, Some(Default::default())));
                    continue;
                }
                Stmt::Local(l) => {
                    // pinned rebinding: `let mut w = unsafe { Pin::new_unchecked(&mut w) }`
                    if let Some(i) = &l.init {
                        if toks(&i.expr).contains("Pin ::") {
                            if let Pat::Ident(p) = &l.pat {
                                self.cx.pinned.insert(p.ident.to_string());
                            }
                        }
                    }
                }
                _ => {}
            }
            self.visit_stmt_mut(&mut s);
            // drop calls of empty local functions
            if let Stmt::Expr(Expr::Call(c), _) = &s {
                if let Some(n) = path_last(&c.func) {
                    if self.cx.empty_fns.contains(&n) {
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- pre-order rules
        if self.cx.futures01 {
            if let Some(x) = self.futures01(e) {
                *e = x;
                return;
            }
        }
        if let Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                let n = id.to_string();
                if n.len() > 1 && n.chars().all(|c| c.is_uppercase() || c.is_numeric() || c == '_') && !self.cx.consts.contains(&n) {
                    if let Some(x) = self.ix.helper_const(&n) {
                        self.cx.hit("const-inlined");
                        *e = parse_quote!((#x));
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        match e {
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    self.problem("labelled loop".into());
                }
                let c = chain_of(&f.expr, self.cx).or_else(|| match paren_strip(&f.expr) {
                    // `for x in &v` / `for x in v`
                    Expr::Reference(r) => Some(Chain {
                        kind: Kind::Elems((*r.expr).clone()),
                        adaptors: vec![],
                    }),
                    Expr::Path(_) => Some(Chain {
                        kind: Kind::Owned((*f.expr).clone()),
                        adaptors: vec![],
                    }),
                    _ => None,
                });
                let g = c.and_then(|c| gen_chain(&c, Consumer::For(&f.pat, &f.body), self.cx));
                match g {
                    Some(g) => {
                        self.cx.hit("for-loop-to-indexed-while");
                        *e = g;
                        self.visit_desugared(e);
                        return;
                    }
                    None => {
                        self.problem(format!("for loop over {}", toks(&f.expr)));
                    }
                }
            }
            Expr::While(w) => {
                let n = self.cx.loops;
                self.cx.loops += 1;
                let nn = proc_macro2::Literal::usize_unsuffixed(n);
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b) = (&l.pat, &l.expr, &w.body.stmts);
                    self.cx.hit("while-let-to-loop");
                    *e = parse_quote!(loop { vx_loop!(#nn); if let #p = #x { #(#b)* vx_loopend!(#nn); } else { break; } });
                } else {
                    let (c, b) = (&w.cond, &w.body.stmts);
                    *e = parse_quote!(while #c { vx_loop!(#nn); #(#b)* vx_loopend!(#nn); });
                }
                self.visit_desugared(e);
                return;
            }
            Expr::Loop(l) => {
                let n = self.cx.loops;
                self.cx.loops += 1;
                self.cx.loop_vars.insert(n, assigned(&l.body));
                let nn = proc_macro2::Literal::usize_unsuffixed(n);
                let b = &l.body.stmts;
                let mut b = b.clone();
                if let Some(Stmt::Expr(_, semi)) = b.last_mut() {
                    semi.get_or_insert_with(Default::default);
                }
                *e = parse_quote!(loop { vx_loop!(#nn); #(#b)* vx_loopend!(#nn); });
                self.visit_desugared(e);
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                // pinned projection first (needs the closure)
                if name == "map_unchecked_mut" && args.len() == 1 {
                    if let Expr::Closure(c) = &args[0] {
                        if let (Some(Pat::Ident(p)), Expr::Reference(r)) = (c.inputs.first(), paren_strip(&c.body)) {
                            let mut base = (*m.receiver).clone();
                            self.visit_expr_mut(&mut base);
                            let base = strip_ref(&base);
                            let mut body = (*r.expr).clone();
                            Subst {
                                from: &p.ident.to_string(),
                                to: &base,
                            }
                            .visit_expr_mut(&mut body);
                            self.cx.hit("pin-projection");
                            *e = parse_quote!((&mut #body));
                            return;
                        }
                    }
                }
                // membership in a literal character set
                if name == "find_token" && args.len() == 1 {
                    if let Some(set) = lit_bytes(&args[0]) {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        self.cx.hit("find_token-in-literal");
                        *e = member_of(&r, &set);
                        return;
                    }
                }
                // `item.as_char()` scanned for in a literal (nom's eat_separator!): see member_closure
                if name == "position" && args.len() == 1 && self.cx.macro_expanded {
                    let mut recv = (*m.receiver).clone();
                    let mut arg = args[0].clone();
                    if let (Expr::MethodCall(r), Some(c)) = (&recv, separator_closure(&arg)) {
                        if r.method == "iter_indices" && r.args.is_empty() {
                            self.cx.hit("position-of-index-pairs");
                            let r2 = (*r.receiver).clone();
                            recv = r2;
                            arg = c;
                        }
                    }
                    if let Some((v, mut body)) = plain_closure(&arg) {
                        if chain_of(&recv, self.cx).is_none() {
                            self.visit_expr_mut(&mut recv);
                            self.visit_expr_mut(&mut body);
                            self.cx.hit("closure-states-its-body");
                            *e = Expr::Verbatim(quote::quote!(#recv.position(|#v: u8| -> (vx_r: bool) ensures vx_r == (#body) { #body })));
                            return;
                        }
                    }
                }
                // Result::map, map_err and and_then on what was read from a text
                if let Expr::Call(c) = &*m.receiver {
                    let read = matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "from_str" || s.ident == "from_utf8"));
                    if read && args.len() == 1 {
                        let (v, w) = (quote::format_ident!("vx_v{}", self.cx.fresh()), quote::format_ident!("vx_e{}", self.cx.fresh()));
                        let r = (*m.receiver).clone();
                        let x: Option<Expr> = match name.as_str() {
                            "map" => apply(&args[0], vec![parse_quote!(#v)]).map(|b| parse_quote!(match #r { Ok(#v) => Ok(#b), Err(#w) => Err(#w) })),
                            "map_err" => apply(&args[0], vec![parse_quote!(#w)]).map(|b| parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#w) => Err(#b) })),
                            "and_then" => apply(&args[0], vec![parse_quote!(#v)]).map(|b| parse_quote!(match #r { Ok(#v) => #b, Err(#w) => Err(#w) })),
                            _ => None,
                        };
                        if let Some(x) = x {
                            self.cx.hit("result-map-to-match");
                            *e = x;
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                // Option::map / map_or_else with a closure (or path)
                if (self.cx.macro_expanded || gives_option(&m.receiver)) && chain_of(&m.receiver, self.cx).is_none() {
                    if name == "map" && args.len() == 1 {
                        let u = quote::format_ident!("vx_o{}", self.cx.fresh());
                        if let Some(b) = apply(&args[0], vec![parse_quote!(#u)]) {
                            let r = (*m.receiver).clone();
                            self.cx.hit("option-map-to-match");
                            *e = parse_quote!(match #r { Some(#u) => Some(#b), None => None });
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                    if name == "map_or_else" && args.len() == 2 {
                        let u = quote::format_ident!("vx_o{}", self.cx.fresh());
                        if let (Some(d), Some(b)) = (apply(&args[0], vec![]), apply(&args[1], vec![parse_quote!(#u)])) {
                            let r = (*m.receiver).clone();
                            self.cx.hit("option-map-to-match");
                            *e = parse_quote!(match #r { Some(#u) => #b, None => #d });
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if name == "collect" && args.is_empty() {
                    if let Expr::MethodCall(r) = paren_strip(&m.receiver) {
                        if r.method == "into_iter" && r.args.is_empty() && is_place(&r.receiver) {
                            let x = r.receiver.clone();
                            self.cx.hit("collect-of-vector");
                            *e = parse_quote!(#x.vx_collect());
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                let cons = match (name.as_str(), args.len()) {
                    ("position", 1) => chain_of(&m.receiver, self.cx).map(|c| (c, 0)),
                    ("any", 1) => chain_of(&m.receiver, self.cx).map(|c| (c, 1)),
                    ("all", 1) => chain_of(&m.receiver, self.cx).map(|c| (c, 2)),
                    ("collect", 0) => chain_of(&m.receiver, self.cx).map(|c| (c, 3)),
                    ("map", 1) | ("filter_map", 1) | ("filter", 1) => {
                        chain_of(e, self.cx).map(|c| (c, 4))
                    }
                    _ => None,
                };
                if let Some((c, k)) = cons {
                    if !(k == 3 && c.adaptors.is_empty()) {
                        let a0 = args.first().cloned();
                        let g = match k {
                            0 => gen_chain(&c, Consumer::Position(a0.as_ref().unwrap()), self.cx),
                            1 => gen_chain(&c, Consumer::Any(a0.as_ref().unwrap()), self.cx),
                            2 => gen_chain(&c, Consumer::All(a0.as_ref().unwrap()), self.cx),
                            _ => gen_chain(&c, Consumer::Collect, self.cx),
                        };
                        match g {
                            Some(g) => {
                                self.cx.hit("iterator-chain-to-loop");
                                *e = g;
                                self.visit_desugared(e);
                                return;
                            }
                            None => self.problem(format!("iterator chain {}", toks(e))),
                        }
                    }
                }
            }
            Expr::Call(c) => {
                // `Trait::method(&x)` of nom's macros: x.method()
                if let Expr::Path(p) = &*c.func {
                    let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if v.len() == 3 && v[0] == "nom" && v[2] == "input_len" && c.args.len() == 1 {
                        let r = strip_ref(&c.args[0]);
                        self.cx.hit("trait-call-to-method");
                        *e = parse_quote!(#r.input_len());
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                // nom's `_unify(f, x)` helper: f(x)
                if path_last(&c.func).as_deref() == Some("_unify") && c.args.len() == 2 {
                    if let Some(x) = apply(&c.args[0], vec![c.args[1].clone()]) {
                        self.cx.hit("beta-reduce");
                        *e = x;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if let Expr::Closure(_) = paren_strip(&c.func) {
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if let Some(x) = apply(&c.func, args) {
                        self.cx.hit("beta-reduce");
                        *e = x;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            Expr::Unsafe(u) => {
                self.cx.hit("unsafe-block-erased");
                let b = &u.block;
                *e = parse_quote!(#b);
                self.visit_expr_mut(e);
                return;
            }
            Expr::Async(a) => {
                self.cx.hit("async-block-erased");
                let b = &a.block;
                *e = parse_quote!(#b);
                self.visit_expr_mut(e);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // --- post-order rules
        self.post(e);
    }
}

fn path_mac(m: &syn::Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

impl<'a> Pass<'a> {
    /// visit the inside of an already desugared loop without renumbering it
    fn visit_desugared(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(l) => self.visit_block_mut(&mut l.body),
            Expr::While(w) => {
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
            }
            Expr::Block(b) => {
                let mut stmts = std::mem::take(&mut b.block.stmts);
                for s in stmts.iter_mut() {
                    match s {
                        Stmt::Expr(Expr::While(w), _) => {
                            self.visit_expr_mut(&mut w.cond);
                            self.visit_block_mut(&mut w.body);
                        }
                        _ => self.visit_stmt_mut(s),
                    }
                }
                b.block.stmts = stmts;
            }
            _ => self.visit_expr_mut(e),
        }
    }

    fn post(&mut self, e: &mut Expr) {
        match e {
            Expr::Await(a) => {
                self.cx.hit("await-erased");
                *e = (*a.base).clone();
            }
            Expr::Lit(l) => match &l.lit {
                syn::Lit::ByteStr(b) => {
                    let v = b.value();
                    self.cx.hit("byte-string-literal");
                    *e = byte_array(&v);
                }
                syn::Lit::Str(s) => {
                    let v = s.value();
                    self.cx.hit("string-literal-as-bytes");
                    let a = byte_array(v.as_bytes());
                    if self.cx.macro_expanded {
                        // the ghost argument only names the bytes of the literal
                        let it = v.bytes().map(proc_macro2::Literal::u8_suffixed);
                        *e = parse_quote!(vx_lit(#a, Ghost(Seq::<u8>::empty()#(.push(#it))*)));
                    } else {
                        *e = a;
                    }
                }
                _ => {}
            },
            Expr::Binary(b) => {
                let is_lit = |x: &Expr| {
                    if let Expr::Reference(r) = paren_strip(x) {
                        matches!(*r.expr, Expr::Array(_))
                    } else {
                        false
                    }
                };
                let (l, r) = (&b.left, &b.right);
                let ptr = |x: &Expr| match paren_strip(x) {
                    Expr::Cast(c) if matches!(*c.ty, syn::Type::Ptr(_)) => Some((*c.expr).clone()),
                    _ => None,
                };
                if let (Some(x), Some(y), syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) = (ptr(l), ptr(r), &b.op) {
                    self.cx.hit("same-address");
                    *e = if let syn::BinOp::Eq(_) = b.op { parse_quote!(vx_same_addr(#x, #y)) } else { parse_quote!(!vx_same_addr(#x, #y)) };
                    return;
                }
                if let (true, Expr::Path(x), Expr::Path(y), syn::BinOp::Eq(_)) = (self.cx.macro_expanded, &**l, &**r, &b.op) {
                    // nom compares the input before and after a step
                    if toks(x).starts_with("i__h") && toks(y).starts_with("input__h") {
                        self.cx.hit("input-comparison");
                        *e = parse_quote!(#x.eq(&#y));
                        return;
                    }
                }
                let slice = |x: &Expr| match paren_strip(x) {
                    Expr::Path(p) => self.cx.byte_vars.contains(&toks(&p)),
                    Expr::MethodCall(m) => m.method == "vx_range",
                    _ => false,
                };
                if is_lit(l) || is_lit(r) || (!self.cx.byte_vars.is_empty() && slice(l) && slice(r)) {
                    match b.op {
                        syn::BinOp::Eq(_) => {
                            self.cx.hit("byte-slice-comparison");
                            *e = parse_quote!(vx_eq(#l, #r))
                        }
                        syn::BinOp::Ne(_) => {
                            self.cx.hit("byte-slice-comparison");
                            *e = parse_quote!(!vx_eq(#l, #r))
                        }
                        _ => {}
                    }
                }
            }
            Expr::Index(i) => {
                let b = &i.expr;
                match paren_strip(&i.index) {
                    Expr::Range(_) => {} // handled under Reference
                    x => {
                        self.cx.hit("index-to-vx_at");
                        *e = parse_quote!((*#b.vx_at(#x)));
                    }
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = paren_strip(&r.expr) {
                    if let Expr::Range(rg) = paren_strip(&i.index) {
                        let b = strip_ref(&i.expr);
                        let half = matches!(rg.limits, syn::RangeLimits::HalfOpen(_));
                        self.cx.hit("range-index");
                        *e = match (rg.start, rg.end, half) {
                            (None, None, true) => parse_quote!(#b.vx_full()),
                            (Some(s), None, true) => parse_quote!(#b.vx_from(#s)),
                            (None, Some(t), true) => parse_quote!(#b.vx_range(0, #t)),
                            (Some(s), Some(t), true) => parse_quote!(#b.vx_range(#s, #t)),
                            _ => {
                                self.cx.problems.push("inclusive range index".into());
                                return;
                            }
                        };
                    }
                }
            }
            Expr::Macro(m) => {
                let name = path_mac(&m.mac);
                let args = split_args(m.mac.tokens.clone());
                let chk: Expr = if self.cx.panics_forbidden {
                    parse_quote!(vx_assert)
                } else if self.cx.panics_guarded {
                    parse_quote!(vx_check_if)
                } else {
                    parse_quote!(vx_check)
                };
                let mut x: Option<Expr> = None;
                match name.as_str() {
                    // gone in release builds: gives no guarantee where a panic is allowed
                    "debug_assert" | "debug_assert_eq" | "debug_assert_ne" if !self.cx.panics_forbidden => {
                        x = Some(match (self.cx.panics_guarded, name.as_str(), args.as_slice()) {
                            (true, "debug_assert", [a, ..]) => parse_quote!(vx_owed_if(#a)),
                            (true, "debug_assert_eq", [a, b, ..]) => parse_quote!(vx_owed_if(#a == #b)),
                            (true, "debug_assert_ne", [a, b, ..]) => parse_quote!(vx_owed_if(#a != #b)),
                            _ => parse_quote!(()),
                        });
                    }
                    "assert" | "debug_assert" if !args.is_empty() => {
                        let a = &args[0];
                        x = Some(parse_quote!(#chk(#a)));
                    }
                    "assert_eq" | "debug_assert_eq" if args.len() >= 2 => {
                        let (a, b) = (&args[0], &args[1]);
                        x = Some(parse_quote!(#chk(#a == #b)));
                    }
                    "assert_ne" | "debug_assert_ne" if args.len() >= 2 => {
                        let (a, b) = (&args[0], &args[1]);
                        x = Some(parse_quote!(#chk(#a != #b)));
                    }
                    // nom without verbose errors: the kind alone
                    "error_position" if args.len() == 2 && self.cx.macro_expanded => {
                        let a = &args[0];
                        x = Some(parse_quote!(#a));
                    }
                    "unreachable" | "panic" | "unimplemented" | "todo" => {
                        x = Some(if self.cx.panics_forbidden {
                            parse_quote!(vx_unreachable())
                        } else if self.cx.panics_guarded {
                            parse_quote!(vx_panic_if())
                        } else {
                            parse_quote!(vx_panic())
                        });
                    }
                    "vec" if args.is_empty() => x = Some(parse_quote!(Vec::new())),
                    "write" if args.len() == 3 => {
                        if let Expr::Lit(l) = &args[1] {
                            if let syn::Lit::Str(s) = &l.lit {
                                let f = s.value();
                                if f.matches("{}").count() == 1 && f.matches('{').count() == 1 {
                                    let p = f.find("{}").unwrap();
                                    let a = byte_array(f[..p].as_bytes());
                                    let b = byte_array(f[p + 2..].as_bytes());
                                    let (w, v) = (&args[0], &args[2]);
                                    x = Some(parse_quote!(vx_write_fmt(#w, #a, &#v, #b)));
                                }
                            }
                        }
                    }
                    _ => {}
                }
                match x {
                    Some(mut y) => {
                        self.cx.hit(&format!("macro-{}", name));
                        if name != "write" {
                            visit_mut::visit_expr_mut(self, &mut y);
                            self.post(&mut y);
                        }
                        *e = y;
                    }
                    None => {
                        if !name.starts_with("vx_") {
                            self.problem(format!("macro {}!", name));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let nargs = m.args.len();
                match (name.as_str(), nargs) {
                    ("as_mut", 0) => {
                        if let Expr::Path(p) = paren_strip(&m.receiver) {
                            let id = toks(&p);
                            if self.cx.pinned.contains(&id) {
                                self.cx.hit("pin-as_mut");
                                let r = &m.receiver;
                                *e = parse_quote!((&mut *#r));
                                return;
                            }
                        }
                    }
                    ("get_unchecked_mut", 0) | ("get_mut", 0) => {
                        let r = strip_ref(&m.receiver);
                        self.cx.hit("pin-get_mut");
                        *e = r;
                        return;
                    }
                    ("into", 0) => {
                        m.method = syn::Ident::new("vx_into", m.method.span());
                        self.cx.hit("into");
                    }
                    ("fuse", 0) | ("windows", 1) => {}
                    _ => {}
                }
                if let Expr::MethodCall(m) = e {
                    // receivers that became references through pin erasure
                    if let Expr::Reference(_) | Expr::Block(_) | Expr::Paren(_) = &*m.receiver {
                        let s = strip_ref(&m.receiver);
                        // (which conversion it is depends on the reference)
                        if is_place(&s) && m.method != "vx_into" {
                            *m.receiver = s;
                        }
                    }
                    // inline helpers on self
                    let name = m.method.to_string();
                    if is_place(&m.receiver) && path_str(&m.receiver) == "self" {
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        let ty = self.cx.self_ty.clone();
                        let recv = (*m.receiver).clone();
                        if let Some(x) = self.try_inline(&name, Some(&ty), Some(&recv), &args) {
                            *e = x;
                            return;
                        }
                    }
                }
                if let Expr::MethodCall(m) = e {
                    let name = m.method.to_string();
                    *self.cx.calls.entry(name.clone()).or_insert(0) += 1;
                    if let Some(a) = self.thread_arg(&name) {
                        m.args.push(a);
                        self.cx.hit("ghost-trace-argument");
                    }
                }
            }
            Expr::Call(c) => {
                let p = path_str(&c.func);
                if (p == "Pin::new" || p == "Pin::new_unchecked" || p == "std::pin::Pin::new") && c.args.len() == 1 {
                    self.cx.hit("pin-new");
                    let a = c.args[0].clone();
                    *e = a;
                    return;
                }
                if p == "Box::pin" && c.args.len() == 1 {
                    self.cx.hit("box-pin");
                    *e = c.args[0].clone();
                    return;
                }
                if (p == "future::ready" || p == "futures::future::ready") && c.args.len() == 1 {
                    self.cx.hit("future-ready");
                    *e = c.args[0].clone();
                    return;
                }
                if c.args.len() == 1 {
                    if let Expr::Path(fp) = &mut *c.func {
                        let n = fp.path.segments.len();
                        if n >= 2 && fp.path.segments[n - 1].ident == "from" {
                            let l = fp.path.segments.last_mut().unwrap();
                            l.ident = syn::Ident::new("vx_new_from", l.ident.span());
                            self.cx.hit("from");
                        }
                    }
                }
                if let Expr::Path(fp) = &*c.func {
                    let segs: Vec<String> = fp.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    let ty = if segs.len() == 2 {
                        Some(if segs[0] == "Self" { self.cx.self_ty.clone() } else { segs[0].clone() })
                    } else {
                        None
                    };
                    let lower = name.chars().next().map_or(false, |c| c.is_lowercase() || c == '_');
                    if lower && segs.len() <= 2 {
                        if let Some(x) = self.try_inline(&name, ty.as_deref(), None, &args) {
                            *e = x;
                            return;
                        }
                    }
                    if let Expr::Call(c) = e {
                        *self.cx.calls.entry(name.clone()).or_insert(0) += 1;
                        let full = segs.join("::");
                        if let Some(a) = self.thread_arg(&full).or_else(|| if segs.len() == 1 { self.thread_arg(&name) } else { None }) {
                            c.args.push(a);
                            self.cx.hit("ghost-trace-argument");
                        }
                    }
                }
            }
            Expr::Closure(c) => {
                if !self.cx.keep_closures {
                    self.cx.problems.push(format!("closure {}", toks(c)));
                }
            }
            _ => {}
        }
    }
}
