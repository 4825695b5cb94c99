//! Reads rustc's `-Zunpretty=expanded,hygiene` output: every identifier followed by a
//! `/* NAME#CTXT */` comment.  Identifiers with a non-root context get the suffix `__hCTXT`;
//! suffixes that do not belong to a local binding are removed again (see `strip`).
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};

pub fn annotate(text: &str) -> String {
    let b: Vec<char> = text.chars().collect();
    let mut out = String::with_capacity(text.len());
    let mut i = 0;
    let n = b.len();
    while i < n {
        let c = b[i];
        if c == '"' {
            // string literal (raw strings do not occur around annotated identifiers)
            out.push(c);
            i += 1;
            while i < n {
                out.push(b[i]);
                if b[i] == '\\' {
                    i += 1;
                    out.push(b[i]);
                } else if b[i] == '"' {
                    i += 1;
                    break;
                }
                i += 1;
            }
            continue;
        }
        if c == '\'' {
            // char literal or lifetime
            if i + 2 < n && b[i + 1] == '\\' {
                out.push(c);
                i += 1;
                out.push(b[i]);
                i += 1;
                out.push(b[i]);
                i += 1;
                while b[i] != '\'' {
                    out.push(b[i]);
                    i += 1;
                }
                out.push('\'');
                i += 1;
                continue;
            } else if i + 2 < n && b[i + 2] == '\'' {
                out.push(b[i]);
                out.push(b[i + 1]);
                out.push(b[i + 2]);
                i += 3;
                continue;
            } else {
                out.push(c);
                i += 1;
                continue;
            }
        }
        if c == '/' && i + 1 < n && b[i + 1] == '*' {
            let mut j = i + 2;
            let mut body = String::new();
            while !(b[j] == '*' && b[j + 1] == '/') {
                body.push(b[j]);
                j += 1;
            }
            i = j + 2;
            let t = body.trim();
            let mut ok = false;
            if let Some(p) = t.find('#') {
                let (l, r) = (&t[..p], &t[p + 1..]);
                if !l.is_empty()
                    && l.chars().all(|c| c.is_ascii_digit())
                    && !r.is_empty()
                    && r.chars().all(|c| c.is_ascii_digit())
                {
                    ok = true;
                    if r != "0" {
                        // attach to the identifier just written
                        while out.ends_with(|c: char| c.is_whitespace()) {
                            out.pop();
                        }
                        if out.ends_with(|c: char| c.is_alphanumeric() || c == '_') {
                            // not for lifetimes / keywords-as-paths
                            let start = out
                                .rfind(|c: char| !(c.is_alphanumeric() || c == '_'))
                                .map(|p| p + 1)
                                .unwrap_or(0);
                            let id = out[start..].to_string();
                            let life = start > 0 && out.as_bytes()[start - 1] == b'\'';
                            let kw = ["self", "Self", "crate", "super", "_"];
                            if !life && !kw.contains(&id.as_str()) {
                                out.push_str("__h");
                                out.push_str(r);
                            }
                        }
                        out.push(' ');
                    }
                }
            }
            let _ = ok;
            continue;
        }
        out.push(c);
        i += 1;
    }
    out
}

fn split(id: &str) -> Option<&str> {
    let p = id.rfind("__h")?;
    if p > 0 && id[p + 3..].chars().all(|c| c.is_ascii_digit()) && p + 3 < id.len() {
        Some(&id[..p])
    } else {
        None
    }
}

struct Binders(HashSet<String>);
impl VisitMut for Binders {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        let s = p.ident.to_string();
        if let Some(base) = split(&s) {
            if base.chars().next().unwrap().is_lowercase() || base.starts_with('_') {
                self.0.insert(s);
            }
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
}
struct Strip<'a>(&'a HashSet<String>);
impl<'a> Strip<'a> {
    fn id(&self, i: &mut syn::Ident) {
        let s = i.to_string();
        if let Some(base) = split(&s) {
            if !self.0.contains(&s) {
                *i = syn::Ident::new(base, i.span());
            }
        }
    }
}
impl<'a> VisitMut for Strip<'a> {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        self.id(i)
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        let s = m.method.to_string();
        if let Some(base) = split(&s) {
            m.method = syn::Ident::new(base, m.method.span());
        }
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
        if let Some(t) = &mut m.turbofish {
            self.visit_angle_bracketed_generic_arguments_mut(t);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let s = m.tokens.to_string();
        m.tokens = retok(&s, self.0).parse().unwrap_or_else(|_| m.tokens.clone());
        visit_mut::visit_macro_mut(self, m);
    }
}
fn retok(s: &str, keep: &HashSet<String>) -> String {
    let mut out = String::new();
    let mut cur = String::new();
    for c in s.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            if let Some(base) = split(&cur) {
                if !keep.contains(&cur) {
                    cur = base.to_string();
                }
            }
            out.push_str(&cur);
            cur.clear();
            out.push(c);
        }
    }
    out
}

/// Remove suffixes that do not belong to local bindings, item by item.
pub fn strip(file: &mut syn::File) {
    struct Fns;
    impl VisitMut for Fns {
        fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
            let mut b = Binders(HashSet::new());
            b.visit_item_fn_mut_all(f);
            Strip(&b.0).visit_item_fn_mut(f);
        }
        fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
            let mut b = Binders(HashSet::new());
            visit_mut::visit_impl_item_fn_mut(&mut b, f);
            Strip(&b.0).visit_impl_item_fn_mut(f);
        }
    }
    impl Binders {
        fn visit_item_fn_mut_all(&mut self, f: &mut syn::ItemFn) {
            visit_mut::visit_item_fn_mut(self, f)
        }
    }
    visit_mut::visit_file_mut(&mut Fns, file);
    // whatever is left outside functions
    let empty = HashSet::new();
    struct Rest<'a>(Strip<'a>);
    impl<'a> VisitMut for Rest<'a> {
        fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
            self.0.visit_signature_mut_name(&mut f.sig);
        }
        fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
            self.0.visit_signature_mut_name(&mut f.sig);
        }
        fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
            self.0.id(i)
        }
    }
    impl<'a> Strip<'a> {
        fn visit_signature_mut_name(&mut self, s: &mut syn::Signature) {
            self.id(&mut s.ident);
        }
    }
    visit_mut::visit_file_mut(&mut Rest(Strip(&empty)), file);
}
