use std::collections::HashMap;
use std::path::{Path, PathBuf};

#[derive(Clone)]
pub struct FnSrc {
    pub file: String,
    pub ty: Option<String>,
    pub trait_: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub module: String,
}

#[derive(Default)]
pub struct Index {
    pub files: HashMap<String, syn::File>,
    pub fns: Vec<FnSrc>,
    pub helpers_from: Vec<String>,
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            s.ident.to_string()
        }
        t => quote::quote!(#t).to_string(),
    }
}
fn full_ty(t: &syn::Type) -> String {
    let s = quote::quote!(#t).to_string().replace(' ', "");
    s
}

pub fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string().replace(' ', "");
        t.starts_with("#[cfg(test") || t == "#[test]" || t.contains("cfg(all(test")
    })
}

impl Index {
    pub fn add(&mut self, name: &str, file: syn::File) {
        self.add_items(name, &file.items, "");
        self.files.insert(name.to_string(), file);
    }
    fn add_items(&mut self, name: &str, items: &[syn::Item], module: &str) {
        for it in items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => self.fns.push(FnSrc {
                    file: name.into(),
                    ty: None,
                    trait_: None,
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    module: module.into(),
                }),
                syn::Item::Impl(i) if !is_test(&i.attrs) => {
                    let ty = ty_name(&i.self_ty);
                    let fullt = full_ty(&i.self_ty);
                    let tr = i.trait_.as_ref().map(|(p, _)| {
                        let s = p.segments.last().unwrap();
                        quote::quote!(#s).to_string().replace(' ', "")
                    });
                    for x in &i.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if is_test(&f.attrs) {
                                continue;
                            }
                            self.fns.push(FnSrc {
                                file: name.into(),
                                ty: Some(if tr.is_some() { fullt.clone() } else { ty.clone() }),
                                trait_: tr.clone(),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                module: module.into(),
                            });
                        }
                    }
                }
                syn::Item::Trait(t) if !is_test(&t.attrs) => {
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            if let Some(b) = &f.default {
                                self.fns.push(FnSrc {
                                    file: name.into(),
                                    ty: Some(t.ident.to_string()),
                                    trait_: None,
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    module: module.into(),
                                });
                            }
                        }
                    }
                }
                syn::Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        self.add_items(name, items, &format!("{}::{}", module, m.ident));
                    }
                }
                _ => {}
            }
        }
    }
    /// `name`, `Type::name` or `<Trait for Type>::name`
    pub fn find(&self, file: &str, path: &str) -> Result<FnSrc, String> {
        let p = path.replace(' ', "");
        let (ty, tr, name): (Option<String>, Option<String>, String) = if let Some(r) = p.strip_prefix('<') {
            let e = r.rfind(">::").ok_or("bad path")?;
            let (l, name) = (&r[..e], &r[e + 3..]);
            // Trait for Type lost its spaces: "TraitforType"
            let orig = path.trim_start_matches('<');
            let e2 = orig.rfind(">::").unwrap();
            let mut it = orig[..e2].splitn(2, " for ");
            let tr = it.next().unwrap().replace(' ', "");
            let ty = it.next().ok_or("bad path")?.replace(' ', "");
            let _ = l;
            (Some(ty), Some(tr), name.to_string())
        } else if let Some(e) = p.rfind("::") {
            (Some(p[..e].to_string()), None, p[e + 2..].to_string())
        } else {
            (None, None, p.clone())
        };
        let eq_ty = |f: &FnSrc| -> bool {
            match (&f.ty, &ty) {
                (None, None) => true,
                (Some(a), Some(b)) => a == b || base(a) == *b,
                _ => false,
            }
        };
        let krate = |f: &str| f.split("/src/").next().unwrap().to_string();
        let find_in = |whole: bool| -> Vec<&FnSrc> {
          self
            .fns
            .iter()
            .filter(|f| {
                (file == "*" || f.file == file || whole && krate(&f.file) == krate(file))
                    && f.sig.ident == name
                    && eq_ty(f)
                    && match (&tr, &f.trait_) {
                        (None, None) => true,
                        (Some(a), Some(b)) => a == b || base(b) == *a,
                        _ => false,
                    }
            })
            .collect()
        };
        let mut c = find_in(false);
        if c.is_empty() {
            // moved to another file of the crate
            c = find_in(true);
        }
        match c.len() {
            1 => Ok(c[0].clone()),
            0 => Err(format!("function {} not found in {}", path, file)),
            n => Err(format!("function {} ambiguous in {} ({})", path, file, n)),
        }
    }
    pub fn lookup_helper(&self, ty: Option<&str>, name: &str) -> Option<FnSrc> {
        let c: Vec<&FnSrc> = self
            .fns
            .iter()
            .filter(|f| {
                f.sig.ident == name
                    && f.trait_.is_none()
                    && match (ty, &f.ty) {
                        (None, None) => true,
                        (Some(a), Some(b)) => a == b || a.split('<').next() == Some(b.as_str()),
                        // module-qualified free function
                        (Some(a), None) => a.chars().next().map_or(false, |c| c.is_lowercase()),
                        _ => false,
                    }
                    && self.helpers_from.iter().any(|h| f.file == *h)
            })
            .collect();
        if c.len() == 1 {
            Some(c[0].clone())
        } else {
            None
        }
    }
    /// value of a constant the function's helper files define
    pub fn helper_const(&self, name: &str) -> Option<syn::Expr> {
        let c: Vec<syn::Expr> = self
            .helpers_from
            .iter()
            .filter_map(|h| self.files.get(h))
            .flat_map(|f| f.items.iter())
            .filter_map(|i| match i {
                syn::Item::Const(c) if c.ident == name => Some((*c.expr).clone()),
                _ => None,
            })
            .collect();
        if c.len() == 1 {
            Some(c[0].clone())
        } else {
            None
        }
    }
    pub fn item(&self, file: &str, name: &str) -> Option<syn::Item> {
        fn go(items: &[syn::Item], name: &str) -> Option<syn::Item> {
            for it in items {
                match it {
                    syn::Item::Struct(s) if s.ident == name => return Some(it.clone()),
                    syn::Item::Enum(s) if s.ident == name => return Some(it.clone()),
                    syn::Item::Const(s) if s.ident == name => return Some(it.clone()),
                    syn::Item::Mod(m) if !is_test(&m.attrs) => {
                        if let Some((_, i)) = &m.content {
                            if let Some(r) = go(i, name) {
                                return Some(r);
                            }
                        }
                    }
                    _ => {}
                }
            }
            None
        }
        if let Some(r) = go(&self.files.get(file)?.items, name) {
            return Some(r);
        }
        let krate = |f: &str| f.split("/src/").next().unwrap().to_string();
        let mut all: Vec<syn::Item> = self
            .files
            .iter()
            .filter(|(f, _)| krate(f) == krate(file))
            .filter_map(|(_, x)| go(&x.items, name))
            .collect();
        if all.len() == 1 {
            all.pop()
        } else {
            None
        }
    }
    pub fn assoc_const(&self, file: &str, ty: &str, name: &str) -> Option<syn::ImplItemConst> {
        for it in &self.files.get(file)?.items {
            if let syn::Item::Impl(i) = it {
                if ty_name(&i.self_ty) == ty {
                    for x in &i.items {
                        if let syn::ImplItem::Const(c) = x {
                            if c.ident == name {
                                return Some(c.clone());
                            }
                        }
                    }
                }
            }
        }
        None
    }
}
fn base(t: &str) -> String {
    t.split('<').next().unwrap().to_string()
}

pub fn rs_files(dir: &Path) -> Vec<PathBuf> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                v.extend(rs_files(&p));
            } else if p.extension().map_or(false, |x| x == "rs") {
                v.push(p);
            }
        }
    }
    v.sort();
    v
}
