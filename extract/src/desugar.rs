//! Plain Rust -> plain Rust rewriting of constructs the verifier does not accept.
//! Every rewrite is local, syntactic and meaning preserving; DESIGN.md lists them.
use crate::util::*;
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::{Expr, Pat};

type R<T> = Result<T, String>;

pub fn desugar(text: String, mode_b: bool) -> R<String> {
    let text = expand_macros(text)?;
    let text = instances(text)?;
    let text = items(text)?;
    let consts = assoc_consts(&text)?;
    let text = const_items(text)?;
    let mut text = const_uses(text, &consts)?;
    let mut uid = 0usize;
    for _ in 0..50 {
        let file = parse(&text)?;
        let mut v = Ex { text: &text, ed: Edits::default(), uid: &mut uid };
        v.visit_file(&file);
        if v.ed.is_empty() { return vec_ranges(text, mode_b); }
        let t = v.ed.apply(&text);
        text = t;
    }
    Err("desugaring does not terminate".into())
}

/// `v[a..b]` of a vector goes through its slice: `v.as_slice()[a..b]`, `v.as_mut_slice()[a..b]`.
fn vec_ranges(text: String, mode_b: bool) -> R<String> {
    let file = parse(&text)?;
    struct V<'a> { text: &'a str, ed: Edits, vecs: std::collections::BTreeSet<String>, mode_b: bool }
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_item_fn(&mut self, f: &'b syn::ItemFn) { let s = std::mem::take(&mut self.vecs); visit::visit_item_fn(self, f); self.vecs = s; }
        fn visit_impl_item_fn(&mut self, f: &'b syn::ImplItemFn) { let s = std::mem::take(&mut self.vecs); visit::visit_impl_item_fn(self, f); self.vecs = s; }
        fn visit_local(&mut self, l: &'b syn::Local) {
            if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                let t = src(self.text, &*i.expr);
                if t.starts_with("crate::shim::vec_") || t.starts_with("std::mem::replace") || t.starts_with("crate::shim::slice_to_vec") { self.vecs.insert(p.ident.to_string()); } else { self.vecs.remove(&p.ident.to_string()); }
            }
            visit::visit_local(self, l);
        }
        fn visit_expr_reference(&mut self, r: &'b syn::ExprReference) {
            if let Expr::Index(ix) = strip(&r.expr) {
                if let Expr::Range(rg) = strip(&ix.index) {
                    let b = src(self.text, &*ix.expr);
                    if self.mode_b && b.ends_with(".digits") && rg.end.is_none() {
                        if let Some(lo) = &rg.start {
                            // a start past the end panics; here that is a way out
                            let lo = src(self.text, &**lo);
                            let m = if r.mutability.is_some() { "mut " } else { "" };
                            let t = if r.mutability.is_some() { "as_mut_slice" } else { "as_slice" };
                            self.ed.replace(full(r), format!("{{ let lo__ = crate::shim::rb_from({lo}, {b}.len()); &{m}{b}.{t}()[lo__..] }}"));
                            return;
                        }
                    }
                    if b.ends_with(".digits") || self.vecs.contains(b) {
                        self.ed.insert(full(&*ix.expr).end, if r.mutability.is_some() { ".as_mut_slice()" } else { ".as_slice()" });
                    }
                }
            }
            visit::visit_expr_reference(self, r);
        }
        fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
            if m.method == "copy_from_slice" || m.method == "clone_from_slice" {
                if let Expr::Index(ix) = strip(&m.receiver) {
                    let b = src(self.text, &*ix.expr);
                    if matches!(strip(&ix.index), Expr::Range(_)) && (b.ends_with(".digits") && !self.mode_b || self.vecs.contains(b)) {
                        self.ed.insert(full(&*ix.expr).end, ".as_mut_slice()");
                    }
                }
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V { text: &text, ed: Edits::default(), vecs: Default::default(), mode_b };
    v.visit_file(&file);
    Ok(v.ed.apply(&text))
}

fn parse(text: &str) -> R<syn::File> {
    syn::parse_file(text).map_err(|e| {
        let l = e.span().start().line;
        format!("line {l}: {e}: {}", text.lines().nth(l.saturating_sub(1)).unwrap_or(""))
    })
}

// ---------------------------------------------------------------- item macros

struct Mac { name: String, params: Vec<String>, body: String }

fn expand_macros(text: String) -> R<String> {
    let file = parse(&text)?;
    let mut macs: Vec<Mac> = vec![];
    let mut ed = Edits::default();
    fn walk(items: &[syn::Item], text: &str, macs: &mut Vec<Mac>, ed: &mut Edits) -> R<()> {
        for it in items {
            match it {
                syn::Item::Mod(m) => if let Some((_, c)) = &m.content { walk(c, text, macs, ed)?; },
                syn::Item::Macro(m) if m.ident.is_some() => {
                    let toks: Vec<_> = m.mac.tokens.clone().into_iter().collect();
                    // ( params ) => { body }
                    let groups: Vec<_> = toks.iter().filter_map(|t| if let proc_macro2::TokenTree::Group(g) = t { Some(g) } else { None }).collect();
                    if groups.len() != 2 { return Err(format!("macro {} has more than one arm", m.ident.as_ref().unwrap())); }
                    let mut params = vec![];
                    let p: Vec<_> = groups[0].stream().into_iter().collect();
                    let mut i = 0;
                    while i < p.len() {
                        if p[i].to_string() == "$" {
                            if let proc_macro2::TokenTree::Ident(id) = &p[i + 1] { params.push(id.to_string()); i += 2; continue; }
                            return Err("macro repetition".into());
                        }
                        i += 1;
                    }
                    let r = groups[1].span().byte_range();
                    macs.push(Mac { name: m.ident.as_ref().unwrap().to_string(), params, body: text[r.start + 1..r.end - 1].to_string() });
                    ed.delete(full(it));
                }
                syn::Item::Macro(m) => {
                    let name = m.mac.path.to_token_stream().to_string();
                    let mac = macs.iter().find(|x| x.name == name).ok_or(format!("unknown macro {name}!"))?;
                    let mut args = vec![];
                    let mut cur = String::new();
                    for t in m.mac.tokens.clone() {
                        if t.to_string() == "," { args.push(std::mem::take(&mut cur)); } else { cur.push_str(&t.to_string()); cur.push(' '); }
                    }
                    if !cur.trim().is_empty() { args.push(cur); }
                    if args.len() != mac.params.len() { return Err(format!("macro {name}: wrong number of arguments")); }
                    let mut body = mac.body.clone();
                    let mut ps: Vec<_> = mac.params.iter().zip(&args).collect();
                    ps.sort_by_key(|(p, _)| std::cmp::Reverse(p.len()));
                    for (p, a) in ps { body = body.replace(&format!("as ${p} <"), &format!("as ({}) <", a.trim())); body = body.replace(&format!("${p}"), a.trim()); }
                    ed.replace(full(it), body);
                }
                _ => {}
            }
        }
        Ok(())
    }
    walk(&file.items, &text, &mut macs, &mut ed)?;
    Ok(ed.apply(&text))
}

// ---------------------------------------------------------------- items, attributes, visibility, paths

struct Items<'a> { text: &'a str, ed: Edits }

impl<'a> Items<'a> {
    fn vis(&mut self, v: &syn::Visibility, at: usize) {
        match v {
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => self.ed.replace(full(r), "pub"),
            syn::Visibility::Inherited => self.ed.insert(at, "pub "),
        }
    }
    fn derive(&mut self, s: &syn::ItemStruct) {
        let mut keep: Vec<String> = vec![];
        let mut der: BTreeSet<String> = BTreeSet::new();
        for a in &s.attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| { der.insert(m.path.get_ident().unwrap().to_string()); Ok(()) });
            }
        }
        let name = s.ident.to_string();
        let fields: Vec<String> = s.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string())).collect();
        let one = fields.len() == 1 && s.generics.type_params().count() == 1;
        let mut extra = String::new();
        let tup = matches!(s.fields, syn::Fields::Unnamed(_));
        if one {
            let f = &fields[0];
            let t = s.generics.type_params().next().unwrap().ident.to_string();
            if der.contains("PartialEq") {
                if tup { extra.push_str(&format!("\n#[vx_derived] impl<{t}> PartialEq for {name}<{t}> where {t}: PartialEq {{ fn eq(&self, other: &Self) -> bool {{ self.{f} == other.{f} }} }}")); }
                else { extra.push_str(&format!("\n#[vx_derived] impl<{t}> PartialEq for {name}<{t}> where {t}: PartialEq {{ fn eq(&self, other: &Self) -> bool {{ crate::shim::vec_eq(&self.{f}, &other.{f}) }} }}")); }
            }
            if der.contains("Eq") { extra.push_str(&format!("\n#[vx_derived] impl<{t}> Eq for {name}<{t}> where {t}: Eq {{ }}")); }
            if der.contains("PartialOrd") { extra.push_str(&format!("\n#[vx_derived] impl<{t}> PartialOrd for {name}<{t}> where {t}: PartialOrd {{ fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {{ self.{f}.partial_cmp(&other.{f}) }} }}")); }
            if der.contains("Ord") { extra.push_str(&format!("\n#[vx_derived] impl<{t}> Ord for {name}<{t}> where {t}: Ord {{ fn cmp(&self, other: &Self) -> std::cmp::Ordering {{ self.{f}.cmp(&other.{f}) }} }}")); }
            if der.contains("Clone") {
                if tup { extra.push_str(&format!("\n#[vx_derived] impl<{t}> Clone for {name}<{t}> where {t}: Clone {{ fn clone(&self) -> Self {{ {name}(self.{f}.clone()) }} }}")); }
                else { extra.push_str(&format!("\n#[vx_derived] impl<{t}> Clone for {name}<{t}> where {t}: Clone {{ fn clone(&self) -> Self {{ {name} {{ {f}: crate::shim::vec_clone(&self.{f}) }} }} }}")); }
            }
            if der.contains("Copy") { keep.push("Copy".into()); }
        } else {
            keep = der.into_iter().filter(|d| d != "Debug").collect();
        }
        for a in &s.attrs { self.ed.delete(full(a)); }
        let r = full(s);
        let start = s.attrs.last().map(|a| full(a).end).unwrap_or(r.start);
        if !keep.is_empty() { self.ed.insert(start, format!("#[derive({})] ", keep.join(", "))); }
        self.ed.insert(r.end, extra);
    }
    fn attrs(&mut self, attrs: &[syn::Attribute]) { for a in attrs { if !a.path().is_ident("vx_derived") { self.ed.delete(full(a)); } } }
    fn sig(&mut self, s: &syn::Signature) {
        if let Some(c) = &s.constness { self.ed.delete(full(c)); }
    }
    /// `fn f(mut self) { .. self .. }` -> `fn f(self) { let mut self__ = self; .. self__ .. }`
    fn mut_self(&mut self, s: &syn::Signature, body: &syn::Block) {
        let Some(syn::FnArg::Receiver(r)) = s.inputs.first() else { return };
        if r.reference.is_some() { return; }
        let Some(m) = &r.mutability else { return };
        self.ed.delete(full(m));
        let at = full(body).start + 1;
        self.ed.insert(at, " let mut self__ = self;");
        fn walk(t: proc_macro2::TokenStream, ed: &mut Edits) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => ed.replace(i.span().byte_range(), "self__"),
                    proc_macro2::TokenTree::Group(g) => walk(g.stream(), ed),
                    _ => {}
                }
            }
        }
        walk(body.to_token_stream(), &mut self.ed);
    }
}

impl<'a, 'ast> Visit<'ast> for Items<'a> {
    fn visit_item_struct(&mut self, i: &'ast syn::ItemStruct) {
        self.vis(&i.vis, full(&i.struct_token).start);
        for f in &i.fields {
            self.attrs(&f.attrs);
            let at = f.ident.as_ref().map(|x| full(x).start).unwrap_or(full(&f.ty).start);
            self.vis(&f.vis, at);
        }
        self.derive(i);
    }
    fn visit_item_enum(&mut self, i: &'ast syn::ItemEnum) {
        for a in &i.attrs { if !a.path().is_ident("derive") { self.ed.delete(full(a)); } }
        self.vis(&i.vis, full(&i.enum_token).start);
        for v in &i.variants { self.attrs(&v.attrs); }
    }
    fn visit_item_const(&mut self, i: &'ast syn::ItemConst) { self.attrs(&i.attrs); self.vis(&i.vis, full(&i.const_token).start); visit::visit_item_const(self, i); }
    fn visit_item_type(&mut self, i: &'ast syn::ItemType) { self.attrs(&i.attrs); self.vis(&i.vis, full(&i.type_token).start); visit::visit_item_type(self, i); }
    fn visit_item_use(&mut self, i: &'ast syn::ItemUse) {
        self.attrs(&i.attrs);
        if let syn::UseTree::Path(p) = &i.tree { if p.ident == "num_traits" { self.ed.insert(full(&p.ident).start, "crate::"); } }
    }
    fn visit_item_mod(&mut self, i: &'ast syn::ItemMod) { self.attrs(&i.attrs); self.vis(&i.vis, full(&i.mod_token).start); visit::visit_item_mod(self, i); }
    fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
        self.attrs(&i.attrs);
        let at = i.sig.constness.as_ref().map(|c| full(c).start).unwrap_or(full(&i.sig.fn_token).start);
        self.vis(&i.vis, at); self.sig(&i.sig);
        visit::visit_item_fn(self, i);
    }
    fn visit_item_trait(&mut self, i: &'ast syn::ItemTrait) { self.attrs(&i.attrs); self.vis(&i.vis, full(&i.trait_token).start); visit::visit_item_trait(self, i); }
    fn visit_trait_item_fn(&mut self, i: &'ast syn::TraitItemFn) { self.attrs(&i.attrs); visit::visit_trait_item_fn(self, i); }
    fn visit_trait_item_const(&mut self, i: &'ast syn::TraitItemConst) { self.attrs(&i.attrs); visit::visit_trait_item_const(self, i); }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        self.attrs(&i.attrs);
        // Ghost bound on the storage type, so that its spec functions can be named.
        let hdr = norm_tokens(&i.self_ty.to_token_stream().to_string());
        for p in i.generics.type_params() {
            let t = p.ident.to_string();
            if (hdr.contains(&format!("BinaryDigit<{t}>")) || hdr.contains(&format!("DecimalDigit<{t}>"))) && p.bounds.is_empty() {
                self.ed.insert(full(&p.ident).end, ": crate::spec::NumVal");
            }
        }
        for it in &i.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    self.attrs(&f.attrs);
                    if i.trait_.is_none() {
                        let at = f.sig.constness.as_ref().map(|c| full(c).start).unwrap_or(full(&f.sig.fn_token).start);
                        self.vis(&f.vis, at);
                    }
                    self.sig(&f.sig);
                    self.mut_self(&f.sig, &f.block);
                }
                syn::ImplItem::Const(c) => {
                    self.attrs(&c.attrs);
                    if i.trait_.is_none() { self.vis(&c.vis, full(&c.const_token).start); }
                }
                _ => {}
            }
        }
        // `a + b` inside `Add for UBig` names the trait method, so that the impl is found by type
        if let Some((_, tr, _)) = &i.trait_ {
            let tn = tr.segments.last().unwrap().ident.to_string();
            if hdr.contains("UBig<") {
                struct Ops<'b> { tn: &'b str, ed: &'b mut Edits }
                impl<'b, 'ast> Visit<'ast> for Ops<'b> {
                    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
                        use syn::BinOp::*;
                        let t = match b.op { Add(_) => ("Add", "add"), Sub(_) => ("Sub", "sub"), Mul(_) => ("Mul", "mul"), Div(_) => ("Div", "div"), Rem(_) => ("Rem", "rem"), Shl(_) => ("Shl", "shl"), Shr(_) => ("Shr", "shr"), _ => ("", "") };
                        if t.0 == self.tn || !t.0.is_empty() && self.tn == format!("{}Assign", t.0) && !matches!(strip(&b.left), Expr::Path(_) | Expr::Lit(_)) {
                            self.ed.insert(full(&*b.left).start, format!("std::ops::{}::{}(", t.0, t.1));
                            self.ed.replace(full(&b.op), ",");
                            self.ed.insert(full(&*b.right).end, ")");
                        }
                        visit::visit_expr_binary(self, b);
                    }
                }
                for it in &i.items { if let syn::ImplItem::Fn(f) = it { Ops { tn: &tn, ed: &mut self.ed }.visit_block(&f.block); } }
            }
        }
        visit::visit_item_impl(self, i);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if p.leading_colon.is_none() && p.segments.len() > 1 && p.segments[0].ident == "num_traits" {
            self.ed.insert(full(&p.segments[0].ident).start, "crate::");
        }
        // formatting goes to the stand-in
        if p.segments.len() > 2 && p.segments[0].ident == "std" && p.segments[1].ident == "fmt" { self.ed.replace(full(&p.segments[0].ident), "crate"); }
        visit::visit_path(self, p);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) { self.attrs(&l.attrs); visit::visit_local(self, l); }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        // constants local to a function become `let` bindings
        if let syn::Stmt::Item(syn::Item::Const(c)) = s {
            for a in &c.attrs { self.ed.delete(full(a)); }
            self.ed.replace(full(&c.const_token), "let");
            return;
        }
        visit::visit_stmt(self, s);
    }
}

/// An impl bounded by `UBig<T>: Trait` is replaced by its two instances, binary and decimal: the
/// verifier cannot use a contract of a method that is only known through such a bound.
fn instances(text: String) -> R<String> {
    struct V<'a> { text: &'a str, ed: Edits }
    fn subst(text: &str, base: usize, ts: proc_macro2::TokenStream, t: &str, by: &str, ed: &mut Edits) {
        for k in ts {
            match k {
                proc_macro2::TokenTree::Group(g) => subst(text, base, g.stream(), t, by, ed),
                proc_macro2::TokenTree::Ident(i) if i == t => { let r = i.span().byte_range(); ed.replace(r.start - base..r.end - base, by); }
                _ => {}
            }
        }
    }
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
            let Some(w) = &i.generics.where_clause else { return };
            let Some(t) = i.generics.type_params().next().map(|p| p.ident.to_string()) else { return };
            let bound = w.predicates.iter().any(|p| matches!(p, syn::WherePredicate::Type(p) if norm_tokens(&p.bounded_ty.to_token_stream().to_string()) == format!("UBig<{t}>")));
            if !bound { return; }
            let mut out = String::new();
            for d in ["BinaryDigit", "DecimalDigit"] {
                let inst = |n: proc_macro2::TokenStream, r: std::ops::Range<usize>| { let mut ed = Edits::default(); subst(self.text, r.start, n, &t, &format!("{d}<{t}>"), &mut ed); ed.apply(&self.text[r]) };
                let tr = i.trait_.as_ref().map(|(_, p, _)| format!("{} for ", inst(p.to_token_stream(), full(p)))).unwrap_or_default();
                let st = inst(i.self_ty.to_token_stream(), full(&*i.self_ty));
                let items: String = i.items.iter().map(|k| inst(k.to_token_stream(), full(k)) + "\n").collect();
                out.push_str(&format!("impl<{t}> {tr}{st}\nwhere {t}: DigitStorage, {d}<{t}>: Digit\n{{\n{items}}}\n"));
            }
            self.ed.replace(full(i), out);
        }
    }
    let file = parse(&text)?;
    let mut v = V { text: &text, ed: Edits::default() };
    v.visit_file(&file);
    Ok(v.ed.apply(&text))
}

fn items(text: String) -> R<String> {
    let file = parse(&text)?;
    let mut v = Items { text: &text, ed: Edits::default() };
    v.visit_file(&file);
    let _ = v.text;
    Ok(v.ed.apply(&text))
}

// ---------------------------------------------------------------- associated constants

fn assoc_consts(text: &str) -> R<BTreeSet<String>> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_trait_item_const(&mut self, c: &'a syn::TraitItemConst) { self.0.insert(c.ident.to_string()); }
        fn visit_impl_item_const(&mut self, c: &'a syn::ImplItemConst) { self.0.insert(c.ident.to_string()); }
    }
    let mut v = V(BTreeSet::new());
    v.visit_file(&parse(text)?);
    Ok(v.0)
}

fn const_uses(text: String, names: &BTreeSet<String>) -> R<String> {
    struct V<'a> { names: &'a BTreeSet<String>, ed: Edits }
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_expr(&mut self, e: &'ast Expr) {
            if let Expr::Path(p) = e {
                let n = p.path.segments.len();
                let prim = n == 2 && p.qself.is_none() && ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].contains(&p.path.segments[0].ident.to_string().as_str()) && ["MAX", "MIN", "BITS"].contains(&p.path.segments[1].ident.to_string().as_str());
                if !prim && (n > 1 || p.qself.is_some()) && self.names.contains(&p.path.segments[n - 1].ident.to_string()) {
                    self.ed.insert(full(e).end, "()");
                    return;
                }
            }
            if let Expr::Call(c) = e {
                // do not touch X::F(..) calls
                for a in &c.args { self.visit_expr(a); }
                if !matches!(*c.func, Expr::Path(_)) { self.visit_expr(&c.func); }
                return;
            }
            visit::visit_expr(self, e);
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            let n = m.path.to_token_stream().to_string();
            if n == "vec" || n.ends_with("assert") || n == "write" {
                if let Ok(args) = macro_args(m) { for a in &args { if let Expr::Assign(x) = a { self.visit_expr(&x.right); } else { self.visit_expr(a); } } }
            }
        }
    }
    let file = parse(&text)?;
    let mut v = V { names, ed: Edits::default() };
    v.visit_file(&file);
    Ok(v.ed.apply(&text))
}

fn const_items(text: String) -> R<String> {
    struct V<'a> { text: &'a str, ed: Edits }
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_trait_item_const(&mut self, c: &'ast syn::TraitItemConst) {
            let body = c.default.as_ref().map(|(_, e)| format!(" {{ {} }}", src(self.text, e))).unwrap_or(";".into());
            self.ed.replace(full(c), format!("fn {}() -> {}{}", c.ident, src(self.text, &c.ty), body));
        }
        fn visit_impl_item_const(&mut self, c: &'ast syn::ImplItemConst) {
            let v = if matches!(c.vis, syn::Visibility::Inherited) { "" } else { "pub " };
            self.ed.replace(full(c), format!("{v}fn {}() -> {} {{ {} }}", c.ident, src(self.text, &c.ty), src(self.text, &c.expr)));
        }
    }
    let file = parse(&text)?;
    let mut v = V { text: &text, ed: Edits::default() };
    v.visit_file(&file);
    Ok(v.ed.apply(&text))
}

// ---------------------------------------------------------------- expressions

pub fn macro_args(m: &syn::Macro) -> Result<Vec<Expr>, ()> {
    use syn::punctuated::Punctuated;
    if let Ok(p) = m.parse_body_with(Punctuated::<Expr, syn::Token![,]>::parse_terminated) { return Ok(p.into_iter().collect()); }
    if let Ok(p) = m.parse_body_with(Punctuated::<Expr, syn::Token![;]>::parse_terminated) { return Ok(p.into_iter().collect()); }
    Err(())
}

#[derive(Clone, Debug)]
enum It {
    /// element i is place[lo + i]; mode: 'r' reference, 'm' mutable reference, 'v' value
    Slice { place: String, lo: String, hi: String, mode: char, id: usize },
    Chunks { place: String, lo: String, hi: String, k: String, id: usize },
    /// the pieces of a byte sequence, counted from its end
    RChunks { place: String, k: String, id: usize },
    /// the characters of a string
    Chars { place: String, id: usize },
    Range { lo: String, hi: String, id: usize },
    Zip(Box<It>, Box<It>),
    Rev(Box<It>, usize),
    Enumerate(Box<It>),
    Skip(Box<It>, String, usize),
    Take(Box<It>, String, usize),
}

struct Ex<'a> { text: &'a str, ed: Edits, uid: &'a mut usize }

fn strip(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e }
}

/// A place that can be repeated without changing its meaning: a path or a field access.
fn simple_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(p) => p.qself.is_none(),
        Expr::Field(f) => simple_place(&f.base),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && simple_place(&u.expr),
        _ => false,
    }
}

impl<'a> Ex<'a> {
    fn s<N: ToTokens>(&self, n: &N) -> String { src(self.text, n).to_string() }
    fn new_id(&mut self) -> usize { *self.uid += 1; *self.uid }

    fn slice(&mut self, e: &Expr, mode: char) -> Option<It> {
        let e = strip(e);
        let id = self.new_id();
        match e {
            Expr::Index(ix) => {
                if !simple_place(&ix.expr) { return None; }
                let place = self.s(strip(&ix.expr));
                if let Expr::Range(r) = strip(&ix.index) {
                    if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { return None; }
                    let lo = r.start.as_ref().map(|x| self.s(&**x)).unwrap_or("0".into());
                    let hi = r.end.as_ref().map(|x| self.s(&**x)).unwrap_or(format!("{place}.len()"));
                    Some(It::Slice { place, lo, hi, mode, id })
                } else { None }
            }
            _ if simple_place(e) => { let p = self.s(e); Some(It::Slice { hi: format!("{p}.len()"), place: p, lo: "0".into(), mode, id }) }
            _ => None,
        }
    }

    /// `arg`: the expression is used where an IntoIterator is expected (not as a method receiver).
    fn iter(&mut self, e: &Expr, arg: bool) -> Option<It> {
        match strip(e) {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let a: Vec<&Expr> = m.args.iter().collect();
                match (name.as_str(), a.len()) {
                    ("iter", 0) => self.slice(&m.receiver, 'r'),
                    ("iter_mut", 0) => self.slice(&m.receiver, 'm'),
                    ("chunks_exact_mut", 1) => {
                        if let Some(It::Slice { place, lo, hi, id, .. }) = self.slice(&m.receiver, 'm') { Some(It::Chunks { place, lo, hi, k: self.s(a[0]), id }) } else { None }
                    }
                    ("rchunks", 1) => { if !matches!(strip(&m.receiver), Expr::MethodCall(r) if r.method == "as_bytes") { return None; } let id = self.new_id(); Some(It::RChunks { place: self.s(&*m.receiver), k: self.s(a[0]), id }) }
                    ("chars", 0) => { if !simple_place(&m.receiver) { return None; } let id = self.new_id(); Some(It::Chars { place: self.s(&*m.receiver), id }) }
                    ("zip", 1) => { let x = self.iter(&m.receiver, false)?; let y = self.iter(a[0], true)?; Some(It::Zip(Box::new(x), Box::new(y))) }
                    ("rev", 0) => { let x = self.iter(&m.receiver, false)?; let id = self.new_id(); Some(It::Rev(Box::new(x), id)) }
                    ("enumerate", 0) => Some(It::Enumerate(Box::new(self.iter(&m.receiver, false)?))),
                    ("skip", 1) => { let x = self.iter(&m.receiver, false)?; let id = self.new_id(); Some(It::Skip(Box::new(x), self.s(a[0]), id)) }
                    ("take", 1) => { let x = self.iter(&m.receiver, false)?; let id = self.new_id(); Some(It::Take(Box::new(x), self.s(a[0]), id)) }
                    ("copied", 0) | ("cloned", 0) => match self.iter(&m.receiver, false)? {
                        It::Slice { place, lo, hi, mode: 'r', id } => Some(It::Slice { place, lo, hi, mode: 'v', id }),
                        _ => None,
                    },
                    _ => None,
                }
            }
            Expr::Reference(r) if arg => self.slice(&r.expr, if r.mutability.is_some() { 'm' } else { 'r' }),
            Expr::Path(_) if arg => self.slice(e, 'r'), // slices are only passed by shared reference this way
            Expr::Range(r) => {
                if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { return None; }
                let id = self.new_id();
                Some(It::Range { lo: self.s(&**r.start.as_ref()?), hi: self.s(&**r.end.as_ref()?), id })
            }
            _ => None,
        }
    }

    /// Statements run before the loop, in evaluation order.
    fn pre(&self, it: &It, o: &mut String) {
        match it {
            It::Slice { place, lo, hi, .. } if lo == "0" && *hi == format!("{place}.len()") => {}
            It::Slice { place, lo, hi, id, .. } => {
                o.push_str(&format!("let lo__{id}: usize = {lo}; let hi__{id}: usize = {hi}; "));
                if lo != "0" || *hi != format!("{place}.len()") { o.push_str(&format!("crate::shim::chk_range(lo__{id}, hi__{id}, {place}.len()); ")); }
            }
            It::Chunks { place, lo, hi, k, id } => {
                o.push_str(&format!("let lo__{id}: usize = {lo}; let hi__{id}: usize = {hi}; crate::shim::chk_range(lo__{id}, hi__{id}, {place}.len()); let k__{id}: usize = {k}; "));
            }
            It::RChunks { place, k, id } => o.push_str(&format!("let p__{id}: &[u8] = {place}; let k__{id}: usize = {k}; ")),
            It::Chars { place, id } => o.push_str(&format!("let p__{id}: &str = {place}; ")),
            It::Range { lo, hi, id } => o.push_str(&format!("let lo__{id}: usize = {lo}; let hi__{id}: usize = {hi}; ")),
            It::Zip(a, b) => { self.pre(a, o); self.pre(b, o); }
            It::Enumerate(a) => self.pre(a, o),
            It::Rev(a, id) => { self.pre(a, o); o.push_str(&format!("let nr__{id}: usize = {}; ", self.len(a))); }
            It::Skip(a, n, id) | It::Take(a, n, id) => { self.pre(a, o); o.push_str(&format!("let c__{id}: usize = {n}; ")); }
        }
    }
    fn len(&self, it: &It) -> String {
        match it {
            It::Slice { place, lo, hi, .. } if lo == "0" && *hi == format!("{place}.len()") => hi.clone(),
            It::Slice { lo, id, .. } if lo == "0" => format!("hi__{id}"),
            It::Slice { id, .. } => format!("(hi__{id} - lo__{id})"),
            It::Chunks { id, .. } => format!("((hi__{id} - lo__{id}) / k__{id})"),
            It::RChunks { id, .. } => format!("crate::shim::nr_chunks(p__{id}, k__{id})"),
            It::Chars { id, .. } => format!("crate::shim::nr_chars(p__{id})"),
            It::Range { id, .. } => format!("crate::shim::sub_or_zero(hi__{id}, lo__{id})"),
            It::Zip(a, b) => format!("crate::shim::umin({}, {})", self.len(a), self.len(b)),
            It::Rev(_, id) => format!("nr__{id}"),
            It::Enumerate(a) => self.len(a),
            It::Skip(a, _, id) => format!("crate::shim::sub_or_zero({}, c__{id})", self.len(a)),
            It::Take(a, _, id) => format!("crate::shim::umin({}, c__{id})", self.len(a)),
        }
    }
    /// Bindings for element number `i`.
    fn bind(&self, it: &It, i: &str, p: &Pat, o: &mut String) -> Option<()> {
        match it {
            It::Rev(a, id) => self.bind(a, &format!("(nr__{id} - 1 - {i})"), p, o),
            It::Skip(a, _, id) => self.bind(a, &format!("(c__{id} + {i})"), p, o),
            It::Take(a, _, _) => self.bind(a, i, p, o),
            It::Zip(a, b) => match p {
                Pat::Tuple(t) if t.elems.len() == 2 => { self.bind(a, i, &t.elems[0], o)?; self.bind(b, i, &t.elems[1], o) }
                _ => None,
            },
            It::Enumerate(a) => match p {
                Pat::Tuple(t) if t.elems.len() == 2 => {
                    if !matches!(&t.elems[0], Pat::Wild(_)) { o.push_str(&format!("let {} = {i}; ", self.s(&t.elems[0]))); }
                    self.bind(a, i, &t.elems[1], o)
                }
                _ => None,
            },
            It::Range { id, .. } => { if !matches!(p, Pat::Wild(_)) { o.push_str(&format!("let {} = lo__{id} + {i}; ", self.s(p))); } Some(()) }
            It::RChunks { id, .. } => match p { Pat::Ident(_) => { o.push_str(&format!("let {} = crate::shim::rchunk(p__{id}, k__{id}, {i}); ", self.s(p))); Some(()) } _ => None },
            It::Chars { id, .. } => match p { Pat::Ident(_) => { o.push_str(&format!("let {} = crate::shim::char_at(p__{id}, {i}); ", self.s(p))); Some(()) } _ => None },
            It::Chunks { place, id, .. } => { 
                match p { Pat::Ident(_) => { o.push_str(&format!("let {} = &mut {place}[lo__{id} + k__{id} * {i}..lo__{id} + k__{id} * {i} + k__{id}]; ", self.s(p))); Some(()) } _ => None }
            }
            It::Slice { place, lo, mode, id, .. } => {
                let ix = if lo == "0" { i.to_string() } else { format!("lo__{id} + {i}") };
                match (p, mode) {
                    (Pat::Wild(_), _) => {}
                    (Pat::Reference(r), 'r') => o.push_str(&format!("let {} = {place}[{ix}]; ", self.s(&*r.pat))),
                    (Pat::Ident(_), 'r') => o.push_str(&format!("let {} = &{place}[{ix}]; ", self.s(p))),
                    (Pat::Ident(_), 'v') => o.push_str(&format!("let {} = {place}[{ix}]; ", self.s(p))),
                    (Pat::Ident(_), 'm') => o.push_str(&format!("let {} = &mut {place}[{ix}]; ", self.s(p))),
                    _ => return None,
                }
                Some(())
            }
        }
    }

    fn loop_text(&mut self, it: &It, pat: &Pat, body: &str, label: Option<String>) -> Option<(String, String)> {
        let id = self.new_id();
        let mut pre = String::new();
        self.pre(it, &mut pre);
        pre.push_str(&format!("let n__{id}: usize = {}; let mut i__{id}: usize = 0; ", self.len(it)));
        let mut b = format!("let j__{id} = i__{id}; i__{id} = i__{id} + 1; ");
        self.bind(it, &format!("j__{id}"), pat, &mut b)?;
        let l = label.map(|l| format!("{l}: ")).unwrap_or_default();
        Some((pre, format!("{l}while i__{id} < n__{id} {{ {b}\n{body} }}")))
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop) -> Option<String> {
        let it = self.iter(&f.expr, true)?;
        let stmts = f.body.stmts.first().map(|a| { let z = f.body.stmts.last().unwrap(); self.text[full(a).start..full(z).end].to_string() }).unwrap_or_default();
        let (pre, l) = self.loop_text(&it, &f.pat, &stmts, f.label.as_ref().map(|l| self.s(&l.name)))?;
        Some(format!("{{ {pre}\n{l} }}"))
    }

    fn fold(&mut self, m: &syn::ExprMethodCall) -> Option<String> {
        let it = self.iter(&m.receiver, false)?;
        let init = self.s(&m.args[0]);
        let cl = match strip(&m.args[1]) { Expr::Closure(c) => c, _ => return None };
        if cl.inputs.len() != 2 { return None; }
        let acc = match &cl.inputs[0] { Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => p.ident.to_string(), _ => return None };
        let body = format!("{acc} = {};", self.s(&*cl.body));
        let (pre, l) = self.loop_text(&it, &cl.inputs[1], &body, None)?;
        Some(format!("{{ let mut {acc} = {init}; {pre}\n{l} {acc} }}"))
    }

    fn method(&mut self, m: &syn::ExprMethodCall) -> Option<String> {
        let name = m.method.to_string();
        let a: Vec<&Expr> = m.args.iter().collect();
        match (name.as_str(), a.len()) {
            ("fold", 2) => self.fold(m),
            ("all", 1) | ("any", 1) => {
                let it = self.iter(&m.receiver, false)?;
                let cl = match strip(a[0]) { Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return None };
                let (pre, l) = self.loop_text(&it, &cl.inputs[0], &format!("if {}acc__ {{ acc__ = {}; }}", if name == "any" { "!" } else { "" }, self.s(&*cl.body)), None)?;
                Some(format!("{{ let mut acc__ = {}; {pre}\n{l} acc__ }}", name == "all"))
            }
            ("strip_prefix", 1) => match strip(a[0]) {
                Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. }) => Some(format!("crate::shim::strip_prefix_str({}, {})", self.s(&*m.receiver), self.s(a[0]))),
                Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(_), .. }) => Some(format!("crate::shim::strip_prefix_char({}, {})", self.s(&*m.receiver), self.s(a[0]))),
                _ => None,
            },
            ("cmp", 1) => {
                let x = self.iter(&m.receiver, false)?;
                let y = self.iter(a[0], true)?;
                match (x, y) {
                    (It::Rev(x, _), It::Rev(y, _)) => match (*x, *y) {
                        (It::Slice { place: p, lo: l0, hi: h0, .. }, It::Slice { place: q, lo: l1, hi: h1, .. })
                            if l0 == "0" && l1 == "0" && h0 == format!("{p}.len()") && h1 == format!("{q}.len()") => Some(format!("crate::shim::iter_rev_cmp({p}, {q})")),
                        _ => None,
                    },
                    _ => None,
                }
            }
            ("then_with", 1) => match strip(a[0]) {
                Expr::Closure(c) if c.inputs.is_empty() => Some(format!("match {} {{ std::cmp::Ordering::Equal => {}, ord__ => ord__ }}", self.s(&*m.receiver), self.s(&*c.body))),
                _ => None,
            },
            ("then", 1) => {
                let f = match strip(a[0]) { Expr::Closure(c) if c.inputs.is_empty() => self.s(&*c.body), Expr::Path(p) => format!("{}()", self.s(p)), _ => return None };
                Some(format!("(if {} {{ Some({f}) }} else {{ None }})", self.s(&*m.receiver)))
            }
            ("map_err", 1) => match strip(a[0]) {
                Expr::Closure(c) if c.inputs.len() == 1 && matches!(c.inputs[0], Pat::Wild(_)) => Some(format!("(match {} {{ Ok(ok__) => Ok(ok__), Err(_) => Err({}) }})", self.s(&*m.receiver), self.s(&*c.body))),
                _ => None,
            },
            ("extend", 1) => { let (x, n) = self.repeat_take(a[0])?; Some(format!("crate::shim::vec_extend_repeat(&mut {}, {x}, {n})", self.s(&*m.receiver))) }
            ("extend_from_slice", 1) => Some(format!("crate::shim::vec_extend_slice(&mut {}, {})", self.s(&*m.receiver), self.s(a[0]))),
            ("splice", 2) => {
                let (x, n) = self.repeat_take(a[1])?;
                match strip(a[0]) {
                    Expr::Range(r) if r.start.is_none() && r.end.as_ref().map(|e| self.s(&**e)) == Some("0".into()) => Some(format!("crate::shim::vec_prepend_repeat(&mut {}, {x}, {n})", self.s(&*m.receiver))),
                    _ => None,
                }
            }
            ("drain", 1) => match strip(a[0]) {
                Expr::Range(r) if r.start.is_none() && r.end.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_)) => Some(format!("crate::shim::vec_drop_front(&mut {}, {})", self.s(&*m.receiver), self.s(&**r.end.as_ref().unwrap()))),
                _ => None,
            },
            ("fill", 1) => {
                let r = strip(&m.receiver);
                let t = match r { Expr::Index(_) => format!("&mut {}", self.s(r)), _ => self.s(r) };
                Some(format!("crate::shim::slice_fill({t}, {})", self.s(a[0])))
            }
            ("to_vec", 0) => Some(format!("crate::shim::slice_to_vec({})", self.s(&*m.receiver))),
            _ => None,
        }
    }
    fn repeat_take(&self, e: &Expr) -> Option<(String, String)> {
        if let Expr::MethodCall(m) = strip(e) {
            if m.method == "take" && m.args.len() == 1 {
                if let Expr::Call(c) = strip(&m.receiver) {
                    if norm_tokens(&self.s(&*c.func)).ends_with("iter::repeat") && c.args.len() == 1 { return Some((self.s(&c.args[0]), self.s(&m.args[0]))); }
                }
            }
        }
        None
    }
    fn array_cmp(&self, b: &syn::ExprBinary) -> Option<String> {
        // comparing with a constant ordering is a match
        if let (syn::BinOp::Eq(_), Expr::Path(p)) = (&b.op, strip(&b.right)) {
            let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if v.len() >= 2 && v[v.len() - 2] == "Ordering" { return Some(format!("(match {} {{ std::cmp::Ordering::{} => true, _ => false }})", self.s(&*b.left), v[v.len() - 1])); }
        }
        let (x, y) = match (strip(&b.left), strip(&b.right)) { (Expr::Array(x), Expr::Array(y)) => (x, y), _ => return None };
        if x.elems.len() != y.elems.len() || !x.elems.iter().chain(y.elems.iter()).all(simple_place) { return None; }
        let (strict, last) = match b.op { syn::BinOp::Gt(_) => (">", ">"), syn::BinOp::Lt(_) => ("<", "<"), syn::BinOp::Ge(_) => (">", ">="), syn::BinOp::Le(_) => ("<", "<="), _ => return None };
        let n = x.elems.len();
        let mut s = String::new();
        for k in (0..n).rev() {
            let (p, q) = (self.s(&x.elems[k]), self.s(&y.elems[k]));
            s = if k == n - 1 { format!("({p} {last} {q})") } else { format!("({p} {strict} {q} || ({p} == {q} && {s}))") };
        }
        Some(s)
    }
    /// `write!(s, "{:0w$x}", e)` of one integer, zero-padded or not
    fn write_int(&self, m: &syn::Macro) -> Option<String> {
        let a = macro_args(m).ok()?;
        let fmt = match strip(a.get(1)?) { Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) => l.value(), _ => return None };
        let mut pos: Vec<String> = vec![];
        let mut named: Vec<(String, String)> = vec![];
        for x in &a[2..] { match x { Expr::Assign(x) => named.push((self.s(&*x.left), self.s(&*x.right))), x => pos.push(self.s(x)) } }
        let arg = |n: &str| -> Option<String> {
            if let Ok(i) = n.parse::<usize>() { return pos.get(i).cloned(); }
            if n.is_empty() || !n.chars().all(|c| c.is_alphanumeric() || c == '_') { return None; }
            Some(named.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone()).unwrap_or(n.to_string()))
        };
        let t = fmt.strip_prefix('{')?.strip_suffix('}')?;
        let (what, spec) = t.split_once(':').unwrap_or((t, ""));
        let x = if what.is_empty() { pos.first()?.clone() } else { arg(what)? };
        let (spec, f) = if let Some(r) = spec.strip_suffix('x') { (r, "put_lower_hex") } else if let Some(r) = spec.strip_suffix('X') { (r, "put_upper_hex") } else { (spec, "put_decimal") };
        let w = if spec.is_empty() { "0".to_string() } else {
            let r = spec.strip_prefix('0')?;
            match r.strip_suffix('$') { Some(n) => arg(n)?, None => { r.parse::<usize>().ok()?; r.to_string() } }
        };
        Some(format!("crate::fmt::{f}(&mut {}, &({x}), {w})", self.s(&a[0])))
    }
    fn mac(&mut self, m: &syn::Macro) -> Option<String> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "assert" | "debug_assert" => { let a = macro_args(m).ok()?; Some(format!("if !({}) {{ crate::shim::assertion_failed() }}", self.s(&a[0]))) }
            "write" => self.write_int(m),
            "panic" | "unimplemented" | "unreachable" | "todo" => Some("crate::shim::panicked()".into()),
            "vec" => {
                let a = macro_args(m).ok()?;
                let t = m.tokens.to_string();
                let semi = m.tokens.clone().into_iter().any(|t| t.to_string() == ";");
                if t.trim().is_empty() { Some("Vec::new()".into()) }
                else if semi && a.len() == 2 { Some(format!("crate::shim::vec_from_elem({}, {})", self.s(&a[0]), self.s(&a[1]))) }
                else if a.len() <= 4 { Some(format!("crate::shim::vec_of{}({})", a.len(), a.iter().map(|x| self.s(x)).collect::<Vec<_>>().join(", "))) }
                else { None }
            }
            _ => None,
        }
    }
}

impl<'a, 'ast> Visit<'ast> for Ex<'a> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        let t = match e {
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::MethodCall(m) => self.method(m),
            Expr::Binary(b) if matches!(b.op, syn::BinOp::BitOrAssign(_)) && matches!(&*b.left, Expr::Path(_)) && matches!(strip(&b.right), Expr::MethodCall(_) | Expr::Call(_)) => {
                // x |= f(..) on a local: the right operand is always evaluated
                let x = self.s(&*b.left);
                Some(format!("{x} = crate::shim::Bor::bor({x}, {})", self.s(&*b.right)))
            }
            Expr::Binary(b) => self.array_cmp(b),
            Expr::Macro(m) => self.mac(&m.mac),
            // all results in the crate share one error type: `?` converts nothing
            Expr::Try(t) => Some(format!("(match {} {{ Ok(ok__) => ok__, Err(err__) => {{ return Err(err__); }} }})", self.s(&*t.expr))),
            _ => None,
        };
        match t {
            Some(t) => self.ed.replace(full(e), t),
            None => visit::visit_expr(self, e),
        }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            if let Some(t) = self.mac(&m.mac) { self.ed.replace(full(&m.mac), t); return; }
        }
        visit::visit_stmt(self, s);
    }
}
