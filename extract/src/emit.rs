//! Weaves the sidecar into the desugared text.
use crate::sidecar::{At, FnSpec, Sidecar};
use crate::util::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::{Expr, Stmt};

pub struct Emitted { pub text: String, pub meta: String }

#[derive(Clone)]
struct FnInfo {
    path: String,
    calls: BTreeSet<String>,
    name: String,
    known: bool,
    lost: Option<String>,
    external: bool,
    trusted: bool,
    has_body: bool,
    loops: usize,
    clauses: usize,
    hash: u64,
    bag: u64,
    locals: Vec<String>,
}

fn ty(s: &str) -> String {
    // normalised type or trait text without leading path segments
    let n = norm_tokens(s);
    let mut out = String::new();
    let mut word = String::new();
    let cs: Vec<char> = n.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphanumeric() || cs[i] == '_' { word.push(cs[i]); i += 1; continue; }
        if cs[i] == ':' && i + 1 < cs.len() && cs[i + 1] == ':' { word.clear(); i += 2; continue; }
        out.push_str(&word); word.clear();
        out.push(cs[i]); i += 1;
    }
    out.push_str(&word);
    out
}

pub fn impl_path(module: &str, i: &syn::ItemImpl) -> String {
    let st = ty(&i.self_ty.to_token_stream().to_string());
    match &i.trait_ {
        Some((_, t, _)) => format!("{module}<{st} as {}>", ty(&t.to_token_stream().to_string())),
        None => format!("{module}<{st}>"),
    }
}

struct Loops { v: Vec<(std::ops::Range<usize>, std::ops::Range<usize>)> } // whole expr, body block
impl<'a> Visit<'a> for Loops {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::While(w) => self.v.push((full(e), full(&w.body))),
            Expr::Loop(w) => self.v.push((full(e), full(&w.body))),
            Expr::ForLoop(w) => self.v.push((full(e), full(&w.body))),
            Expr::Closure(_) => {}
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

/// All statements of a block, at any depth, in source order.
struct Stmts { v: Vec<(std::ops::Range<usize>, bool)> } // range, is tail expression
impl<'a> Visit<'a> for Stmts {
    fn visit_block(&mut self, b: &'a syn::Block) {
        for (k, s) in b.stmts.iter().enumerate() {
            let tail = k + 1 == b.stmts.len() && matches!(s, Stmt::Expr(_, None)) && !is_unit_expr(s);
            self.v.push((full(s), tail));
            self.visit_stmt(s);
        }
    }
}
fn is_unit_expr(s: &Stmt) -> bool {
    match s { Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::ForLoop(_), _) => true, Stmt::Expr(Expr::If(i), _) => i.else_branch.is_none(), _ => false }
}

struct Calls<'a> { out: &'a mut BTreeSet<String>, ops: bool }
impl<'a, 'b> Visit<'b> for Calls<'a> {
    fn visit_expr(&mut self, e: &'b Expr) {
        match e {
            Expr::Call(c) => if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.len();
                self.out.insert(p.path.segments[n - 1].ident.to_string());
            },
            Expr::MethodCall(m) => { self.out.insert(m.method.to_string()); }
            Expr::Binary(b) if self.ops => {
                let t = b.op.to_token_stream().to_string();
                let n = match t.as_str() { "+" => "add", "-" => "sub", "*" => "mul", "/" => "div", "%" => "rem", "<<" => "shl", ">>" => "shr",
                    "+=" => "add_assign", "-=" => "sub_assign", "*=" => "mul_assign", "/=" => "div_assign", "%=" => "rem_assign", "<<=" => "shl_assign", ">>=" => "shr_assign", _ => "" };
                if !n.is_empty() { self.out.insert(format!("op:{n}")); }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

/// Identifier assigned in the loop body but declared outside, if unique (the accumulator).
fn accumulator(text: &str, body: &std::ops::Range<usize>) -> Option<String> {
    let b: syn::Block = syn::parse_str(&text[body.clone()]).ok()?;
    struct V { asg: BTreeSet<String>, decl: BTreeSet<String> }
    impl<'a> Visit<'a> for V {
        fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
            if let Expr::Path(p) = &*a.left { if let Some(i) = p.path.get_ident() { self.asg.insert(i.to_string()); } }
            visit::visit_expr_assign(self, a);
        }
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.decl.insert(p.ident.to_string()); }
    }
    let mut v = V { asg: BTreeSet::new(), decl: BTreeSet::new() };
    v.visit_block(&b);
    let c: Vec<_> = v.asg.iter().filter(|a| !v.decl.contains(*a) && !a.starts_with("i__")).collect();
    if c.len() == 1 { Some(c[0].clone()) } else { None }
}

struct Em<'a> {
    text: &'a str,
    side: &'a Sidecar,
    ed: Edits,
    fns: Vec<FnInfo>,
    wanted: Option<&'a BTreeSet<String>>, // functions whose bodies are verified; None = collect only
    external: &'a BTreeSet<String>,
    vacuity: bool,
}

fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }

impl<'a> Em<'a> {
    fn module(&mut self, items: &[syn::Item], m: &str) {
        for it in items {
            match it {
                syn::Item::Mod(x) => if let Some((_, c)) = &x.content {
                    let p = format!("{m}{}::", x.ident);
                    let at = full(&x.mod_token).start;
                    let _ = at;
                    let open = self.text[full(&x.ident).end..].find('{').unwrap() + full(&x.ident).end + 1;
                    self.ed.insert(open, format!("\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::spec::*;\n{}\n", self.side.blocks.get(&format!("mod {}", p.trim_end_matches("::"))).cloned().unwrap_or_default()));
                    self.module(c, &p);
                },
                syn::Item::Fn(f) => {
                    if self.dropped(&format!("{m}{}", f.sig.ident)) { self.ed.delete(full(it)); continue; }
                    self.func(&format!("{m}{}", f.sig.ident), &f.sig, Some(&f.block), full(&f.vis).start.min(full(f).start), None)
                }
                syn::Item::Trait(t) => {
                    let p = format!("{m}{}", t.ident);
                    if self.dropped(&p) { self.ed.delete(full(it)); continue; }
                    if let Some(b) = self.side.supers.get(&p) {
                        let end = t.supertraits.last().map(|x| full(x).end);
                        match end { Some(e) => self.ed.insert(e, format!(" + {b}")), None => self.ed.insert(full(&t.ident).end, format!(": {b}")) }
                    }
                    let open = t.brace_token.span.open().byte_range().end;
                    self.ed.insert(open, self.side.blocks.get(&p).cloned().unwrap_or_default());
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x { self.func(&format!("{p}::{}", f.sig.ident), &f.sig, f.default.as_ref(), full(f).start, None); }
                    }
                }
                syn::Item::Impl(i) => {
                    let p = impl_path(m, i);
                    if self.dropped(&p) { self.ed.delete(full(it)); continue; }
                    let open = i.brace_token.span.open().byte_range().end;
                    self.ed.insert(open, self.side.blocks.get(&p).cloned().unwrap_or_default());
                    for a in &i.attrs { if a.path().is_ident("vx_derived") { self.ed.delete(full(a)); } }
                    let mut req = None;
                    for x in &i.items {
                        if let syn::ImplItem::Fn(f) = x {
                            let fp = format!("{p}::{}", f.sig.ident);
                            if let Some(s) = self.side.fns.get(&fp) { if s.req.is_some() { req = s.req.clone(); } }
                            self.func(&fp, &f.sig, Some(&f.block), full(f).start, i.trait_.as_ref().map(|_| ()));
                        }
                    }
                    self.spec_impl(i, req);
                }
                syn::Item::Struct(s) => { if self.dropped(&format!("{m}{}", s.ident)) { self.ed.delete(full(it)); } }
                syn::Item::Enum(s) => { if self.dropped(&format!("{m}{}", s.ident)) { self.ed.delete(full(it)); } }
                syn::Item::Use(_) | syn::Item::Type(_) | syn::Item::Const(_) => {}
                _ => {}
            }
        }
    }
    fn dropped(&self, p: &str) -> bool { self.side.drops.iter().any(|d| d == p || (d.ends_with('*') && p.starts_with(&d[..d.len() - 1]))) }

    /// Specification companion of an operator trait: its precondition (obeys = false: the
    /// postcondition is on the implementation itself).
    fn spec_impl(&mut self, i: &syn::ItemImpl, req: Option<String>) {
        let Some((_, tp, _)) = &i.trait_ else { return };
        let last = tp.segments.last().unwrap();
        let tn = last.ident.to_string();
        let rhs = match &last.arguments { syn::PathArguments::AngleBracketed(a) => a.args.first().map(|x| self.text[full(x)].to_string()), _ => None };
        let rhs = rhs.unwrap_or("Self".into());
        let targs = match &last.arguments { syn::PathArguments::AngleBracketed(a) => self.text[full(a)].to_string(), _ => String::new() };
        let gen_params = i.generics.params.iter().map(|p| self.text[full(p)].to_string()).collect::<Vec<_>>().join(", ");
        let gen = if gen_params.is_empty() { String::new() } else { format!("<{gen_params}>") };
        let wh = i.generics.where_clause.as_ref().map(|w| self.text[full(w)].to_string()).unwrap_or_default();
        let st = self.text[full(&*i.self_ty)].to_string();
        let bin = [("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem"), ("Shl", "shl"), ("Shr", "shr")];
        let req = req.unwrap_or("true".into());
        let at = full(i).end;
        for (t, n) in bin {
            if tn == t {
                self.ed.insert(at, format!("\nimpl{gen} vstd::std_specs::ops::{t}SpecImpl{targs} for {st} {wh} {{\n open spec fn obeys_{n}_spec() -> bool {{ false }}\n open spec fn {n}_req(self, rhs: {rhs}) -> bool {{ {req} }}\n open spec fn {n}_spec(self, rhs: {rhs}) -> <Self as std::ops::{t}{targs}>::Output {{ arbitrary() }} }}\n"));
            } else if tn == format!("{t}Assign") {
                self.ed.insert(at, format!("\nimpl{gen} vstd::std_specs::ops::{t}AssignSpecImpl{targs} for {st} {wh} {{\n open spec fn obeys_{n}_assign_spec() -> bool {{ false }}\n open spec fn {n}_assign_req(&self, rhs: {rhs}) -> bool {{ {req} }}\n open spec fn {n}_assign_spec(&self, rhs: {rhs}) -> &Self {{ arbitrary() }} }}\n"));
            }
        }
        if tn == "From" {
            self.ed.insert(at, format!("\nimpl{gen} vstd::std_specs::convert::FromSpecImpl{targs} for {st} {wh} {{\n open spec fn obeys_from_spec() -> bool {{ false }}\n open spec fn from_spec(v: {rhs}) -> Self {{ arbitrary() }} }}\n"));
        }
    }

    fn func(&mut self, path: &str, sig: &syn::Signature, body: Option<&syn::Block>, start: usize, in_trait_impl: Option<()>) {
        let empty = FnSpec::default();
        // the contracts of the digit types are on their traits
        let known = self.side.fns.contains_key(path) || path.starts_with("digit::");
        let s = self.side.fns.get(path).unwrap_or(&empty);
        s.used.set(true);
        let mut calls = BTreeSet::new();
        let mut lost: Option<String> = None;
        let mut edits: Vec<(usize, String, i32)> = vec![];
        let mut loops_n = 0;
        let text = self.text;
        if let Some(b) = body {
            Calls { out: &mut calls, ops: path.starts_with("ubig::ops::") || path.starts_with("ubig::<") }.visit_block(b);
            let mut lv = Loops { v: vec![] };
            lv.visit_block(b);
            lv.v.sort_by_key(|(r, _)| r.start);
            loops_n = lv.v.len();
            let mut st = Stmts { v: vec![] };
            st.visit_block(b);
            let norms: Vec<String> = st.v.iter().map(|(r, _)| norm_tokens(&text[r.clone()])).collect();
            // names of generated loop variables and accumulators
            let mut names: Vec<(String, String)> = vec![];
            for (k, (r, bd)) in lv.v.iter().enumerate() {
                let head = &text[r.start..bd.start];
                if let Some(p) = head.find("i__") {
                    let id: String = head[p + 3..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    for v in ["i", "n", "j"] { names.push((format!("${v}{k}"), format!("{v}__{id}"))); }
                }
                if let Some(a) = accumulator(text, bd) { names.push((format!("$acc{k}"), a)); }
            }
            names.sort_by_key(|(n, _)| std::cmp::Reverse(n.len()));
            let mut subst = |t: &str| -> String {
                let mut o = t.to_string();
                for (a, b) in &names { o = o.replace(a, b); }
                o
            };
            let mut bad: Vec<String> = s.outline_lost.iter().cloned().collect();
            for (k, inv) in &s.loops {
                match lv.v.get(*k) {
                    Some((_, bd)) => { let t = subst(inv); if t.contains('$') { bad.push(format!("loop {k}: unresolved name")); } edits.push((bd.start, format!("\n{t}\n"), 0)); }
                    None => bad.push(format!("loop {k} not found")),
                }
            }
            if known && !s.external && loops_n > s.loops.len() { bad.push(format!("{} loops, {} expected", loops_n, s.loops.len())); }
            let brange = full(b);
            for h in &s.hints {
                let t = subst(&h.text);
                if t.contains('$') { bad.push("hint: unresolved name".into()); }
                match &h.at {
                    At::BodyStart => edits.push((brange.start + 1, format!("\n{t}\n"), 0)),
                    At::BodyEnd => edits.push((brange.end - 1, format!("\n{t}\n"), 5)),
                    At::Tail => match b.stmts.last() {
                        Some(Stmt::Expr(e, None)) => { let r = full(e); edits.push((r.start, "let tail__ = ".into(), 1)); edits.push((r.end, format!(";\n{t}\ntail__\n"), 4)); }
                        _ => bad.push("no tail expression".into()),
                    },
                    At::LoopTop(k) | At::LoopStart(k) | At::LoopEnd(k) | At::LoopBefore(k) | At::LoopAfter(k) => match lv.v.get(*k) {
                        None => bad.push(format!("loop {k} not found")),
                        Some((r, bd)) => match h.at {
                            At::LoopStart(_) => {
                                // after the bindings of a generated loop (they end the line)
                                let first = &text[bd.start + 1..];
                                let at = if first.trim_start().starts_with("let j__") { bd.start + 1 + first.find('\n').unwrap() } else { bd.start + 1 };
                                edits.push((at, format!("\n{t}\n"), 1));
                            }
                            At::LoopTop(_) => edits.push((bd.start + 1, format!("\n{t}\n"), 1)),
                            At::LoopEnd(_) => edits.push((bd.end - 1, format!("\n{t}\n"), 3)),
                            At::LoopBefore(_) => edits.push((r.start, format!("\n{t}\n"), 2)),
                            _ => {
                                // past the block that wraps a generated loop
                                let rest = &text[r.end..];
                                let gen = text[r.start..bd.start].contains("i__");
                                let at = if gen && rest.trim_start().starts_with('}') { r.end + rest.find('}').unwrap() + 1 } else { r.end };
                                edits.push((at, format!("\n{t}\n"), 3));
                            }
                        },
                    },
                    At::Before(n, k) | At::After(n, k) | At::BlockStart(n, k) => {
                        // innermost statements containing the needle
                        let c: Vec<usize> = (0..norms.len()).filter(|&i| norms[i].contains(n.as_str())).collect();
                        let inner: Vec<usize> = c.iter().copied().filter(|&i| !c.iter().any(|&j| j != i && st.v[j].0.start >= st.v[i].0.start && st.v[j].0.end <= st.v[i].0.end && (st.v[j].0 != st.v[i].0))).collect();
                        match inner.get(*k) {
                            None => bad.push(format!("anchor `{n}` #{k} not found")),
                            Some(&i) => {
                                let (r, tail) = st.v[i].clone();
                                match &h.at {
                                    At::Before(..) => edits.push((r.start, format!("\n{t}\n"), 1)),
                                    At::BlockStart(..) => { let p = text[r.clone()].find('{').map(|p| p + r.start + 1); match p { Some(p) => edits.push((p, format!("\n{t}\n"), 1)), None => bad.push("no block".into()) } }
                                    _ => if tail { edits.push((r.start, "let tail__ = ".into(), 2)); edits.push((r.end, format!(";\n{t}\ntail__\n"), 4)); } else { edits.push((r.end, format!("\n{t}\n"), 4)) },
                                }
                            }
                        }
                    }
                }
            }
            if !bad.is_empty() { lost = Some(bad.join("; ")); }
        }
        let is_ext = s.external || self.external.contains(path) || lost.as_ref().map_or(false, |l| l.contains("loop") || l.contains("unresolved")) || self.wanted.map_or(false, |w| !w.contains(path) && body.is_some());
        // header
        let mut pre = String::new();
        for a in &s.attrs { pre.push_str(a); pre.push('\n'); }
        // its contract is all that is used: the body is left out
        if is_ext && body.is_some() { pre.push_str("#[verifier::external_body] "); self.ed.replace(full(body.unwrap()), "{ unimplemented!() }"); }
        else {
            if self.vacuity { if let Some(b) = body {
                // before the tail expression: everything assumed on the way there is in scope
                let at = match b.stmts.last() { Some(s) => full(s).start, None => full(b).start + 1 };
                edits.push((at, "\nproof { assert(false) /*vacuity*/; }\n".into(), 0)); } }
            for (at, t, pri) in edits { self.ed.v.push((at..at, t, (pri as usize) * 1_000_000 + self.ed.v.len())); } }
        self.ed.insert(start, format!("/*@FN {path} @*/ {pre}"));
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let r = full(&**t);
            if !s.spec.trim().is_empty() || s.ret.is_some() { self.ed.insert(r.start, format!("({}: ", s.ret.clone().unwrap_or("r".into()))); self.ed.insert(r.end, ")"); }
        }
        let mut spec = s.spec.clone();
        if in_trait_impl.is_some() { spec = spec.clone(); }
        if let Some(bn) = &s.bounds { let at = full(sig).end; self.ed.insert(at, format!(" {bn} ")); }
        if !spec.trim().is_empty() {
            let at = full(sig).end;
            self.ed.insert(at, format!("\n{spec}\n"));
        }
        let clauses = spec.matches("ensures").count();
        self.fns.push(FnInfo {
            path: path.into(), calls, name: sig.ident.to_string(), known, lost, external: is_ext, trusted: s.external, has_body: body.is_some(), loops: loops_n, clauses,
            bag: { let n = body.map(|b| text[full(b)].to_string()).unwrap_or_default(); let mut w: Vec<String> = n.parse::<proc_macro2::TokenStream>().map(flat).unwrap_or_default(); w.sort(); hash(&w.join(" ")) },
            locals: body.map(|b| { let mut l = Locals { v: vec![] }; for a in &sig.inputs { if let syn::FnArg::Typed(t) = a { l.visit_pat(&t.pat); } } l.visit_block(b); l.v }).unwrap_or_default(),
            hash: hash(&norm_tokens(&body.map(|b| text[full(b)].to_string()).unwrap_or_default())),
        });
    }
}

fn flat(t: proc_macro2::TokenStream) -> Vec<String> {
    let mut v = vec![];
    for x in t {
        match x { proc_macro2::TokenTree::Group(g) => { v.push(format!("{:?}", g.delimiter())); v.extend(flat(g.stream())); } x => v.push(x.to_string()) }
    }
    v
}

struct Locals { v: Vec<String> }
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.v.push(p.ident.to_string()); visit::visit_pat_ident(self, p); }
}

fn matches(pat: &str, path: &str) -> bool {
    // '*' is a wildcard
    let parts: Vec<&str> = pat.split('*').collect();
    if parts.len() == 1 { return pat == path; }
    if !path.starts_with(parts[0]) { return false; }
    let mut pos = parts[0].len();
    for (k, p) in parts.iter().enumerate().skip(1) {
        if k + 1 == parts.len() { return path.len() >= pos + p.len() && path.ends_with(p); }
        match path[pos..].find(p) { Some(i) => pos += i + p.len(), None => return false }
    }
    true
}

pub fn emit(text: &str, side: &Sidecar, external: &BTreeSet<String>, roots: &[String], only: &[String], known_only: bool, vacuity: bool) -> Result<Emitted, String> {
    let file = syn::parse_file(text).map_err(|e| format!("desugared text: {e}"))?;
    // first pass: collect the call graph
    let none = BTreeSet::new();
    let mut em = Em { text, side, ed: Edits::default(), fns: vec![], wanted: None, external: &none, vacuity: false };
    em.module(&file.items, "");
    let infos = em.fns.clone();
    let mut by_name: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (k, f) in infos.iter().enumerate() { by_name.entry(&f.name).or_default().push(k); }
    let mut wanted: BTreeSet<String> = BTreeSet::new();
    if roots.is_empty() { for f in &infos { wanted.insert(f.path.clone()); } }
    else {
        let mut todo: Vec<usize> = (0..infos.len()).filter(|&k| roots.iter().any(|r| matches(r, &infos[k].path))).collect();
        while let Some(k) = todo.pop() {
            if !wanted.insert(infos[k].path.clone()) { continue; }
            for c in &infos[k].calls {
                let (n, op) = match c.strip_prefix("op:") { Some(n) => (n, true), None => (c.as_str(), false) };
                for &j in by_name.get(n).map(|v| v.as_slice()).unwrap_or(&[]) {
                    if op && !infos[j].path.starts_with("ubig::ops::") { continue; }
                    todo.push(j);
                }
            }
        }
    }
    if known_only { wanted.retain(|w| side.fns.contains_key(w) || w.starts_with("digit::")); }
    if !only.is_empty() { wanted.retain(|w| only.iter().any(|o| matches(o, w))); }
    let mut em = Em { text, side, ed: Edits::default(), fns: vec![], wanted: Some(&wanted), external, vacuity };
    em.module(&file.items, "");
    let fns = em.fns;
    // edits at the same offset are ordered by priority, then by insertion
    let body = em.ed.apply(text);
    let mut out = String::new();
    out.push_str("#![allow(unused_imports, unused_parens, unused_braces, non_snake_case, unused_mut, dead_code, unused_variables, unused_unsafe, unused_assignments)]\n#![verifier::allow(autoderive_clone_without_spec)]\n#![verifier::loop_isolation(false)]\nuse vstd::prelude::*;\nverus! {\n");
    out.push_str(&side.prelude);
    out.push_str("\n// ======== extracted from /repo ========\n");
    out.push_str(&body);
    out.push_str("\n} // verus!\nfn main() {}\n");
    // meta
    let mut m = String::from("{\"functions\":[\n");
    let names: BTreeSet<&str> = fns.iter().map(|f| f.name.as_str()).collect();
    let _ = names;
    for (k, f) in fns.iter().enumerate() {
        m.push_str(&format!("{}{{\"path\":{:?},\"in_cone\":{},\"known\":{},\"external\":{},\"trusted\":{},\"has_body\":{},\"lost\":{},\"loops\":{},\"ensures\":{},\"hash\":\"{:016x}\",\"bag\":\"{:016x}\",\"locals\":[{}],\"calls\":[{}]}}",
            if k > 0 { ",\n" } else { "" }, f.path, wanted.contains(&f.path), f.known, f.external, f.trusted, f.has_body,
            f.lost.as_ref().map(|l| format!("{l:?}")).unwrap_or("null".into()), f.loops, f.clauses, f.hash, f.bag, f.locals.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(","),
            f.calls.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(",")));
    }
    m.push_str("],\n\"unused_contracts\":[");
    let un: Vec<String> = side.fns.iter().filter(|(p, _)| !fns.iter().any(|f| &f.path == *p)).map(|(p, _)| format!("{p:?}")).collect();
    m.push_str(&un.join(","));
    m.push_str("]}\n");
    Ok(Emitted { text: out, meta: m })
}
