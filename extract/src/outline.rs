//! Splits the body of a long function: a range of the statements of its outermost block moves,
//! verbatim, into a function of its own, called where the statements stood.  Chosen by the sidecar
//! (`-- outline`); refused when the move could change what the program does.
use crate::sidecar::Sidecar;
use crate::util::*;
use std::collections::BTreeSet;
use syn::visit::{self, Visit};

#[derive(Clone, Debug)]
pub struct Outline { pub name: String, pub from: (String, usize), pub to: (String, usize), pub params: String, pub returns: String }

/// Identifiers bound or assigned by the statements, and whether control can leave them.
struct Scan { bound: BTreeSet<String>, assigned: BTreeSet<String>, leaves: bool }
impl<'a> Visit<'a> for Scan {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        match e {
            syn::Expr::Return(_) | syn::Expr::Try(_) => self.leaves = true,
            syn::Expr::Assign(a) => if let syn::Expr::Path(p) = &*a.left { if let Some(i) = p.path.get_ident() { self.assigned.insert(i.to_string()); } },
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_) | syn::BinOp::SubAssign(_) | syn::BinOp::MulAssign(_) | syn::BinOp::DivAssign(_) | syn::BinOp::RemAssign(_)
                | syn::BinOp::BitXorAssign(_) | syn::BinOp::BitAndAssign(_) | syn::BinOp::BitOrAssign(_) | syn::BinOp::ShlAssign(_) | syn::BinOp::ShrAssign(_)) =>
                if let syn::Expr::Path(p) = &*b.left { if let Some(i) = p.path.get_ident() { self.assigned.insert(i.to_string()); } },
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
struct Pats<'a> { v: &'a mut BTreeSet<String> }
impl<'a, 'b> Visit<'b> for Pats<'a> {
    fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) { self.v.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
}
fn idents(t: proc_macro2::TokenStream, v: &mut BTreeSet<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Ident(i) => { v.insert(i.to_string()); }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), v),
            _ => {}
        }
    }
}
/// `a: T, mut b: U` into (name, type, is mut)
fn list(s: &str) -> Vec<(String, String, bool)> {
    let mut out = vec![]; let mut depth = 0; let mut cur = String::new();
    for c in s.chars().chain([',']) {
        match c { '(' | '[' | '<' => depth += 1, ')' | ']' | '>' => depth -= 1, _ => {} }
        if c == ',' && depth == 0 {
            if let Some((n, t)) = cur.split_once(':') {
                let n = n.trim(); let m = n.starts_with("mut ");
                out.push((n.trim_start_matches("mut ").to_string(), t.trim().to_string(), m));
            }
            cur.clear();
        } else { cur.push(c); }
    }
    out
}

/// One part: the text of the helper and of the call, or why not.
fn part(text: &str, f: &syn::ItemFn, o: &Outline) -> Result<(std::ops::Range<usize>, String, String), String> {
    let st = &f.block.stmts;
    let norms: Vec<String> = st.iter().map(|s| norm_tokens(&text[full(s)])).collect();
    let find = |(n, k): &(String, usize)| (0..st.len()).filter(|&i| norms[i].starts_with(n.as_str())).nth(*k).ok_or(format!("outline {}: `{n}` not found", o.name));
    let (a, b) = (find(&o.from)?, find(&o.to)?);
    if a > b || b + 1 >= st.len() { return Err(format!("outline {}: no such range", o.name)); }
    let (params, rets) = (list(&o.params), list(&o.returns));
    let mut sc = Scan { bound: BTreeSet::new(), assigned: BTreeSet::new(), leaves: false };
    for s in &st[a..=b] {
        sc.visit_stmt(s);
        if let syn::Stmt::Local(l) = s { Pats { v: &mut sc.bound }.visit_pat(&l.pat); }
        if let syn::Stmt::Item(_) | syn::Stmt::Macro(_) = s { return Err(format!("outline {}: item or macro", o.name)); }
    }
    if sc.leaves { return Err(format!("outline {}: return or ? in the range", o.name)); }
    if !matches!(st[b], syn::Stmt::Local(_)) && !text[full(&st[b])].ends_with(['}', ';']) { return Err(format!("outline {}: ends in an expression", o.name)); }
    let mut later = BTreeSet::new();
    for s in &st[b + 1..] { idents(quote::ToTokens::to_token_stream(s), &mut later); }
    // what the range binds, or assigns to a variable of its caller, must come back if it is read later
    for v in sc.bound.iter().chain(sc.assigned.iter()) {
        if later.contains(v) && !rets.iter().any(|(n, _, _)| n == v) { return Err(format!("outline {}: {v} is used after the range", o.name)); }
    }
    let wh = f.sig.generics.where_clause.as_ref().map(|w| text[full(w)].to_string()).unwrap_or_default();
    let gen = f.sig.generics.params.iter().map(|p| text[full(p)].to_string()).collect::<Vec<_>>().join(", ");
    let lt = if o.params.contains("&'a ") { "'a, " } else { "" };
    let ps = params.iter().map(|(n, t, m)| format!("{}{n}: {t}", if *m { "mut " } else { "" })).collect::<Vec<_>>().join(", ");
    let rt = if rets.is_empty() { String::new() } else { format!(" -> ({},)", rets.iter().map(|r| r.1.clone()).collect::<Vec<_>>().join(", ")) };
    let r = full(&st[a]).start..full(&st[b]).end;
    let tail = if rets.is_empty() { String::new() } else { format!("({},)", rets.iter().map(|r| r.0.clone()).collect::<Vec<_>>().join(", ")) };
    let helper = format!("\npub fn {}<{lt}{gen}>({ps}){rt}\n{wh}\n{{\n{}\n{tail}\n}}\n", o.name, &text[r.clone()]);
    let bind = if rets.is_empty() { String::new() } else { format!("let ({},) = ", rets.iter().map(|(n, _, m)| format!("{}{n}", if *m { "mut " } else { "" })).collect::<Vec<_>>().join(", ")) };
    let call = format!("{bind}{}({});", o.name, params.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", "));
    Ok((r, helper, call))
}

pub fn outline(text: String, side: &mut Sidecar) -> Result<String, String> {
    let file = syn::parse_file(&text).map_err(|e| format!("desugared text: {e}"))?;
    fn walk(items: &[syn::Item], m: &str, text: &str, side: &mut Sidecar, ed: &mut Edits) {
        for it in items {
            match it {
                syn::Item::Mod(x) => if let Some((_, c)) = &x.content { walk(c, &format!("{m}{}::", x.ident), text, side, ed); },
                syn::Item::Fn(f) => {
                    let p = format!("{m}{}", f.sig.ident);
                    let Some(s) = side.fns.get_mut(&p) else { continue };
                    if s.outlines.is_empty() { continue; }
                    let parts: Result<Vec<_>, String> = s.outlines.iter().map(|o| part(text, f, o)).collect();
                    match parts {
                        Err(e) => s.outline_lost = Some(e),
                        Ok(v) => {
                            let end = full(f).end;
                            for (r, h, c) in v {
                                if ed.overlaps(&r) { s.outline_lost = Some("overlapping outlines".into()); continue; }
                                ed.replace(r, c); ed.insert(end, h);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut ed = Edits::default();
    walk(&file.items, "", &text, side, &mut ed);
    Ok(ed.apply(&text))
}
