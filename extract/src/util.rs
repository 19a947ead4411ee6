use std::ops::Range;
use syn::spanned::Spanned;

/// A list of non-overlapping textual edits.
#[derive(Default)]
pub struct Edits { pub v: Vec<(Range<usize>, String, usize)> }

impl Edits {
    pub fn replace(&mut self, r: Range<usize>, s: impl Into<String>) { let n = self.v.len(); self.v.push((r, s.into(), n)); }
    pub fn insert(&mut self, at: usize, s: impl Into<String>) { let n = self.v.len(); self.v.push((at..at, s.into(), n)); }
    pub fn delete(&mut self, r: Range<usize>) { self.replace(r, ""); }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn overlaps(&self, r: &Range<usize>) -> bool { self.v.iter().any(|(q, _, _)| q.start < r.end && r.start < q.end) }
    pub fn apply(mut self, text: &str) -> String {
        self.v.sort_by_key(|(r, _, n)| (r.start, r.end, *n));
        let mut out = String::with_capacity(text.len() * 2);
        let mut pos = 0;
        for (r, s, _) in &self.v {
            assert!(r.start >= pos, "overlapping edits near: {}", &text[r.start.saturating_sub(40)..(r.end + 40).min(text.len())]);
            out.push_str(&text[pos..r.start]);
            out.push_str(s);
            pos = r.end;
        }
        out.push_str(&text[pos..]);
        out
    }
}

pub fn range<N: Spanned>(n: &N) -> Range<usize> { n.span().byte_range() }
pub fn start<N: Spanned>(n: &N) -> usize { range(n).start }
pub fn end<N: Spanned>(n: &N) -> usize { range(n).end }
/// Range from the first to the last token of the node (span() can fall short on stable).
pub fn full<N: quote::ToTokens>(n: &N) -> Range<usize> {
    let ts: Vec<_> = n.to_token_stream().into_iter().collect();
    let a = ts.first().unwrap().span().byte_range().start;
    let b = ts.last().unwrap().span().byte_range().end;
    a..b
}
pub fn src<'a, N: quote::ToTokens>(text: &'a str, n: &N) -> &'a str { &text[full(n)] }
/// Whitespace-free token string, used to compare code and needles.
pub fn norm_tokens(s: &str) -> String { 
    match s.parse::<proc_macro2::TokenStream>() {
        Ok(ts) => flat(ts),
        Err(_) => s.split_whitespace().collect::<Vec<_>>().join(" "),
    }
}
fn flat(ts: proc_macro2::TokenStream) -> String {
    let mut o = String::new();
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                o.push_str(a); o.push_str(&flat(g.stream())); o.push_str(b);
            }
            t => {
                let s = t.to_string();
                if o.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_') && s.chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_') { o.push(' '); }
                o.push_str(&s);
            }
        }
    }
    o
}
