//! Contracts, invariants and proof hints, kept beside the code they speak about.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub external: bool,
    pub drop: bool,
    pub params: Option<String>,
    pub bounds: Option<String>,
    pub spec: String,
    pub req: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub hints: Vec<Hint>,
    pub outlines: Vec<crate::outline::Outline>,
    pub outline_lost: Option<String>,
    pub used: std::cell::Cell<bool>,
}

#[derive(Clone, Debug)]
pub enum At {
    BodyStart,
    BodyEnd,
    Tail,
    LoopTop(usize),
    LoopStart(usize),
    LoopEnd(usize),
    LoopBefore(usize),
    LoopAfter(usize),
    Before(String, usize),
    After(String, usize),
    BlockStart(String, usize),
}

#[derive(Clone, Debug)]
pub struct Hint { pub at: At, pub text: String }

#[derive(Default, Debug)]
pub struct Sidecar {
    pub fns: BTreeMap<String, FnSpec>,
    /// extra text for impl / trait / mod blocks, by path
    pub blocks: BTreeMap<String, String>,
    pub drops: Vec<String>,
    /// bounds appended to a trait's supertraits
    pub supers: BTreeMap<String, String>,
    pub prelude: String,
    /// proof modules of the contracts
    pub mods: BTreeMap<String, String>,
}

pub fn load(dir: &str, mode: &str) -> Result<Sidecar, String> {
    let mut s = Sidecar::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let ext = f.extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        if ext == "rs" { s.prelude.push_str(&text); s.prelude.push('\n'); }
        else if ext == "vs" { parse(&text, mode, &mut s).map_err(|e| format!("{}: {e}", f.display()))?; }
    }
    if mode == "B" { s.prelude = s.prelude.replace("#[verifier::external_body]\n    pub fn panicked() -> ! requires false {", "pub fn rb_from(lo: usize, len: usize) -> (r: usize) ensures r == lo, lo <= len { if lo > len { panicked(); } lo }\n    #[verifier::external_body]\n    pub fn panicked() -> ! {"); }
    Ok(s)
}

fn needle(s: &str) -> Result<(String, usize), String> {
    let a = s.find('`').ok_or(format!("no needle in {s}"))?;
    let b = s.rfind('`').unwrap();
    let k = s[b + 1..].trim().strip_prefix('#').map(|k| k.parse().unwrap()).unwrap_or(0);
    Ok((crate::util::norm_tokens(&s[a + 1..b]), k))
}

fn parse(text: &str, mode: &str, s: &mut Sidecar) -> Result<(), String> {
    enum Cur { None, Block(String), Mod(String), Fns(Vec<String>) }
    let mut cur = Cur::None;
    let mut pending: Option<(String, String)> = None;
    let text = expand_each(text)?;
    let mut lines: Vec<&str> = text.lines().collect();
    lines.push("== end");
    for line in lines {
        let head = line.starts_with("== ");
        let sub = line.starts_with("-- ");
        if head || sub {
            if let Some((kind, body)) = pending.take() {
                match &cur {
                    Cur::Fns(ps) => for p in ps.clone() { apply(s.fns.get_mut(&p).unwrap(), &kind, &body, mode)?; },
                    Cur::Block(_) | Cur::Mod(_) | Cur::None => {}
                }
            }
        }
        if head {
            let h = line[3..].trim();
            if h == "end" { cur = Cur::None; continue; }
            if let Some(p) = h.strip_prefix("drop ") { s.drops.push(p.trim().to_string()); cur = Cur::None; }
            else if let Some(p) = h.strip_prefix("super ") { let (a, b) = p.split_once(" + ").ok_or("super")?; s.supers.insert(a.trim().into(), b.trim().into()); cur = Cur::None; }
            else if let Some(p) = h.strip_prefix("block ") { s.blocks.entry(p.trim().to_string()).or_default(); cur = Cur::Block(p.trim().to_string()); }
            else if let Some(p) = h.strip_prefix("mod ") { s.mods.entry(p.trim().to_string()).or_default(); cur = Cur::Mod(p.trim().to_string()); }
            else if let Some(p) = h.strip_prefix("fn ") {
                let ps: Vec<String> = p.split(" | ").map(|x| x.trim().to_string()).collect();
                for p in &ps { s.fns.entry(p.clone()).or_default(); }
                cur = Cur::Fns(ps);
            } else { return Err(format!("bad header {h}")); }
            continue;
        }
        if sub { pending = Some((line[3..].trim().to_string(), String::new())); continue; }
        match &cur {
            Cur::Block(p) => { let b = s.blocks.get_mut(p).unwrap(); b.push_str(line); b.push('\n'); }
            Cur::Mod(p) => { let b = s.mods.get_mut(p).unwrap(); if line.starts_with("proof fn") { b.push_str("pub "); } b.push_str(line); b.push('\n'); }
            Cur::Fns(_) => if let Some((_, b)) = &mut pending { b.push_str(line); b.push('\n'); },
            Cur::None => {}
        }
    }
    Ok(())
}

fn apply(f: &mut FnSpec, kind: &str, body: &str, mode: &str) -> Result<(), String> {
    let mut kind = kind.to_string();
    if let Some(i) = kind.rfind(" @") { if &kind[i + 2..] != mode { return Ok(()); } kind.truncate(i); let k = kind.trim(); 
        // a mode specific section replaces the general one
        if k == "spec" { f.spec.clear(); } if k == "req" { f.req = None; } }
    let kind = kind.trim();
    if let Some(n) = kind.strip_prefix("ret ") { f.ret = Some(n.trim().into()); }
    else if let Some(n) = kind.strip_prefix("attr ") { f.attrs.push(n.trim().into()); }
    else if let Some(n) = kind.strip_prefix("bounds ") { f.bounds = Some(n.trim().into()); }
    else if kind == "external" { f.external = true; }
    else if kind == "drop" { f.drop = true; }
    else if let Some(n) = kind.strip_prefix("outline ") {
        // outline NAME `first statement` to `last statement`, then the lines `in ...` and `out ...`
        let (name, rest) = n.split_once(' ').ok_or("outline")?;
        let (a, b) = rest.split_once(" to ").ok_or("outline")?;
        let mut o = crate::outline::Outline { name: name.into(), from: needle(a)?, to: needle(b)?, params: String::new(), returns: String::new() };
        for l in body.lines() {
            if let Some(x) = l.strip_prefix("in ") { o.params = x.into(); } else if let Some(x) = l.strip_prefix("out ") { o.returns = x.into(); }
        }
        f.outlines.push(o);
    }
    else if kind == "spec" { f.spec.push_str(body); }
    else if kind == "req" { f.req = Some(body.to_string()); }
    else if let Some(n) = kind.strip_prefix("loop ") { f.loops.insert(n.trim().parse().map_err(|_| "loop number")?, body.to_string()); }
    else {
        let at = if kind == "body start" { At::BodyStart } else if kind == "body end" { At::BodyEnd } else if kind == "tail" { At::Tail }
            else if let Some(n) = kind.strip_prefix("in loop ") {
                let (k, w) = n.trim().split_once(' ').ok_or("in loop")?;
                let k = k.parse().map_err(|_| "loop number")?;
                match w.trim() { "top" => At::LoopTop(k), "start" => At::LoopStart(k), "end" => At::LoopEnd(k), "before" => At::LoopBefore(k), "after" => At::LoopAfter(k), _ => return Err(format!("bad loop position {w}")) }
            }
            else if let Some(n) = kind.strip_prefix("before ") { let (s, k) = needle(n)?; At::Before(s, k) }
            else if let Some(n) = kind.strip_prefix("after ") { let (s, k) = needle(n)?; At::After(s, k) }
            else if let Some(n) = kind.strip_prefix("block start ") { let (s, k) = needle(n)?; At::BlockStart(s, k) }
            else { return Err(format!("unknown section {kind}")); };
        f.hints.push(Hint { at, text: body.to_string() });
    }
    Ok(())
}

/// `== each a=1 b=2 ; a=3 b=4` ... `== endeach` repeats its lines with %a%, %b% replaced.
fn expand_each(text: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = text.lines();
    while let Some(l) = it.next() {
        if let Some(h) = l.strip_prefix("== each ") {
            let mut body = String::new();
            loop {
                let l = it.next().ok_or("each without endeach")?;
                if l.trim() == "== endeach" { break; }
                body.push_str(l); body.push('\n');
            }
            for inst in h.split(';') {
                let mut b = body.clone();
                for kv in inst.split_whitespace() {
                    let (k, v) = kv.split_once('=').ok_or("each: key=value")?;
                    b = b.replace(&format!("%{k}%"), v);
                }
                out.push_str(&b);
            }
        } else { out.push_str(l); out.push('\n'); }
    }
    Ok(out)
}
