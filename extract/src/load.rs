use crate::util::*;
use quote::ToTokens;
use std::path::{Path, PathBuf};

/// Read the crate rooted at `repo`/src/lib.rs and inline all modules into one text.
pub fn load_crate(repo: &str) -> Result<String, String> {
    let root = Path::new(repo).join("src/lib.rs");
    let text = std::fs::read_to_string(&root).map_err(|e| format!("{root:?}: {e}"))?;
    inline(&text, &Path::new(repo).join("src"), "lib.rs")
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let t = norm_tokens(&a.meta.to_token_stream().to_string()); t == "cfg(test)" || t == "test" })
}

fn inline(text: &str, dir: &Path, name: &str) -> Result<String, String> {
    let file = syn::parse_file(text).map_err(|e| format!("{name}: {e}"))?;
    let mut ed = Edits::default();
    for a in &file.attrs { ed.delete(full(a)); }
    for it in &file.items { item(it, text, dir, name, &mut ed)?; }
    Ok(ed.apply(text))
}

fn item(it: &syn::Item, text: &str, dir: &Path, name: &str, ed: &mut Edits) -> Result<(), String> {
    if let syn::Item::Mod(m) = it {
        if is_test(&m.attrs) { ed.delete(full(it)); return Ok(()); }
        match &m.content {
            Some((_, items)) => { for i in items { item(i, text, &dir.join(m.ident.to_string()), name, ed)?; } }
            None => {
                let id = m.ident.to_string();
                let mut p: PathBuf = dir.join(format!("{id}.rs"));
                if !p.exists() { p = dir.join(&id).join("mod.rs"); }
                let sub = std::fs::read_to_string(&p).map_err(|e| format!("{p:?}: {e}"))?;
                let sub = inline(&sub, &dir.join(&id), p.to_str().unwrap())?;
                ed.replace(full(it), format!("pub mod {id} {{\n{sub}\n}} // mod {id}\n"));
            }
        }
        return Ok(());
    }
    let attrs: &[syn::Attribute] = match it {
        syn::Item::Fn(i) => &i.attrs, syn::Item::Impl(i) => &i.attrs, syn::Item::Struct(i) => &i.attrs,
        syn::Item::Use(i) => &i.attrs, syn::Item::Const(i) => &i.attrs, syn::Item::Trait(i) => &i.attrs,
        syn::Item::Enum(i) => &i.attrs, syn::Item::Type(i) => &i.attrs, syn::Item::Macro(i) => &i.attrs, _ => &[],
    };
    if is_test(attrs) { ed.delete(full(it)); }
    Ok(())
}
