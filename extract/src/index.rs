// Index of the functions, types and constants of the repository's sources.
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

pub fn squash<T: ToTokens>(t: &T) -> String {
    squash_str(&t.to_token_stream().to_string())
}
// token text without white space, except between two words
pub fn squash_str(s: &str) -> String {
    let mut out = String::new();
    let mut gap = false;
    for c in s.chars() {
        if c.is_whitespace() {
            gap = true;
            continue;
        }
        let word = |c: char| c.is_alphanumeric() || c == '_';
        if gap && word(c) && out.chars().last().map(word).unwrap_or(false) {
            out.push(' ');
        }
        gap = false;
        out.push(c);
    }
    out
}

#[derive(Clone)]
pub struct FnItem {
    pub file: String,
    pub line: usize,
    pub sig: Signature,
    pub block: Option<Block>,
    pub selfty: Option<String>,
}

#[derive(Default)]
pub struct RepoIndex {
    pub fns: BTreeMap<String, Vec<FnItem>>,
    pub structs: BTreeMap<String, Vec<ItemStruct>>,
    pub enums: BTreeMap<String, Vec<ItemEnum>>,
    pub consts: BTreeMap<String, Vec<ItemConst>>,
}

fn cfged(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test"))
}

fn strip_life(s: &str) -> String {
    // drops lifetimes, so that 'a in impl headers does not matter
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\'' && i + 1 < cs.len() && (cs[i + 1].is_alphabetic() || cs[i + 1] == '_') {
            i += 1;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            while i < cs.len() && cs[i] == ' ' {
                i += 1;
            }
            continue;
        }
        out.push(cs[i]);
        i += 1;
    }
    out.replace("<, ", "<").replace("<,", "<").replace("<>", "")
}

impl RepoIndex {
    fn add_fn(&mut self, key: String, file: &str, sig: &Signature, block: Option<&Block>, selfty: Option<String>) {
        self.fns.entry(key).or_default().push(FnItem {
            file: file.to_string(),
            line: sig.ident.span().start().line,
            sig: sig.clone(),
            block: block.cloned(),
            selfty,
        });
    }
    fn items(&mut self, items: &[Item], file: &str, stem: &str) {
        for it in items {
            match it {
                Item::Fn(f) if !cfged(&f.attrs) => {
                    self.add_fn(format!("{}::{}", stem, f.sig.ident), file, &f.sig, Some(&f.block), None)
                }
                Item::Impl(im) if !cfged(&im.attrs) => {
                    let ty = strip_life(&squash(&im.self_ty));
                    let head = match &im.trait_ {
                        Some((_, p, _)) => format!("{} for {}", strip_life(&squash(p)), ty),
                        None => ty.clone(),
                    };
                    for i in &im.items {
                        if let ImplItem::Const(c) = i {
                            if im.trait_.is_none() && !cfged(&c.attrs) {
                                let item: ItemConst = syn::parse_quote!(const X: usize = 0;);
                                let item = ItemConst { ident: c.ident.clone(), ty: Box::new(c.ty.clone()), expr: Box::new(c.expr.clone()), ..item };
                                self.consts.entry(format!("{}::{}", ty, c.ident)).or_default().push(item);
                            }
                        }
                        if let ImplItem::Fn(f) = i {
                            if !cfged(&f.attrs) {
                                self.add_fn(
                                    format!("{}::{}", head, f.sig.ident),
                                    file,
                                    &f.sig,
                                    Some(&f.block),
                                    Some(ty.clone()),
                                )
                            }
                        }
                    }
                }
                Item::Trait(t) if !cfged(&t.attrs) => {
                    for i in &t.items {
                        if let TraitItem::Fn(f) = i {
                            self.add_fn(
                                format!("trait {}::{}", t.ident, f.sig.ident),
                                file,
                                &f.sig,
                                f.default.as_ref(),
                                None,
                            )
                        }
                    }
                }
                Item::Struct(s) if !cfged(&s.attrs) => self.structs.entry(s.ident.to_string()).or_default().push(s.clone()),
                Item::Enum(s) if !cfged(&s.attrs) => self.enums.entry(s.ident.to_string()).or_default().push(s.clone()),
                Item::Const(s) if !cfged(&s.attrs) => self.consts.entry(s.ident.to_string()).or_default().push(s.clone()),
                Item::Mod(m) if !cfged(&m.attrs) => {
                    if let Some((_, c)) = &m.content {
                        self.items(c, file, &m.ident.to_string())
                    }
                }
                _ => {}
            }
        }
    }
    pub fn load(root: &str) -> std::result::Result<RepoIndex, String> {
        let mut ix = RepoIndex::default();
        let mut todo = vec![std::path::PathBuf::from(root)];
        while let Some(d) = todo.pop() {
            let mut es: Vec<_> = std::fs::read_dir(&d).map_err(|e| e.to_string())?.map(|e| e.unwrap().path()).collect();
            es.sort();
            for p in es {
                let rel = p.strip_prefix(root).unwrap().display().to_string();
                if rel == "mesher" || rel == "file" || rel == "main.rs" {
                    // not built here, see DESIGN.md
                } else if p.is_dir() {
                    todo.push(p);
                } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                    let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
                    let file = syn::parse_file(&text).map_err(|e| format!("{}: {}", p.display(), e))?;
                    let stem = p.file_stem().unwrap().to_string_lossy().to_string();
                    if stem == "tests" {
                        continue;
                    }
                    let stem = if stem == "mod" {
                        p.parent().unwrap().file_name().unwrap().to_string_lossy().to_string()
                    } else {
                        stem
                    };
                    let rel = p.strip_prefix(root).unwrap().display().to_string();
                    ix.items(&file.items, &rel, &stem);
                }
            }
        }
        Ok(ix)
    }
    pub fn func(&self, key: &str) -> std::result::Result<&FnItem, String> {
        match self.fns.get(key).map(|v| v.as_slice()) {
            Some([f]) => Ok(f),
            Some(_) => Err(format!("function {} is defined more than once", key)),
            None => Err(format!("function {} not found", key)),
        }
    }
}
