// Translation of one function body into the text the verifier reads.
use crate::index::*;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

pub type Res<T> = std::result::Result<T, String>;

#[derive(Default, Clone)]
pub struct LoopSpec {
    pub clauses: Vec<String>,
    pub start: Vec<String>,
    pub end: Vec<String>,
    pub before: Vec<String>,
    pub after: Vec<String>,
    pub int: Option<String>,
    pub sum: Option<String>,
    pub used: bool,
}

#[derive(Default, Clone)]
pub struct FnSpec {
    pub key: String,
    pub name: Option<String>,
    pub sig: Option<String>,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub requires: Vec<String>,
    pub ensures: Vec<String>,
    pub decreases: Vec<String>,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub anchors: Vec<(String, String, Vec<String>, bool)>, // kind, prefix, text, used
    pub start: Vec<String>,
    pub end: Vec<String>,
    pub tail: Vec<String>,
    pub diverge: bool,
    pub refusal: Option<String>,
    pub tuple_idx: BTreeSet<String>,
    pub one_idx: BTreeSet<String>,
    pub opts: BTreeSet<String>,
    pub lets: HashMap<String, String>,
}

pub struct Env<'a> {
    pub ix: &'a RepoIndex,
    pub maps: BTreeSet<String>,
    pub veqs: BTreeSet<String>,
    pub seqs: BTreeMap<String, String>, // method -> kind of the element: ref, val, pair
    pub known: BTreeSet<String>,
    pub types: BTreeMap<String, String>,
    pub calls: BTreeMap<String, String>,
    pub methods: BTreeMap<String, String>,
    pub notes: std::cell::RefCell<BTreeSet<String>>,
}

#[derive(Clone, Debug)]
pub enum Elem {
    Val(String),
    Ref(String),
    RefMut(String),
    Tuple(Vec<Elem>),
}

#[derive(Clone)]
pub enum Seq {
    Range(String, Option<String>, bool),
    Slice(String),
    SliceMut(String),
    Vals(String),
    Call(String, String, Vec<String>, String), // receiver, method, arguments, kind
    Entries(String),
    EntriesVal(String),
    Keys(String, usize),
    Zip(Box<Seq>, Box<Seq>),
    Enumerate(Box<Seq>),
    Skip(Box<Seq>, String),
    Take(Box<Seq>, String),
    Rev(Box<Seq>),
    Map(Box<Seq>, Box<Expr>),
    Filter(Box<Seq>, Box<Expr>),
    Cloned(Box<Seq>),
    Chain(Box<Seq>, Box<Seq>),
    Iter(String, Box<P>), // variable holding a partly consumed iterator: position variable, prepared
}

#[derive(Clone)]
pub enum P {
    Range(String, String), // low, int type
    Slice(String),
    SliceMut(String),
    Vals(String),
    Call(String, String, Vec<String>, String),
    Entries(String),
    EntriesVal(String),
    Keys(String, usize),
    Zip(Box<P>, Box<P>),
    Enumerate(Box<P>),
    Skip(Box<P>, String),
    Rev(Box<P>, String),
    Map(Box<P>, Box<Expr>),
    Filter(Box<P>, Box<Expr>),
    Cloned(Box<P>),
    Chain(Box<P>, Box<P>, String),
}

#[derive(Clone)]
enum Bind {
    Plain,
    Slice, // a borrowed list
    Place(String),
    Seq(Seq),
    Closure(ExprClosure),
}

pub struct Tr<'a> {
    pub env: &'a Env<'a>,
    pub spec: FnSpec,
    scopes: Vec<HashMap<String, Bind>>,
    ctx: Vec<String>, // types of the functions being written out in place
    out: Vec<String>,
    loops: usize,
    tmps: usize,
    sorts: usize,
    brk: Vec<String>,
    depth: usize,
    anchors_on: bool,
    in_for: bool,
    pub inlined: BTreeSet<String>,
}

pub fn map_type(ty: &str, env: &Env) -> String {
    let mut s = String::new();
    let mut w = String::new();
    let flush = |w: &mut String, s: &mut String| {
        if !w.is_empty() {
            let r = match w.as_str() {
                "f64" => "R".to_string(),
                x => env.types.get(x).cloned().unwrap_or(x.to_string()),
            };
            s.push_str(&r);
            w.clear();
        }
    };
    for c in ty.chars() {
        if c.is_alphanumeric() || c == '_' {
            w.push(c)
        } else {
            flush(&mut w, &mut s);
            s.push(c)
        }
    }
    flush(&mut w, &mut s);
    s
}

pub fn float_lit(s: &str) -> Res<String> {
    let s = s.replace('_', "").replace("f64", "");
    let (m, e) = match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => (s[..i].to_string(), s[i + 1..].parse::<i32>().map_err(|e| e.to_string())?),
        None => (s.clone(), 0),
    };
    let (a, b) = match m.find('.') {
        Some(i) => (m[..i].to_string(), m[i + 1..].to_string()),
        None => (m.clone(), String::new()),
    };
    let b = b.trim_end_matches('0').to_string();
    let mut num = format!("{}{}", a, b);
    let mut den = String::from("1");
    let sh = e - b.len() as i32;
    if sh >= 0 {
        num.push_str(&"0".repeat(sh as usize));
    } else {
        den.push_str(&"0".repeat((-sh) as usize));
    }
    let num = num.trim_start_matches('0');
    let num = if num.is_empty() { "0" } else { num };
    if num.len() <= 37 && den.len() <= 200 && den.len() > 37 {
        return Ok(format!("rlit_e({}, {})", num, den.len() - 1));
    }
    if num.len() > 37 || den.len() > 37 {
        return Err(format!("literal {} too long", s));
    }
    Ok(format!("rlit({}, {})", num, den))
}

fn is_upper(s: &str) -> bool {
    s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false)
}
const PRIMS: [&str; 12] = ["usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "i128"];

fn strip_ref(s: &str) -> String {
    if let Some(x) = s.strip_prefix('&') {
        x.to_string()
    } else {
        format!("*{}", s)
    }
}
fn simple(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.')
}

impl<'a> Tr<'a> {
    pub fn new(env: &'a Env<'a>, spec: FnSpec) -> Self {
        Tr {
            env,
            spec,
            scopes: vec![HashMap::new()],
            ctx: vec![],
            out: vec![],
            loops: 0,
            tmps: 0,
            sorts: 0,
            brk: vec![],
            depth: 0,
            anchors_on: true,
            in_for: false,
            inlined: BTreeSet::new(),
        }
    }
    fn acc_ty(&self, no: usize, suffix: &str) -> String {
        self.spec.lets.get(&format!("acc{}{}", no, suffix)).map(|t| format!(": {}", t)).unwrap_or_default()
    }
    fn push(&mut self, s: impl Into<String>) {
        self.out.push(s.into());
    }
    fn raw(&mut self, v: &[String]) {
        self.out.extend(v.iter().cloned());
    }
    fn tmp(&mut self, p: &str) -> String {
        let t = format!("{}{}", p, self.tmps);
        self.tmps += 1;
        t
    }
    fn lookup(&self, n: &str) -> Option<&Bind> {
        self.scopes.iter().rev().find_map(|s| s.get(n))
    }
    fn bind(&mut self, n: &str, b: Bind) {
        self.scopes.last_mut().unwrap().insert(n.to_string(), b);
    }
    fn ty(&self, t: &impl ToTokens) -> String {
        map_type(&t.to_token_stream().to_string(), self.env).replace(" :: ", "::").replace("& '", "&'")
    }
    fn note(&self, s: &str) {
        self.env.notes.borrow_mut().insert(s.to_string());
    }
    fn panic_text(&self) -> &'static str {
        if self.spec.diverge {
            "v_diverge"
        } else {
            "v_panic"
        }
    }

    // ---- patterns
    fn bind_pat(&mut self, p: &Pat, e: Elem) -> Res<()> {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                match e {
                    Elem::RefMut(pl) => self.bind(&n, Bind::Place(pl)),
                    e => {
                        self.bind(&n, Bind::Plain);
                        let v = self.elem_val(&e)?;
                        self.push(format!("let {}{} = {};", if i.mutability.is_some() { "mut " } else { "" }, n, v));
                    }
                }
                Ok(())
            }
            Pat::Wild(_) => Ok(()),
            Pat::Paren(p) => self.bind_pat(&p.pat, e),
            Pat::Type(p) => self.bind_pat(&p.pat, e),
            Pat::Reference(r) => match e {
                Elem::Ref(p) | Elem::RefMut(p) => self.bind_pat(&r.pat, Elem::Val(p)),
                // below a borrowed tuple the pattern sees the element itself
                Elem::Val(v) if v.starts_with("& &") => self.bind_pat(&r.pat, Elem::Val(v[3..].to_string())),
                Elem::Val(v) => self.bind_pat(&r.pat, Elem::Val(strip_ref(&v))),
                Elem::Tuple(_) => Err("reference pattern on a tuple".into()),
            },
            Pat::Tuple(t) => {
                let ps: Vec<&Pat> = t.elems.iter().collect();
                match e {
                    Elem::Tuple(es) => {
                        if es.len() != ps.len() {
                            return Err("tuple pattern".into());
                        }
                        // a name bound first may hide one that a later element is read from
                        let mut names: Vec<String> = vec![];
                        let mut ready = vec![];
                        for (p, e) in ps.iter().zip(es) {
                            ready.push(self.unhide(e, &names)?);
                            pat_names(p, &mut names);
                        }
                        for (p, e) in ps.into_iter().zip(ready) {
                            self.bind_pat(p, e)?;
                        }
                    }
                    Elem::Ref(pl) => {
                        for (i, p) in ps.into_iter().enumerate() {
                            self.bind_pat(p, Elem::Ref(format!("{}.{}", pl, i)))?;
                        }
                    }
                    Elem::RefMut(pl) => {
                        for (i, p) in ps.into_iter().enumerate() {
                            self.bind_pat(p, Elem::RefMut(format!("{}.{}", pl, i)))?;
                        }
                    }
                    Elem::Val(v) => {
                        let v = if simple(&v) {
                            v
                        } else {
                            let t = self.tmp("t");
                            self.push(format!("let {} = {};", t, v));
                            t
                        };
                        for (i, p) in ps.into_iter().enumerate() {
                            self.bind_pat(p, Elem::Val(format!("{}.{}", v, i)))?;
                        }
                    }
                }
                Ok(())
            }
            p => {
                let v = self.elem_val(&e)?;
                let t = self.pat(p)?;
                self.push(format!("let {} = {};", t, v));
                Ok(())
            }
        }
    }
    fn unhide(&mut self, e: Elem, names: &[String]) -> Res<Elem> {
        let hit = |t: &str| {
            let mut w = String::new();
            let mut prev = ' ';
            let mut start = ' ';
            for c in t.chars().chain(" ".chars()) {
                if c.is_alphanumeric() || c == '_' {
                    if w.is_empty() {
                        start = prev;
                    }
                    w.push(c);
                } else if !w.is_empty() {
                    if start != '.' && names.contains(&w) {
                        return true;
                    }
                    w.clear();
                }
                prev = c;
            }
            false
        };
        Ok(match e {
            Elem::Val(v) if hit(&v) => Elem::Val(self.hoist("h", v)),
            Elem::Ref(p) if hit(&p) => {
                let h = self.hoist("h", format!("&{}", p));
                Elem::Ref(format!("(*{})", h))
            }
            Elem::RefMut(p) if hit(&p) => return Err("a pattern hides the place it is read from".into()),
            Elem::Tuple(es) => {
                let mut v = vec![];
                for e in es {
                    v.push(self.unhide(e, names)?);
                }
                Elem::Tuple(v)
            }
            e => e,
        })
    }
    fn elem_val(&self, e: &Elem) -> Res<String> {
        Ok(match e {
            Elem::Val(v) => v.clone(),
            Elem::Ref(p) => format!("&{}", p),
            Elem::RefMut(p) => format!("&mut {}", p),
            Elem::Tuple(es) => {
                let v: Res<Vec<String>> = es.iter().map(|e| self.elem_val(e)).collect();
                format!("({})", v?.join(", "))
            }
        })
    }
    // a pattern in match, if let or plain let position
    fn pat(&mut self, p: &Pat) -> Res<String> {
        Ok(match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                self.bind(&n, Bind::Plain);
                if i.by_ref.is_some() {
                    return Err("ref binding".into());
                }
                let sub = match &i.subpat {
                    Some((_, p)) => format!(" @ {}", self.pat(p)?),
                    None => String::new(),
                };
                format!("{}{}{}", if i.mutability.is_some() { "mut " } else { "" }, n, sub)
            }
            Pat::Wild(_) => "_".into(),
            Pat::Rest(_) => "..".into(),
            Pat::Paren(p) => self.pat(&p.pat)?,
            Pat::Type(p) => format!("{}: {}", self.pat(&p.pat)?, self.ty(&p.ty)),
            Pat::Tuple(t) => {
                let v: Res<Vec<String>> = t.elems.iter().map(|p| self.pat(p)).collect();
                format!("({})", v?.join(", "))
            }
            Pat::TupleStruct(t) => {
                let v: Res<Vec<String>> = t.elems.iter().map(|p| self.pat(p)).collect();
                format!("{}({})", self.path(&t.path), v?.join(", "))
            }
            Pat::Path(p) => self.path(&p.path),
            Pat::Lit(l) => self.lit(&l.lit)?,
            Pat::Or(o) => {
                let v: Res<Vec<String>> = o.cases.iter().map(|p| self.pat(p)).collect();
                v?.join(" | ")
            }
            Pat::Struct(s) => {
                let mut fs = vec![];
                for f in &s.fields {
                    let m = squash(&f.member);
                    if f.colon_token.is_some() {
                        fs.push(format!("{}: {}", m, self.pat(&f.pat)?));
                    } else {
                        fs.push(self.pat(&f.pat)?);
                    }
                }
                if s.rest.is_some() {
                    fs.push("..".into());
                }
                format!("{} {{ {} }}", self.path(&s.path), fs.join(", "))
            }
            Pat::Range(r) => squash(r),
            Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none()) => {
                let h = self.tmp("h");
                let n = squash(&r.pat);
                self.bind(&n, Bind::Place(format!("(*{})", h)));
                h
            }
            p => return Err(format!("pattern {}", squash(p))),
        })
    }

    fn lit(&self, l: &Lit) -> Res<String> {
        match l {
            Lit::Float(f) => float_lit(&f.to_string()),
            l => Ok(squash(l)),
        }
    }

    fn path(&self, p: &Path) -> String {
        let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let joined = full.join("::");
        for (k, v) in &self.env.calls {
            if joined == *k || joined.ends_with(&format!("::{}", k)) {
                return v.clone();
            }
        }
        let n = full.len();
        let mut keep = n - 1;
        if n >= 2 && (is_upper(&full[n - 2]) || PRIMS.contains(&full[n - 2].as_str())) {
            keep = n - 2;
        }
        let segs: Vec<String> = p
            .segments
            .iter()
            .skip(keep)
            .map(|s| {
                let a = match &s.arguments {
                    PathArguments::None => String::new(),
                    a => {
                        let t = self.ty(a);
                        if t.starts_with("::") || keep == n {
                            t
                        } else {
                            format!("::{}", t)
                        }
                    }
                };
                let id = s.ident.to_string();
                let id = if id == "f64" { "R".into() } else { self.env.types.get(&id).cloned().unwrap_or(id) };
                format!("{}{}", id, a)
            })
            .collect();
        segs.join("::")
    }

    // ---- sequences
    fn map_name(&self, n: &str) -> bool {
        let at = self.ctx.last().unwrap_or(&self.spec.key);
        self.env.maps.iter().any(|m| match m.split_once('.') {
            Some((t, f)) => f == n && at.contains(t),
            None => m == n,
        })
    }
    fn is_map(&self, e: &Expr) -> bool {
        match e {
            Expr::Field(f) => match &f.member {
                Member::Named(i) => self.map_name(&i.to_string()),
                _ => false,
            },
            Expr::Path(p) => p.path.get_ident().map(|i| self.map_name(&i.to_string())).unwrap_or(false),
            Expr::Paren(p) => self.is_map(&p.expr),
            Expr::Reference(r) => self.is_map(&r.expr),
            _ => false,
        }
    }
    fn is_seq(&self, e: &Expr) -> bool {
        match e {
            Expr::Range(r) => !float_range(r),
            Expr::Paren(p) => self.is_seq(&p.expr),
            Expr::Path(p) => match p.path.get_ident() {
                Some(i) => matches!(self.lookup(&i.to_string()), Some(Bind::Seq(_))),
                None => false,
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" | "into_iter" | "drain" => true,
                    "keys" | "values" | "into_keys" | "into_values" => self.is_map(&m.receiver),
                    "by_ref" | "enumerate" | "zip" | "map" | "filter" | "take" | "skip" | "rev" | "cloned" | "copied" | "chain" => {
                        self.is_seq(&m.receiver)
                    }
                    n => self.env.seqs.contains_key(n) || self.iter_fn(e).is_some(),
                }
            }
            Expr::Reference(r) => self.is_seq(&r.expr),
            _ => false,
        }
    }
    // a repository function returning an iterator, to be written out in place
    fn iter_fn(&self, e: &Expr) -> Option<FnItem> {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let mut found = None;
            for (k, v) in &self.env.ix.fns {
                if k.ends_with(&format!("::{}", n)) && !k.starts_with("Iterator for") {
                    for f in v {
                        if let ReturnType::Type(_, t) = &f.sig.output {
                            if squash(&**t).starts_with("impl Iterator<") && f.block.is_some() {
                                if found.is_some() {
                                    return None;
                                }
                                found = Some(f.clone());
                            }
                        }
                    }
                }
            }
            return found;
        }
        None
    }
    // expression used where something iterable is expected
    fn into_seq(&mut self, e: &Expr) -> Res<Seq> {
        if self.is_seq(e) {
            return self.seq(e);
        }
        match e {
            Expr::Paren(p) => self.into_seq(&p.expr),
            Expr::Reference(r) => {
                if self.is_map(&r.expr) {
                    let p = self.expr(&r.expr)?;
                    return Ok(Seq::Entries(p));
                }
                let p = self.place(&r.expr)?;
                Ok(if r.mutability.is_some() { Seq::SliceMut(p) } else { Seq::Slice(p) })
            }
            e => {
                if self.is_map(e) {
                    let p = self.expr(e)?;
                    return Ok(Seq::EntriesVal(p));
                }
                if let Expr::Path(p) = e {
                    if matches!(p.path.get_ident().and_then(|i| self.lookup(&i.to_string())), Some(Bind::Slice)) {
                        return Ok(Seq::Slice(self.place(e)?));
                    }
                }
                // an element of a list of borrowed lists
                if let Expr::Index(ix) = e {
                    if !matches!(*ix.index, Expr::Range(_)) {
                        let n = squash(&*ix.expr);
                        if self.spec.lets.get(&n).map(|t| t.starts_with("Vec<&[")).unwrap_or(false) {
                            return Ok(Seq::Slice(self.place(e)?));
                        }
                    }
                }
                Ok(Seq::Vals(self.place(e)?))
            }
        }
    }
    fn place(&mut self, e: &Expr) -> Res<String> {
        let t = self.expr(e)?;
        match e {
            Expr::Path(_) | Expr::Field(_) => Ok(t),
            Expr::Index(ix) if !matches!(*ix.index, Expr::Range(_)) && !t.starts_with("(*") => Ok(t),
            Expr::Paren(p) => self.place(&p.expr),
            _ => {
                let n = self.tmp("s");
                self.push(format!("let {} = {};", n, t));
                Ok(n)
            }
        }
    }
    fn seq(&mut self, e: &Expr) -> Res<Seq> {
        match e {
            Expr::Paren(p) => self.seq(&p.expr),
            Expr::Reference(r) => self.seq(&r.expr),
            Expr::Range(r) => {
                let lo = match &r.start {
                    Some(s) => self.expr(s)?,
                    None => return Err("range without start".into()),
                };
                let hi = match &r.end {
                    Some(s) => Some(self.expr(s)?),
                    None => None,
                };
                Ok(Seq::Range(lo, hi, matches!(r.limits, RangeLimits::Closed(_))))
            }
            Expr::Path(p) => match p.path.get_ident().and_then(|i| self.lookup(&i.to_string())) {
                Some(Bind::Seq(s)) => Ok(s.clone()),
                _ => Err("not a sequence".into()),
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let arg = |i: usize| -> Res<&Expr> { m.args.iter().nth(i).ok_or("missing argument".to_string()) };
                match n.as_str() {
                    "by_ref" => match self.seq(&m.receiver)? {
                        Seq::Iter(_, _) => Err("by_ref of a partly consumed iterator".into()),
                        s => Ok(s),
                    },
                    "iter" => {
                        if self.is_map(&m.receiver) {
                            return Ok(Seq::Entries(self.expr(&m.receiver)?));
                        }
                        Ok(Seq::Slice(self.place(&m.receiver)?))
                    }
                    "iter_mut" => Ok(Seq::SliceMut(self.place(&m.receiver)?)),
                    "into_iter" => {
                        if self.is_seq(&m.receiver) {
                            self.seq(&m.receiver)
                        } else if self.is_map(&m.receiver) {
                            Ok(Seq::EntriesVal(self.expr(&m.receiver)?))
                        } else {
                            Ok(Seq::Vals(self.place(&m.receiver)?))
                        }
                    }
                    "keys" | "values" if self.is_map(&m.receiver) => Ok(Seq::Keys(self.expr(&m.receiver)?, (n == "values") as usize)),
                    "into_keys" | "into_values" if self.is_map(&m.receiver) => {
                        let s = Seq::Keys(self.expr(&m.receiver)?, (n == "into_values") as usize);
                        Ok(Seq::Cloned(Box::new(s)))
                    }
                    "drain" if self.is_map(&m.receiver) => {
                        let r = self.expr(&m.receiver)?;
                        Ok(Seq::Vals(self.hoist("es", format!("{}.v_drain()", r))))
                    }
                    "enumerate" => Ok(Seq::Enumerate(Box::new(self.seq(&m.receiver)?))),
                    "zip" => {
                        let a = self.seq(&m.receiver)?;
                        let b = self.into_seq(arg(0)?)?;
                        Ok(Seq::Zip(Box::new(a), Box::new(b)))
                    }
                    "chain" => {
                        let a = self.seq(&m.receiver)?;
                        let b = self.into_seq(arg(0)?)?;
                        Ok(Seq::Chain(Box::new(a), Box::new(b)))
                    }
                    "map" => Ok(Seq::Map(Box::new(self.seq(&m.receiver)?), Box::new(arg(0)?.clone()))),
                    "filter" => Ok(Seq::Filter(Box::new(self.seq(&m.receiver)?), Box::new(arg(0)?.clone()))),
                    "take" => {
                        let a = self.seq(&m.receiver)?;
                        let n = self.expr(arg(0)?)?;
                        Ok(Seq::Take(Box::new(a), n))
                    }
                    "skip" => {
                        let a = self.seq(&m.receiver)?;
                        let n = self.expr(arg(0)?)?;
                        Ok(Seq::Skip(Box::new(a), n))
                    }
                    "rev" => Ok(Seq::Rev(Box::new(self.seq(&m.receiver)?))),
                    "cloned" | "copied" => Ok(Seq::Cloned(Box::new(self.seq(&m.receiver)?))),
                    n => {
                        if let Some(kind) = self.env.seqs.get(n).cloned() {
                            let r = self.place(&m.receiver)?;
                            let mut a = vec![];
                            for x in &m.args {
                                let t = self.expr(x)?;
                                let v = self.tmp("a");
                                self.push(format!("let {} = {};", v, t));
                                a.push(v);
                            }
                            if kind == "list" {
                                let s = self.hoist("s", format!("{}.{}({})", r, n, a.join(", ")));
                                return Ok(Seq::Vals(s));
                            }
                            return Ok(Seq::Call(r, n.to_string(), a, kind));
                        }
                        if let Some(f) = self.iter_fn(e) {
                            return self.inline_iter(m, f);
                        }
                        Err(format!("sequence {}", squash(e)))
                    }
                }
            }
            e => Err(format!("sequence {}", squash(e))),
        }
    }
    fn inline_iter(&mut self, m: &ExprMethodCall, f: FnItem) -> Res<Seq> {
        self.inlined.insert(f.sig.ident.to_string());
        let recv = self.place(&m.receiver)?;
        let mut names = vec![("self".to_string(), Bind::Place(recv))];
        for (p, a) in f.sig.inputs.iter().skip(1).zip(&m.args) {
            if let FnArg::Typed(t) = p {
                if let Pat::Ident(i) = &*t.pat {
                    let v = self.tmp("a");
                    let x = self.expr(a)?;
                    self.push(format!("let {} = {};", v, x));
                    names.push((i.ident.to_string(), Bind::Place(v)));
                    continue;
                }
            }
            return Err("iterator function parameters".into());
        }
        // the scope stays open: closures of the sequence refer to it
        for (n, b) in names {
            self.bind(&n, b);
        }
        self.ctx.push(f.selfty.clone().unwrap_or_default());
        let b = f.block.unwrap();
        let k = b.stmts.len();
        for s in &b.stmts[..k - 1] {
            self.stmt(s)?;
        }
        let r = match &b.stmts[k - 1] {
            Stmt::Expr(e, None) => self.seq(e),
            _ => Err("iterator function without a tail".into()),
        };
        self.ctx.pop();
        r
    }

    fn hoist(&mut self, p: &str, v: String) -> String {
        let t = self.tmp(p);
        self.push(format!("let {} = {};", t, v));
        t
    }
    // prepared sequence and its length (None if endless)
    fn prep(&mut self, s: Seq, int: &str) -> Res<(P, Option<String>)> {
        Ok(match s {
            Seq::Range(lo, hi, incl) => {
                let cast = |t: String| if int == "usize" { t } else { format!("({}) as usize", t) };
                match hi {
                    None => (P::Range(lo, int.into()), None),
                    Some(hi) if lo == "0" && !incl && int == "usize" => {
                        let n = self.hoist("n", hi);
                        (P::Range("0".into(), int.into()), Some(n))
                    }
                    Some(hi) => {
                        let lo = self.hoist("lo", lo);
                        let hi = self.hoist("hi", hi);
                        let n = if incl {
                            format!("if {lo} <= {hi} {{ {} + 1 }} else {{ 0 }}", cast(format!("{hi} - {lo}")))
                        } else {
                            format!("if {lo} < {hi} {{ {} }} else {{ 0 }}", cast(format!("{hi} - {lo}")))
                        };
                        let n = self.hoist("n", n);
                        (P::Range(lo, int.into()), Some(n))
                    }
                }
            }
            Seq::Slice(p) => {
                let n = self.hoist("n", format!("{}.len()", p));
                (P::Slice(p), Some(n))
            }
            Seq::SliceMut(p) => {
                let n = self.hoist("n", format!("{}.len()", p));
                (P::SliceMut(p), Some(n))
            }
            Seq::Vals(p) => {
                let n = self.hoist("n", format!("{}.len()", p));
                (P::Vals(p), Some(n))
            }
            Seq::Call(r, m, a, k) => {
                let n = self.hoist("n", format!("{}.{}_len({})", r, m, a.join(", ")));
                (P::Call(r, m, a, k), Some(n))
            }
            Seq::Entries(p) => {
                let e = self.hoist("es", format!("{}.v_entries()", p));
                let n = self.hoist("n", format!("{}.len()", e));
                (P::Entries(e), Some(n))
            }
            Seq::Keys(p, i) => {
                let e = self.hoist("es", format!("{}.v_entries()", p));
                let n = self.hoist("n", format!("{}.len()", e));
                (P::Keys(e, i), Some(n))
            }
            Seq::EntriesVal(p) => {
                let e = self.hoist("es", format!("{}.v_entries()", p));
                let n = self.hoist("n", format!("{}.len()", e));
                (P::EntriesVal(e), Some(n))
            }
            Seq::Zip(a, b) => {
                let (pa, la) = self.prep(*a, int)?;
                let (pb, lb) = self.prep(*b, int)?;
                let n = match (la, lb) {
                    (None, x) | (x, None) => x,
                    (Some(x), Some(y)) => Some(self.hoist("n", format!("if {x} < {y} {{ {x} }} else {{ {y} }}"))),
                };
                (P::Zip(Box::new(pa), Box::new(pb)), n)
            }
            Seq::Chain(a, b) => {
                let (pa, la) = self.prep(*a, int)?;
                let (pb, lb) = self.prep(*b, int)?;
                let la = la.ok_or("endless chain")?;
                let n = match lb {
                    None => None,
                    Some(y) => Some(self.hoist("n", format!("{la} + {y}"))),
                };
                (P::Chain(Box::new(pa), Box::new(pb), la), n)
            }
            Seq::Enumerate(a) => {
                let (p, n) = self.prep(*a, int)?;
                (P::Enumerate(Box::new(p)), n)
            }
            Seq::Cloned(a) => {
                let (p, n) = self.prep(*a, int)?;
                (P::Cloned(Box::new(p)), n)
            }
            Seq::Map(a, f) => {
                let (p, n) = self.prep(*a, int)?;
                (P::Map(Box::new(p), f), n)
            }
            Seq::Filter(a, f) => {
                let (p, n) = self.prep(*a, int)?;
                (P::Filter(Box::new(p), f), n)
            }
            Seq::Skip(a, k) => {
                let (p, n) = self.prep(*a, int)?;
                let k = self.hoist("sk", k);
                let n = n.map(|n| self.hoist("n", format!("if {k} < {n} {{ {n} - {k} }} else {{ 0 }}")));
                (P::Skip(Box::new(p), k), n)
            }
            Seq::Take(a, k) => {
                let (p, n) = self.prep(*a, int)?;
                let k = self.hoist("tk", k);
                let n = match n {
                    Some(n) => self.hoist("n", format!("if {k} < {n} {{ {k} }} else {{ {n} }}")),
                    None => k,
                };
                (p, Some(n))
            }
            Seq::Rev(a) => {
                let (p, n) = self.prep(*a, int)?;
                let n = n.ok_or("rev of an endless sequence")?;
                (P::Rev(Box::new(p), n.clone()), Some(n))
            }
            Seq::Iter(s, p) => {
                // what is left of it; the variable is used up
                let (pos, end) = s.split_once(' ').unwrap();
                if Self::has_filter(&p) {
                    return Err("partly consumed filter".into());
                }
                let n = if end == "-" { None } else { Some(self.hoist("n", format!("if {pos} < {end} {{ {end} - {pos} }} else {{ 0 }}"))) };
                let k = self.hoist("sk", pos.to_string());
                (P::Skip(p, k), n)
            }
        })
    }
    fn has_filter(p: &P) -> bool {
        match p {
            P::Filter(_, _) => true,
            P::Zip(a, b) | P::Chain(a, b, _) => Self::has_filter(a) || Self::has_filter(b),
            P::Enumerate(a) | P::Skip(a, _) | P::Rev(a, _) | P::Map(a, _) | P::Cloned(a) => Self::has_filter(a),
            _ => false,
        }
    }
    fn gen(&mut self, p: &P, i: &str, cont: &mut dyn FnMut(&mut Self, Elem) -> Res<()>) -> Res<()> {
        match p {
            P::Range(lo, int) => {
                let ix = if int == "usize" { i.to_string() } else { format!("({} as {})", i, int) };
                let v = if lo == "0" {
                    ix
                } else if i == "0" {
                    lo.clone()
                } else {
                    format!("({} + {})", lo, ix)
                };
                cont(self, Elem::Val(v))
            }
            P::Slice(s) => cont(self, Elem::Ref(format!("{}[{}]", s, i))),
            P::SliceMut(s) => cont(self, Elem::RefMut(format!("{}[{}]", s, i))),
            P::Vals(s) if self.spec.opts.contains("clone-vals") => {
                let t = self.hoist("e", format!("{}[{}].v_clone()", s, i));
                cont(self, Elem::Val(t))
            }
            P::Vals(s) => cont(self, Elem::Val(format!("{}[{}]", s, i))),
            P::Entries(s) => cont(
                self,
                Elem::Tuple(vec![Elem::Ref(format!("{}[{}].0", s, i)), Elem::Ref(format!("{}[{}].1", s, i))]),
            ),
            P::Keys(s, f) => cont(self, Elem::Ref(format!("{}[{}].{}", s, i, f))),
            P::EntriesVal(s) => cont(
                self,
                Elem::Tuple(vec![Elem::Val(format!("{}[{}].0", s, i)), Elem::Val(format!("{}[{}].1", s, i))]),
            ),
            P::Call(r, m, a, kind) => {
                let mut args = a.clone();
                args.push(i.to_string());
                let c = format!("{}.{}_nth({})", r, m, args.join(", "));
                match kind.as_str() {
                    "pair" => {
                        let t = self.hoist("e", c);
                        cont(self, Elem::Tuple(vec![Elem::Val(format!("{}.0", t)), Elem::Val(format!("{}.1", t))]))
                    }
                    "ref" => {
                        let t = self.hoist("e", c);
                        cont(self, Elem::Ref(format!("(*{})", t)))
                    }
                    _ => {
                        let t = self.hoist("e", c);
                        cont(self, Elem::Val(t))
                    }
                }
            }
            P::Zip(a, b) => {
                if Self::has_filter(p) {
                    return Err("zip after filter".into());
                }
                let b = b.clone();
                let i2 = i.to_string();
                self.gen(a, i, &mut |s, ea| {
                    let ea = ea.clone();
                    s.gen(&b, &i2, &mut |s, eb| cont(s, Elem::Tuple(vec![ea.clone(), eb])))
                })
            }
            P::Chain(a, b, la) => {
                if Self::has_filter(p) {
                    return Err("chain after filter".into());
                }
                // both branches must give plain values
                let mut va = None;
                let before = std::mem::take(&mut self.out);
                self.gen(a, i, &mut |s, e| {
                    let e = s.elem_val(&e)?;
                    va = Some(e);
                    Ok(())
                })?;
                let oa = std::mem::take(&mut self.out);
                let mut vb = None;
                let j = format!("({} - {})", i, la);
                self.gen(b, &j, &mut |s, e| {
                    let e = s.elem_val(&e)?;
                    vb = Some(e);
                    Ok(())
                })?;
                let ob = std::mem::take(&mut self.out);
                self.out = before;
                let t = self.hoist(
                    "c",
                    format!(
                        "if {} < {} {{ {} {} }} else {{ {} {} }}",
                        i,
                        la,
                        oa.join(" "),
                        va.unwrap(),
                        ob.join(" "),
                        vb.unwrap()
                    ),
                );
                cont(self, Elem::Val(t))
            }
            P::Enumerate(a) => {
                if Self::has_filter(a) {
                    return Err("enumerate after filter".into());
                }
                let i2 = i.to_string();
                self.gen(a, i, &mut |s, e| cont(s, Elem::Tuple(vec![Elem::Val(i2.clone()), e])))
            }
            P::Cloned(a) => self.gen(a, i, &mut |s, e| {
                let e = match e {
                    Elem::Ref(p) => Elem::Val(p),
                    Elem::Val(v) => Elem::Val(strip_ref(&v)),
                    e => e,
                };
                cont(s, e)
            }),
            P::Skip(a, k) => {
                if Self::has_filter(a) {
                    return Err("skip after filter".into());
                }
                self.gen(a, &format!("({} + {})", k, i), cont)
            }
            P::Rev(a, n) => {
                if Self::has_filter(a) {
                    return Err("rev after filter".into());
                }
                self.gen(a, &format!("({} - 1 - {})", n, i), cont)
            }
            P::Map(a, f) => {
                let f = f.clone();
                self.gen(a, i, &mut |s, e| {
                    let v = s.apply(&f, vec![e], true)?;
                    cont(s, v)
                })
            }
            P::Filter(a, f) => {
                let f = f.clone();
                self.gen(a, i, &mut |s, e| {
                    // the closure sees a reference to the element
                    let e = s.fix(e)?;
                    let e = s.unshadow(e, &f);
                    s.scopes.push(HashMap::new());
                    let r = match &e {
                        Elem::Val(v) => Elem::Ref(v.clone()),
                        Elem::Ref(p) => Elem::Val(format!("&&{}", p)),
                        Elem::Tuple(es) => Elem::Tuple(
                            es.iter()
                                .map(|x| match x {
                                    Elem::Val(v) => Elem::Ref(v.clone()),
                                    Elem::Ref(p) => Elem::Val(format!("& &{}", p)),
                                    x => x.clone(),
                                })
                                .collect(),
                        ),
                        e => e.clone(),
                    };
                    let c = s.apply(&f, vec![r], false)?;
                    let c = s.elem_val(&c)?;
                    s.push(format!("if {} {{", c));
                    cont(s, e)?;
                    s.push("}");
                    s.scopes.pop();
                    Ok(())
                })
            }
        }
    }
    // gives computed values a name
    fn fix(&mut self, e: Elem) -> Res<Elem> {
        Ok(match e {
            Elem::Val(v) if !simple(&v) => Elem::Val(self.hoist("m", v)),
            Elem::Tuple(es) => {
                let v: Res<Vec<Elem>> = es.into_iter().map(|e| self.fix(e)).collect();
                Elem::Tuple(v?)
            }
            e => e,
        })
    }
    // gives variables the closure's parameters would hide another name
    fn unshadow(&mut self, e: Elem, f: &Expr) -> Elem {
        let mut names: Vec<String> = vec![];
        if let Expr::Closure(c) = f {
            struct N(Vec<String>);
            impl<'ast> syn::visit::Visit<'ast> for N {
                fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                    self.0.push(p.ident.to_string());
                }
            }
            let mut n = N(vec![]);
            for p in &c.inputs {
                syn::visit::Visit::visit_pat(&mut n, p);
            }
            names = n.0;
        }
        match e {
            Elem::Val(v) if names.contains(&v) => Elem::Val(self.hoist("m", v)),
            Elem::Tuple(es) => Elem::Tuple(es.into_iter().map(|e| self.unshadow(e, f)).collect()),
            e => e,
        }
    }
    // application of a closure or function path; leaves bindings in the current scope
    fn apply(&mut self, f: &Expr, args: Vec<Elem>, name: bool) -> Res<Elem> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != args.len() {
                    return Err("closure arity".into());
                }
                for (p, a) in c.inputs.iter().zip(args) {
                    self.bind_pat(p, a)?;
                }
                let e = self.closure_body(&c.body)?;
                if name {
                    self.fix(e)
                } else {
                    Ok(e)
                }
            }
            Expr::Paren(p) => self.apply(&p.expr, args, name),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(Bind::Closure(c)) = self.lookup(&i.to_string()) {
                        let c = Expr::Closure(c.clone());
                        return self.apply(&c, args, name);
                    }
                }
                let full = squash(&p.path);
                let mut v = vec![];
                for a in &args {
                    v.push(self.elem_val(a)?);
                }
                if full == "Into::into" || full == "From::from" {
                    return Ok(Elem::Val(format!("{}.v_into()", v[0])));
                }
                Ok(Elem::Val(format!("{}({})", self.path(&p.path), v.join(", "))))
            }
            f => Err(format!("function value {}", squash(f))),
        }
    }
    fn closure_body(&mut self, b: &Expr) -> Res<Elem> {
        match b {
            Expr::Tuple(t) => {
                let v: Res<Vec<Elem>> = t.elems.iter().map(|x| Ok(Elem::Val(self.expr(x)?))).collect();
                Ok(Elem::Tuple(v?))
            }
            Expr::Block(b) => {
                let n = b.block.stmts.len();
                for s in &b.block.stmts[..n.saturating_sub(1)] {
                    self.stmt(s)?;
                }
                match b.block.stmts.last() {
                    Some(Stmt::Expr(e, None)) => self.closure_body(e),
                    Some(s) => {
                        self.stmt(s)?;
                        Ok(Elem::Val("()".into()))
                    }
                    None => Ok(Elem::Val("()".into())),
                }
            }
            Expr::Paren(p) => self.closure_body(&p.expr),
            e => Ok(Elem::Val(self.expr(e)?)),
        }
    }

    // ---- loops
    // emits a counting loop over the sequence; body gets the element
    fn each(
        &mut self,
        s: Seq,
        label: &str,
        init: &mut dyn FnMut(&mut Self, usize) -> Res<Option<String>>,
        body: &mut dyn FnMut(&mut Self, Elem, usize) -> Res<()>,
    ) -> Res<usize> {
        let in_for = std::mem::take(&mut self.in_for);
        let no = self.loops;
        self.loops += 1;
        let mut spec = self.spec.loops.get(&no).cloned().unwrap_or_default();
        spec.clauses.retain(|l| l.trim() != "invariant");
        if let Some(l) = self.spec.loops.get_mut(&no) {
            l.used = true;
        }
        let int = spec.int.clone().unwrap_or("usize".into());
        let (p, n) = self.prep(s, &int)?;
        let extra = init(self, no)?;
        let k = format!("k{}", no);
        let len = match &n {
            Some(n) => {
                let l = format!("len{}", no);
                self.push(format!("let {} = {};", l, n));
                Some(l)
            }
            None => None,
        };
        self.push(format!("let mut {}: usize = 0;", k));
        self.refusal();
        self.raw(&spec.before);
        let cond = match (&len, &extra) {
            (Some(n), None) => format!("{} < {}", k, n),
            (Some(n), Some(x)) => format!("{} < {} && {}", k, n, x),
            (None, _) => "true".to_string(),
        };
        if len.is_some() {
            self.push(format!("{}while {}", label, cond));
            let (first, rest): (Vec<_>, Vec<_>) = spec.clauses.drain(..).partition(|l| l.trim_start().starts_with("invariant_except_break "));
            self.raw(&first);
            spec.clauses = rest;
            self.push(format!("invariant {} <= {},", k, len.clone().unwrap()));
        } else {
            self.push(format!("{}loop", label));
            if spec.clauses.iter().any(|l| !l.trim().is_empty()) {
                self.push("invariant true,");
            }
        }
        self.raw(&spec.clauses);
        if !spec.clauses.iter().any(|l| l.trim_start().starts_with("decreases")) {
            match &len {
                Some(n) => self.push(format!("decreases {} - {}", n, k)),
                None => return Err("endless loop without a measure".into()),
            }
        }
        self.push("{");
        self.scopes.push(HashMap::new());
        let i = format!("i{}", no);
        self.push(format!("let {} = {};", i, k));
        self.push(format!("{} = {} + 1;", k, k));
        if !in_for {
            self.raw(&spec.start);
        }
        self.gen(&p, &i, &mut |s, e| body(s, e, no))?;
        self.scopes.pop();
        self.raw(&spec.end);
        self.push("}");
        self.raw(&spec.after);
        Ok(no)
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Res<()> {
        let label = f.label.as_ref().map(|l| format!("{}: ", squash(&l.name))).unwrap_or_default();
        let s = self.into_seq(&f.expr)?;
        let pat = (*f.pat).clone();
        let block = f.body.clone();
        self.in_for = true;
        self.each(
            s,
            &label,
            &mut |_, _| Ok(None),
            &mut |t, e, no| {
                t.bind_pat(&pat, e)?;
                if let Some(l) = t.spec.loops.get(&no).cloned() {
                    t.raw(&l.start);
                }
                t.stmts(&block.stmts, false)
            },
        )?;
        Ok(())
    }

    fn loop_header(&mut self, head: String, spec: &LoopSpec) -> Res<()> {
        self.push(head);
        if !spec.clauses.is_empty() {
            if !spec.clauses.iter().any(|l| {
                let l = l.trim_start();
                l.starts_with("invariant") || l.starts_with("ensures")
            }) && !spec.clauses[0].trim_start().starts_with("decreases")
            {
                self.push("invariant");
            }
            self.raw(&spec.clauses);
        }
        if !spec.clauses.iter().any(|l| l.trim_start().starts_with("decreases")) {
            return Err("loop without a measure".into());
        }
        Ok(())
    }
    fn next_loop(&mut self) -> (usize, LoopSpec) {
        let no = self.loops;
        self.loops += 1;
        let spec = self.spec.loops.get(&no).cloned().unwrap_or_default();
        if let Some(l) = self.spec.loops.get_mut(&no) {
            l.used = true;
        }
        (no, spec)
    }
    fn while_loop(&mut self, w: &ExprWhile) -> Res<()> {
        let label = w.label.as_ref().map(|l| format!("{}: ", squash(&l.name))).unwrap_or_default();
        let (_, spec) = self.next_loop();
        self.refusal();
        self.raw(&spec.before);
        // evaluate the condition in a scratch block to see whether it needs statements
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(HashMap::new());
        if let Expr::Let(l) = &*w.cond {
            let e = self.scrutinee(&l.expr)?;
            let hoisted = std::mem::replace(&mut self.out, saved);
            self.loop_header(format!("{}loop", label), &spec)?;
            self.push("{");
            self.out.extend(hoisted);
            let p = self.pat(&l.pat)?;
            self.push(format!("if let {} = {} {{", p, e));
            self.raw(&spec.start);
            self.stmts(&w.body.stmts, false)?;
            self.raw(&spec.end);
            self.push("} else {");
            self.push("break;");
            self.push("}");
            self.push("}");
        } else {
            let c = self.expr(&w.cond)?;
            let hoisted = std::mem::replace(&mut self.out, saved);
            if hoisted.is_empty() {
                self.loop_header(format!("{}while {}", label, c), &spec)?;
                self.push("{");
            } else {
                self.loop_header(format!("{}loop", label), &spec)?;
                self.push("{");
                self.out.extend(hoisted);
                self.push(format!("if !({}) {{ break; }}", c));
            }
            self.raw(&spec.start);
            self.stmts(&w.body.stmts, false)?;
            self.raw(&spec.end);
            self.push("}");
        }
        self.scopes.pop();
        self.raw(&spec.after);
        Ok(())
    }
    fn plain_loop(&mut self, l: &ExprLoop) -> Res<()> {
        let label = l.label.as_ref().map(|l| format!("{}: ", squash(&l.name))).unwrap_or_default();
        let no = self.loops;
        let (_, spec) = self.next_loop();
        self.refusal();
        let valued = breaks_with_value(&l.body.stmts);
        if valued {
            let t = self.spec.lets.get(&format!("brk{}", no)).map(|t| format!(": {}", t)).unwrap_or_default();
            self.push(format!("let brk{}{};", no, t));
        }
        self.raw(&spec.before);
        self.loop_header(format!("{}loop", label), &spec)?;
        self.brk.push(format!("brk{}", no));
        self.push("{");
        self.scopes.push(HashMap::new());
        self.raw(&spec.start);
        self.stmts(&l.body.stmts, false)?;
        self.raw(&spec.end);
        self.scopes.pop();
        self.brk.pop();
        self.push("}");
        self.raw(&spec.after);
        Ok(())
    }

    // ends of iterator chains
    fn terminal(&mut self, m: &ExprMethodCall) -> Res<Option<String>> {
        let name = m.method.to_string();
        let is_term = matches!(
            name.as_str(),
            "sum" | "product" | "count" | "collect" | "any" | "all" | "for_each" | "min_by" | "max_by" | "position" | "fold"
                | "find" | "max" | "min" | "next" | "next_back" | "last" | "unzip"
        );
        if !is_term || !self.is_seq(&m.receiver) {
            return Ok(None);
        }
        if name == "next" || name == "next_back" {
            return self.next_call(m, name == "next_back").map(Some);
        }
        let s = self.seq(&m.receiver)?;
        let turbo = m.turbofish.as_ref().map(|t| self.ty(&t.args)).unwrap_or_default();
        let lspec = self.spec.loops.get(&self.loops).cloned().unwrap_or_default();
        let ty = if !turbo.is_empty() { turbo } else { lspec.sum.clone().unwrap_or("R".into()) };
        let res = |no: usize| format!("acc{}", no);
        let arg = m.args.first().cloned();
        let zero = |v: &str| {
            if ty == "R" {
                format!("rlit({}, 1)", v)
            } else {
                v.to_string()
            }
        };
        let vty = ty.clone();
        let no = match name.as_str() {
            "sum" | "product" => {
                let (z, op) = if name == "sum" { (zero("0"), "+") } else { (zero("1"), "*") };
                self.each(
                    s,
                    "",
                    &mut |t, no| {
                        t.push(format!("let mut acc{}: {} = {};", no, vty, z));
                        Ok(None)
                    },
                    &mut |t, e, no| {
                        let v = match e {
                            Elem::Ref(p) => p,
                            e => t.elem_val(&e)?,
                        };
                        t.push(format!("acc{no} = acc{no} {op} ({v});"));
                        Ok(())
                    },
                )?
            }
            "count" => self.each(
                s,
                "",
                &mut |t, no| {
                    t.push(format!("let mut acc{}: usize = 0;", no));
                    Ok(None)
                },
                &mut |t, _, no| {
                    t.push(format!("acc{no} = acc{no} + 1;"));
                    Ok(())
                },
            )?,
            "collect" => self.each(
                s,
                "",
                &mut |t, no| {
                    let ty_ = t.acc_ty(no, ""); t.push(format!("let mut acc{}{} = Vec::new();", no, ty_));
                    Ok(None)
                },
                &mut |t, e, no| {
                    let v = t.elem_val(&e)?;
                    t.push(format!("acc{no}.push({v});"));
                    Ok(())
                },
            )?,
            "any" | "all" => {
                let any = name == "any";
                let f = arg.ok_or("missing closure")?;
                self.each(
                    s,
                    "",
                    &mut |t, no| {
                        t.push(format!("let mut acc{}: bool = {};", no, !any));
                        Ok(Some(format!("{}acc{}", if any { "!" } else { "" }, no)))
                    },
                    &mut |t, e, no| {
                        let v = t.apply(&f, vec![e], false)?;
                        let v = t.elem_val(&v)?;
                        t.push(format!("acc{no} = {v};"));
                        Ok(())
                    },
                )?
            }
            "for_each" => {
                let f = arg.ok_or("missing closure")?;
                self.each(
                    s,
                    "",
                    &mut |_, _| Ok(None),
                    &mut |t, e, _| {
                        if let Expr::Closure(c) = &f {
                            for (p, a) in c.inputs.iter().zip(vec![e]) {
                                t.bind_pat(p, a)?;
                            }
                            return t.stmt(&Stmt::Expr((*c.body).clone(), Some(Default::default())));
                        }
                        Err("for_each argument".into())
                    },
                )?;
                return Ok(Some("()".into()));
            }
            "fold" => {
                let f = m.args.iter().nth(1).cloned().ok_or("missing closure")?;
                let a0 = m.args.first().cloned().unwrap();
                self.each(
                    s,
                    "",
                    &mut |t, no| {
                        let z = t.expr(&a0)?;
                        let ty_ = t.acc_ty(no, ""); t.push(format!("let mut acc{}{} = {};", no, ty_, z));
                        Ok(None)
                    },
                    &mut |t, e, no| {
                        let v = t.apply(&f, vec![Elem::Val(format!("acc{no}")), e], false)?;
                        let v = t.elem_val(&v)?;
                        t.push(format!("acc{no} = {v};"));
                        Ok(())
                    },
                )?
            }
            "min_by" | "max_by" | "max" | "min" => {
                // the order comes from partial_cmp, of the elements or of something computed from them
                let mut general: Option<(Pat, Pat, Expr, Expr)> = None;
                if let Some(f) = &arg {
                    let t = squash(f);
                    let c = match f {
                        Expr::Closure(c) if c.inputs.len() == 2 => c,
                        _ => return Err(format!("comparator {}", t)),
                    };
                    let names: Vec<String> = c.inputs.iter().map(|p| squash(p)).collect();
                    if squash(&c.body) != format!("{}.partial_cmp({}).unwrap()", names[0], names[1]) {
                        let mut g = None;
                        let mut body: &Expr = &c.body;
                        if let Expr::Block(b) = body {
                            if let [Stmt::Expr(e, None)] = b.block.stmts.as_slice() {
                                body = e;
                            }
                        }
                        if let Expr::MethodCall(u) = body {
                            if u.method == "unwrap" || u.method == "expect" {
                                body = &u.receiver;
                            }
                        }
                        if let Expr::MethodCall(pc) = body {
                            if (pc.method == "partial_cmp" || pc.method == "cmp" || pc.method == "total_cmp") && pc.args.len() == 1 {
                                let b = match &pc.args[0] {
                                    Expr::Reference(r) => (*r.expr).clone(),
                                    e => e.clone(),
                                };
                                g = Some((c.inputs[0].clone(), c.inputs[1].clone(), (*pc.receiver).clone(), b));
                            }
                        }
                        general = Some(g.ok_or(format!("comparator {}", t))?);
                    }
                }
                let mx = name.starts_with("max");
                self.each(
                    s,
                    "",
                    &mut |t, no| {
                        let ty_ = t.acc_ty(no, ""); t.push(format!("let mut acc{}{} = None;", no, ty_));
                        Ok(None)
                    },
                    &mut |t, e, no| {
                        let is_ref = matches!(e, Elem::Ref(_));
                        let v = t.elem_val(&e)?;
                        t.push(format!("let x{no} = {v};"));
                        if let Some((pa, pb, ea, eb)) = &general {
                            // the last of several equal greatest ones, the first of several equal least ones
                            let pl = |n: String| if is_ref { Elem::Val(format!("&{}", n)) } else { Elem::Ref(n) };
                            t.scopes.push(HashMap::new());
                            let saved = std::mem::take(&mut t.out);
                            let r = (|| -> Res<(String, String)> {
                                t.bind_pat(pa, pl(format!("b{no}")))?;
                                let a = t.expr(ea)?;
                                let a = t.hoist("cl", a);
                                t.bind_pat(pb, pl(format!("x{no}")))?;
                                let b = t.expr(eb)?;
                                let b = t.hoist("cr", b);
                                Ok((a, b))
                            })();
                            t.scopes.pop();
                            let inner = std::mem::replace(&mut t.out, saved);
                            let (a, b) = r?;
                            let c = if mx { format!("{a} <= {b}") } else { format!("{a} > {b}") };
                            t.push(format!("acc{no} = match acc{no} {{ None => Some(x{no}), Some(b{no}) => {{ {} if {c} {{ Some(x{no}) }} else {{ Some(b{no}) }} }} }};", inner.join(" ")));
                            return Ok(());
                        }
                        let d = if is_ref { "*" } else { "" };
                        let c = if mx { format!("{d}x{no} >= {d}b{no}") } else { format!("{d}x{no} < {d}b{no}") };
                        t.push(format!("acc{no} = match acc{no} {{ None => Some(x{no}), Some(b{no}) => if {c} {{ Some(x{no}) }} else {{ Some(b{no}) }} }};"));
                        Ok(())
                    },
                )?
            }
            "last" => self.each(
                s,
                "",
                &mut |t, no| {
                    let ty_ = t.acc_ty(no, ""); t.push(format!("let mut acc{}{} = None;", no, ty_));
                    Ok(None)
                },
                &mut |t, e, no| {
                    let v = t.elem_val(&e)?;
                    t.push(format!("acc{no} = Some({v});"));
                    Ok(())
                },
            )?,
            "position" | "find" => {
                let f = arg.ok_or("missing closure")?;
                let pos = name == "position";
                self.each(
                    s,
                    "",
                    &mut |t, no| {
                        let ty_ = t.acc_ty(no, ""); t.push(format!("let mut acc{}{} = None;", no, ty_));
                        Ok(Some(format!("acc{}.is_none()", no)))
                    },
                    &mut |t, e, no| {
                        let e = t.fix(e)?;
                        let (a, v) = if pos {
                            (e.clone(), format!("i{no}"))
                        } else {
                            let r = match &e {
                                Elem::Val(v) => Elem::Ref(v.clone()),
                                Elem::Ref(p) => Elem::Val(format!("&&{}", p)),
                                e => e.clone(),
                            };
                            (r, t.elem_val(&e)?)
                        };
                        let c = t.apply(&f, vec![a], false)?;
                        let c = t.elem_val(&c)?;
                        t.push(format!("if {c} {{ acc{no} = Some({v}); }}"));
                        Ok(())
                    },
                )?
            }
            "unzip" => {
                self.each(
                    s,
                    "",
                    &mut |t, no| {
                        let ty_ = t.acc_ty(no, "a"); t.push(format!("let mut acc{}a{} = Vec::new();", no, ty_));
                        let ty_ = t.acc_ty(no, "b"); t.push(format!("let mut acc{}b{} = Vec::new();", no, ty_));
                        Ok(None)
                    },
                    &mut |t, e, no| {
                        let (a, b) = match &e {
                            Elem::Tuple(es) if es.len() == 2 => (t.elem_val(&es[0])?, t.elem_val(&es[1])?),
                            e => {
                                let v = t.elem_val(e)?;
                                (format!("{}.0", v), format!("{}.1", v))
                            }
                        };
                        t.push(format!("acc{no}a.push({a});"));
                        t.push(format!("acc{no}b.push({b});"));
                        Ok(())
                    },
                )
                .map(|no| {
                    self.push(format!("let acc{no} = (acc{no}a, acc{no}b);"));
                    no
                })?
            }
            _ => unreachable!(),
        };
        Ok(Some(res(no)))
    }
    // next() on a variable holding an iterator
    fn next_call(&mut self, m: &ExprMethodCall, back: bool) -> Res<String> {
        let n = match &*m.receiver {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            _ => None,
        };
        let n = n.ok_or("next on an expression")?;
        let (pos, p, len) = match self.lookup(&n) {
            Some(Bind::Seq(Seq::Iter(s, p))) => {
                let (a, b) = s.split_once(' ').unwrap();
                (a.to_string(), (**p).clone(), b.to_string())
            }
            _ => return Err("next on a plain sequence".into()),
        };
        let saved = std::mem::take(&mut self.out);
        let mut val = None;
        let i = self.tmp("i_");
        self.gen(&p, &i, &mut |s, e| {
            let e = s.elem_val(&e)?;
            val = Some(e);
            Ok(())
        })?;
        let body = std::mem::replace(&mut self.out, saved);
        let cond = if len == "-" { "true".to_string() } else { format!("{} < {}", pos, len) };
        if back {
            if !len.starts_with("end") {
                return Err("next_back on an iterator taken from the front".into());
            }
            return Ok(format!("(if {cond} {{ {len} = {len} - 1; let {i} = {len}; {} Some({}) }} else {{ None }})", body.join(" "), val.unwrap()));
        }
        Ok(format!(
            "(if {} {{ let {} = {}; {} = {} + 1; {} Some({}) }} else {{ None }})",
            cond,
            i,
            pos,
            pos,
            pos,
            body.join(" "),
            val.unwrap()
        ))
    }

    // ---- blocks and statements
    fn block_text(&mut self, stmts: &[Stmt]) -> Res<String> {
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(HashMap::new());
        let r = self.stmts(stmts, true);
        self.scopes.pop();
        let v = std::mem::replace(&mut self.out, saved);
        r?;
        Ok(format!("{{\n{}\n}}", v.join("\n")))
    }
    fn expr_block(&mut self, e: &Expr) -> Res<String> {
        match e {
            Expr::Block(b) if b.label.is_none() => self.block_text(&b.block.stmts),
            e => self.block_text(&[Stmt::Expr(e.clone(), None)]),
        }
    }
    fn anchored(&mut self, kind: &str, t: &str) -> Vec<String> {
        let mut v = vec![];
        if !self.anchors_on {
            return v;
        }
        for a in self.spec.anchors.iter_mut() {
            if a.0 == kind && !a.3 && t.starts_with(&a.1) {
                a.3 = true;
                v.extend(a.2.clone());
                break;
            }
        }
        v
    }
    fn stmts(&mut self, ss: &[Stmt], tail: bool) -> Res<()> {
        let n = ss.len();
        for (i, s) in ss.iter().enumerate() {
            let t = squash(s);
            let b = self.anchored("before", &t);
            self.raw(&b);
            if i + 1 == n && tail {
                if let Stmt::Expr(e, None) = s {
                    return self.tail_expr(e);
                }
                if let Stmt::Macro(m) = s {
                    if m.semi_token.is_none() {
                        let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                        return self.tail_expr(&e);
                    }
                }
            }
            self.stmt(s)?;
            let b = self.anchored("after", &t);
            self.raw(&b);
        }
        Ok(())
    }
    fn tail_expr(&mut self, e: &Expr) -> Res<()> {
        match e {
            Expr::Loop(l) if breaks_with_value(&l.body.stmts) => {
                let v = self.expr(e)?;
                self.push(v);
                Ok(())
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Assign(_) => {
                self.stmt(&Stmt::Expr(e.clone(), Some(Default::default())))
            }
            Expr::Unsafe(u) => self.stmts(&u.block.stmts, true),
            e => {
                let v = self.expr(e)?;
                self.push(v);
                Ok(())
            }
        }
    }
    fn stmt(&mut self, s: &Stmt) -> Res<()> {
        match s {
            Stmt::Local(l) => self.local(l),
            Stmt::Item(Item::Const(c)) => {
                // constants of float type become lets
                let t = self.ty(&c.ty);
                let v = self.expr(&c.expr)?;
                self.bind(&c.ident.to_string(), Bind::Plain);
                self.push(format!("let {}: {} = {};", c.ident, t, v));
                Ok(())
            }
            Stmt::Item(i) => match i {
                Item::Use(_) => Ok(()),
                i => Err(format!("item {}", squash(i))),
            },
            Stmt::Macro(m) => {
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                self.expr_stmt(&e)
            }
            Stmt::Expr(e, _) => self.expr_stmt(e),
        }
    }
    fn expr_stmt(&mut self, e: &Expr) -> Res<()> {
        match e {
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::While(w) => self.while_loop(w),
            Expr::Loop(l) => self.plain_loop(l),
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "eprintln" | "println" | "eprint" | "print" | "debug_assert" => {
                        self.note("prints and debug assertions are left out");
                        Ok(())
                    }
                    "panic" | "unimplemented" | "unreachable" | "todo" => {
                        let t = format!("{}::<()>();", self.panic_text());
                        self.push(t);
                        Ok(())
                    }
                    "assert" | "assert_eq" | "assert_ne" => {
                        let a = m
                            .mac
                            .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                            .map_err(|e| e.to_string())?;
                        let c = match n.as_str() {
                            "assert" => self.expr(&a[0])?,
                            "assert_eq" => format!("{} == {}", self.expr(&a[0])?, self.expr(&a[1])?),
                            _ => format!("{} != {}", self.expr(&a[0])?, self.expr(&a[1])?),
                        };
                        let t = format!("if !({}) {{ {}::<()>(); }}", c, self.panic_text());
                        self.push(t);
                        Ok(())
                    }
                    n => Err(format!("macro {}", n)),
                }
            }
            Expr::MethodCall(m) if m.method == "extend" => {
                let recv = self.place(&m.receiver)?;
                let s = self.into_seq(&m.args[0])?;
                self.each(s, "", &mut |_, _| Ok(None), &mut |t, e, _| {
                    let v = t.elem_val(&e)?;
                    t.push(format!("{}.push({});", recv, v));
                    Ok(())
                })?;
                Ok(())
            }
            e => {
                let t = self.expr(e)?;
                if t != "()" {
                    let block = matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Unsafe(_));
                    self.push(if block { t } else { format!("{};", t) });
                }
                Ok(())
            }
        }
    }
    fn local(&mut self, l: &Local) -> Res<()> {
        let init = match &l.init {
            None => {
                let p = self.pat(&l.pat)?;
                self.push(format!("let {};", p));
                return Ok(());
            }
            Some(i) => i,
        };
        if init.diverge.is_some() {
            return Err("let else".into());
        }
        let (pat, ty) = match &l.pat {
            Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
            p => (p.clone(), None),
        };
        let mut e = (*init.expr).clone();
        while let Expr::Paren(p) = &e {
            e = (*p.expr).clone();
        }
        // clocks only feed messages
        if squash(&e).contains("Instant::now()") {
            self.note("clock readings for messages are left out");
            return Ok(());
        }
        if let Pat::Ident(i) = &pat {
            let n = i.ident.to_string();
            if let Expr::Closure(c) = &e {
                if !self.spec.opts.contains("closures") {
                    self.bind(&n, Bind::Closure(c.clone()));
                    return Ok(());
                }
            }
            if self.is_seq(&e) && !self.spec.opts.contains("no-seq-vars") && !matches!(e, Expr::Path(_)) {
                let s = self.seq(&e)?;
                if i.mutability.is_some() {
                    let (p, len) = self.prep(s, "usize")?;
                    let pos = self.tmp("pos");
                    self.push(format!("let mut {}: usize = 0;", pos));
                    let mut len = len.unwrap_or("-".into());
                    if self.spec.opts.contains("double-ended") && len != "-" {
                        let end = self.tmp("end");
                        self.push(format!("let mut {}: usize = {};", end, len));
                        len = end;
                    }
                    self.bind(&n, Bind::Seq(Seq::Iter(format!("{} {}", pos, len), Box::new(p))));
                } else {
                    self.bind(&n, Bind::Seq(s));
                }
                return Ok(());
            }
            if let Some(t) = &ty {
                // types only steer sums and collections here
                if let Expr::MethodCall(m) = &e {
                    let mm = m.method.to_string();
                    if (mm == "sum" || mm == "product" || mm == "count") && self.is_seq(&m.receiver) {
                        let no = self.loops;
                        let t = self.ty(t);
                        self.spec.loops.entry(no).or_insert_with(|| LoopSpec { used: true, ..Default::default() }).sum.get_or_insert(t);
                    }
                }
            }
        }
        let v = self.scrutinee(&e)?;
        match (&pat, &ty) {
            (Pat::Ident(_), _) | (Pat::Wild(_), _) | (Pat::Tuple(_), _) | (Pat::TupleStruct(_), _) | (Pat::Struct(_), _) => {
                if has_ref_pat(&pat) {
                    return self.bind_pat(&pat, Elem::Val(v));
                }
                let p = self.pat(&pat)?;
                let p = match self.spec.lets.get(p.trim_start_matches("mut ")) {
                    Some(t) => format!("{}: {}", p, t),
                    None => match &ty {
                        Some(t) if !squash(t).contains("impl ") => format!("{}: {}", p, self.ty(t)),
                        _ => p,
                    },
                };
                self.push(format!("let {} = {};", p, v));
                if let (Pat::Ident(i), Expr::MethodCall(m)) = (&pat, &e) {
                    if self.gives_slice(&m.method.to_string()) {
                        self.bind(&i.ident.to_string(), Bind::Slice);
                    }
                }
                Ok(())
            }
            _ => self.bind_pat(&pat, Elem::Val(v)),
        }
    }
    // whether every function of the repository of this name returns a borrowed list
    fn gives_slice(&self, n: &str) -> bool {
        let mut any = false;
        for (k, v) in &self.env.ix.fns {
            if !k.ends_with(&format!("::{}", n)) {
                continue;
            }
            for f in v {
                match &f.sig.output {
                    ReturnType::Type(_, t) if matches!(&**t, Type::Reference(r) if matches!(&*r.elem, Type::Slice(_))) => any = true,
                    _ => return false,
                }
            }
        }
        any
    }
    fn scrutinee(&mut self, e: &Expr) -> Res<String> {
        self.expr(e)
    }

    // ---- expressions
    fn collect(&mut self, s: Seq) -> Res<usize> {
        self.each(
            s,
            "",
            &mut |t, no| {
                let ty_ = t.acc_ty(no, "");
                t.push(format!("let mut acc{}{} = Vec::new();", no, ty_));
                Ok(None)
            },
            &mut |t, e, no| {
                let val = t.elem_val(&e)?;
                t.push(format!("acc{no}.push({val});"));
                Ok(())
            },
        )
    }
    fn args(&mut self, a: &Punctuated<Expr, Token![,]>) -> Res<Vec<String>> {
        let mut v = vec![];
        for x in a {
            // an iterator handed over as an argument is collected first
            if self.is_seq(x) && !matches!(x, Expr::Path(_) | Expr::Range(_)) {
                let s = self.seq(x)?;
                let no = self.collect(s)?;
                v.push(format!("acc{}", no));
                continue;
            }
            v.push(self.expr(x)?);
        }
        Ok(v)
    }
    // a matrix indexed by a single number
    fn one_index(&self, ix: &ExprIndex) -> bool {
        let mut e = &*ix.expr;
        while let Expr::Paren(p) = e {
            e = &p.expr;
        }
        match e {
            Expr::Path(p) => !self.tuple_index(ix) && p.path.get_ident().map(|i| self.spec.one_idx.contains(&i.to_string())).unwrap_or(false),
            Expr::Field(f) => !self.tuple_index(ix) && self.spec.one_idx.contains(&squash(f)),
            _ => false,
        }
    }
    fn tuple_index(&self, ix: &ExprIndex) -> bool {
        let named = |e: &Expr| matches!(e, Expr::Path(p) if p.path.get_ident().map(|i| self.spec.tuple_idx.contains(&i.to_string())).unwrap_or(false));
        match &*ix.index {
            Expr::Tuple(_) => true,
            // by the name of the index, or of what is indexed
            Expr::Path(_) => named(&ix.index) || named(&ix.expr),
            _ => false,
        }
    }
    fn cond_block(&mut self, e: &Expr) -> Res<String> {
        // an expression evaluated only if reached
        let saved = std::mem::take(&mut self.out);
        let r = self.expr(e);
        let v = std::mem::replace(&mut self.out, saved);
        let r = r?;
        if v.is_empty() {
            Ok(r)
        } else {
            Ok(format!("{{\n{}\n{}\n}}", v.join("\n"), r))
        }
    }
    // Of a function that may give up, only what must hold when it goes on: once that is
    // established in front of a loop, nothing after it can take it away (it is about the arguments).
    fn refusal(&mut self) {
        if let Some(e) = &self.spec.refusal {
            let l = format!("proof {{ assert({}); assume(false); }}", e);
            self.push(l);
        }
    }
    pub fn expr(&mut self, e: &Expr) -> Res<String> {
        self.depth += 1;
        if self.depth > 200 {
            return Err("too deep".into());
        }
        let r = self.expr_(e);
        self.depth -= 1;
        r
    }
    fn expr_(&mut self, e: &Expr) -> Res<String> {
        Ok(match e {
            Expr::Lit(l) => self.lit(&l.lit)?,
            Expr::Paren(p) => {
                let t = self.expr(&p.expr)?;
                format!("({})", t)
            }
            Expr::Group(p) => self.expr(&p.expr)?,
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    match self.lookup(&n) {
                        Some(Bind::Place(t)) => return Ok(t.clone()),
                        Some(Bind::Seq(_)) => return Err(format!("iterator {} used as a value", n)),
                        Some(Bind::Closure(_)) => return Err(format!("closure {} used as a value", n)),
                        Some(Bind::Plain) | Some(Bind::Slice) => return Ok(n),
                        None => {}
                    }
                    if let Some(c) = self.env.ix.consts.get(&n) {
                        if squash(&c[0].ty).contains("f64") {
                            return Ok(format!("{}()", n));
                        }
                    }
                }
                self.path(&p.path)
            }
            Expr::Field(f) => {
                let b = self.expr(&f.base)?;
                format!("{}.{}", b, squash(&f.member))
            }
            Expr::Tuple(t) => {
                let mut v = vec![];
                for x in &t.elems {
                    v.push(self.expr(x)?);
                }
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Expr::Array(a) => {
                let mut v = vec![];
                for x in &a.elems {
                    v.push(self.expr(x)?);
                }
                format!("[{}]", v.join(", "))
            }
            Expr::Repeat(r) => {
                let a = self.expr(&r.expr)?;
                let b = self.expr(&r.len)?;
                format!("[{}; {}]", a, b)
            }
            Expr::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    let m = squash(&f.member);
                    let x = self.expr(&f.expr)?;
                    v.push(format!("{}: {}", m, x));
                }
                if s.rest.is_some() {
                    return Err("struct update".into());
                }
                format!("{} {{ {} }}", self.path(&s.path), v.join(", "))
            }
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => {
                    if let Expr::Path(p) = &*u.expr {
                        if let Some(i) = p.path.get_ident() {
                            if let Some(Bind::Place(t)) = self.lookup(&i.to_string()) {
                                if i != "self" {
                                    return Ok(t.clone());
                                }
                            }
                        }
                    }
                    let t = self.expr(&u.expr)?;
                    format!("(*{})", t)
                }
                UnOp::Neg(_) => {
                    if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = &*u.expr {
                        return Ok(float_lit(&f.to_string())?.replacen("rlit(", "rlit(-", 1));
                    }
                    let t = self.expr(&u.expr)?;
                    format!("(-{})", t)
                }
                UnOp::Not(_) => {
                    let t = self.expr(&u.expr)?;
                    format!("(!{})", t)
                }
                _ => return Err("operator".into()),
            },
            Expr::Binary(b) => return self.binary(b),
            Expr::Assign(a) => {
                let v = self.expr(&a.right)?;
                if let Expr::Index(ix) = &*a.left {
                    if self.tuple_index(ix) {
                        let x = self.expr(&ix.expr)?;
                        let l = self.expr(&ix.index)?;
                        let t = self.hoist("v", v);
                        return Ok(format!("*{}.v_index_mut({}) = {}", x, l, t));
                    }
                    if self.one_index(ix) {
                        let x = self.expr(&ix.expr)?;
                        let l = self.expr(&ix.index)?;
                        let t = self.hoist("v", v);
                        return Ok(format!("*{}.v_at_mut({}) = {}", x, l, t));
                    }
                }
                let l = self.expr(&a.left)?;
                format!("{} = {}", l, v)
            }
            Expr::Cast(c) => {
                let v = self.expr(&c.expr)?;
                let t = squash(&c.ty);
                if t == "f64" {
                    return Ok(format!("({}).v_to_r()", v));
                }
                let mut inner = &*c.expr;
                while let Expr::Paren(p) = inner {
                    inner = &p.expr;
                }
                if let Expr::MethodCall(m) = inner {
                    if m.method == "round" || m.method == "floor" || m.method == "ceil" {
                        return Ok(format!("({}).v_to_{}()", v, t));
                    }
                }
                if self.spec.opts.contains(&format!("float-cast {}", t)) {
                    return Ok(format!("({}).v_to_{}()", v, t));
                }
                format!("(({}) as {})", v, t)
            }
            Expr::Reference(r) => {
                if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = &*r.expr {
                    return Ok(float_lit(&f.to_string())?.replacen("rlit(", "rlit_ref(", 1));
                }
                if let Expr::Index(ix) = &*r.expr {
                    if self.tuple_index(ix) {
                        let x = self.expr(&ix.expr)?;
                        let l = self.expr(&ix.index)?;
                        let m = if r.mutability.is_some() { "_mut" } else { "" };
                        return Ok(format!("{}.v_index{}({})", x, m, l));
                    }
                    if let Expr::Range(rg) = &*ix.index {
                        let x = self.expr(&ix.expr)?;
                        let m = if r.mutability.is_some() { "v_sub_mut" } else { "v_sub" };
                        let lo = match &rg.start {
                            Some(s) => self.expr(s)?,
                            None => "0".into(),
                        };
                        let hi = match &rg.end {
                            Some(s) => {
                                let h = self.expr(s)?;
                                if matches!(rg.limits, RangeLimits::Closed(_)) {
                                    format!("({}) + 1", h)
                                } else {
                                    h
                                }
                            }
                            None => format!("{}.len()", x),
                        };
                        return Ok(format!("{}.{}({}, {})", x, m, lo, hi));
                    }
                }
                let t = self.expr(&r.expr)?;
                format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, t)
            }
            Expr::Index(ix) => {
                let x = self.expr(&ix.expr)?;
                if let Expr::Range(_) = &*ix.index {
                    let r: Expr = syn::parse_quote!(&#e);
                    return self.expr(&r);
                }
                let l = self.expr(&ix.index)?;
                if self.one_index(ix) {
                    format!("(*{}.v_at({}))", x, l)
                } else if self.tuple_index(ix) {
                    format!("(*{}.v_index({}))", x, l)
                } else {
                    format!("{}[{}]", x, l)
                }
            }
            Expr::If(i) => {
                let (cond, hoisted_scope) = self.condition(&i.cond)?;
                let saved_scopes = hoisted_scope;
                let th = {
                    self.scopes.push(saved_scopes);
                    let r = self.block_text(&i.then_branch.stmts);
                    self.scopes.pop();
                    r?
                };
                let el = match &i.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => format!(" else {}", self.block_text(&b.block.stmts)?),
                        e => format!(" else {}", self.expr_block(e)?),
                    },
                    None => String::new(),
                };
                format!("if {} {}{}", cond, th, el)
            }
            Expr::Match(m) => {
                let s = self.scrutinee(&m.expr)?;
                let mut arms = vec![];
                for a in &m.arms {
                    self.scopes.push(HashMap::new());
                    let p = self.pat(&a.pat)?;
                    let g = match &a.guard {
                        Some((_, g)) => {
                            let n = self.out.len();
                            let g = self.expr(g)?;
                            if self.out.len() != n {
                                return Err("guard needing statements".into());
                            }
                            format!(" if {}", g)
                        }
                        None => String::new(),
                    };
                    let b = self.expr_block(&a.body)?;
                    self.scopes.pop();
                    arms.push(format!("{}{} => {},", p, g, b));
                }
                format!("match {} {{\n{}\n}}", s, arms.join("\n"))
            }
            Expr::Block(b) => self.block_text(&b.block.stmts)?,
            Expr::Unsafe(u) => self.block_text(&u.block.stmts)?,
            Expr::Return(r) => match &r.expr {
                Some(x) => {
                    let v = self.expr(x)?;
                    format!("return {}", v)
                }
                None => "return".into(),
            },
            Expr::Break(b) => {
                let l = b.label.as_ref().map(|l| format!(" {}", squash(l))).unwrap_or_default();
                if let Some(x) = &b.expr {
                    let n = match self.brk.last() {
                        Some(n) if l.is_empty() => n.clone(),
                        _ => return Err("break with a value".into()),
                    };
                    let v = self.expr(x)?;
                    self.push(format!("{} = {};", n, v));
                }
                format!("break{}", l)
            }
            Expr::Continue(b) => {
                let l = b.label.as_ref().map(|l| format!(" {}", squash(l))).unwrap_or_default();
                format!("continue{}", l)
            }
            Expr::Macro(m) => return self.macro_expr(m),
            Expr::Try(t) => {
                let v = self.expr(&t.expr)?;
                format!("match {} {{ Ok(v_) => v_, Err(e_) => {{ return Err(e_); }} }}", v)
            }
            Expr::Call(c) => return self.call(c),
            Expr::MethodCall(m) => return self.method(m),
            Expr::Closure(c) => {
                if self.spec.opts.contains("closures") {
                    return self.closure(c);
                }
                return Err("closure value".into());
            }
            Expr::Let(_) => return Err("let condition".into()),
            Expr::Loop(l) if breaks_with_value(&l.body.stmts) => {
                let no = self.loops;
                self.expr_stmt(e)?;
                format!("brk{}", no)
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.expr_stmt(e)?;
                "()".into()
            }
            Expr::Range(r) if float_range(r) => {
                let lo = self.expr(r.start.as_ref().unwrap())?;
                let hi = self.expr(r.end.as_ref().unwrap())?;
                let f = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "v_span_incl" } else { "v_span" };
                format!("{}({}, {})", f, lo, hi)
            }
            Expr::Range(_) => return Err("range value".into()),
            e => return Err(format!("expression {}", squash(e))),
        })
    }
    fn closure(&mut self, c: &ExprClosure) -> Res<String> {
        let no = self.tmps;
        self.tmps += 1;
        let _ = no;
        let mut ps = vec![];
        self.scopes.push(HashMap::new());
        for p in &c.inputs {
            ps.push(self.pat(p)?);
        }
        let b = self.expr_block(&c.body)?;
        self.scopes.pop();
        let key = format!("closure {}", ps.join(", "));
        match self.spec.lets.get(&key) {
            Some(h) => Ok(format!("{} {}", h, b)),
            None => Ok(format!("|{}| {}", ps.join(", "), b)),
        }
    }
    fn condition(&mut self, c: &Expr) -> Res<(String, HashMap<String, Bind>)> {
        if let Expr::Let(l) = c {
            let v = self.scrutinee(&l.expr)?;
            self.scopes.push(HashMap::new());
            let p = self.pat(&l.pat)?;
            let s = self.scopes.pop().unwrap();
            return Ok((format!("let {} = {}", p, v), s));
        }
        let t = self.expr(c)?;
        Ok((t, HashMap::new()))
    }
    fn binary(&mut self, b: &ExprBinary) -> Res<String> {
        let op = squash(&b.op);
        if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
            let l = self.expr(&b.left)?;
            let r = self.cond_block(&b.right)?;
            if r.starts_with("{\n") {
                return Ok(match b.op {
                    BinOp::And(_) => format!("(if {} {} else {{ false }})", l, r),
                    _ => format!("(if {} {{ true }} else {})", l, r),
                });
            }
            return Ok(format!("({} {} {})", l, op, r));
        }
        let assign = matches!(
            b.op,
            BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)
        );
        if assign {
            let v = self.expr(&b.right)?;
            if let Expr::Index(ix) = &*b.left {
                if self.tuple_index(ix) {
                    let x = self.expr(&ix.expr)?;
                    let l = self.expr(&ix.index)?;
                    let l = self.hoist("l", l);
                    let v = self.hoist("v", v);
                    let o = self.hoist("o", format!("*{}.v_index_mut({})", x, l));
                    return Ok(format!("*{}.v_index_mut({}) = {} {} {}", x, l, o, &op[..1], v));
                }
            }
            let l = self.expr(&b.left)?;
            if self.spec.opts.contains("expand-assign") {
                return Ok(format!("{} = {} {} ({})", l, l, &op[..1], v));
            }
            return Ok(format!("{} {} {}", l, op, v));
        }
        // operators of two borrowed matrices, as the methods named by `method &- NAME`
        if let (Expr::Reference(_), Expr::Reference(_), Some(m)) = (&*b.left, &*b.right, self.env.methods.get(&format!("&{}", op)).cloned()) {
            let l = self.expr(&b.left)?;
            let r = self.expr(&b.right)?;
            return Ok(format!("({}).{}({})", l, m, r));
        }
        // comparisons of references with references to literals
        if matches!(b.op, BinOp::Ge(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Lt(_) | BinOp::Eq(_) | BinOp::Ne(_)) {
            if let Expr::Reference(r) = &*b.right {
                if let Expr::Lit(_) = &*r.expr {
                    let l = self.expr(&b.left)?;
                    let r = self.expr(&r.expr)?;
                    return Ok(format!("({} {} {})", strip_ref(&l), op, r));
                }
            }
        }
        let l = self.expr(&b.left)?;
        let r = self.expr(&b.right)?;
        if let (Expr::Field(f), BinOp::Eq(_) | BinOp::Ne(_)) = (&*b.left, &b.op) {
            if let Member::Named(i) = &f.member {
                if self.env.veqs.contains(&i.to_string()) {
                    return Ok(format!("{}{}.v_eq(&{})", if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" }, l, r));
                }
            }
        }
        Ok(format!("({} {} {})", l, op, r))
    }
    fn macro_expr(&mut self, m: &ExprMacro) -> Res<String> {
        let n = m.mac.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "panic" | "unimplemented" | "unreachable" | "todo" => Ok(format!("{}()", self.panic_text())),
            "vec" => {
                if let Ok(r) = m.mac.parse_body_with(|i: parse::ParseStream| {
                    let a: Expr = i.parse()?;
                    i.parse::<Token![;]>()?;
                    let b: Expr = i.parse()?;
                    Ok((a, b))
                }) {
                    let a = self.expr(&r.0)?;
                    let b = self.expr(&r.1)?;
                    return Ok(format!("v_vec({}, {})", a, b));
                }
                let a = m
                    .mac
                    .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                    .map_err(|e| e.to_string())?;
                let mut v = vec![];
                for x in &a {
                    v.push(self.expr(x)?);
                }
                if v.is_empty() {
                    return Ok("Vec::new()".into());
                }
                Ok(format!("vec![{}]", v.join(", ")))
            }
            "format" => Ok("v_msg()".into()),
            "assert" | "assert_eq" | "assert_ne" | "eprintln" | "println" => {
                self.expr_stmt(&Expr::Macro(m.clone()))?;
                Ok("()".into())
            }
            n => Err(format!("macro {}", n)),
        }
    }
    fn call(&mut self, c: &ExprCall) -> Res<String> {
        if let Expr::Path(p) = &*c.func {
            if let Some(i) = p.path.get_ident() {
                let n = i.to_string();
                if let Some(Bind::Closure(cl)) = self.lookup(&n) {
                    let cl = cl.clone();
                    let mut args = vec![];
                    for a in &c.args {
                        match a {
                            Expr::Reference(r) if r.mutability.is_some() => args.push(Elem::RefMut(self.expr(&r.expr)?)),
                            a => {
                                let t = self.expr(a)?;
                                args.push(Elem::Val(t))
                            }
                        }
                    }
                    let saved = std::mem::take(&mut self.out);
                    self.scopes.push(HashMap::new());
                    let r = self.apply(&Expr::Closure(cl), args, false).and_then(|e| self.elem_val(&e));
                    self.scopes.pop();
                    let v = std::mem::replace(&mut self.out, saved);
                    return Ok(format!("{{ {} {} }}", v.join("\n"), r?));
                }
                // free functions without a contract are written out in place
                if !self.env.known.contains(&n) && !self.env.calls.contains_key(&n) && !is_upper(&n) {
                    let ks: Vec<&Vec<FnItem>> = self
                        .env
                        .ix
                        .fns
                        .iter()
                        .filter(|(k, v)| k.ends_with(&format!("::{}", n)) && v.iter().all(|f| f.selfty.is_none()) && !k.starts_with("trait "))
                        .map(|x| x.1)
                        .collect();
                    if ks.len() == 1 && ks[0].len() == 1 {
                        let f = ks[0][0].clone();
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        return self.inline(&f, None, &args);
                    }
                    return Err(format!("call of {}, which has no contract", n));
                }
            } else {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.last().unwrap().clone();
                let ty = &segs[segs.len() - 2];
                let full = format!("{}::{}", ty, n);
                if full == "std::iter::repeat" {
                    return Err("repeat".into());
                }
                let known = self.env.known.contains(&full)
                    || self.env.known.contains(&format!("*::{}", n))
                    || self.env.calls.keys().any(|k| segs.join("::").ends_with(k.as_str()))
                    || (!is_upper(ty) && self.env.known.contains(&n));
                if !known && is_upper(ty) && !is_upper(&n) && ty != "Vec" && ty != "Box" && ty != "Some" {
                    let key = if ty == "Self" { None } else { Some(full.clone()) };
                    if let Some(k) = key {
                        if let Some([f]) = self.env.ix.fns.get(&k).map(|v| v.as_slice()) {
                            let f = f.clone();
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            return self.inline(&f, None, &args);
                        }
                    } else {
                        let cands: Vec<FnItem> = self
                            .env
                            .ix
                            .fns
                            .iter()
                            .filter(|(k, _)| k.ends_with(&format!("::{}", n)) && !k.contains(" for "))
                            .flat_map(|x| x.1.clone())
                            .collect();
                        if cands.len() == 1 && !self.env.known.iter().any(|k| k.ends_with(&format!("::{}", n))) {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            return self.inline(&cands[0], None, &args);
                        }
                    }
                }
            }
        }
        let f = match &*c.func {
            Expr::Path(p) => self.path(&p.path),
            e => self.expr(e)?,
        };
        let a = self.args(&c.args)?;
        if f == "Box::new" {
            return Ok(a[0].clone());
        }
        Ok(format!("{}({})", f, a.join(", ")))
    }
    // writes the body of a function in place of a call
    fn inline(&mut self, f: &FnItem, recv: Option<&Expr>, args: &[Expr]) -> Res<String> {
        let n = f.sig.ident.to_string();
        let b = f.block.clone().ok_or(format!("{} has no body", n))?;
        if has_return(&b) {
            return Err(format!("call of {}, which has no contract and returns early", n));
        }
        if self.depth > 60 || squash(&b).contains(&format!("{}(", n)) {
            return Err(format!("call of {}, which has no contract and is recursive", n));
        }
        self.inlined.insert(n.clone());
        let mut scope: HashMap<String, Bind> = HashMap::new();
        let mut pre = vec![];
        let mut inputs: Vec<&FnArg> = f.sig.inputs.iter().collect();
        if let Some(FnArg::Receiver(_)) = inputs.first() {
            inputs.remove(0);
            let r = recv.ok_or("method without receiver")?;
            let p = self.place(r)?;
            scope.insert("self".into(), Bind::Place(p));
        }
        if inputs.len() != args.len() {
            return Err(format!("arguments of {}", n));
        }
        for (p, a) in inputs.iter().zip(args) {
            let t = match p {
                FnArg::Typed(t) => t,
                _ => return Err("receiver".into()),
            };
            let byref = squash(&t.ty).starts_with("&mut");
            match (&*t.pat, a) {
                (Pat::Ident(i), Expr::Reference(r)) if byref => {
                    let p = self.expr(&r.expr)?;
                    scope.insert(i.ident.to_string(), Bind::Place(p));
                }
                (Pat::Ident(i), Expr::Closure(c)) => {
                    scope.insert(i.ident.to_string(), Bind::Closure(c.clone()));
                }
                (Pat::Ident(i), Expr::Path(q)) if byref => {
                    let p = self.expr(&Expr::Path(q.clone()))?;
                    scope.insert(i.ident.to_string(), Bind::Place(p));
                }
                (pat, a) => {
                    let v = self.expr(a)?;
                    pre.push((pat.clone(), v));
                }
            }
        }
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(scope);
        self.ctx.push(f.selfty.clone().unwrap_or_default());
        let mut go = || -> Res<()> {
            // evaluate all arguments before binding any parameter
            let mut vs = vec![];
            for (p, v) in pre {
                let t = self.hoist("p", v);
                vs.push((p, t));
            }
            for (p, t) in vs {
                self.bind_pat(&p, Elem::Val(t))?;
            }
            self.stmts(&b.stmts, true)
        };
        let r = go();
        self.scopes.pop();
        self.ctx.pop();
        let v = std::mem::replace(&mut self.out, saved);
        r?;
        Ok(format!("{{\n{}\n}}", v.join("\n")))
    }
    fn opt_apply(&mut self, f: &Expr, v: &str) -> Res<String> {
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(HashMap::new());
        let r = self.apply(f, vec![Elem::Val(v.to_string())], false).and_then(|e| self.elem_val(&e));
        self.scopes.pop();
        let o = std::mem::replace(&mut self.out, saved);
        Ok(format!("{{ {} {} }}", o.join("\n"), r?))
    }
    // a method the type itself declares, called on self
    fn own_method(&self, m: &ExprMethodCall) -> bool {
        let t = self.ctx.last().unwrap_or(&self.spec.key);
        squash(&m.receiver) == "self" && self.env.known.iter().any(|k| match k.split_once("::") {
            Some((a, b)) => m.method == b && a != "*" && a != "?" && t.contains(a),
            None => false,
        })
    }
    fn method(&mut self, m: &ExprMethodCall) -> Res<String> {
        if let Some(t) = self.terminal(m)? {
            return Ok(t);
        }
        let n = m.method.to_string();
        // combinators of Option and Result
        match n.as_str() {
            "map" => {
                let r = self.expr(&m.receiver)?;
                let b = self.opt_apply(&m.args[0], "x_")?;
                return Ok(format!("(match {} {{ Some(x_) => Some({}), None => None }})", r, b));
            }
            "and_then" => {
                let r = self.expr(&m.receiver)?;
                let b = self.opt_apply(&m.args[0], "x_")?;
                return Ok(format!("(match {} {{ Some(x_) => {}, None => None }})", r, b));
            }
            "or" => {
                let r = self.expr(&m.receiver)?;
                let a = self.args(&m.args)?;
                return Ok(format!("(match {} {{ Some(x_) => Some(x_), None => {} }})", r, a[0]));
            }
            "or_insert" => {
                if let Expr::MethodCall(e) = &*m.receiver {
                    if e.method == "entry" && self.is_map(&e.receiver) {
                        let r = self.expr(&e.receiver)?;
                        let k = self.args(&e.args)?;
                        let v = self.args(&m.args)?;
                        return Ok(format!("{}.v_entry_or({}, {})", r, k[0], v[0]));
                    }
                }
            }
            "map_err" => {
                let r = self.expr(&m.receiver)?;
                let b = self.opt_apply(&m.args[0], "x_")?;
                return Ok(format!("(match {} {{ Ok(v_) => Ok(v_), Err(x_) => Err({}) }})", r, b));
            }
            "expect" | "unwrap" if self.spec.diverge => {
                let r = self.expr(&m.receiver)?;
                return Ok(format!("v_unwrap_or_diverge({})", r));
            }
            "expect" => {
                let r = self.expr(&m.receiver)?;
                return Ok(format!("{}.unwrap()", r));
            }
            "size_hint" if m.args.is_empty() => return Ok("v_size_hint()".into()),
            "get_unchecked" if !self.own_method(m) => {
                let r = self.expr(&m.receiver)?;
                let a = self.args(&m.args)?;
                return Ok(format!("&{}[{}]", r, a[0]));
            }
            "get_unchecked_mut" if !self.own_method(m) => {
                let r = self.expr(&m.receiver)?;
                let a = self.args(&m.args)?;
                return Ok(format!("&mut {}[{}]", r, a[0]));
            }
            "sort_by" | "sort_unstable_by" | "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" => {
                let c = match m.args.first() {
                    Some(Expr::Closure(c)) => c.clone(),
                    _ => return Err(format!("argument of {}", n)),
                };
                let no = self.sorts;
                self.sorts += 1;
                let head = self.spec.lets.get(&format!("sort{}", no)).cloned().ok_or(format!("{} without a contract of its closure", n))?;
                let r = self.place(&m.receiver)?;
                let saved = std::mem::take(&mut self.out);
                self.scopes.push(HashMap::new());
                let mut t = || -> Res<String> {
                    for (i, p) in c.inputs.iter().enumerate() {
                        self.bind_pat(p, Elem::Ref(format!("(*q{})", i)))?;
                    }
                    self.expr_block(&c.body)
                };
                let b = t();
                self.scopes.pop();
                let pre = std::mem::replace(&mut self.out, saved);
                let b = b?;
                let f = if n.ends_with("key") { "v_sort_key" } else { "v_sort_by" };
                return Ok(format!("{f}(&mut {r}, {head} {{\n{}\n{b}\n}})", pre.join("\n")));
            }
            "extend_from_slice" => {
                let r = self.place(&m.receiver)?;
                let a = self.args(&m.args)?;
                return Ok(format!("v_extend(&mut {}, {})", r, a[0]));
            }
            "clone_from_slice" | "copy_from_slice" => {
                let r = self.expr(&m.receiver)?;
                let r = match &*m.receiver {
                    Expr::Index(ix) if matches!(*ix.index, Expr::Range(_)) => r.replacen(".v_sub(", ".v_sub_mut(", 1),
                    _ => r,
                };
                let a = self.args(&m.args)?;
                return Ok(format!("v_copy_into({}, {})", r, a[0]));
            }
            "add_assign" | "sub_assign" | "mul_assign" => {
                let r = self.expr(&m.receiver)?;
                let a = self.args(&m.args)?;
                let op = match n.as_str() {
                    "add_assign" => "+=",
                    "sub_assign" => "-=",
                    _ => "*=",
                };
                return Ok(format!("{} {} {}", r, op, a[0]));
            }
            _ => {}
        }
        if self.is_seq(&m.receiver) && !matches!(&*m.receiver, Expr::Path(_)) {
            return Err(format!("iterator method {}", n));
        }
        // methods of the repository without a contract are written out in place
        let has_closure = m.args.iter().any(|a| matches!(a, Expr::Closure(_)));
        let known = self.env.known.iter().any(|k| k.ends_with(&format!("::{}", n)));
        let suffix = format!("::{}", n);
        let cands: Vec<FnItem> = self
            .env
            .ix
            .fns
            .iter()
            .filter(|(k, v)| k.ends_with(&suffix) && v.iter().any(|f| f.sig.receiver().is_some()))
            .flat_map(|x| x.1.clone())
            .collect();
        let maps = self.is_map(&m.receiver);
        if (!known || has_closure) && !cands.is_empty() && !vec_method(&n) && !self.env.methods.contains_key(&n) && !maps {
            let c: Vec<FnItem> = cands.into_iter().filter(|f| f.block.is_some()).collect();
            if c.len() == 1 && f_arity(&c[0]) == m.args.len() + 1 {
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let r = (*m.receiver).clone();
                return self.inline(&c[0], Some(&r), &args);
            }
            if !known && !std_method(&n) {
                return Err(format!("call of {}, which has no contract", n));
            }
        }
        let r = self.expr(&m.receiver)?;
        let a = self.args(&m.args)?;
        let name = match self.env.methods.get(&n) {
            Some(x) => x.clone(),
            None => match n.as_str() {
                "into" | "try_into" | "clone" | "abs" | "min" | "max" | "clamp" | "to_vec" | "cloned" | "copied" | "to_string" => {
                    format!("v_{}", n)
                }
                _ => n.clone(),
            },
        };
        let r = if r.starts_with('&') || r.starts_with('-') || r.starts_with("if ") || r.starts_with("match ") || r.starts_with('*') {
            format!("({})", r)
        } else {
            r
        };
        let tf = match &m.turbofish {
            Some(t) if known => format!("::<{}>", self.ty(&t.args)),
            _ => String::new(),
        };
        let r = if maps && !name.starts_with("v_") { format!("{}.v_{}", r, name) } else { format!("{}.{}", r, name) };
        Ok(format!("{}{}({})", r, tf, a.join(", ")))
    }

    // ---- whole functions
    pub fn function(&mut self, f: &FnItem) -> Res<Vec<String>> {
        let block = f.block.as_ref().ok_or("no body")?;
        let name = self.spec.name.clone().unwrap_or(f.sig.ident.to_string());
        let mut head = vec![];
        if !self.spec.opts.contains("isolate") {
            head.push("#[verifier::loop_isolation(false)]".to_string());
        }
        head.extend(self.spec.attrs.clone());
        let mut mut_self = false;
        let mut pre = vec![];
        let mut params = vec![];
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        mut_self = true;
                        params.push("self".to_string());
                    } else {
                        params.push(self.ty(r));
                    }
                }
                FnArg::Typed(t) => {
                    let ty = self.ty(&t.ty);
                    match &*t.pat {
                        Pat::Ident(i) => {
                            let borrowed = ty.replace(' ', "").starts_with("&[");
                            self.bind(&i.ident.to_string(), if borrowed { Bind::Slice } else { Bind::Plain });
                            params.push(format!("{}{}: {}", if i.mutability.is_some() { "mut " } else { "" }, i.ident, ty))
                        }
                        p => {
                            let n = self.tmp("arg");
                            params.push(format!("{}: {}", n, ty));
                            pre.push((p.clone(), n));
                        }
                    }
                }
            }
        }
        let sig = match &self.spec.sig {
            Some(s) => s.clone(),
            None => {
                let gens = squash(&f.sig.generics.params);
                let g = if gens.is_empty() { String::new() } else { format!("<{}>", map_type(&gens, self.env)) };
                let out = match &f.sig.output {
                    ReturnType::Default => String::new(),
                    ReturnType::Type(_, t) => {
                        let t = self.ty(t);
                        format!(" -> ({}: {})", self.spec.ret.clone().unwrap_or("res".into()), t)
                    }
                };
                let vis = if self.spec.opts.contains("pub") { "pub " } else { "" };
                format!("{}fn {}{}({}){}", vis, name, g, params.join(", "), out)
            }
        };
        head.push(sig);
        if !self.spec.requires.is_empty() {
            head.push("requires".into());
            head.extend(self.spec.requires.clone());
        }
        if !self.spec.ensures.is_empty() {
            head.push("ensures".into());
            head.extend(self.spec.ensures.clone());
        }
        if !self.spec.decreases.is_empty() {
            head.push("decreases".into());
            head.extend(self.spec.decreases.clone());
        }
        head.push("{".into());
        if mut_self {
            head.push("let mut slf = self;".into());
            self.bind("self", Bind::Place("slf".into()));
        }
        let start = self.spec.start.clone();
        for (p, n) in pre {
            self.bind_pat(&p, Elem::Val(n))?;
        }
        self.raw(&start);
        let ss = &block.stmts;
        let n = ss.len();
        let end = self.spec.end.clone();
        let tail = self.spec.tail.clone();
        let has_tail = n > 0
            && match &ss[n - 1] {
                Stmt::Expr(Expr::ForLoop(_), None) | Stmt::Expr(Expr::While(_), None) | Stmt::Expr(Expr::Assign(_), None) => false,
                Stmt::Expr(_, None) => true,
                Stmt::Macro(m) => m.semi_token.is_none(),
                _ => false,
            };
        if has_tail {
            self.stmts(&ss[..n - 1], false)?;
            self.raw(&end);
            // an iterator given back is given back as the list of its elements
            let as_list = match &ss[n - 1] {
                Stmt::Expr(e, None) if self.spec.opts.contains("collect") && self.is_seq(e) => Some(e.clone()),
                _ => None,
            };
            if let Some(e) = as_list {
                let s = self.seq(&e)?;
                let no = self.collect(s)?;
                self.push(format!("let ret_ = acc{};", no));
                self.raw(&tail);
                self.push("ret_");
            } else if tail.is_empty() {
                self.stmts(&ss[n - 1..], true)?;
            } else {
                let t = squash(&ss[n - 1]);
                let b = self.anchored("before", &t);
                self.raw(&b);
                let e = match &ss[n - 1] {
                    Stmt::Expr(e, None) => e.clone(),
                    _ => return Err("tail".into()),
                };
                let v = self.expr(&e)?;
                let ty_ = self.spec.lets.get("ret_").map(|t| format!(": {}", t)).unwrap_or_default();
                self.push(format!("let ret_{} = {};", ty_, v));
                self.raw(&tail);
                self.push("ret_");
            }
        } else {
            self.stmts(ss, false)?;
            self.raw(&end);
        }
        for (no, l) in &self.spec.loops {
            if !l.used {
                return Err(format!("loop {} of the contract of {} is gone", no, self.spec.key));
            }
        }
        for a in &self.spec.anchors {
            if !a.3 {
                return Err(format!("statement '{}' of the contract of {} is gone", a.1, self.spec.key));
            }
        }
        if self.spec.opts.contains("index-any") {
            for l in self.out.iter_mut() {
                *l = l.replace(".v_index(", ".v_index_any(").replace(".v_index_mut(", ".v_index_mut_any(");
            }
        }
        head.append(&mut self.out);
        head.push("}".into());
        Ok(head)
    }
}

fn f_arity(f: &FnItem) -> usize {
    f.sig.inputs.len()
}
// names of lists and numbers: never taken for a method of the repository without a contract
fn vec_method(n: &str) -> bool {
    [
        "len", "push", "pop", "clone", "into", "get", "get_mut", "iter", "insert", "contains", "sort", "dedup", "swap", "resize", "clear", "is_empty",
        "last", "abs", "sqrt", "min", "max", "unwrap", "is_some", "is_none", "as_slice", "extend", "remove", "to_vec", "eq", "next",
    ]
    .contains(&n)
}

fn std_method(n: &str) -> bool {
    [
        "len", "push", "pop", "clone", "into", "get", "get_mut", "iter", "insert", "contains", "sort", "dedup", "swap", "resize", "clear", "is_empty",
        "last", "abs", "sqrt", "min", "max", "unwrap", "is_some", "is_none", "as_slice", "extend", "remove", "to_vec", "eq", "next", "fmt", "from",
        "add", "sub", "mul", "div", "index", "index_mut", "product", "mean",
    ]
    .contains(&n)
}

fn has_ref_pat(p: &Pat) -> bool {
    match p {
        Pat::Reference(_) => true,
        Pat::Tuple(t) => t.elems.iter().any(has_ref_pat),
        Pat::TupleStruct(t) => t.elems.iter().any(has_ref_pat),
        Pat::Paren(p) => has_ref_pat(&p.pat),
        _ => false,
    }
}

struct Returns(bool);
impl<'ast> syn::visit::Visit<'ast> for Returns {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
// an interval of numbers, not of positions
fn float_range(r: &syn::ExprRange) -> bool {
    let f = |e: &Option<Box<Expr>>| matches!(e.as_deref(), Some(Expr::Lit(ExprLit { lit: Lit::Float(_), .. })));
    r.start.is_some() && r.end.is_some() && (f(&r.start) || f(&r.end))
}
pub fn has_return(b: &Block) -> bool {
    use syn::visit::Visit;
    let mut r = Returns(false);
    r.visit_block(b);
    r.0
}

// ---- shape of a body: declared names in order, and its control flow
pub struct Shape {
    pub names: Vec<String>,
    pub flow: Vec<String>,
}
impl<'ast> syn::visit::Visit<'ast> for Shape {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.names.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        let n = match e {
            Expr::If(i) => {
                if squash(&i.cond) == "false" {
                    return;
                }
                "if"
            }
            Expr::ForLoop(_) => "for",
            Expr::While(_) => "while",
            Expr::Loop(_) => "loop",
            Expr::Match(_) => "match",
            Expr::Return(_) => "return",
            Expr::Break(_) => "break",
            Expr::Continue(_) => "continue",
            Expr::Closure(_) => "closure",
            Expr::Try(_) => "try",
            Expr::Range(_) => "range",
            _ => "",
        };
        if !n.is_empty() {
            self.flow.push(n.to_string());
        }
        match e {
            Expr::MethodCall(m) => self.flow.push(format!(".{}", m.method)),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    self.flow.push(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            Expr::Macro(m) => {
                self.flow.push(format!("{}!", squash(&m.mac.path)));
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
        if !n.is_empty() {
            self.flow.push(";".into());
        }
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        // statements that do nothing
        if let Stmt::Local(l) = s {
            if let (Pat::Wild(_), Some(i)) = (&l.pat, &l.init) {
                if matches!(*i.expr, Expr::Lit(_) | Expr::Path(_) | Expr::Tuple(_)) {
                    return;
                }
            }
        }
        syn::visit::visit_stmt(self, s);
    }
}
pub fn shape(f: &FnItem) -> Shape {
    use syn::visit::Visit;
    let mut s = Shape { names: vec![], flow: vec![] };
    for a in &f.sig.inputs {
        if let FnArg::Typed(t) = a {
            s.visit_pat(&t.pat);
        }
    }
    if let Some(b) = &f.block {
        s.visit_block(b);
    }
    s
}

#[allow(dead_code)]
fn _unused(_: TokenStream) {}
#[allow(dead_code)]
fn _span(e: &Expr) -> usize {
    e.span().start().line
}

fn pat_names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Tuple(t) => t.elems.iter().for_each(|p| pat_names(p, out)),
        Pat::Reference(r) => pat_names(&r.pat, out),
        Pat::Paren(r) => pat_names(&r.pat, out),
        Pat::Type(r) => pat_names(&r.pat, out),
        _ => {}
    }
}
// whether a loop ends with `break value`
fn breaks_with_value(stmts: &[Stmt]) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, b: &'a ExprBreak) {
            self.0 |= b.expr.is_some() && b.label.is_none();
        }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    for s in stmts {
        syn::visit::Visit::visit_stmt(&mut v, s);
    }
    v.0
}
