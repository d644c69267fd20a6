// extract TEMPLATE SOURCE-ROOT OUT.rs OUT.json [BASELINE.json]
//
// Fills a template with functions of the repository, translated mechanically into what the verifier
// reads. Writes the text, and a report: line ranges of each function, errors, what was left out.
mod index;
mod tr;

use index::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use tr::*;

struct Item {
    spec: FnSpec,
}

enum Part {
    Text(Vec<String>),
    Func(Item),
    Struct(String),
    SetType(String, String),
    Enum(String),
    Const(String),
    ConstFn(String, Vec<String>),
}

const CITED: &str = "// cited: proved by another template of the same check";
const CITED_END: &str = "// end of cited text";

// with `cite`, functions of included files keep their contracts and lose the proof of their bodies:
// only for checks whose other templates prove those bodies
fn read(path: &std::path::Path, seen: &mut BTreeSet<String>, out: &mut Vec<String>, cite: bool) -> Res<()> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@ include ") {
            if seen.insert(f.trim().to_string()) {
                if cite {
                    out.push(CITED.into());
                }
                read(&path.parent().unwrap().join(f.trim()), seen, out, false)?;
                if cite {
                    out.push(CITED_END.into());
                }
            }
        } else {
            out.push(l.to_string());
        }
    }
    Ok(())
}

// replaces identifiers in contract text
fn rename(v: &mut Vec<String>, m: &BTreeMap<String, String>) {
    if m.is_empty() {
        return;
    }
    for l in v.iter_mut() {
        let mut out = String::new();
        let mut w = String::new();
        let mut prev = ' ';
        for c in l.chars().chain(std::iter::once('\n')) {
            if c.is_alphanumeric() || c == '_' {
                if w.is_empty() {
                    prev = out.chars().last().unwrap_or(' ');
                }
                w.push(c);
            } else {
                if !w.is_empty() {
                    match m.get(&w) {
                        Some(x) if prev != '.' => out.push_str(x),
                        _ => out.push_str(&w),
                    }
                    w.clear();
                }
                if c != '\n' {
                    out.push(c);
                }
            }
        }
        *l = out;
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match run(&a) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("extract: {}", e);
            std::process::exit(2);
        }
    }
}

fn run(a: &[String]) -> Res<()> {
    let ix = RepoIndex::load(&a[2])?;
    let baseline: Value = match a.get(5) {
        Some(p) => serde_json::from_str(&std::fs::read_to_string(p).unwrap_or("{}".into())).map_err(|e| e.to_string())?,
        None => json!({}),
    };
    let mut lines = vec![];
    let cite = std::env::var("EXTRACT_CITE").map(|v| v == "1").unwrap_or(false);
    read(std::path::Path::new(&a[1]), &mut BTreeSet::new(), &mut lines, cite)?;

    let mut parts: Vec<Part> = vec![];
    let mut text: Vec<String> = vec![];
    let mut env = Env {
        ix: &ix,
        maps: BTreeSet::new(),
        veqs: BTreeSet::new(),
        seqs: BTreeMap::new(),
        known: BTreeSet::new(),
        types: BTreeMap::new(),
        calls: BTreeMap::new(),
        methods: BTreeMap::new(),
        notes: Default::default(),
    };
    let mut over: BTreeSet<String> = BTreeSet::new();
    let mut cur: Option<FnSpec> = None;
    let mut sec: String = String::new();
    let mut anchor: Option<usize> = None;
    let mut constfn: Option<(String, Vec<String>)> = None;
    for l in &lines {
        let t = l.trim();
        let d = match t.strip_prefix("//@ ") {
            Some(d) => d.trim(),
            None => {
                if let Some(c) = constfn.as_mut() {
                    c.1.push(l.clone());
                    continue;
                }
                match cur.as_mut() {
                    None => text.push(l.clone()),
                    Some(f) => {
                        let w: Vec<&str> = sec.split(' ').collect();
                        match w[0] {
                            "requires" => f.requires.push(l.clone()),
                            "ensures" => f.ensures.push(l.clone()),
                            "decreases" => f.decreases.push(l.clone()),
                            "start" => f.start.push(l.clone()),
                            "end" => f.end.push(l.clone()),
                            "tail" => f.tail.push(l.clone()),
                            "sig" => {
                                let s = f.sig.get_or_insert(String::new());
                                s.push_str(l);
                                s.push('\n');
                            }
                            "anchor" => f.anchors[anchor.unwrap()].2.push(l.clone()),
                            "loop" => {
                                let no: usize = w[1].parse().map_err(|_| format!("bad directive {}", sec))?;
                                let s = f.loops.entry(no).or_default();
                                match w.get(2).copied().unwrap_or("") {
                                    "" => s.clauses.push(l.clone()),
                                    "start" => s.start.push(l.clone()),
                                    "end" => s.end.push(l.clone()),
                                    "before" => s.before.push(l.clone()),
                                    "after" => s.after.push(l.clone()),
                                    x => return Err(format!("bad directive loop {}", x)),
                                }
                            }
                            "" if t.is_empty() || t.starts_with("//") => {}
                            _ => return Err(format!("text outside a section of {}: {}", f.key, l)),
                        }
                    }
                }
                continue;
            }
        };
        let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
        if cur.is_none() && constfn.is_none() {
            match w {
                "fn" => {
                    if !text.is_empty() {
                        parts.push(Part::Text(std::mem::take(&mut text)));
                    }
                    let mut key = rest.to_string();
                    let mut ret = None;
                    if let Some((k, r)) = rest.split_once(" -> ") {
                        key = k.trim().to_string();
                        ret = Some(r.trim().to_string());
                    }
                    cur = Some(FnSpec { key, ret, ..Default::default() });
                    sec = String::new();
                }
                "struct" => {
                    parts.push(Part::Text(std::mem::take(&mut text)));
                    parts.push(Part::Struct(rest.to_string()));
                }
                "enum" => {
                    parts.push(Part::Text(std::mem::take(&mut text)));
                    parts.push(Part::Enum(rest.to_string()));
                }
                "const" => {
                    parts.push(Part::Text(std::mem::take(&mut text)));
                    parts.push(Part::Const(rest.to_string()));
                }
                "constfn" => {
                    parts.push(Part::Text(std::mem::take(&mut text)));
                    constfn = Some((rest.to_string(), vec![]));
                }
                "map" => env.maps.extend(rest.split(' ').map(|x| x.to_string())),
                "veq" => env.veqs.extend(rest.split(' ').map(|x| x.to_string())),
                "overrides" => over.extend(rest.split(' ').map(|x| x.to_string())),
                "seq" => {
                    let (n, k) = rest.split_once(' ').unwrap_or((rest, "ref"));
                    env.seqs.insert(n.into(), k.into());
                }
                "known" => env.known.extend(rest.split(' ').map(|x| x.to_string())),
                "type" => {
                    let (n, k) = rest.split_once(' ').unwrap();
                    parts.push(Part::Text(std::mem::take(&mut text)));
                    parts.push(Part::SetType(n.into(), k.into()));
                }
                "call" => {
                    let (n, k) = rest.split_once(' ').unwrap();
                    env.calls.insert(n.into(), k.into());
                }
                "method" => {
                    let (n, k) = rest.split_once(' ').unwrap();
                    env.methods.insert(n.into(), k.into());
                }
                w => return Err(format!("unknown directive {}", w)),
            }
            continue;
        }
        if let Some(c) = constfn.take() {
            if w != "end" {
                return Err("constfn".into());
            }
            parts.push(Part::ConstFn(c.0, c.1));
            continue;
        }
        let f = cur.as_mut().unwrap();
        match w {
            "end" if rest.is_empty() && sec != "open" => {
                // "end" alone closes the block; the section before the tail is called "finish"
                let f = cur.take().unwrap();
                parts.push(Part::Func(Item { spec: f }));
                sec = String::new();
            }
            "as" => {
                f.name = Some(rest.to_string());
                sec = String::new();
            }
            "attr" => {
                f.attrs.push(rest.to_string());
                sec = String::new();
            }
            "refusal" => {
                f.diverge = true;
                f.refusal = Some(rest.to_string());
                sec = String::new();
            }
            "diverge" => {
                f.diverge = true;
                sec = String::new();
            }
            "opt" => {
                f.opts.insert(rest.to_string());
                sec = String::new();
            }
            "tupleidx" => {
                f.tuple_idx.extend(rest.split(' ').map(|x| x.to_string()));
                sec = String::new();
            }
            "oneidx" => {
                f.one_idx.extend(rest.split(' ').map(|x| x.to_string()));
                sec = String::new();
            }
            "let" => {
                let (p, t) = rest.split_once(" : ").ok_or("let directive")?;
                f.lets.insert(p.trim().into(), t.trim().into());
                sec = String::new();
            }
            "requires" | "ensures" | "decreases" | "start" | "tail" | "sig" => sec = w.to_string(),
            "finish" => sec = "end".into(),
            "before" | "after" => {
                f.anchors.push((w.into(), squash_str(rest), vec![], false));
                anchor = Some(f.anchors.len() - 1);
                sec = "anchor".into();
            }
            "loop" => {
                let ws: Vec<&str> = rest.split(' ').collect();
                let no: usize = ws[0].parse().map_err(|_| format!("bad directive {}", d))?;
                let s = f.loops.entry(no).or_default();
                if let Some(x) = ws.get(1) {
                    if let Some(i) = x.strip_prefix("int=") {
                        s.int = Some(i.into());
                        sec = format!("loop {}", no);
                        continue;
                    }
                    if let Some(i) = x.strip_prefix("sum=") {
                        s.sum = Some(i.into());
                        sec = format!("loop {}", no);
                        continue;
                    }
                }
                sec = format!("loop {}", rest);
            }
            w => return Err(format!("unknown directive {} in {}", w, f.key)),
        }
    }
    if let Some(f) = cur {
        return Err(format!("{} is not closed", f.key));
    }
    parts.push(Part::Text(text));

    // functions the contract text knows: extracted ones and those written in the template
    for p in &parts {
        match p {
            Part::Func(i) => {
                let k = &i.spec.key;
                let n = k.rsplit("::").next().unwrap().to_string();
                let head = &k[..k.len() - n.len() - 2];
                let n = if i.spec.opts.contains("hidden") { continue } else { n };
                if let Some((_, ty)) = head.split_once(" for ") {
                    env.known.insert(format!("{}::{}", base(ty), n));
                } else if let Some(t) = head.strip_prefix("trait ") {
                    env.known.insert(format!("{}::{}", t, n));
                    env.known.insert(format!("*::{}", n));
                } else {
                    env.known.insert(format!("{}::{}", base(head), n));
                    env.known.insert(n);
                }
            }
            Part::Text(v) => {
                for l in v {
                    let mut rest = l.as_str();
                    while let Some(i) = rest.find("fn ") {
                        let s = &rest[i + 3..];
                        let n: String = s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                        if !n.is_empty() && !l[..l.len() - rest.len() + i].trim_end().ends_with("spec")
                            && !l[..l.len() - rest.len() + i].trim_end().ends_with("proof")
                        {
                            env.known.insert(n.clone());
                            env.known.insert(format!("*::{}", n));
                            env.known.insert(format!("?::{}", n));
                        }
                        rest = s;
                    }
                }
            }
            Part::ConstFn(k, _) => {
                env.known.insert(k.clone());
            }
            _ => {}
        }
    }

    let mut out: Vec<String> = vec![];
    let mut report = vec![];
    let mut errors = vec![];
    for p in parts {
        match p {
            Part::Text(v) => out.extend(v),
            Part::SetType(n, k) => {
                if k == "-" {
                    env.types.remove(&n);
                } else {
                    env.types.insert(n, k);
                }
            }
            Part::Struct(spec) => {
                let (n, attrs) = spec.split_once(' ').map(|x| (x.0.to_string(), x.1.to_string())).unwrap_or((spec.clone(), String::new()));
                // "only a b": the other fields are left out; a function naming one is then not accepted
                let (attrs, only) = match attrs.split_once("only ") {
                    Some((a, o)) => (a.to_string(), Some(o.split(' ').map(|x| x.to_string()).collect::<Vec<_>>())),
                    None => (attrs, None),
                };
                if only.is_some() {
                    env.notes.borrow_mut().insert(format!("fields of {} other than {:?} are left out", n, only.clone().unwrap()));
                }
                match ix.structs.get(&n).map(|v| v.as_slice()) {
                    Some([s]) => {
                        if !attrs.is_empty() {
                            out.push(attrs);
                        }
                        // a parameter fixed by "type T X" is no parameter any more
                        let g: Vec<String> = s.generics.params.iter().filter(|p| !matches!(p, syn::GenericParam::Type(t) if env.types.contains_key(&t.ident.to_string()))).map(|p| squash(p)).collect();
                        let g = g.join(", ");
                        let g = if g.is_empty() { String::new() } else { format!("<{}>", map_type(&g, &env)) };
                        match &s.fields {
                            syn::Fields::Named(fs) => {
                                out.push(format!("pub struct {}{} {{", n, g));
                                for f in &fs.named {
                                    if let Some(o) = &only {
                                        if !o.contains(&f.ident.as_ref().unwrap().to_string()) {
                                            continue;
                                        }
                                    }
                                    out.push(format!("    pub {}: {},", f.ident.as_ref().unwrap(), map_type(&squash(&f.ty), &env)));
                                }
                                out.push("}".into());
                            }
                            syn::Fields::Unnamed(fs) => {
                                let v: Vec<String> = fs.unnamed.iter().map(|f| format!("pub {}", map_type(&squash(&f.ty), &env))).collect();
                                out.push(format!("pub struct {}{}({});", n, g, v.join(", ")));
                            }
                            syn::Fields::Unit => out.push(format!("pub struct {};", n)),
                        }
                    }
                    _ => errors.push(format!("struct {} not found", n)),
                }
            }
            Part::Enum(spec) => {
                let (n, attrs) = spec.split_once(' ').map(|x| (x.0.to_string(), x.1.to_string())).unwrap_or((spec.clone(), String::new()));
                match ix.enums.get(&n).map(|v| v.as_slice()) {
                    Some([s]) => {
                        if !attrs.is_empty() {
                            out.push(attrs);
                        }
                        let g: Vec<String> = s.generics.type_params().map(|t| t.ident.to_string()).collect();
                        let g = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
                        out.push(format!("pub enum {}{} {{", n, g));
                        for v in &s.variants {
                            out.push(format!("    {}{},", v.ident, map_type(&squash(&v.fields), &env)));
                        }
                        out.push("}".into());
                    }
                    _ => errors.push(format!("enum {} not found", n)),
                }
            }
            Part::Const(n) => match ix.consts.get(&n).map(|v| v.as_slice()) {
                Some([c]) => out.push(format!("pub const {}: {} = {};", n.rsplit("::").next().unwrap(), map_type(&squash(&c.ty), &env), squash(&c.expr))),
                _ => errors.push(format!("const {} not found", n)),
            },
            Part::ConstFn(n, spec) => match ix.consts.get(&n).map(|v| v.as_slice()) {
                Some([c]) => {
                    let spec_ = FnSpec { key: format!("const {}", n), ..Default::default() };
                    let mut t = Tr::new(&env, spec_);
                    let start = out.len() + 1;
                    let ty = map_type(&squash(&c.ty), &env).replace("&[", "&'static [");
                    // a table of slices holds copies of them
                    let (ty, val) = match table(&c) {
                        Some((k, es)) => {
                            let vs: Result<Vec<String>, String> = es.iter().map(|e| match e {
                                syn::Expr::Array(a) if a.elems.is_empty() => Ok("Vec::new()".to_string()),
                                e => t.expr(e).map(|v| format!("({}).v_to_vec()", v)),
                            }).collect();
                            (format!("[Vec<R>; {}]", k), vs.map(|v| format!("[{}]", v.join(", "))))
                        }
                        None => (ty, t.expr(&c.expr)),
                    };
                    match val {
                        Ok(v) => {
                            out.push(format!("pub fn {}() -> (res: {})", n, ty));
                            out.extend(spec);
                            out.push(format!("{{ {} }}", v));
                            report.push(json!({"key": format!("const {}", n), "start": start, "end": out.len(), "same_shape": true, "file": "", "line": c.ident.span().start().line, "inlined": Vec::<String>::new()}));
                        }
                        Err(e) => errors.push(format!("const {}: {}", n, e)),
                    }
                }
                _ => errors.push(format!("const {} not found", n)),
            },
            Part::Func(i) => {
                let mut spec = i.spec;
                let key = spec.key.clone();
                let label = spec.name.clone().map(|n| format!("{} ({})", key, n)).unwrap_or(key.clone());
                let f = match ix.func(&key) {
                    Ok(f) => f.clone(),
                    Err(e) => {
                        errors.push(e);
                        continue;
                    }
                };
                // a default method stands for every type only when no type has its own
                if let Some(k) = key.strip_prefix("trait ") {
                    let (t, m) = k.split_once("::").unwrap_or((k, ""));
                    let own: Vec<String> = ix
                        .fns
                        .keys()
                        .filter(|x| x.strip_prefix(t).map(|x| x.starts_with(" for ")).unwrap_or(false) && x.ends_with(&format!("::{}", m)))
                        .map(|x| format!("{}::{}", base(&x[t.len() + 5..x.len() - m.len() - 2]), m))
                        .filter(|x| !over.contains(x))
                        .collect();
                    if !own.is_empty() {
                        errors.push(format!("{} is replaced by {:?}", key, own));
                    }
                }
                let sh = shape(&f);
                let mut same = true;
                if let Some(b) = baseline.get(&key) {
                    let names: Vec<String> =
                        b["names"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
                    let flow = b["flow"].as_str().unwrap_or("");
                    same = flow == sh.flow.join(" ");
                    if names.len() == sh.names.len() {
                        let mut m = BTreeMap::new();
                        for (o, n) in names.iter().zip(&sh.names) {
                            if o != n {
                                m.insert(o.clone(), n.clone());
                            }
                        }
                        for v in [&mut spec.requires, &mut spec.ensures, &mut spec.decreases, &mut spec.start, &mut spec.end, &mut spec.tail] {
                            rename(v, &m);
                        }
                        if let Some(s) = spec.sig.take() {
                            let mut v = vec![s];
                            rename(&mut v, &m);
                            spec.sig = v.pop();
                        }
                        for l in spec.loops.values_mut() {
                            for v in [&mut l.clauses, &mut l.start, &mut l.end, &mut l.before, &mut l.after] {
                                rename(v, &m);
                            }
                        }
                        spec.lets = spec.lets.drain().map(|(k, v)| (m.get(&k).cloned().unwrap_or(k), v)).collect();
                        spec.tuple_idx = spec.tuple_idx.iter().map(|k| m.get(k).cloned().unwrap_or(k.clone())).collect();
                        spec.one_idx = spec.one_idx.iter().map(|k| m.get(k).cloned().unwrap_or(k.clone())).collect();
                        for a in spec.anchors.iter_mut() {
                            rename(&mut a.2, &m);
                            let mut p = vec![a.1.clone()];
                            rename(&mut p, &m);
                            a.1 = p.pop().unwrap();
                        }
                    }
                }
                let base_inl = baseline.get(&key).map(|b| b["inl"].clone());
                let mut t = Tr::new(&env, spec);
                let start = out.len() + 1;
                match t.function(&f) {
                    Ok(v) => {
                        for x in v {
                            out.extend(x.split('\n').map(|s| s.to_string()));
                        }
                        // functions written out in place count as part of the shape
                        let mut inl = serde_json::Map::new();
                        for n in &t.inlined {
                            let fl: Vec<String> = ix
                                .fns
                                .iter()
                                .filter(|(k, _)| k.rsplit("::").next() == Some(n.as_str()))
                                .flat_map(|(_, v)| v.iter().map(|f| shape(f).flow.join(" ")))
                                .collect();
                            inl.insert(n.clone(), json!(fl.join(" | ")));
                        }
                        if let Some(b) = base_inl {
                            same = same && inl.iter().all(|(k, v)| b.get(k) == Some(v));
                        }
                        report.push(json!({"key": key, "label": label, "start": start, "end": out.len(), "same_shape": same, "inl": inl,
                            "file": f.file, "line": f.line, "inlined": t.inlined.iter().collect::<Vec<_>>(),
                            "names": sh.names, "flow": sh.flow.join(" ")}));
                    }
                    Err(e) => errors.push(format!("{}: {}", key, e)),
                }
            }
        }
    }
    let text = out.join("\n") + "\n";
    let text = if cite { cited(&text) } else { text };
    std::fs::write(&a[3], text).map_err(|e| e.to_string())?;
    let r = json!({"functions": report, "errors": errors, "notes": env.notes.borrow().iter().collect::<Vec<_>>()});
    std::fs::write(&a[4], serde_json::to_string_pretty(&r).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}

// marks the functions between the markers external_body
fn cited(text: &str) -> String {
    let c: Vec<char> = text.chars().collect();
    let mut ins: Vec<usize> = vec![];
    let (mut i, mut on) = (0, false);
    let ident = |k: usize| c.get(k).map(|x| x.is_alphanumeric() || *x == '_').unwrap_or(false);
    let starts = |k: usize, w: &str| c[k..].iter().take(w.len()).collect::<String>() == w;
    // one past a comment or literal starting here
    let skip = |k: usize| -> Option<usize> {
        if c[k] == '/' && c.get(k + 1) == Some(&'/') {
            let mut j = k;
            while j < c.len() && c[j] != '\n' {
                j += 1;
            }
            return Some(j);
        }
        if c[k] == '"' {
            let mut j = k + 1;
            while j < c.len() && c[j] != '"' {
                j += if c[j] == '\\' { 2 } else { 1 };
            }
            return Some(j + 1);
        }
        None
    };
    // one past the group opening here
    let group = |k: usize| -> usize {
        let (mut j, mut d) = (k, 0);
        while j < c.len() {
            if let Some(n) = skip(j) {
                j = n;
                continue;
            }
            match c[j] {
                '(' | '[' | '{' => d += 1,
                ')' | ']' | '}' => {
                    d -= 1;
                    if d == 0 {
                        return j + 1;
                    }
                }
                _ => {}
            }
            j += 1;
        }
        j
    };
    while i < c.len() {
        if starts(i, CITED) {
            on = true;
        }
        if starts(i, CITED_END) {
            on = false;
        }
        if let Some(n) = skip(i) {
            i = n;
            continue;
        }
        if !(on && starts(i, "fn ") && (i == 0 || !ident(i - 1)) && ident(i + 3)) {
            i += 1;
            continue;
        }
        // what stands before it
        let (mut p, mut spec) = (i, false);
        loop {
            let mut q = p;
            while q > 0 && (c[q - 1] == ' ' || c[q - 1] == '\t') {
                q -= 1;
            }
            let e = q;
            if q > 0 && c[q - 1] == ')' {
                while q > 0 && c[q - 1] != '(' {
                    q -= 1;
                }
                q -= 1;
            }
            while q > 0 && ident(q - 1) {
                q -= 1;
            }
            let w: String = c[q..e].iter().collect();
            match w.split('(').next().unwrap() {
                "pub" | "proof" | "exec" | "broadcast" | "const" | "open" | "closed" => p = q,
                "spec" => {
                    spec = true;
                    p = q;
                }
                _ => break,
            }
        }
        let before: String = c[..p].iter().rev().take_while(|x| !matches!(x, ';' | '{' | '}')).collect::<Vec<_>>().into_iter().rev().collect();
        // the body is the group another item follows
        let mut j = i + 3;
        let body = loop {
            if j >= c.len() || c[j] == ';' {
                break None;
            }
            if let Some(n) = skip(j) {
                j = n;
                continue;
            }
            match c[j] {
                '(' | '[' => j = group(j),
                '{' => {
                    let g = group(j);
                    let mut k = g;
                    loop {
                        while k < c.len() && c[k].is_whitespace() {
                            k += 1;
                        }
                        match if k < c.len() { skip(k) } else { None } {
                            Some(n) if c[k] == '/' => k = n,
                            _ => break,
                        }
                    }
                    let w: String = c[k.min(c.len())..].iter().take_while(|x| x.is_alphanumeric() || **x == '_').collect();
                    let next = k >= c.len()
                        || c[k] == '}'
                        || c[k] == '#'
                        || ["fn", "pub", "proof", "spec", "open", "closed", "impl", "trait", "struct", "enum", "const", "broadcast", "exec", "type", "uninterp", "axiom", "use", "mod", "verus", "assume_specification"].contains(&w.as_str());
                    if next {
                        break Some(g);
                    }
                    j = g;
                }
                _ => j += 1,
            }
        };
        let name: String = c[i + 3..].iter().take_while(|x| x.is_alphanumeric() || **x == '_').collect();
        if let (Some(g), false) = (body, spec) {
            if !before.contains("external_body") && name != "main" {
                ins.push(p);
            }
            i = g;
            continue;
        }
        i = j.max(i + 3);
    }
    let mut out = String::new();
    let mut k = 0;
    for p in ins {
        out.extend(&c[k..p]);
        out.push_str("#[verifier::external_body] ");
        k = p;
    }
    out.extend(&c[k..]);
    out
}

fn base(s: &str) -> &str {
    s.split('<').next().unwrap()
}

fn table(c: &syn::ItemConst) -> Option<(usize, Vec<syn::Expr>)> {
    if !squash(&c.ty).starts_with("[&[f64];") {
        return None;
    }
    match &*c.expr {
        syn::Expr::Array(a) => {
            let v: Vec<syn::Expr> = a.elems.iter().map(|e| match e {
                syn::Expr::Reference(r) => (*r.expr).clone(),
                e => e.clone(),
            }).collect();
            Some((v.len(), v))
        }
        _ => None,
    }
}
