//! Locating items in the project's source, with cfg evaluation.
use super::*;

pub struct Sources {
    repo: PathBuf,
    files: HashMap<String, File>,
}

#[derive(Clone)]
pub struct Found {
    pub path: String,
    pub owner: Option<String>,
    #[allow(dead_code)]
    pub owner_generics: Generics,
    pub sig: Signature,
    pub block: Block,
    pub is_trait_impl: bool,
}

pub fn cfg_on(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if !a.path().is_ident("cfg") {
            return true;
        }
        let Meta::List(l) = &a.meta else { return true };
        eval(&l.tokens)
    })
}

fn eval(ts: &TokenStream) -> bool {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let TokenTree::Ident(id) = &v[0] else { return true };
    let id = id.to_string();
    if let Some(TokenTree::Group(g)) = v.get(1) {
        let mut parts: Vec<TokenStream> = vec![];
        let mut cur = TokenStream::new();
        for t in g.stream() {
            if let TokenTree::Punct(p) = &t {
                if p.as_char() == ',' {
                    parts.push(std::mem::take(&mut cur));
                    continue;
                }
            }
            cur.extend([t]);
        }
        if !cur.is_empty() {
            parts.push(cur);
        }
        return match id.as_str() {
            "all" => parts.iter().all(eval),
            "any" => parts.iter().any(eval),
            "not" => !eval(&parts[0]),
            _ => true,
        };
    }
    if v.len() == 3 {
        let val = v[2].to_string();
        let val = val.trim_matches('"');
        return match id.as_str() {
            "feature" => ["lsp", "dap", "server", "system"].contains(&val),
            "target_os" => val == "linux",
            "target_family" => val == "unix",
            "target_arch" => val == "x86_64",
            "target_pointer_width" => val == "64",
            _ => false,
        };
    }
    matches!(id.as_str(), "unix" | "debug_assertions")
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

impl Sources {
    pub fn new(repo: PathBuf) -> Self {
        Self { repo, files: HashMap::new() }
    }
    pub fn used(&self) -> Vec<String> {
        let mut v: Vec<_> = self.files.keys().cloned().collect();
        v.sort();
        v
    }
    pub fn load(&mut self, path: &str) -> File {
        if !self.files.contains_key(path) {
            let p = self.repo.join(path);
            let f = std::fs::read_to_string(&p)
                .ok()
                .and_then(|t| match parse_file(&t) {
                    Ok(mut f) => {
                        hoist(&mut f.items);
                        Some(f)
                    }
                    Err(e) => die(format!("cannot parse {path}: {e}")),
                })
                .unwrap_or_else(|| File { shebang: None, attrs: vec![], items: vec![] });
            self.files.insert(path.to_string(), f);
        }
        self.files[path].clone()
    }
    /// All source files of the crate containing `path`, the file itself first.
    pub fn crate_files(&mut self, path: &str) -> Vec<String> {
        let mut v = vec![path.to_string()];
        let i = path.find("/src/").map(|i| i + 4).unwrap_or(0);
        let root = self.repo.join(&path[..i]);
        let mut st = vec![root];
        while let Some(d) = st.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for e in es {
                if e.is_dir() {
                    st.push(e);
                } else if e.extension().map(|x| x == "rs").unwrap_or(false) {
                    let r = e.strip_prefix(&self.repo).unwrap().to_string_lossy().to_string();
                    if !v.contains(&r) {
                        v.push(r);
                    }
                }
            }
        }
        v
    }
    /// `spec`: `name`, `Type::name`, `Trait@Type::name`
    pub fn find_fn(&mut self, path: &str, spec: &str) -> Option<Found> {
        for p in self.crate_files(path) {
            let f = self.load(&p);
            if let Some(x) = find_in(&f.items, &p, spec) {
                return Some(x);
            }
        }
        None
    }
    pub fn find_fn_here(&mut self, path: &str, spec: &str) -> Option<Found> {
        let f = self.load(path);
        find_in(&f.items, path, spec)
    }
    pub fn find_type(&mut self, path: &str, name: &str) -> Option<Item> {
        for p in self.crate_files(path) {
            let f = self.load(&p);
            if let Some(i) = find_item(&f.items, &|i| match i {
                Item::Struct(s) => s.ident == name && cfg_on(&s.attrs),
                Item::Enum(s) => s.ident == name && cfg_on(&s.attrs),
                _ => false,
            }) {
                return Some(i);
            }
        }
        None
    }
    pub fn find_const(&mut self, path: &str, name: &str) -> Option<ItemConst> {
        for p in self.crate_files(path) {
            let f = self.load(&p);
            if let Some(Item::Const(c)) =
                find_item(&f.items, &|i| matches!(i, Item::Const(c) if c.ident == name && cfg_on(&c.attrs)))
            {
                return Some(c);
            }
            // associated constants
            for it in &f.items {
                if let Item::Impl(im) = it {
                    for x in &im.items {
                        if let ImplItem::Const(c) = x {
                            if c.ident == name {
                                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                                return parse2(quote!(const #i: #t = #e;)).ok();
                            }
                        }
                    }
                }
            }
        }
        None
    }
    /// macro_rules definitions visible in a file
    pub fn macros(&mut self, path: &str) -> HashMap<String, ItemMacro> {
        let f = self.load(path);
        let mut m = HashMap::new();
        collect_macros(&f.items, &mut m);
        m
    }
}

/// function items inside function bodies cannot capture: they are put next to the function
struct Hoist {
    found: Vec<ItemFn>,
    taken: BTreeSet<String>,
}
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Fn(f)) if cfg_on(&f.attrs) && !self.taken.contains(&f.sig.ident.to_string()) => {
                    self.taken.insert(f.sig.ident.to_string());
                    self.found.push(f);
                }
                s => keep.push(s),
            }
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_mod_mut(&mut self, _: &mut ItemMod) {}
}
fn hoist(items: &mut Vec<Item>) {
    let mut h = Hoist { found: vec![], taken: BTreeSet::new() };
    for i in items.iter() {
        if let Item::Fn(f) = i {
            h.taken.insert(f.sig.ident.to_string());
        }
    }
    for i in items.iter_mut() {
        match i {
            Item::Mod(m) => {
                if m.ident != "tests" && m.ident != "test" {
                    if let Some((_, it)) = &mut m.content {
                        hoist(it);
                    }
                }
            }
            i => h.visit_item_mut(i),
        }
    }
    while let Some(mut f) = h.found.pop() {
        h.visit_item_fn_mut(&mut f);
        items.push(Item::Fn(f));
    }
}

fn collect_macros(items: &[Item], m: &mut HashMap<String, ItemMacro>) {
    for i in items {
        match i {
            Item::Macro(x) => {
                if let Some(id) = &x.ident {
                    m.insert(id.to_string(), x.clone());
                }
            }
            Item::Mod(md) => {
                if let Some((_, it)) = &md.content {
                    collect_macros(it, m)
                }
            }
            _ => {}
        }
    }
}

fn find_item(items: &[Item], pred: &dyn Fn(&Item) -> bool) -> Option<Item> {
    for i in items {
        if pred(i) {
            return Some(i.clone());
        }
        if let Item::Mod(m) = i {
            if !cfg_on(&m.attrs) || m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
                continue;
            }
            if let Some((_, it)) = &m.content {
                if let Some(x) = find_item(it, pred) {
                    return Some(x);
                }
            }
        }
    }
    None
}

fn find_in(items: &[Item], path: &str, spec: &str) -> Option<Found> {
    let (trait_, rest) = match spec.split_once('@') {
        Some((t, r)) => (Some(t), r),
        None => (None, spec),
    };
    let (owner, name) = match rest.rsplit_once("::") {
        Some((o, n)) => (Some(o), n),
        None => (None, rest),
    };
    for i in items {
        match i {
            Item::Fn(f) if owner.is_none() && trait_.is_none() => {
                if f.sig.ident == name && cfg_on(&f.attrs) {
                    return Some(Found {
                        path: path.into(),
                        owner: None,
                        owner_generics: Generics::default(),
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        is_trait_impl: false,
                    });
                }
            }
            Item::Impl(im) if owner.is_some() => {
                if !cfg_on(&im.attrs) || type_name(&im.self_ty) != owner.unwrap() {
                    // full type text may be given as well
                    continue;
                }
                match (&im.trait_, trait_) {
                    (Some((_, p, _)), Some(t)) => {
                        // allow `Trait` or `Trait<X>` written without spaces
                        let last = p.segments.last().unwrap();
                        let full = last.to_token_stream().to_string().replace(' ', "");
                        if last.ident != t && full != t {
                            continue;
                        }
                    }
                    (None, None) => {}
                    (Some(_), None) => {}
                    _ => continue,
                }
                for it in &im.items {
                    if let ImplItem::Fn(f) = it {
                        if f.sig.ident == name && cfg_on(&f.attrs) {
                            return Some(Found {
                                path: path.into(),
                                owner: Some(owner.unwrap().into()),
                                owner_generics: im.generics.clone(),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                is_trait_impl: im.trait_.is_some(),
                            });
                        }
                    }
                }
            }
            Item::Trait(t) if owner.is_some() && t.ident == owner.unwrap() => {
                for it in &t.items {
                    if let TraitItem::Fn(f) = it {
                        if f.sig.ident == name && f.default.is_some() {
                            return Some(Found {
                                path: path.into(),
                                owner: Some(owner.unwrap().into()),
                                owner_generics: t.generics.clone(),
                                sig: f.sig.clone(),
                                block: f.default.clone().unwrap(),
                                is_trait_impl: true,
                            });
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if !cfg_on(&m.attrs) {
                    continue;
                }
                if m.ident == "tests" || m.ident == "test" {
                    continue;
                }
                if let Some((_, it)) = &m.content {
                    if let Some(x) = find_in(it, path, spec) {
                        return Some(x);
                    }
                    // module-qualified free function: `sys::lock_shared`
                    if let Some(o) = owner {
                        if m.ident == o && trait_.is_none() {
                            if let Some(mut x) = find_in(it, path, name) {
                                x.owner = None;
                                return Some(x);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}
