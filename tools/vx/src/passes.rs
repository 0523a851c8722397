//! The listed transformations between the project's text and the verified text.
use super::*;
use crate::elim::{has_exit_b, value_block, Exit};

pub fn run(
    src: &mut Sources,
    found: &Found,
    sig: &mut Signature,
    block: &mut Block,
    cfg: &UnitCfg,
    notes: &mut BTreeSet<String>,
) {
    crate::elim::EXIT_INTO.store(cfg.opts.contains("exit_into"), std::sync::atomic::Ordering::Relaxed);
    crate::elim::LOOPS.store(0, std::sync::atomic::Ordering::Relaxed);
    let macros = src.macros(&found.path);
    clean(block, &macros, cfg, notes);
    // helpers that the template does not know are inlined
    for _ in 0..6 {
        let mut inl = Inliner { src, found, cfg, macros: &macros, notes, changed: false, depth: 0, temps: 0, closures: HashMap::new() };
        inl.visit_block_mut(block);
        if !inl.changed {
            break;
        }
    }
    let mut dl = DeLabel { notes };
    dl.visit_block_mut(block);
    let mut cb = Combinators { n: 0, cfg, notes };
    cb.visit_block_mut(block);
    let mut rp = RefPats { notes };
    rp.visit_block_mut(block);
    let mut ap = Apply { rules: &cfg.rules };
    ap.visit_block_mut(block);
    ap.visit_signature_mut(sig);
    if cfg.opts.contains("guards") {
        let mut g = Guards { notes };
        g.visit_block_mut(block);
    }
    let mut th = Thread { cfg };
    th.visit_block_mut(block);
    // signature
    for a in &mut sig.inputs {
        match a {
            FnArg::Typed(t) => t.attrs.clear(),
            FnArg::Receiver(r) => r.attrs.clear(),
        }
    }
    sig.asyncness = None;
}

// ---------------------------------------------------------------- cleaning

pub fn clean(block: &mut Block, macros: &HashMap<String, ItemMacro>, cfg: &UnitCfg, notes: &mut BTreeSet<String>) {
    let mut c = Clean { macros, cfg, notes };
    c.visit_block_mut(block);
}

struct Clean<'a> {
    macros: &'a HashMap<String, ItemMacro>,
    cfg: &'a UnitCfg,
    notes: &'a mut BTreeSet<String>,
}

fn mac_name(m: &Macro) -> String {
    m.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn is_log(n: &str) -> bool {
    let l = n.rsplit("::").next().unwrap();
    matches!(l, "trace" | "debug" | "info" | "warn" | "error" | "println" | "eprintln" | "dbg" | "eprint" | "print")
}

fn pure_noop(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(pure_noop),
        Expr::Paren(p) => pure_noop(&p.expr),
        Expr::Group(p) => pure_noop(&p.expr),
        Expr::Reference(r) => pure_noop(&r.expr),
        Expr::Block(b) => b.label.is_none() && b.block.stmts.is_empty(),
        Expr::Cast(c) => pure_noop(&c.expr),
        Expr::Unary(u) => !matches!(u.op, UnOp::Deref(_)) && pure_noop(&u.expr),
        Expr::Binary(b) => matches!(&*b.left, Expr::Lit(_)) && matches!(&*b.right, Expr::Lit(_)) && matches!(b.op, BinOp::Add(_) | BinOp::Eq(_) | BinOp::Ne(_)),
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            (f.ends_with("black_box") || f == "drop" || f.ends_with("mem::drop") || f.ends_with("convert::identity"))
                && c.args.iter().all(|a| matches!(a, Expr::Lit(_) | Expr::Tuple(_)) && pure_noop(a))
        }
        _ => false,
    }
}

impl Clean<'_> {
    fn expand(&mut self, m: &Macro) -> Option<Expr> {
        let n = mac_name(m);
        for (name, rep) in &self.cfg.rules.macros {
            if *name == n || *name == n.rsplit("::").next().unwrap() {
                let rep = rep.replace("$args", "__args");
                let ts = TokenStream::from_str(&rep).ok()?;
                let ts = subst_args(ts, &m.tokens);
                return Some(parse2(ts.clone()).unwrap_or_else(|e| die(format!("macro rule {n}: {ts}: {e}"))));
            }
        }
        let last = n.rsplit("::").next().unwrap().to_string();
        if is_log(&last) {
            self.notes.insert("dropped log/print macros".into());
            return Some(parse_quote!(()));
        }
        match last.as_str() {
            "format" | "eco_format" if self.cfg.opts.contains("fmt_concat") && fmt_concat(m).is_some() => {
                self.notes.insert("format! with plain placeholders expanded to a concatenation".into());
                return fmt_concat(m);
            }
            "write" if self.cfg.opts.contains("fmt_concat") => {
                let mut ts = m.tokens.clone().into_iter();
                let to: TokenStream = ts.by_ref().take_while(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == ',')).collect();
                let to: Expr = parse2(to).ok()?;
                let mut f = m.clone();
                f.tokens = ts.collect();
                let e = fmt_concat(&f)?;
                self.notes.insert("write! with plain placeholders expanded to a concatenation".into());
                return Some(parse_quote!(#to.vx_write_fmt(#e)));
            }
            "format" | "eco_format" => {
                self.notes.insert("format! made opaque".into());
                return Some(parse_quote!(vx_format()));
            }
            "assert" | "debug_assert" => {
                let args: syn::punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                let e = args.first()?;
                return Some(parse_quote!(vx_assert(#e)));
            }
            "assert_eq" | "debug_assert_eq" => {
                let args: syn::punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                let (a, b) = (args.get(0)?, args.get(1)?);
                return Some(parse_quote!(vx_assert(#a == #b)));
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                return Some(parse_quote!(vx_panic()));
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<M> {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _: Option<Token![,]> = i.parse()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = parse2(m.tokens.clone()).ok()?;
                let g = g.map(|g| quote!(if #g));
                return Some(parse_quote!(match #e { #p #g => true, _ => false }));
            }
            "vec" => {
                let args: syn::punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                if args.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let a = args.iter();
                return Some(parse_quote!({ let mut vx_vec = Vec::new(); #(vx_vec.push(#a);)* vx_vec }));
            }
            _ => {}
        }
        // a macro_rules of the same file with one arm of simple fragments
        let def = self.macros.get(&last)?;
        expand_simple(def, &m.tokens)
    }
}

/// `format!("a{x}b{}", y)` as `vx_fadd(vx_fadd(vx_fadd(vx_flit("a"), vx_fdisp(&x)), vx_flit("b")), vx_fdisp(&y))`
fn fmt_concat(m: &Macro) -> Option<Expr> {
    let args: syn::punctuated::Punctuated<Expr, Token![,]> =
        m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
    let mut args = args.into_iter();
    let Expr::Lit(ExprLit { lit: Lit::Str(f), .. }) = args.next()? else { return None };
    let rest: Vec<Expr> = args.collect();
    let f = f.value();
    let mut parts: Vec<Expr> = vec![];
    let (mut lit, mut used) = (String::new(), 0);
    let mut it = f.chars().peekable();
    fn flush(lit: &mut String, parts: &mut Vec<Expr>) {
        if !lit.is_empty() {
            parts.push(parse_quote!(vx_flit(#lit)));
            lit.clear();
        }
    }
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                lit.push('{');
            }
            '}' => {
                if it.next() != Some('}') {
                    return None;
                }
                lit.push('}');
            }
            '{' => {
                let mut name = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => name.push(c),
                    }
                }
                flush(&mut lit, &mut parts);
                if name.is_empty() {
                    let e = rest.get(used)?;
                    used += 1;
                    parts.push(parse_quote!(vx_fdisp(&#e)));
                } else {
                    let id: Ident = parse_str(&name).ok()?;
                    parts.push(parse_quote!(vx_fdisp(&#id)));
                }
            }
            c => lit.push(c),
        }
    }
    flush(&mut lit, &mut parts);
    if used != rest.len() {
        return None;
    }
    let mut p = parts.into_iter();
    let Some(mut e) = p.next() else { return Some(parse_quote!(vx_flit(""))) };
    for x in p {
        e = parse_quote!(vx_fadd(#e, #x));
    }
    Some(e)
}

fn subst_args(ts: TokenStream, args: &TokenStream) -> TokenStream {
    let mut o = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Ident(ref i) if i == "__args" => o.extend(args.clone()),
            TokenTree::Group(g) => {
                o.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst_args(g.stream(), args)))])
            }
            t => o.extend([t]),
        }
    }
    o
}

fn expand_simple(def: &ItemMacro, args: &TokenStream) -> Option<Expr> {
    let toks: Vec<TokenTree> = def.mac.tokens.clone().into_iter().collect();
    let (TokenTree::Group(pat), TokenTree::Group(body)) = (toks.first()?, toks.get(3)?) else { return None };
    if toks.len() > 5 {
        return None;
    }
    // names in order
    let mut names = vec![];
    let p: Vec<TokenTree> = pat.stream().into_iter().collect();
    let mut i = 0;
    while i < p.len() {
        if let TokenTree::Punct(q) = &p[i] {
            if q.as_char() == '$' {
                let TokenTree::Ident(id) = p.get(i + 1)? else { return None };
                names.push(id.to_string());
                i += 4;
                continue;
            }
            if q.as_char() == ',' {
                i += 1;
                continue;
            }
        }
        return None;
    }
    let mut vals: Vec<TokenStream> = vec![];
    let mut cur = TokenStream::new();
    for t in args.clone() {
        if matches!(&t, TokenTree::Punct(q) if q.as_char()==',') && vals.len() + 1 < names.len() {
            vals.push(std::mem::take(&mut cur));
        } else {
            cur.extend([t]);
        }
    }
    vals.push(cur);
    fn sub(ts: TokenStream, names: &[String], vals: &[TokenStream]) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut o = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if let TokenTree::Punct(q) = &v[i] {
                if q.as_char() == '$' {
                    if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                        if let Some(k) = names.iter().position(|n| id == n) {
                            let x = &vals[k];
                            o.extend(quote!((#x)));
                            i += 2;
                            continue;
                        }
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    o.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), sub(g.stream(), names, vals)))])
                }
                t => o.extend([t.clone()]),
            }
            i += 1;
        }
        o
    }
    let out = sub(body.stream(), &names, &vals);
    parse2::<Expr>(out.clone()).ok().or_else(|| parse2::<Expr>(quote!({ #out })).ok())
}

fn binds(p: &Pat) -> bool {
    struct B(bool);
    impl<'a> syn::visit::Visit<'a> for B {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            if i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') {
                self.0 = true;
            }
        }
    }
    let mut b = B(false);
    syn::visit::Visit::visit_pat(&mut b, p);
    b.0
}
/// constants local to a block are put in place of their names
struct LocalConsts(HashMap<String, Expr>);
impl VisitMut for LocalConsts {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(v) = self.0.get(&i.to_string()) {
                    *e = v.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let id = match p {
            Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()),
            Pat::Path(q) => q.path.get_ident().map(|i| i.to_string()),
            _ => None,
        };
        if let Some(v) = id.and_then(|i| self.0.get(&i)) {
            match v {
                Expr::Path(q) => *p = Pat::Path(q.clone()),
                Expr::Lit(l) => *p = Pat::Lit(l.clone()),
                _ => {}
            }
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

impl VisitMut for Clean<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut consts = HashMap::new();
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Const(c)) => {
                let e = &c.expr;
                consts.insert(c.ident.to_string(), match &**e { Expr::Path(_) | Expr::Lit(_) => (**e).clone(), _ => parse_quote!((#e)) });
                false
            }
            _ => true,
        });
        if !consts.is_empty() {
            let mut v = LocalConsts(consts);
            v.visit_block_mut(b);
        }
        let mut out = vec![];
        let n = b.stmts.len();
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            // cfg'd statements
            let attrs: Vec<Attribute> = match &s {
                Stmt::Local(l) => l.attrs.clone(),
                Stmt::Macro(m) => m.attrs.clone(),
                Stmt::Expr(e, _) => expr_attrs(e),
                Stmt::Item(_) => vec![],
            };
            if !cfg_on(&attrs) {
                continue;
            }
            if let Stmt::Macro(m) = &s {
                let last = i + 1 == n && m.semi_token.is_none();
                if let Some(e) = self.expand(&m.mac) {
                    if pure_noop(&e) && !last {
                        continue;
                    }
                    s = Stmt::Expr(e, if last { None } else { Some(Default::default()) });
                } else {
                    let mac = m.mac.clone();
                    s = Stmt::Expr(
                        Expr::Macro(ExprMacro { attrs: vec![], mac }),
                        if last { None } else { Some(Default::default()) },
                    );
                }
            }
            match &mut s {
                Stmt::Local(l) => {
                    l.attrs.clear();
                    // `let _ = <pure>;`
                    if let (Pat::Wild(_), Some(init)) = (&l.pat, &l.init) {
                        if pure_noop(&init.expr) {
                            continue;
                        }
                    }
                    if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                        if id.ident.to_string().starts_with('_') && matches!(&*init.expr, Expr::Lit(_) | Expr::Tuple(_)) && pure_noop(&init.expr) {
                            continue;
                        }
                    }
                }
                Stmt::Expr(e, semi) => {
                    clear_attrs(e);
                    if (semi.is_some() || matches!(e, Expr::Block(_))) && i + 1 < n && pure_noop(e) {
                        continue;
                    }
                    if semi.is_some() && pure_noop(e) {
                        continue;
                    }
                    // `if false { .. }`
                    if let Expr::If(f) = e {
                        if f.else_branch.is_none() && f.cond.to_token_stream().to_string() == "false" {
                            continue;
                        }
                    }
                }
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Item(Item::Struct(_) | Item::Enum(_)) if self.cfg.opts.contains("drop_items") => {
                    self.notes.insert("a struct local to a function dropped".into());
                    continue;
                }
                Stmt::Item(_) => {}
                Stmt::Macro(_) => {}
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        clear_attrs(e);
        if let Expr::Macro(m) = e {
            if let Some(x) = self.expand(&m.mac) {
                *e = x;
            }
        }
        if let Expr::Match(m) = e {
            m.arms.retain(|a| cfg_on(&a.attrs));
            for a in &mut m.arms {
                a.attrs.clear();
            }
            // `A(x) | B(x) => body` becomes two arms
            let mut arms = vec![];
            for a in std::mem::take(&mut m.arms) {
                match &a.pat {
                    Pat::Or(o) if binds(&a.pat) => {
                        for c in &o.cases {
                            let mut b = a.clone();
                            b.pat = c.clone();
                            b.comma = Some(Default::default());
                            arms.push(b);
                        }
                    }
                    _ => arms.push(a),
                }
            }
            m.arms = arms;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f.ends_with("mem::replace") && c.args.len() == 2 {
                let (a, b) = (&c.args[0], &c.args[1]);
                self.notes.insert("mem::replace expanded to mem::swap".into());
                *e = parse_quote!({ let mut vx_r = #b; std::mem::swap(#a, &mut vx_r); vx_r });
            }
        }
        if let Expr::Struct(s) = e {
            let f = std::mem::take(&mut s.fields);
            s.fields = f.into_iter().filter(|x| cfg_on(&x.attrs)).map(|mut x| { x.attrs.clear(); x }).collect();
            if s.rest.is_some() && !s.fields.is_empty() && !s.fields.trailing_punct() {
                s.fields.push_punct(Default::default());
            }
        }
        if self.cfg.opts.contains("inline_spawn") {
            if let Expr::Call(c) = e {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f.ends_with("thread::spawn") && c.args.len() == 1 {
                    self.notes.insert("thread executed in place".into());
                    let b = &c.args[0];
                    *e = parse_quote!(vx_spawn((#b)()));
                }
            }
        }
        if self.cfg.inline_async {
            if let Expr::Async(a) = e {
                self.notes.insert("async block executed in place".into());
                let b = &a.block;
                *e = parse_quote!(#b);
            } else if let Expr::Await(a) = e {
                let b = &a.base;
                *e = parse_quote!(vx_await(#b));
            }
        }
    }
}

fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    let mut e = e.clone();
    attrs_of(&mut e).map(|a| a.clone()).unwrap_or_default()
}
fn clear_attrs(e: &mut Expr) {
    if let Some(a) = attrs_of(e) {
        a.clear()
    }
}
fn attrs_of(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    Some(match e {
        Expr::Block(x) => &mut x.attrs,
        Expr::Call(x) => &mut x.attrs,
        Expr::MethodCall(x) => &mut x.attrs,
        Expr::If(x) => &mut x.attrs,
        Expr::Match(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs,
        Expr::While(x) => &mut x.attrs,
        Expr::Loop(x) => &mut x.attrs,
        Expr::Unsafe(x) => &mut x.attrs,
        Expr::Macro(x) => &mut x.attrs,
        Expr::Return(x) => &mut x.attrs,
        Expr::Let(x) => &mut x.attrs,
        Expr::Assign(x) => &mut x.attrs,
        Expr::Struct(x) => &mut x.attrs,
        Expr::Closure(x) => &mut x.attrs,
        _ => return None,
    })
}

// ---------------------------------------------------------------- inlining

struct Inliner<'a> {
    src: &'a mut Sources,
    found: &'a Found,
    cfg: &'a UnitCfg,
    macros: &'a HashMap<String, ItemMacro>,
    notes: &'a mut BTreeSet<String>,
    changed: bool,
    closures: HashMap<String, ExprClosure>,
    depth: usize,
    temps: usize,
}

const STD_NAMES: &[&str] = &[
    "get", "insert", "remove", "len", "push", "pop", "clone", "next", "iter", "new", "default", "from", "into",
    "contains_key", "get_mut", "clear", "take", "map", "is_empty", "as_str", "write", "read", "send", "lock", "unwrap",
    "to_string", "as_ref", "as_mut", "drop", "eq", "fmt", "hash", "cmp", "deref", "path", "file",
];

fn ret_option(o: &ReturnType) -> bool {
    match o {
        ReturnType::Type(_, t) => type_name(t) == "Option",
        _ => false,
    }
}

struct SelfTo(Expr);
impl VisitMut for SelfTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // matches!(self.x, ..) and the like
        let to = self.0.to_token_stream();
        fn sub(ts: TokenStream, to: &TokenStream) -> TokenStream {
            let mut o = TokenStream::new();
            for t in ts {
                match t {
                    TokenTree::Ident(ref i) if i == "self" => o.extend(to.clone()),
                    TokenTree::Group(g) => o.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), sub(g.stream(), to)))]),
                    t => o.extend([t]),
                }
            }
            o
        }
        m.tokens = sub(m.tokens.clone(), &to);
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

fn idents_of(ts: TokenStream, s: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                s.insert(i.to_string());
            }
            TokenTree::Group(g) => idents_of(g.stream(), s),
            _ => {}
        }
    }
}

impl Inliner<'_> {
    fn build(&mut self, h: &Found, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        let mut body = h.block.clone();
        clean(&mut body, self.macros, self.cfg, self.notes);
        let k = Exit::Return { option: ret_option(&h.sig.output) };
        let body = if has_exit_b(&body, &k) { value_block(&body, &k)? } else { body };
        let mut body = body;
        let mut params: Vec<(Pat, Option<Type>)> = vec![];
        let generic = h.sig.generics.params.iter().any(|p| matches!(p, GenericParam::Type(_) | GenericParam::Const(_)));
        let mut has_self = false;
        for a in &h.sig.inputs {
            match a {
                FnArg::Receiver(_) => has_self = true,
                FnArg::Typed(t) => {
                    let ts = t.ty.to_token_stream().to_string();
                    // a shared reference needs no type to be bound (and a coercion is none of ours)
                    let shared = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_none());
                    let ok = !generic && !shared && !ts.contains("impl ") && !ts.contains("Self") && !ts.contains('\'');
                    params.push(((*t.pat).clone(), ok.then(|| (*t.ty).clone())));
                }
            }
        }
        let mut args = args;
        let mut recv = recv.cloned();
        if has_self && recv.is_none() {
            // Type::method(x, ..)
            if args.is_empty() {
                return None;
            }
            recv = Some(args.remove(0));
        }
        if let Some(r) = recv {
            if has_self {
                let r = match r {
                    Expr::Reference(x) => *x.expr,
                    r => r,
                };
                if is_place(&r) {
                    SelfTo(r).visit_block_mut(&mut body);
                } else if matches!(&r, Expr::MethodCall(_)) {
                    // a guard or another value: held while the body runs
                    self.temps += 1;
                    let t = Ident::new(&format!("vx_self{}", self.temps), proc_macro2::Span::call_site());
                    SelfTo(parse_quote!(#t)).visit_block_mut(&mut body);
                    body.stmts.insert(0, parse_quote!(let #t = #r;));
                } else {
                    return None;
                }
            }
        }
        if params.len() != args.len() {
            return None;
        }
        Some(self.bind(params, args, body))
    }

    fn bind(&mut self, params: Vec<(Pat, Option<Type>)>, args: Vec<Expr>, body: Block) -> Expr {
        // all names bound by the parameters
        let mut bound: BTreeSet<String> = BTreeSet::new();
        let mut collide = false;
        for (i, (p, _)) in params.iter().enumerate() {
            if i > 0 {
                let mut used = BTreeSet::new();
                idents_of(args[i].to_token_stream(), &mut used);
                if used.intersection(&bound).next().is_some() {
                    collide = true;
                }
            }
            idents_of(p.to_token_stream(), &mut bound);
        }
        let mut stmts: Vec<Stmt> = vec![];
        if collide {
            for (i, a) in args.iter().enumerate() {
                let t = Ident::new(&format!("vx_a{i}"), proc_macro2::Span::call_site());
                match &params[i].1 {
                    Some(ty) => stmts.push(parse_quote!(let #t: #ty = #a;)),
                    None => stmts.push(parse_quote!(let #t = #a;)),
                }
            }
            for (i, (p, _)) in params.iter().enumerate() {
                let t = Ident::new(&format!("vx_a{i}"), proc_macro2::Span::call_site());
                stmts.push(parse_quote!(let #p = #t;));
            }
        } else {
            for (i, (p, ty)) in params.iter().enumerate() {
                let a = &args[i];
                if let (Pat::Ident(id), Expr::Path(q)) = (p, a) {
                    if id.mutability.is_none() && id.by_ref.is_none() && q.path.is_ident(&id.ident) {
                        continue;
                    }
                }
                match ty {
                    Some(ty) => stmts.push(parse_quote!(let #p: #ty = #a;)),
                    None => stmts.push(parse_quote!(let #p = #a;)),
                }
            }
        }
        stmts.extend(body.stmts);
        let b = Block { brace_token: Default::default(), stmts };
        self.changed = true;
        parse_quote!(#b)
    }

    fn try_inline(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.cfg.known.contains(&n) || n == self.found.sig.ident.to_string() {
                    return None;
                }
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let h = if is_self {
                    let o = self.found.owner.clone()?;
                    self.src.find_fn_here(&self.found.path, &format!("{o}::{n}"))
                } else {
                    if STD_NAMES.contains(&n.as_str()) {
                        return None;
                    }
                    self.src.find_method_unique(&self.found.path, &n)
                }?;
                let r = self.build(&h, Some(&m.receiver), m.args.iter().cloned().collect());
                if r.is_some() {
                    self.notes.insert(format!("inlined helper {n}"));
                }
                r
            }
            Expr::Call(c) => {
                // a closure called where it stands
                let mut f = &*c.func;
                while let Expr::Paren(ExprParen { expr, .. }) | Expr::Reference(ExprReference { expr, .. }) = f {
                    f = expr;
                }
                if let (Expr::Closure(cl), false) = (f, self.cfg.opts.contains("keep_closures")) {
                    return self.inline_closure("called in place", &cl.clone(), c.args.iter().cloned().collect());
                }
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.last()?.clone();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if segs.len() == 1 {
                    if let Some(cl) = self.closures.get(&n).cloned() {
                        return self.inline_closure(&n, &cl, args);
                    }
                }
                if self.cfg.known.contains(&n) || n == self.found.sig.ident.to_string() {
                    return None;
                }
                let h = match segs.len() {
                    1 => self.src.find_fn_here(&self.found.path, &n),
                    2 => {
                        let o = if segs[0] == "Self" { self.found.owner.clone()? } else { segs[0].clone() };
                        if ["Some", "Ok", "Err"].contains(&n.as_str()) {
                            return None;
                        }
                        self.src.find_fn_here(&self.found.path, &format!("{o}::{n}")).or_else(|| {
                            if segs[0] == "self" || segs[0] == "super" || segs[0] == "crate" {
                                self.src.find_fn_here(&self.found.path, &n)
                            } else {
                                None
                            }
                        })
                    }
                    _ => None,
                }?;
                let r = self.build(&h, None, args);
                if r.is_some() {
                    self.notes.insert(format!("inlined helper {n}"));
                }
                r
            }
            _ => None,
        }
    }

    fn inline_closure(&mut self, n: &str, cl: &ExprClosure, args: Vec<Expr>) -> Option<Expr> {
        let body: Block = match &*cl.body {
            Expr::Block(b) if b.label.is_none() => b.block.clone(),
            e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] },
        };
        let option = ret_option(&cl.output);
        let k = Exit::Return { option };
        let body = if has_exit_b(&body, &k) { value_block(&body, &k)? } else { body };
        let params: Vec<(Pat, Option<Type>)> = cl
            .inputs
            .iter()
            .map(|p| match p {
                Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                p => (p.clone(), None),
            })
            .collect();
        if params.len() != args.len() {
            return None;
        }
        self.notes.insert(format!("inlined local closure {n}"));
        Some(self.bind(params, args, body))
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local closures bound to a name
        let saved = self.closures.clone();
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                let pat = match &l.pat {
                    Pat::Type(t) if matches!(&*t.ty, Type::Reference(r) if matches!(&*r.elem, Type::TraitObject(_) | Type::ImplTrait(_))) || matches!(&*t.ty, Type::ImplTrait(_)) => &*t.pat,
                    p => p,
                };
                if let (Pat::Ident(id), Some(init)) = (pat, &l.init) {
                    let mut x = &*init.expr;
                    while let Expr::Paren(ExprParen { expr, .. }) | Expr::Reference(ExprReference { expr, .. }) = x {
                        x = expr;
                    }
                    if self.cfg.opts.contains("keep_closures") {
                    } else if let Expr::Closure(c) = x {
                        self.closures.insert(id.ident.to_string(), c.clone());
                        self.changed = true;
                        continue;
                    } else if let Expr::Path(p) = x {
                        // another name for one
                        if let Some(c) = p.path.get_ident().and_then(|i| self.closures.get(&i.to_string())).cloned() {
                            self.closures.insert(id.ident.to_string(), c);
                            self.changed = true;
                            continue;
                        }
                    }
                }
            }
            // nested fns
            if let Stmt::Item(Item::Fn(f)) = &s {
                let n = f.sig.ident.to_string();
                if !self.cfg.known.contains(&n) {
                    let inputs: Vec<Pat> = f
                        .sig
                        .inputs
                        .iter()
                        .filter_map(|a| match a {
                            FnArg::Typed(t) => Some(Pat::Type(t.clone())),
                            _ => None,
                        })
                        .collect();
                    let blk = &f.block;
                    let out = &f.sig.output;
                    let mut blk2 = (**blk).clone();
                    clean(&mut blk2, self.macros, self.cfg, self.notes);
                    let c: ExprClosure = parse_quote!(|#(#inputs),*| #out #blk2);
                    self.closures.insert(n, c);
                    self.changed = true;
                    continue;
                }
            }
            keep.push(s);
        }
        b.stmts = keep;
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
        }
        self.closures = saved;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a local closure given to a combinator
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                let cl = match &*a {
                    Expr::Path(p) => p.path.get_ident().and_then(|i| self.closures.get(&i.to_string())).cloned(),
                    Expr::Reference(r) => match &*r.expr {
                        Expr::Path(p) => p.path.get_ident().and_then(|i| self.closures.get(&i.to_string())).cloned(),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(c) = cl {
                    *a = Expr::Closure(c);
                    self.changed = true;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = self.try_inline(e) {
            *e = x;
            // at once: what it calls may be a closure known only here
            if self.depth < 12 {
                self.depth += 1;
                self.visit_expr_mut(e);
                self.depth -= 1;
            }
        }
    }
}

impl Sources {
    pub fn find_method_unique(&mut self, path: &str, name: &str) -> Option<Found> {
        let f = self.load(path);
        let mut owners = vec![];
        fn walk(items: &[Item], name: &str, owners: &mut Vec<String>) {
            for i in items {
                match i {
                    Item::Impl(im) if im.trait_.is_none() && cfg_on(&im.attrs) => {
                        for it in &im.items {
                            if let ImplItem::Fn(x) = it {
                                if x.sig.ident == name && cfg_on(&x.attrs) && x.sig.receiver().is_some() {
                                    owners.push(type_name(&im.self_ty));
                                }
                            }
                        }
                    }
                    Item::Mod(m) => {
                        if let Some((_, it)) = &m.content {
                            walk(it, name, owners)
                        }
                    }
                    _ => {}
                }
            }
        }
        walk(&f.items, name, &mut owners);
        if owners.len() != 1 {
            return None;
        }
        self.find_fn_here(path, &format!("{}::{}", owners[0], name))
    }
}

// ---------------------------------------------------------------- labelled blocks

struct DeLabel<'a> {
    notes: &'a mut BTreeSet<String>,
}
impl VisitMut for DeLabel<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Block(b) = e {
            if let Some(l) = &b.label {
                let k = Exit::Label(l.name.ident.to_string());
                let Some(nb) = value_block(&b.block, &k) else {
                    die("labelled block with an unstructured exit".into())
                };
                self.notes.insert("labelled block structured".into());
                *e = parse_quote!(#nb);
            }
        }
    }
}

// ---------------------------------------------------------------- combinators

struct Combinators<'a> {
    n: usize,
    cfg: &'a UnitCfg,
    notes: &'a mut BTreeSet<String>,
}
fn apply_fn(f: &Expr, args: &[Expr]) -> Option<Expr> {
    match f {
        Expr::Closure(c) => {
            let body = &c.body;
            let k = Exit::Return { option: ret_option(&c.output) };
            let body = if crate::elim::has_exit_e(body, &k) {
                let b = match &**body {
                    Expr::Block(b) if b.label.is_none() => b.block.clone(),
                    e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] },
                };
                let b = value_block(&b, &k)?;
                parse_quote!(#b)
            } else {
                (**body).clone()
            };
            let mut st: Vec<Stmt> = vec![];
            for (p, a) in c.inputs.iter().zip(args) {
                let p = match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                st.push(parse_quote!(let #p = #a;));
            }
            Some(parse_quote!({ #(#st)* #body }))
        }
        Expr::Path(_) => Some(parse_quote!(#f(#(#args),*))),
        _ => None,
    }
}
/// Iterator chains as the loops they stand for (option `chains`).
fn chain(e: &Expr, n: usize) -> Option<Expr> {
    let Expr::MethodCall(t) = e else { return None };
    let term = t.method.to_string();
    if term == "retain" && t.args.len() == 1 {
        // take everything out, put back what stays
        let Expr::Closure(c) = &t.args[0] else { return None };
        let r = &t.receiver;
        let (k, v) = (Ident::new(&format!("vx_k{n}"), proc_macro2::Span::call_site()), Ident::new(&format!("vx_v{n}"), proc_macro2::Span::call_site()));
        return Some(if c.inputs.len() == 2 {
            let b = apply_fn(&t.args[0], &[parse_quote!(&#k), parse_quote!(&mut #v)])?;
            parse_quote!({ for (#k, mut #v) in #r.vx_take_all() { if #b { #r.vx_put_back(#k, #v); } } })
        } else {
            let b = apply_fn(&t.args[0], &[parse_quote!(&#k)])?;
            parse_quote!({ for #k in #r.vx_take_all() { if #b { #r.vx_put_back(#k); } } })
        });
    }
    if !matches!(term.as_str(), "find" | "find_map" | "any" | "all" | "position" | "collect" | "for_each" | "count") {
        return None;
    }
    let mut stages: Vec<(String, Vec<Expr>)> = vec![];
    let mut src: &Expr = &t.receiver;
    while let Expr::MethodCall(m) = src {
        let s = m.method.to_string();
        match (s.as_str(), m.args.len()) {
            ("map" | "filter" | "filter_map" | "inspect" | "take_while" | "map_while", 1) | ("enumerate" | "cloned" | "copied", 0) => {
                stages.push((s, m.args.iter().cloned().collect()));
                src = &m.receiver;
            }
            _ => break,
        }
    }
    if term == "collect" && stages.is_empty() {
        return None;
    }
    stages.reverse();
    let id = |s: &str| Ident::new(&format!("vx_{s}{n}"), proc_macro2::Span::call_site());
    let x = |k: usize| Ident::new(&format!("vx_x{n}_{k}"), proc_macro2::Span::call_site());
    let (out, cnt, pos) = (id("out"), id("cnt"), id("pos"));
    let mut pre: Vec<Stmt> = vec![];
    let last = x(stages.len());
    let mut body: Vec<Stmt> = match term.as_str() {
        "collect" => {
            let ty: String = t.turbofish.as_ref().map(|g| g.args.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
            if ty.is_empty() || ty.starts_with("Vec") {
                pre.push(parse_quote!(let mut #out = Vec::new();));
            } else {
                let g = &t.turbofish.as_ref().unwrap().args;
                pre.push(parse_quote!(let mut #out = vx_collect_new::<#g>();));
            }
            vec![parse_quote!(#out.push(#last);)]
        }
        "count" => {
            pre.push(parse_quote!(let mut #out: usize = 0;));
            vec![parse_quote!(#out += 1;)]
        }
        "for_each" => {
            let c = apply_fn(&t.args[0], &[parse_quote!(#last)])?;
            vec![parse_quote!(#c;)]
        }
        "find" => {
            pre.push(parse_quote!(let mut #out = None;));
            let c = apply_fn(&t.args[0], &[parse_quote!(&#last)])?;
            vec![parse_quote!(if #c { #out = Some(#last); break; })]
        }
        "find_map" => {
            pre.push(parse_quote!(let mut #out = None;));
            let c = apply_fn(&t.args[0], &[parse_quote!(#last)])?;
            vec![parse_quote!(#out = #c;), parse_quote!(if #out.is_some() { break; })]
        }
        "any" => {
            pre.push(parse_quote!(let mut #out = false;));
            let c = apply_fn(&t.args[0], &[parse_quote!(#last)])?;
            vec![parse_quote!(if #c { #out = true; break; })]
        }
        "all" => {
            pre.push(parse_quote!(let mut #out = true;));
            let c = apply_fn(&t.args[0], &[parse_quote!(#last)])?;
            vec![parse_quote!(if !#c { #out = false; break; })]
        }
        "position" => {
            pre.push(parse_quote!(let mut #out = None;));
            pre.push(parse_quote!(let mut #pos: usize = 0;));
            let c = apply_fn(&t.args[0], &[parse_quote!(#last)])?;
            vec![parse_quote!(if #c { #out = Some(#pos); break; }), parse_quote!(#pos += 1;)]
        }
        _ => return None,
    };
    for (k, (s, a)) in stages.iter().enumerate().rev() {
        let (i, o) = (x(k), x(k + 1));
        body = match s.as_str() {
            "map" => {
                let b = apply_fn(&a[0], &[parse_quote!(#i)])?;
                let mut v: Vec<Stmt> = vec![parse_quote!(let #o = #b;)];
                v.extend(body);
                v
            }
            "inspect" => {
                let b = apply_fn(&a[0], &[parse_quote!(&#i)])?;
                let mut v: Vec<Stmt> = vec![parse_quote!(#b;), parse_quote!(let #o = #i;)];
                v.extend(body);
                v
            }
            "filter" => {
                let b = apply_fn(&a[0], &[parse_quote!(&#i)])?;
                vec![parse_quote!(if #b { let #o = #i; #(#body)* })]
            }
            "take_while" => {
                let b = apply_fn(&a[0], &[parse_quote!(&#i)])?;
                vec![parse_quote!(if #b { let #o = #i; #(#body)* } else { break; })]
            }
            "map_while" => {
                let b = apply_fn(&a[0], &[parse_quote!(#i)])?;
                vec![parse_quote!(if let Some(#o) = #b { #(#body)* } else { break; })]
            }
            "filter_map" => {
                let b = apply_fn(&a[0], &[parse_quote!(#i)])?;
                vec![parse_quote!(if let Some(#o) = #b { #(#body)* })]
            }
            "cloned" | "copied" => {
                let mut v: Vec<Stmt> = vec![parse_quote!(let #o = vx_cloned(#i);)];
                v.extend(body);
                v
            }
            "enumerate" => {
                pre.push(parse_quote!(let mut #cnt: usize = 0;));
                let mut v: Vec<Stmt> = vec![parse_quote!(let #o = (#cnt, #i);), parse_quote!(#cnt += 1;)];
                v.extend(body);
                v
            }
            _ => return None,
        };
    }
    let first = x(0);
    let tail: Option<Expr> = if term == "for_each" { None } else { Some(parse_quote!(#out)) };
    Some(parse_quote!({ #(#pre)* for #first in #src { #(#body)* } #tail }))
}

/// `x.each(&mut |p| B)` as the loop it stands for, and `for v in m.values_mut() { B }` by key.
fn callback_loop(e: &Expr) -> Option<Expr> {
    struct Leave(bool, bool);
    impl VisitMut for Leave {
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) {
            let o = std::mem::replace(&mut self.1, true);
            visit_mut::visit_expr_for_loop_mut(self, l);
            self.1 = o;
        }
        fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) {
            let o = std::mem::replace(&mut self.1, true);
            visit_mut::visit_expr_while_mut(self, l);
            self.1 = o;
        }
        fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
            let o = std::mem::replace(&mut self.1, true);
            visit_mut::visit_expr_loop_mut(self, l);
            self.1 = o;
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Return(r) = e {
                self.0 |= r.expr.is_some() || self.1;
                *e = parse_quote!(continue);
            }
        }
    }
    match e {
        Expr::MethodCall(m) if m.args.len() == 1 => {
            let Expr::Reference(r) = &m.args[0] else { return None };
            let Expr::Closure(c) = &*r.expr else { return None };
            if r.mutability.is_none() || c.inputs.len() != 1 {
                return None;
            }
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            let mut b = match &*c.body {
                Expr::Block(b) if b.label.is_none() => b.block.clone(),
                e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), Some(Default::default()))] },
            };
            let mut l = Leave(false, false);
            l.visit_block_mut(&mut b);
            if l.0 {
                return None;
            }
            let x = &m.receiver;
            let each = Ident::new(&format!("vx_each_{}", m.method), proc_macro2::Span::call_site());
            Some(parse_quote!({ for #p in #x.#each() #b }))
        }
        Expr::ForLoop(f) => {
            let Expr::MethodCall(m) = &*f.expr else { return None };
            if m.method != "values_mut" || !m.args.is_empty() {
                return None;
            }
            let (x, p, l) = (&m.receiver, &f.pat, &f.label);
            let st = &f.body.stmts;
            Some(parse_quote!(#l for vx_key in #x.vx_keys() { let #p = #x.vx_at(&vx_key); #(#st)* }))
        }
        _ => None,
    }
}
/// `m.entry(k).and_modify(|e| B).or_insert_with(|| C)` by cases
fn entry_api(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    let new: Expr = match (m.method.to_string().as_str(), m.args.len()) {
        ("or_insert_with", 1) => apply_fn(&m.args[0], &[])?,
        ("or_insert", 1) => m.args[0].clone(),
        _ => return None,
    };
    let Expr::MethodCall(am) = &*m.receiver else { return None };
    if am.method != "and_modify" || am.args.len() != 1 {
        return None;
    }
    let Expr::MethodCall(en) = &*am.receiver else { return None };
    if en.method != "entry" || en.args.len() != 1 {
        return None;
    }
    let (x, k) = (&en.receiver, &en.args[0]);
    let b = apply_fn(&am.args[0], &[parse_quote!(#x.vx_at(&vx_key))])?;
    Some(parse_quote!({ let vx_key = #k; if #x.contains_key(&vx_key) { #b; } else { #x.vx_new(&vx_key, #new); } #x.vx_at(&vx_key) }))
}

/// `match s { [] => A, [x, ""] => B, .. }` as an if-chain over `vx_len(s)`, `vx_nth(s, i)`
fn slice_match(m: &ExprMatch) -> Option<Expr> {
    fn alts(p: &Pat) -> Vec<Pat> {
        match p {
            Pat::Or(o) => o.cases.iter().flat_map(alts).collect(),
            Pat::Paren(p) => alts(&p.pat),
            p => vec![p.clone()],
        }
    }
    if !m.arms.iter().any(|a| alts(&a.pat).iter().any(|p| matches!(p, Pat::Slice(_)) || matches!(p, Pat::Lit(ExprLit { lit: Lit::Str(_), .. })))) {
        return None;
    }
    let mut out: Expr = parse_quote!(vx_panic());
    for a in m.arms.iter().rev() {
        let ps = alts(&a.pat);
        let mut tests: Vec<Expr> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        for p in &ps {
            let mut t: Vec<Expr> = vec![];
            match p {
                Pat::Slice(s) => {
                    let n = s.elems.len();
                    let rest = s.elems.iter().position(|e| matches!(e, Pat::Rest(_)));
                    if rest.is_some_and(|r| r + 1 != n) {
                        return None;
                    }
                    let k = if rest.is_some() { n - 1 } else { n };
                    t.push(if rest.is_some() { parse_quote!(vx_len(&vx_s) >= #k) } else { parse_quote!(vx_len(&vx_s) == #k) });
                    for (i, e) in s.elems.iter().take(k).enumerate() {
                        match e {
                            Pat::Wild(_) => {}
                            Pat::Lit(l) => t.push(parse_quote!(vx_lit_eq(vx_nth(&vx_s, #i), #l))),
                            Pat::Ident(id) if id.subpat.is_none() && id.by_ref.is_none() => {
                                let id = &id.ident;
                                binds.push(parse_quote!(let #id = vx_nth(&vx_s, #i);));
                            }
                            _ => return None,
                        }
                    }
                }
                Pat::Wild(_) => t.push(parse_quote!(true)),
                Pat::Lit(l) => t.push(parse_quote!(vx_lit_eq(vx_s, #l))),
                Pat::Ident(id) if id.subpat.is_none() && id.by_ref.is_none() => {
                    let id = &id.ident;
                    binds.push(parse_quote!(let #id = vx_s;));
                    t.push(parse_quote!(true));
                }
                _ => return None,
            }
            let mut it = t.into_iter();
            let mut c = it.next()?;
            for x in it {
                c = parse_quote!(#c && #x);
            }
            tests.push(c);
        }
        if ps.len() > 1 && !binds.is_empty() {
            return None;
        }
        let mut it = tests.into_iter();
        let mut c = it.next()?;
        for x in it {
            c = parse_quote!((#c) || (#x));
        }
        let b = &a.body;
        out = match &a.guard {
            None => parse_quote!(if #c { #(#binds)* #b } else { #out }),
            Some((_, g)) if binds.is_empty() => parse_quote!(if (#c) && #g { #b } else { #out }),
            Some(_) => return None,
        };
    }
    let s = &m.expr;
    Some(parse_quote!({ let vx_s = #s; #out }))
}

impl VisitMut for Combinators<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.cfg.opts.contains("chains") {
            if let Some(x) = chain(e, self.n) {
                self.notes.insert("iterator chain expanded to its loop".into());
                self.n += 1;
                *e = x;
                return;
            }
        }
        if self.cfg.opts.contains("chains") {
            if let Some(x) = callback_loop(e).or_else(|| entry_api(e)) {
                self.notes.insert("callback or map-entry call expanded by definition".into());
                *e = x;
                return;
            }
        }
        if let (Expr::Match(m), true) = (&*e, self.cfg.opts.contains("slice_match")) {
            if let Some(x) = slice_match(m) {
                self.notes.insert("match on slice patterns expanded to tests of length and elements".into());
                *e = x;
                return;
            }
        }
        if let (Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }), true) = (&*e, self.cfg.opts.contains("byte_str")) {
            let bs = b.value();
            *e = parse_quote!(&[#(#bs),*]);
            return;
        }
        if let (Expr::Closure(c), true) = (&mut *e, self.cfg.opts.contains("keep_closures")) {
            // an ignored parameter still needs a name in the verifier's dialect
            for (i, p) in c.inputs.iter_mut().enumerate() {
                if matches!(p, Pat::Wild(_)) {
                    let id = Ident::new(&format!("vx_u{i}"), proc_macro2::Span::call_site());
                    *p = parse_quote!(#id);
                }
            }
        }
        if self.cfg.opts.contains("no_combinators") {
            return;
        }
        if let Expr::MethodCall(m) = e {
            let r = &m.receiver;
            let n = m.method.to_string();
            let one = m.args.len() == 1;
            // an iterator, not an option or a result
            let iter = matches!(&**r, Expr::MethodCall(i) if matches!(i.method.to_string().as_str(), "chars" | "iter" | "bytes" | "char_indices" | "into_iter" | "keys" | "values" | "lines"));
            let rep: Option<Expr> = match n.as_str() {
                "map" if iter => None,
                "map_err" if one => apply_fn(&m.args[0], &[parse_quote!(vx_e)])
                    .map(|b| parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(#b) })),
                "map_or_else" if m.args.len() == 2 && matches!(&m.args[0], Expr::Closure(_)) => {
                    let Expr::Closure(c) = &m.args[0] else { unreachable!() };
                    let o = apply_fn(&m.args[1], &[parse_quote!(vx_v)]);
                    if c.inputs.is_empty() {
                        apply_fn(&m.args[0], &[]).zip(o).map(|(b, o)| parse_quote!(match #r { Some(vx_v) => #o, None => #b }))
                    } else {
                        apply_fn(&m.args[0], &[parse_quote!(vx_e)]).zip(o).map(|(b, o)| parse_quote!(match #r { Ok(vx_v) => #o, Err(vx_e) => #b }))
                    }
                }
                "get_or_init" if one && self.cfg.opts.contains("once_cell") => apply_fn(&m.args[0], &[])
                    .map(|b| parse_quote!(match #r.vx_peek() { Some(vx_v) => vx_v, None => { let vx_n = #b; #r.vx_init(vx_n) } })),
                "ok_or_else" if one => apply_fn(&m.args[0], &[])
                    .map(|b| parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#b) })),
                "or_else" if one && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1) => {
                    apply_fn(&m.args[0], &[parse_quote!(vx_e)]).map(|b| parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(vx_e) => #b }))
                }
                "or_else" if one && matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty()) => {
                    apply_fn(&m.args[0], &[]).map(|b| parse_quote!(match #r { Some(vx_v) => Some(vx_v), None => #b }))
                }
                "unwrap_or_else" if one && matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty()) => {
                    apply_fn(&m.args[0], &[]).map(|b| parse_quote!(match #r { Some(vx_v) => vx_v, None => #b }))
                }
                "and_then" if one && self.cfg.opts.contains("and_then_result") => apply_fn(&m.args[0], &[parse_quote!(vx_v)])
                    .map(|b| parse_quote!(match #r { Ok(vx_v) => #b, Err(vx_e) => Err(vx_e) })),
                "and_then" if one && self.cfg.opts.contains("and_then_option") => apply_fn(&m.args[0], &[parse_quote!(vx_v)])
                    .map(|b| parse_quote!(match #r { Some(vx_v) => #b, None => None })),
                "map" if one && self.cfg.opts.contains("map_result") && !self.cfg.opts.contains("maps_are_options") => apply_fn(&m.args[0], &[parse_quote!(vx_v)])
                    .map(|b| parse_quote!(match #r { Ok(vx_v) => Ok(#b), Err(vx_e) => Err(vx_e) })),
                "map" if one && self.cfg.opts.contains("map_option") || one && self.cfg.opts.contains("maps_are_options") => apply_fn(&m.args[0], &[parse_quote!(vx_v)])
                    .map(|b| parse_quote!(match #r { Some(vx_v) => Some(#b), None => None })),
                "then" if one && matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty()) => apply_fn(&m.args[0], &[]).map(|b| parse_quote!(if #r { Some(#b) } else { None })),
                "then_some" if one => {
                    let b = &m.args[0];
                    Some(parse_quote!({ let vx_b = #r; let vx_v = #b; if vx_b { Some(vx_v) } else { None } }))
                }
                "map_or" if m.args.len() == 2 && self.cfg.opts.contains("map_result") => {
                    let d = &m.args[0];
                    apply_fn(&m.args[1], &[parse_quote!(vx_v)]).map(|b| parse_quote!({ let vx_d = #d; match #r { Ok(vx_v) => #b, Err(_) => vx_d } }))
                }
                "map_or" if m.args.len() == 2 => {
                    let d = &m.args[0];
                    apply_fn(&m.args[1], &[parse_quote!(vx_v)]).map(|b| parse_quote!({ let vx_d = #d; match #r { Some(vx_v) => #b, None => vx_d } }))
                }
                "is_ok_and" if one => apply_fn(&m.args[0], &[parse_quote!(vx_v)])
                    .map(|b| parse_quote!(match #r { Ok(vx_v) => #b, Err(_) => false })),
                "is_err_and" if one => apply_fn(&m.args[0], &[parse_quote!(vx_e)])
                    .map(|b| parse_quote!(match #r { Err(vx_e) => #b, Ok(_) => false })),
                "is_some_and" if one => apply_fn(&m.args[0], &[parse_quote!(vx_v)])
                    .map(|b| parse_quote!(match #r { Some(vx_v) => #b, None => false })),
                "is_none_or" if one => apply_fn(&m.args[0], &[parse_quote!(vx_v)])
                    .map(|b| parse_quote!(match #r { Some(vx_v) => #b, None => true })),
                _ => None,
            };
            if let Some(x) = rep {
                self.notes.insert("Option/Result combinator expanded by definition".into());
                *e = x;
            }
        }
    }
}

/// `Some(&x) => B` becomes `Some(vx_rf_x) => { let x = *vx_rf_x; B }`
struct RefPats<'a> {
    notes: &'a mut BTreeSet<String>,
}
struct RefPat(Vec<Stmt>);
impl VisitMut for RefPat {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Reference(r) = p {
            match &*r.pat {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                    let n = &i.ident;
                    let v = quote::format_ident!("vx_rf_{}", n);
                    self.0.push(parse_quote!(let #n = *#v;));
                    *p = parse_quote!(#v);
                }
                Pat::Wild(_) => *p = parse_quote!(_),
                _ => {}
            }
        }
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
impl RefPats<'_> {
    fn pat(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut r = RefPat(vec![]);
        r.visit_pat_mut(p);
        if !r.0.is_empty() {
            self.notes.insert("reference patterns made explicit".into());
        }
        r.0
    }
    fn into_block(&mut self, p: &mut Pat, b: &mut Block) {
        let mut v = self.pat(p);
        v.append(&mut b.stmts);
        b.stmts = v;
    }
}
impl VisitMut for RefPats<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    self.into_block(&mut l.pat, &mut i.then_branch);
                }
            }
            Expr::While(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    self.into_block(&mut l.pat, &mut i.body);
                }
            }
            Expr::ForLoop(f) => self.into_block(&mut f.pat, &mut f.body),
            Expr::Match(m) => {
                for a in m.arms.iter_mut().filter(|a| a.guard.is_none()) {
                    let v = self.pat(&mut a.pat);
                    if !v.is_empty() {
                        let b = &a.body;
                        a.body = parse_quote!({ #(#v)* #b });
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let v = match &mut s {
                Stmt::Local(l) => self.pat(&mut l.pat),
                _ => vec![],
            };
            out.push(s);
            out.extend(v);
        }
        b.stmts = out;
    }
}

// ---------------------------------------------------------------- rules, threading

pub struct Apply<'a> {
    pub rules: &'a Rules,
}
impl Apply<'_> {
    /// the path of a struct literal or pattern is a type
    fn path(&self, p: &mut Path) {
        let mut t = Type::Path(TypePath { qself: None, path: p.clone() });
        self.rules.apply_type(&mut t);
        if let Type::Path(q) = t {
            *p = q.path;
        }
    }
}
impl VisitMut for Apply<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Struct(s) = e {
            self.path(&mut s.path);
        }
        self.rules.apply_expr(e);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        self.rules.apply_type(t);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Struct(s) = p {
            self.path(&mut s.path);
        }
        self.rules.apply_pat(p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let d = &self.rules.dropcalls;
        if !d.is_empty() {
            b.stmts.retain(|s| match s {
                Stmt::Expr(Expr::Call(c), Some(_)) => !d.contains(&c.func.to_token_stream().to_string().replace(' ', "")),
                Stmt::Expr(Expr::MethodCall(c), Some(_)) => !d.contains(&c.method.to_string()),
                _ => true,
            });
        }
    }
}

struct Thread<'a> {
    cfg: &'a UnitCfg,
}
impl VisitMut for Thread<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let arg: Expr = parse_str(&self.cfg.thread_arg).unwrap();
        match e {
            Expr::MethodCall(m) if self.cfg.thread.contains(&m.method.to_string()) => m.args.push(arg),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let full = p.path.to_token_stream().to_string().replace(' ', "");
                    if self.cfg.thread.contains(&n) || self.cfg.thread_path.contains(&full) {
                        c.args.push(arg)
                    }
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- loops and markers

struct Marker {
    n: usize,
    shapes: Vec<String>,
}
fn mk(name: &str, i: usize) -> Stmt {
    let id = Ident::new(name, proc_macro2::Span::call_site());
    let l = proc_macro2::Literal::usize_unsuffixed(i);
    parse_quote!(#id!(#l);)
}
impl Marker {
    fn body(&mut self, k: usize, b: &mut Block) {
        self.visit_block_mut(b);
        b.stmts.insert(0, mk("__vx_inv", k));
        // the body's value is (): make a tail expression a statement
        if let Some(Stmt::Expr(_, s @ None)) = b.stmts.last_mut() {
            *s = Some(Default::default());
        }
        b.stmts.push(mk("__vx_loopend", k));
    }
    fn handle(&mut self, e: &mut Expr) -> Option<usize> {
        let k = self.n;
        match e {
            Expr::Loop(l) => {
                self.n += 1;
                self.shapes.push("loop".into());
                self.body(k, &mut l.body);
                Some(k)
            }
            Expr::While(w) => {
                self.n += 1;
                if let Expr::Let(c) = &*w.cond {
                    self.shapes.push("whilelet".into());
                    let (p, x, label) = (&c.pat, &c.expr, &w.label);
                    let mut x = (**x).clone();
                    visit_mut::visit_expr_mut(self, &mut x);
                    let mut b = w.body.clone();
                    self.visit_block_mut(&mut b);
                    let mi = mk("__vx_inv", k);
                    let me = mk("__vx_loopend", k);
                    *e = parse_quote!(#label loop { #mi match #x { #p => { #b #me } _ => { break; } } });
                } else {
                    self.shapes.push("while".into());
                    visit_mut::visit_expr_mut(self, &mut w.cond);
                    self.body(k, &mut w.body);
                }
                Some(k)
            }
            Expr::ForLoop(f) => {
                self.n += 1;
                let mut it: &Expr = &f.expr;
                while let Expr::Paren(p) = it {
                    it = &p.expr;
                }
                if matches!(it, Expr::Range(_)) {
                    self.shapes.push("forrange".into());
                    if matches!(&*f.pat, Pat::Wild(_)) {
                        let id = Ident::new(&format!("vx_i{k}"), proc_macro2::Span::call_site());
                        *f.pat = parse_quote!(#id);
                    }
                    self.body(k, &mut f.body);
                } else {
                    self.shapes.push("for".into());
                    let id = Ident::new(&format!("vx_it{k}"), proc_macro2::Span::call_site());
                    let (p, x, label) = (&f.pat, &f.expr, &f.label);
                    let mut b = f.body.clone();
                    self.visit_block_mut(&mut b);
                    let mi = mk("__vx_inv", k);
                    let me = mk("__vx_loopend", k);
                    let ini = mk("__vx_init", k);
                    *e = parse_quote!({ let mut #id = vx_into_iter(#x); #ini #label loop { #mi match #id.vx_next() { Some(#p) => { #b #me } None => { break; } } } });
                }
                Some(k)
            }
            _ => None,
        }
    }
}
impl VisitMut for Marker {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(e, _) = &mut s {
                let at = out.len();
                if let Some(k) = self.handle(e) {
                    let _ = at;
                    out.push(mk("__vx_before", k));
                    out.push(s);
                    out.push(mk("__vx_after", k));
                    continue;
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.handle(e).is_none() {
            visit_mut::visit_expr_mut(self, e);
        }
    }
}

pub(crate) fn mark(block: &mut Block, _entry: &str, f: &FnDir) -> Vec<String> {
    let mut m = Marker { n: 0, shapes: vec![] };
    m.visit_block_mut(block);
    // statement anchors
    for (i, (pat, _)) in f.ats.iter().enumerate() {
        let (when, p) = pat.split_once(' ').unwrap_or(("after", pat));
        let mut a = At { pat: p.replace(' ', ""), before: when == "before", mark: mk("__vx_at", i), done: false };
        a.visit_block_mut(block);
        if !a.done {
            m.shapes.push(format!("missing-anchor:{p}"));
        }
    }
    block.stmts.insert(0, mk("__vx_entry", 0));
    m.shapes
}

struct At {
    pat: String,
    before: bool,
    mark: Stmt,
    done: bool,
}
impl VisitMut for At {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.done {
            return;
        }
        for i in 0..b.stmts.len() {
            let t = b.stmts[i].to_token_stream().to_string().replace(' ', "");
            if t.starts_with(&self.pat) {
                let at = if self.before { i } else { i + 1 };
                b.stmts.insert(at, self.mark.clone());
                self.done = true;
                return;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------- printing

pub fn rustfmt(text: &str) -> Option<String> {
    use std::io::Write;
    let mut c = std::process::Command::new("rustfmt")
        .args(["--edition", "2021", "--emit", "stdout", "--config", "max_width=110"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    c.stdin.take()?.write_all(text.as_bytes()).ok()?;
    let o = c.wait_with_output().ok()?;
    if !o.status.success() {
        return None;
    }
    String::from_utf8(o.stdout).ok()
}

pub fn fmt_fn(b: &Block) -> String {
    let t = format!("fn vx_f() {}", b.to_token_stream());
    let f = rustfmt(&t).unwrap_or_else(|| t.replace(" ! (", "!(").replace(") ;", ");"));
    f[f.find('{').unwrap()..].to_string()
}

pub fn emit_type(item: Item, cfg: &UnitCfg) -> String {
    let mut item = item;
    let mut ap = Apply { rules: &cfg.rules };
    match &mut item {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = Visibility::Inherited;
            strip_fields(&mut s.fields);
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = Visibility::Inherited;
            let vs = std::mem::take(&mut s.variants);
            s.variants = vs
                .into_iter()
                .filter(|v| cfg_on(&v.attrs))
                .map(|mut v| {
                    v.attrs.clear();
                    strip_fields(&mut v.fields);
                    v
                })
                .collect();
        }
        _ => {}
    }
    ap.visit_item_mut(&mut item);
    let t = item.to_token_stream().to_string();
    rustfmt(&t).unwrap_or(t)
}
fn strip_fields(f: &mut Fields) {
    match f {
        Fields::Named(n) => {
            let fs = std::mem::take(&mut n.named);
            n.named = fs
                .into_iter()
                .filter(|x| cfg_on(&x.attrs))
                .map(|mut x| {
                    x.attrs.clear();
                    x.vis = Visibility::Inherited;
                    x
                })
                .collect();
        }
        Fields::Unnamed(n) => {
            for x in &mut n.unnamed {
                x.attrs.clear();
                x.vis = Visibility::Inherited;
            }
        }
        _ => {}
    }
}
pub fn emit_const(item: ItemConst, cfg: &UnitCfg) -> String {
    let mut item = item;
    item.attrs.clear();
    item.vis = Visibility::Inherited;
    Apply { rules: &cfg.rules }.visit_item_const_mut(&mut item);
    if let Type::Reference(r) = &mut *item.ty {
        r.lifetime.get_or_insert_with(|| parse_quote!('static));
    }
    item.to_token_stream().to_string()
}

/// verbatim (attributes and visibility stripped), for replay crates
pub fn emit_raw(src: &mut Sources, path: &str, spec: &str, rw: bool, cfg: &UnitCfg) -> String {
    let Some(f) = src.find_fn(path, spec) else { die(format!("lost anchor: fn {spec} in {path}")) };
    raw_fn(&f.sig, &f.block, rw, cfg)
}
fn raw_fn(sig: &Signature, block: &Block, rw: bool, cfg: &UnitCfg) -> String {
    let mut sig = sig.clone();
    let mut block = block.clone();
    let mut st = StripCfg;
    st.visit_block_mut(&mut block);
    if rw {
        let mut ap = Apply { rules: &cfg.rules };
        ap.visit_signature_mut(&mut sig);
        ap.visit_block_mut(&mut block);
    }
    let t = format!("pub {} {}", sig.to_token_stream(), block.to_token_stream());
    t
}
struct StripCfg;
impl VisitMut for StripCfg {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => cfg_on(&l.attrs),
            Stmt::Macro(m) => cfg_on(&m.attrs),
            Stmt::Expr(e, _) => cfg_on(&expr_attrs(e)),
            _ => true,
        });
        for s in &mut b.stmts {
            match s {
                Stmt::Local(l) => l.attrs.clear(),
                Stmt::Expr(e, _) => clear_attrs(e),
                _ => {}
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

pub fn emit_rawimpl(src: &mut Sources, p: &[&str], cfg: &UnitCfg) -> String {
    // p: path Type fn,fn,.. [+rw] ; other fns of the type that these call are added
    let path = p[0];
    let ty = p[1];
    let rw = p.contains(&"+rw");
    let mut todo: Vec<String> = p[2].split(',').map(|s| s.to_string()).collect();
    let mut done: Vec<String> = vec![];
    let mut out = String::new();
    let mut first = todo.len();
    while let Some(n) = todo.pop() {
        if done.contains(&n) {
            continue;
        }
        done.push(n.clone());
        let Some(f) = src.find_fn(path, &format!("{ty}::{n}")) else {
            if first > 0 {
                die(format!("lost anchor: fn {ty}::{n} in {path}"));
            }
            continue;
        };
        first = first.saturating_sub(1);
        out.push_str(&raw_fn(&f.sig, &f.block, rw, cfg));
        out.push('\n');
        let mut ids = BTreeSet::new();
        idents_of(f.block.to_token_stream(), &mut ids);
        for i in ids {
            if !done.contains(&i) && !cfg.known.contains(&i) && src.find_fn_here(&f.path, &format!("{ty}::{i}")).map(|x| !x.is_trait_impl).unwrap_or(false) {
                todo.push(i);
            }
        }
        if first == 0 {}
    }
    out
}

pub fn emit_rawhelpers(src: &mut Sources, path: &str, roots: &[&str], cfg: &UnitCfg) -> String {
    let rw = roots.contains(&"+rw");
    let mut todo: Vec<String> = vec![];
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut out = String::new();
    for r in roots {
        if r.starts_with('+') {
            continue;
        }
        let Some(f) = src.find_fn(path, r) else { die(format!("lost anchor: fn {r} in {path}")) };
        let mut ids = BTreeSet::new();
        idents_of(f.block.to_token_stream(), &mut ids);
        todo.extend(ids);
    }
    while let Some(n) = todo.pop() {
        if !done.insert(n.clone()) || cfg.known.contains(&n) || roots.contains(&n.as_str()) {
            continue;
        }
        if let Some(f) = src.find_fn_here(path, &n) {
            out.push_str(&raw_fn(&f.sig, &f.block, rw, cfg));
            out.push('\n');
            let mut ids = BTreeSet::new();
            idents_of(f.block.to_token_stream(), &mut ids);
            todo.extend(ids);
        } else if n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) && n.len() > 2 {
            if let Some(c) = src.find_const(path, &n) {
                out.push_str(&emit_const(c, cfg));
                out.push('\n');
            }
        }
    }
    out
}

// ---------------------------------------------------------------- lock guards

/// Makes the end of a lock guard's life explicit: `vx_unlock()` where the guard
/// is dropped, where its scope ends, and before every exit in between.
/// A guard that only lives for one expression becomes `lock_tmp()`.
struct Guards<'a> {
    notes: &'a mut BTreeSet<String>,
}
fn lock_call(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if m.method == "lock" && m.args.is_empty())
}
struct ExitUnlock {
    bad: bool,
}
impl VisitMut for ExitUnlock {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(_) => {
                let x = e.clone();
                *e = parse_quote!({ vx_unlock(); #x });
            }
            Expr::Try(_) => self.bad = true,
            Expr::Break(_) | Expr::Continue(_) => self.bad = true,
            Expr::Closure(_) => {}
            // breaks inside a loop of their own stay inside the guard's life
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
struct TmpLock;
impl VisitMut for TmpLock {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if lock_call(e) {
            if let Expr::MethodCall(m) = e {
                m.method = Ident::new("lock_tmp", m.method.span());
            }
        }
    }
}
impl VisitMut for Guards<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let mut guard: Option<String> = None;
        let n = stmts.len();
        for (i, mut s) in stmts.into_iter().enumerate() {
            let mut opened = false;
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                    if lock_call(&init.expr) {
                        if guard.is_some() {
                            die("two lock guards in one scope".into());
                        }
                        guard = Some(id.ident.to_string());
                        opened = true;
                        self.notes.insert("lock guard life made explicit".into());
                    }
                }
            }
            if opened {
                out.push(s);
                continue;
            }
            if let Some(g) = guard.clone() {
                let t = s.to_token_stream().to_string().replace(' ', "");
                if t == format!("drop({g});") || t == format!("std::mem::drop({g});") {
                    out.push(parse_quote!(vx_unlock();));
                    guard = None;
                    continue;
                }
                let mut x = ExitUnlock { bad: false };
                let tail = i + 1 == n && matches!(&s, Stmt::Expr(_, None));
                visit_mut::visit_stmt_mut(&mut x, &mut s);
                if x.bad {
                    die("exit while a lock guard is alive".into());
                }
                TmpLock.visit_stmt_mut(&mut s);
                if tail {
                    if let Stmt::Expr(e, None) = &s {
                        let v: Stmt = parse_quote!(let vx_tail = #e;);
                        out.push(v);
                        out.push(parse_quote!(vx_unlock();));
                        out.push(Stmt::Expr(parse_quote!(vx_tail), None));
                        guard = None;
                        continue;
                    }
                }
                out.push(s);
                continue;
            }
            // nested scopes first, then temporaries
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
        }
        if guard.is_some() {
            let div = matches!(out.last(), Some(Stmt::Expr(Expr::Block(_), _)) if false);
            if !div {
                out.push(parse_quote!(vx_unlock();));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if lock_call(e) {
            if let Expr::MethodCall(m) = e {
                m.method = Ident::new("lock_tmp", m.method.span());
            }
        }
    }
}

/// `//@rawitems path Name.. [+rw] [-Name] [-impl:Trait]`: the named items of a file with every impl of the named types,
/// and every item of the same file these mention (unless the template defines it), verbatim but for attributes.
pub fn emit_rawitems(src: &mut Sources, path: &str, args: &[&str], cfg: &UnitCfg) -> String {
    let rw = args.contains(&"+rw");
    let minus: BTreeSet<String> = args.iter().filter_map(|a| a.strip_prefix('-')).map(|a| a.to_string()).collect();
    let mut want: BTreeSet<String> = args.iter().filter(|a| !a.starts_with('+') && !a.starts_with('-')).map(|a| a.to_string()).collect();
    let mut items = vec![];
    fn flat(v: Vec<Item>, out: &mut Vec<Item>) {
        for i in v {
            if let Item::Mod(m) = i {
                if cfg_on(&m.attrs) && m.ident != "tests" && m.ident != "test" {
                    if let Some((_, v)) = m.content {
                        flat(v, out);
                    }
                }
            } else if cfg_on(&item_attrs(&i)) {
                out.push(i);
            }
        }
    }
    // a file that moved: the file that has the first item
    let mut p = path.to_string();
    let first = args.iter().find(|a| !a.starts_with('+') && !a.starts_with('-')).map(|a| a.to_string()).unwrap_or_default();
    for q in src.crate_files(path) {
        let f = src.load(&q);
        let mut v = vec![];
        flat(f.items, &mut v);
        if v.iter().any(|i| item_name(i).as_deref() == Some(first.as_str())) {
            p = q;
            break;
        }
    }
    flat(src.load(&p).items, &mut items);
    // impls of types of other files too
    let named: BTreeSet<String> =
        items.iter().filter_map(|i| if let Item::Impl(im) = i { Some(crate::find::type_name(&im.self_ty)).filter(|n| want.contains(n)) } else { item_name(i) }).collect();
    for w in &want {
        if !named.contains(w) {
            die(format!("lost anchor: item {w} in {path}"));
        }
    }
    let mut taken = vec![false; items.len()];
    loop {
        let mut more = false;
        for (k, i) in items.iter().enumerate() {
            if taken[k] || matches!(i, Item::Use(_)) {
                continue;
            }
            let take = match i {
                Item::Impl(im) => {
                    let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    want.contains(&crate::find::type_name(&im.self_ty)) && !tr.map(|t| minus.contains(&format!("impl:{t}"))).unwrap_or(false)
                }
                i => item_name(i).map(|n| want.contains(&n) && !minus.contains(&n)).unwrap_or(false),
            };
            if take {
                taken[k] = true;
                more = true;
                let mut ids = BTreeSet::new();
                idents_of(strip_item(i.clone()).to_token_stream(), &mut ids);
                for id in ids {
                    if named.contains(&id) && !cfg.known.contains(&id) && !minus.contains(&id) {
                        want.insert(id);
                    }
                }
            }
        }
        if !more {
            break;
        }
    }
    let mut out = String::new();
    for (k, i) in items.iter().enumerate() {
        if taken[k] {
            let mut i = strip_item(i.clone());
            if rw {
                Apply { rules: &cfg.rules }.visit_item_mut(&mut i);
            }
            out.push_str(&i.to_token_stream().to_string());
            out.push('\n');
        }
    }
    rustfmt(&out).unwrap_or(out)
}
fn item_attrs(i: &Item) -> Vec<Attribute> {
    match i {
        Item::Const(x) => x.attrs.clone(),
        Item::Enum(x) => x.attrs.clone(),
        Item::Fn(x) => x.attrs.clone(),
        Item::Impl(x) => x.attrs.clone(),
        Item::Macro(x) => x.attrs.clone(),
        Item::Static(x) => x.attrs.clone(),
        Item::Struct(x) => x.attrs.clone(),
        Item::Trait(x) => x.attrs.clone(),
        Item::Type(x) => x.attrs.clone(),
        Item::Use(x) => x.attrs.clone(),
        _ => vec![],
    }
}
fn item_name(i: &Item) -> Option<String> {
    Some(match i {
        Item::Const(x) => x.ident.to_string(),
        Item::Enum(x) => x.ident.to_string(),
        Item::Fn(x) => x.sig.ident.to_string(),
        Item::Macro(x) => x.ident.as_ref()?.to_string(),
        Item::Static(x) => x.ident.to_string(),
        Item::Struct(x) => x.ident.to_string(),
        Item::Trait(x) => x.ident.to_string(),
        Item::Type(x) => x.ident.to_string(),
        _ => return None,
    })
}
struct StripAttrs;
fn keep_attrs(a: &mut Vec<Attribute>) {
    a.retain(|a| a.path().is_ident("default"));
}
impl VisitMut for StripAttrs {
    fn visit_block_mut(&mut self, b: &mut Block) {
        StripCfg.visit_block_mut(b);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        keep_attrs(&mut f.attrs);
        visit_mut::visit_impl_item_fn_mut(self, f);
    }
    fn visit_impl_item_const_mut(&mut self, f: &mut ImplItemConst) {
        keep_attrs(&mut f.attrs);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        keep_attrs(&mut f.attrs);
        visit_mut::visit_trait_item_fn_mut(self, f);
    }
    fn visit_field_mut(&mut self, f: &mut Field) {
        keep_attrs(&mut f.attrs);
    }
    fn visit_variant_mut(&mut self, v: &mut Variant) {
        keep_attrs(&mut v.attrs);
        visit_mut::visit_variant_mut(self, v);
    }
}
fn strip_item(mut i: Item) -> Item {
    const STD: &[&str] = &["Clone", "Copy", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Default"];
    let mut derives: Vec<Ident> = vec![];
    for a in item_attrs(&i) {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(id) = m.path.segments.last() {
                    if STD.contains(&id.ident.to_string().as_str()) {
                        derives.push(id.ident.clone());
                    }
                }
                Ok(())
            });
        }
    }
    let at: Vec<Attribute> = if derives.is_empty() { vec![] } else { vec![parse_quote!(#[derive(#(#derives),*)])] };
    match &mut i {
        Item::Const(x) => x.attrs.clear(),
        Item::Enum(x) => x.attrs = at,
        Item::Fn(x) => x.attrs.clear(),
        Item::Impl(x) => {
            x.attrs.clear();
            x.items.retain(|it| match it {
                ImplItem::Fn(f) => cfg_on(&f.attrs),
                ImplItem::Const(f) => cfg_on(&f.attrs),
                _ => true,
            });
        }
        Item::Macro(x) => x.attrs.clear(),
        Item::Static(x) => x.attrs.clear(),
        Item::Struct(x) => x.attrs = at,
        Item::Trait(x) => x.attrs.clear(),
        Item::Type(x) => x.attrs.clear(),
        _ => {}
    }
    StripAttrs.visit_item_mut(&mut i);
    i
}
