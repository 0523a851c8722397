//! Pattern rewriting on token trees, applied per AST node.
use super::*;

#[derive(Clone, Debug)]
pub struct Rule {
    pub kind: String,
    pub pat: Vec<TokenTree>,
    pub disc: Option<std::mem::Discriminant<Expr>>,
    pub rep: TokenStream,
}

#[derive(Clone, Default)]
pub struct Rules {
    pub list: Vec<Rule>,
    pub macros: Vec<(String, String)>,
    pub dropcalls: BTreeSet<String>,
}

fn mv(s: &str) -> String {
    s.replace('$', "__mv_")
}

impl Rules {
    pub fn append(&mut self, o: &Rules) {
        self.list.extend(o.list.iter().cloned());
        self.macros.extend(o.macros.iter().cloned());
        self.dropcalls.extend(o.dropcalls.iter().cloned());
    }
    pub fn add(&mut self, cmd: &str, rest: &str) {
        match cmd {
            "rw" => {
                let (kind, r) = rest.split_once(' ').unwrap();
                let (a, b) = r.split_once(" ==> ").or_else(|| r.split_once(" => ")).unwrap_or_else(|| die(format!("template: bad rule {rest}")));
                let (a, b) = (mv(a), mv(b));
                let pts = TokenStream::from_str(&a).unwrap_or_else(|e| die(format!("template rule {a}: {e}")));
                let rep = TokenStream::from_str(&b).unwrap_or_else(|e| die(format!("template rule {b}: {e}")));
                let mut disc = None;
                if kind == "expr" {
                    let e: Expr = parse2(pts.clone()).unwrap_or_else(|e| die(format!("template rule {a}: {e}")));
                    disc = Some(std::mem::discriminant(&e));
                }
                let pat = flat(pts);
                self.list.push(Rule { kind: kind.into(), pat, disc, rep });
            }
            "macro" => {
                let (a, b) = rest.split_once(" => ").unwrap_or_else(|| die(format!("template: bad macro rule {rest}")));
                self.macros.push((a.trim().into(), b.trim().into()));
            }
            "dropcall" => {
                self.dropcalls.extend(rest.split_whitespace().map(|s| s.to_string()));
            }
            _ => unreachable!(),
        }
    }
    pub fn apply_expr(&self, e: &mut Expr) {
        for r in &self.list {
            if r.kind != "expr" || r.disc != Some(std::mem::discriminant(&*e)) {
                continue;
            }
            let ts = flat(e.to_token_stream());
            let mut b = HashMap::new();
            if matches(&r.pat, &ts, &mut b) {
                // captured parts must be expressions
                let rep = subst(&r.rep, &b);
                match parse2::<Expr>(rep.clone()) {
                    Ok(x) => {
                        *e = x;
                        return;
                    }
                    Err(err) => die(format!("rule replacement does not parse: {rep}: {err}")),
                }
            }
        }
    }
    pub fn apply_type(&self, t: &mut Type) {
        for r in &self.list {
            if r.kind != "type" {
                continue;
            }
            let ts = flat(t.to_token_stream());
            let mut b = HashMap::new();
            if matches(&r.pat, &ts, &mut b) {
                if let Ok(x) = parse2::<Type>(subst(&r.rep, &b)) {
                    *t = x;
                    return;
                }
            }
        }
    }
    pub fn apply_pat(&self, t: &mut Pat) {
        for r in &self.list {
            if r.kind != "pat" {
                continue;
            }
            let ts = flat(t.to_token_stream());
            let mut b = HashMap::new();
            if matches(&r.pat, &ts, &mut b) {
                use syn::parse::Parser;
                let rep = subst(&r.rep, &b);
                if let Ok(x) = Pat::parse_multi.parse2(rep) {
                    *t = x;
                    return;
                }
            }
        }
    }
}

pub fn flat(ts: TokenStream) -> Vec<TokenTree> {
    // None-delimited groups are invisible: flatten them
    let mut v = vec![];
    for t in ts {
        if let TokenTree::Group(g) = &t {
            if g.delimiter() == Delimiter::None {
                v.extend(flat(g.stream()));
                continue;
            }
        }
        v.push(t);
    }
    v
}

fn metavar(t: &TokenTree) -> Option<String> {
    if let TokenTree::Ident(i) = t {
        let s = i.to_string();
        return s.strip_prefix("__mv_").map(|x| x.to_string());
    }
    None
}

fn matches(p: &[TokenTree], t: &[TokenTree], b: &mut HashMap<String, Vec<TokenTree>>) -> bool {
    if p.is_empty() {
        return t.is_empty();
    }
    if let Some(name) = metavar(&p[0]) {
        if let Some(prev) = b.get(&name).cloned() {
            let n = prev.len();
            if t.len() < n {
                return false;
            }
            let eq = prev.iter().zip(t).all(|(a, c)| a.to_string() == c.to_string());
            return eq && matches(&p[1..], &t[n..], b);
        }
        let lo = if name.ends_with("_opt") { 0 } else { 1 };
        for n in lo..=t.len() {
            let mut b2 = b.clone();
            b2.insert(name.clone(), t[..n].to_vec());
            // captured text must not contain a top-level comma unless the name says so
            if !name.ends_with("_opt")
                && !name.ends_with("_list")
                && t[..n].iter().any(|x| matches!(x, TokenTree::Punct(q) if q.as_char()==',' || q.as_char()==';'))
            {
                break;
            }
            if matches(&p[1..], &t[n..], &mut b2) {
                *b = b2;
                return true;
            }
        }
        return false;
    }
    if t.is_empty() {
        return false;
    }
    match (&p[0], &t[0]) {
        (TokenTree::Group(a), TokenTree::Group(c)) => {
            a.delimiter() == c.delimiter() && {
                let mut cs = flat(c.stream());
                let ps = flat(a.stream());
                // a trailing comma is irrelevant
                if let Some(TokenTree::Punct(q)) = cs.last() {
                    if q.as_char() == ',' && !matches!(ps.last(), Some(TokenTree::Punct(q)) if q.as_char()==',') {
                        cs.pop();
                    }
                }
                let mut b2 = b.clone();
                if matches(&ps, &cs, &mut b2) {
                    *b = b2;
                    matches(&p[1..], &t[1..], b)
                } else {
                    false
                }
            }
        }
        (TokenTree::Ident(a), TokenTree::Ident(c)) => a == c && matches(&p[1..], &t[1..], b),
        (TokenTree::Punct(a), TokenTree::Punct(c)) => {
            // `>` is not the start of `>=`, `..` not that of `..=`
            let longer = a.spacing() == proc_macro2::Spacing::Alone
                && c.spacing() == proc_macro2::Spacing::Joint
                && matches!(t.get(1), Some(TokenTree::Punct(q)) if q.as_char() == '=');
            a.as_char() == c.as_char() && !longer && matches(&p[1..], &t[1..], b)
        }
        (TokenTree::Literal(a), TokenTree::Literal(c)) => {
            a.to_string() == c.to_string() && matches(&p[1..], &t[1..], b)
        }
        _ => false,
    }
}

fn subst(r: &TokenStream, b: &HashMap<String, Vec<TokenTree>>) -> TokenStream {
    let mut out = TokenStream::new();
    for t in r.clone() {
        if let Some(n) = metavar(&t) {
            if let Some(v) = b.get(&n) {
                out.extend(v.iter().cloned());
                continue;
            }
        }
        if let TokenTree::Group(g) = &t {
            let mut ng = proc_macro2::Group::new(g.delimiter(), subst(&g.stream(), b));
            ng.set_span(g.span());
            out.extend([TokenTree::Group(ng)]);
            continue;
        }
        out.extend([t]);
    }
    out
}
