//! Contract files: `@fn key(params)` blocks with tagged clauses, `@raw module` blocks.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug)]
pub struct Clause {
    /// function key and ordinal in the contract file: independent of slice and of dropped clauses
    pub id: String,
    pub kind: String, // requires ensures decreases invariant loop-ensures loop-decreases proof
    pub lp: Option<usize>,
    pub tags: Vec<String>,
    /// properties this clause states (tag with `!`), as opposed to supports
    pub goals: Vec<String>,
    pub label: String,
    pub text: String,
}
#[derive(Clone, Debug, Default)]
pub struct FnContract {
    pub params: Vec<String>,
    pub clauses: Vec<Clause>,
    pub attrs: Vec<String>,
    pub ret: Option<String>,
    pub tags: Vec<String>, // properties an unmarked postcondition of this function counts for
}
#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub raw: BTreeMap<String, String>,
    pub spec: String,
}

pub fn in_slice(tags: &[String], slice: &str) -> bool {
    slice == "*" || tags.iter().any(|t| t == "*" || t == slice)
}

fn tags_of(s: &str) -> Vec<String> {
    s.split(|c: char| c == ',' || c.is_whitespace())
        .filter(|t| !t.is_empty())
        .map(|t| t.to_string())
        .collect()
}

/// keeps a line ending in `//@ C01,C02` only in those slices
pub fn filter_lines(text: &str, slice: &str) -> String {
    let mut out = String::new();
    for l in text.lines() {
        if let Some(p) = l.find("//@") {
            let tags = tags_of(&l[p + 3..]);
            if in_slice(&tags, slice) {
                out.push_str(&l[..p]);
            }
        } else {
            out.push_str(l);
        }
        out.push('\n');
    }
    out
}

pub fn load(dir: &Path, slice: &str, drop: &[String]) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        let ext = f.extension().and_then(|e| e.to_str()).unwrap_or("");
        if ext != "vc" {
            continue;
        }
        let text = std::fs::read_to_string(&f).unwrap();
        parse(&mut c, &text, slice, &f.display().to_string());
    }
    for e in c.fns.values_mut() {
        e.clauses.retain(|cl| in_slice(&cl.tags, slice) && !drop.contains(&cl.id));
    }
    let spec = dir.join("spec.rs");
    if spec.exists() {
        c.spec = filter_lines(&std::fs::read_to_string(spec).unwrap(), slice);
        // lemmas that carry the contracts of single calls over to whole histories
        if let Ok(h) = std::fs::read_to_string(dir.join("history").join(format!("{slice}.rs"))) {
            c.spec.push_str(&h);
        }
    }
    c
}

fn parse(c: &mut Contracts, text: &str, slice: &str, file: &str) {
    enum Cur {
        None,
        Fn(String),
        Raw(String),
    }
    let mut cur = Cur::None;
    for (n, l) in text.lines().enumerate() {
        let bad = |m: &str| -> ! { panic!("{file}:{}: {m}: {l}", n + 1) };
        if let Some(rest) = l.strip_prefix("@fn ") {
            let (k, ps) = match rest.find('(') {
                Some(i) => (&rest[..i], rest[i + 1..].trim_end().trim_end_matches(')')),
                None => (rest.trim(), ""),
            };
            let params = tags_of(ps);
            let k = k.trim().to_string();
            c.fns.entry(k.clone()).or_default().params = params;
            cur = Cur::Fn(k);
            continue;
        }
        if let Some(rest) = l.strip_prefix("@raw ") {
            let k = rest.trim().to_string();
            cur = Cur::Raw(k);
            continue;
        }
        match &cur {
            Cur::None => {
                if !l.trim().is_empty() && !l.starts_with("//") {
                    bad("text outside a block")
                }
            }
            Cur::Raw(k) => {
                let e = c.raw.entry(k.clone()).or_default();
                e.push_str(&filter_lines(l, slice));
            }
            Cur::Fn(k) => {
                if l.trim().is_empty() || l.trim_start().starts_with("//") {
                    continue;
                }
                let e = c.fns.get_mut(k).unwrap();
                if l.starts_with(char::is_whitespace) {
                    match e.clauses.last_mut() {
                        Some(cl) => {
                            cl.text.push('\n');
                            let t = l.find("//").map_or(l, |p| &l[..p]);
                            cl.text.push_str(t);
                        }
                        None => bad("continuation without clause"),
                    }
                    continue;
                }
                let mut s = l;
                let mut lp = None;
                if let Some(r) = s.strip_prefix("loop ") {
                    let r = r.trim_start();
                    let i = r.find(' ').unwrap_or_else(|| bad("loop"));
                    lp = Some(r[..i].parse().unwrap_or_else(|_| bad("loop number")));
                    s = r[i..].trim_start();
                }
                if let Some(r) = s.strip_prefix("attr ") {
                    e.attrs.push(r.trim().to_string());
                    continue;
                }
                if let Some(r) = s.strip_prefix("ret ") {
                    e.ret = Some(r.trim().to_string());
                    continue;
                }
                if let Some(r) = s.strip_prefix("tags ") {
                    e.tags = tags_of(r);
                    continue;
                }
                let i = s.find(|ch: char| !(ch.is_alphabetic())).unwrap_or(s.len());
                let kind = s[..i].to_string();
                if !["requires", "ensures", "decreases", "invariant", "proof"].contains(&kind.as_str()) {
                    bad("unknown clause")
                }
                let mut rest = &s[i..];
                let mut tags = vec!["*".to_string()];
                if let Some(r) = rest.strip_prefix('[') {
                    let j = r.find(']').unwrap_or_else(|| bad("tags"));
                    tags = tags_of(&r[..j]);
                    rest = &r[j + 1..];
                }
                let mut rest = rest.trim_start();
                let mut label = String::new();
                if let Some(r) = rest.strip_prefix('\'') {
                    let j = r.find('\'').unwrap_or_else(|| bad("label"));
                    label = r[..j].to_string();
                    rest = &r[j + 1..];
                }
                let t = rest.find("//").map_or(rest, |p| &rest[..p]);
                let goals = tags.iter().filter_map(|t| t.strip_suffix('!')).map(|t| t.to_string()).collect();
                for t in tags.iter_mut() {
                    *t = t.trim_end_matches('!').to_string();
                }
                let id = format!("{k}#{}", e.clauses.len());
                e.clauses.push(Clause { id, kind, lp, tags, goals, label, text: t.trim_start().to_string() });
            }
        }
    }

}
