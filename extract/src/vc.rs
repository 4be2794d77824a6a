//! Contract files: see contracts/README.
use std::collections::{BTreeMap, BTreeSet};

pub enum Kind {
    Raw,
    Include(String),
    Item(String, String, String),
    Func(String, String),
    Absent(String, String),
}
pub struct Directive {
    pub kind: Kind,
    pub name: String,
    pub text: String,
    pub sections: BTreeMap<String, String>,
    pub flags: BTreeSet<String>,
    /// loop ordinal -> clause text
    pub loops: BTreeMap<usize, String>,
    /// point name (start, tail, loop_start 0, ...) -> proof text
    pub points: BTreeMap<String, String>,
    pub rewrites: Vec<(String, String)>,
}
impl Directive {
    fn new(kind: Kind, name: &str) -> Self {
        Directive {
            kind,
            name: name.into(),
            text: String::new(),
            sections: Default::default(),
            flags: Default::default(),
            loops: Default::default(),
            points: Default::default(),
            rewrites: vec![],
        }
    }
}

pub fn parse_vc(path: &str) -> Result<Vec<Directive>, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let mut out: Vec<Directive> = vec![];
    let mut section: Option<String> = None;
    let mut pending: Option<(String, String)> = None; // multi-line rewrite
    for (n, line) in text.lines().enumerate() {
        if let Some(rest) = line.strip_prefix("//@ ") {
            section = None;
            let w: Vec<&str> = rest.split_whitespace().collect();
            // functions proved in another unit, here with the same contract and no body
            if let ["stub", file, p, key @ ..] = w.as_slice() {
                let other = std::path::Path::new(path).with_file_name(file);
                let key = key.join(" ");
                let mut hit = false;
                for mut d in parse_vc(&other.to_string_lossy())? {
                    let ok = match &d.kind {
                        Kind::Func(q, k) => *p == "*" || (q == p && (key == "*" || *k == key)),
                        _ => false,
                    };
                    if ok {
                        hit = true;
                        d.flags.insert("stub".into());
                        d.sections.remove("props");
                        out.push(d);
                    }
                }
                if !hit {
                    return Err(format!("{path}:{}: nothing matches {line}", n + 1));
                }
                continue;
            }
            let d = match w.as_slice() {
                ["raw", name @ ..] => Directive::new(Kind::Raw, &name.join(" ")),
                ["include", p] => Directive::new(Kind::Include(p.to_string()), p),
                ["item", p, k, name] => Directive::new(Kind::Item(p.to_string(), k.to_string(), name.to_string()), name),
                ["absent", p, key @ ..] => Directive::new(Kind::Absent(p.to_string(), key.join(" ")), &key.join(" ")),
                ["fn", p, key @ ..] => Directive::new(Kind::Func(p.to_string(), key.join(" ")), &key.join(" ")),
                _ => return Err(format!("{path}:{}: unknown directive {line}", n + 1)),
            };
            out.push(d);
            continue;
        }
        let Some(d) = out.last_mut() else { continue };
        if matches!(d.kind, Kind::Raw | Kind::Include(_)) {
            d.text.push_str(line);
            d.text.push('\n');
            continue;
        }
        if let Some((pat, rep)) = pending.as_mut() {
            // lines until ":end" belong to the replacement
            if line.trim() == ":end" {
                d.rewrites.push((pat.clone(), rep.clone()));
                pending = None;
            } else {
                rep.push_str(line);
                rep.push('\n');
            }
            continue;
        }
        if let Some(rest) = line.strip_prefix(':') {
            section = None;
            let (head, tail) = match rest.split_once(char::is_whitespace) {
                Some((h, t)) => (h.trim(), t.trim()),
                None => (rest.trim(), ""),
            };
            match head {
                "stub" | "new_impl" | "no_unwind" | "unfold" | "resmap" | "optmap" => {
                    d.flags.insert(head.to_string());
                }
                "rewrite" => {
                    if let Some(p) = tail.strip_suffix("=>>") {
                        pending = Some((p.trim().to_string(), String::new()));
                    } else {
                        let (a, b) = tail.split_once("=>>").ok_or(format!("{path}:{}: rewrite without =>>", n + 1))?;
                        d.rewrites.push((a.trim().into(), b.trim().into()));
                    }
                }
                "loop" => {
                    let k: usize = tail.parse().map_err(|_| format!("{path}:{}: loop number", n + 1))?;
                    d.loops.insert(k, String::new());
                    section = Some(format!("loop {k}"));
                }
                "start" | "tail" | "loop_start" | "loop_end" | "before_loop" | "after_loop" | "after_let" | "before_let" | "before" | "after" => {
                    let k = if tail.is_empty() { head.to_string() } else { format!("{head} {tail}") };
                    d.points.insert(k.clone(), String::new());
                    section = Some(format!("point {k}"));
                }
                _ => {
                    d.sections.insert(head.to_string(), format!("{tail}\n"));
                    section = Some(head.to_string());
                }
            }
            continue;
        }
        if let Some(s) = &section {
            let t = if let Some(k) = s.strip_prefix("loop ") {
                d.loops.get_mut(&k.parse::<usize>().unwrap()).unwrap()
            } else if let Some(k) = s.strip_prefix("point ") {
                d.points.get_mut(k).unwrap()
            } else {
                d.sections.get_mut(s).unwrap()
            };
            t.push_str(line);
            t.push('\n');
        }
    }
    Ok(out)
}
