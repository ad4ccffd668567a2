//! Contract files: line-oriented directives starting with `//@`.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone, Debug)]
pub struct FnOverlay {
    pub attrs: Vec<String>,
    pub ret: Option<String>,
    pub spec: String,
    pub byref_self: bool,
    pub props: Vec<String>,
    pub loops: BTreeMap<usize, String>,
    pub loop_hooks: BTreeMap<(usize, String), String>,
    pub start: String,
    pub end: String,
    pub tail: String,
    /// (before?, pattern, nth, text)
    pub stmts: Vec<(bool, String, usize, String)>,
}

#[derive(Default)]
pub struct Overlays {
    pub prelude: String,
    pub spec_modules: Vec<(String, String)>,
    pub modules: Vec<(String, String)>,
    pub module_uses: Vec<String>,
    pub fns: BTreeMap<String, FnOverlay>,
    pub items: BTreeMap<String, String>,
    pub item_attrs: BTreeMap<String, String>,
    pub extra: BTreeMap<String, String>,
    pub extra_before: BTreeMap<String, String>,
    pub skip: BTreeSet<String>,
    pub skip_use: Vec<String>,
    pub skip_header: Vec<String>,
}

enum Sect {
    None,
    Prelude,
    Item(String),
    ItemAttr(String),
    Extra(String),
    ExtraBefore(String),
    FnSpec(String),
    FnLoop(String, usize),
    FnLoopHook(String, usize, String),
    FnStart(String),
    FnEnd(String),
    FnTail(String),
    FnStmt(String, usize),
}

pub fn load(dir: &str, features: &std::collections::BTreeSet<String>) -> Overlays {
    let mut o = Overlays::default();
    // config.vrs fixes the module list and order; spec_*.rs are spec modules in listed order
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .expect("contracts dir")
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .filter(|p| p.extension().map(|x| x == "vrs").unwrap_or(false))
        .collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let mut cur_fn: Option<String> = None;
        let mut sect = Sect::None;
        let mut module = f.file_stem().unwrap().to_string_lossy().to_string();
        let mut on = true;
        for line in text.lines() {
            let t = line.trim_start();
            // `//@ if feature`, `//@ if !feature`, `//@ endif`: text for some builds only
            if let Some(c) = t.strip_prefix("//@ if ") {
                let c = c.trim();
                on = match c.strip_prefix('!') {
                    Some(f) => !features.contains(f),
                    None => features.contains(c),
                };
                continue;
            }
            if t.trim_end() == "//@ endif" {
                on = true;
                continue;
            }
            if !on {
                continue;
            }
            if let Some(d) = t.strip_prefix("//@") {
                let d = d.trim();
                let (cmd, rest) = match d.split_once(char::is_whitespace) {
                    Some((a, b)) => (a, b.trim()),
                    None => (d, ""),
                };
                let k = |s: &str| format!("{module}::{s}");
                match cmd {
                    "prelude" => sect = Sect::Prelude,
                    "module" => {
                        module = rest.to_string();
                        sect = Sect::None;
                    }
                    "source" => {
                        let (a, b) = rest.split_once(char::is_whitespace).unwrap();
                        o.modules.push((a.to_string(), b.trim().to_string()));
                    }
                    "spec-module" => {
                        let p = format!("{dir}/{rest}.rs");
                        let text = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p}: {e}"));
                        o.spec_modules.push((rest.to_string(), text));
                    }
                    "module-use" => o.module_uses.push(rest.to_string()),
                    "skip" => {
                        o.skip.insert(k(rest));
                    }
                    "skip-use" => o.skip_use.push(rest.to_string()),
                    "skip-header" => o.skip_header.push(rest.to_string()),
                    "item" => sect = Sect::Item(k(rest)),
                    "item-attr" => sect = Sect::ItemAttr(k(rest)),
                    "extra" => sect = Sect::Extra(if rest == "mod" { format!("mod {module}") } else { k(rest) }),
                    "extra-before" => sect = Sect::ExtraBefore(k(rest)),
                    "fn" => {
                        let key = k(rest);
                        if o.fns.insert(key.clone(), FnOverlay::default()).is_some() {
                            panic!("duplicate contract for {key}");
                        }
                        cur_fn = Some(key.clone());
                        sect = Sect::FnSpec(key);
                    }
                    _ => {
                        let key = cur_fn.clone().unwrap_or_else(|| panic!("directive {d} outside fn"));
                        let fo = o.fns.get_mut(&key).unwrap();
                        match cmd {
                            "ret" => fo.ret = Some(rest.to_string()),
                            "attr" => fo.attrs.push(rest.to_string()),
                            "props" => fo.props = rest.split_whitespace().map(String::from).collect(),
                            "byref-self" => fo.byref_self = true,
                            "loop" => {
                                let mut it = rest.split_whitespace();
                                let n: usize = it.next().unwrap().parse().unwrap();
                                match it.next() {
                                    None => sect = Sect::FnLoop(key, n),
                                    Some(w) => sect = Sect::FnLoopHook(key, n, w.to_string()),
                                }
                            }
                            "at" => {
                                sect = match rest {
                                    "start" => Sect::FnStart(key),
                                    "end" => Sect::FnEnd(key),
                                    "tail" => Sect::FnTail(key),
                                    _ => panic!("at {rest}"),
                                }
                            }
                            "before" | "after" => {
                                // optional #n prefix: `before #1 text`
                                let (n, pat) = if let Some(r) = rest.strip_prefix('#') {
                                    let (a, b) = r.split_once(char::is_whitespace).unwrap();
                                    (a.parse().unwrap(), b.trim())
                                } else {
                                    (0, rest)
                                };
                                fo.stmts.push((cmd == "before", pat.to_string(), n, String::new()));
                                let i = fo.stmts.len() - 1;
                                sect = Sect::FnStmt(key, i);
                            }
                            _ => panic!("unknown directive {d} in {f:?}"),
                        }
                    }
                }
                continue;
            }
            let dst: &mut String = match &sect {
                Sect::None => continue,
                Sect::Prelude => &mut o.prelude,
                Sect::Item(k) => o.items.entry(k.clone()).or_default(),
                Sect::ItemAttr(k) => o.item_attrs.entry(k.clone()).or_default(),
                Sect::Extra(k) => o.extra.entry(k.clone()).or_default(),
                Sect::ExtraBefore(k) => o.extra_before.entry(k.clone()).or_default(),
                Sect::FnSpec(k) => &mut o.fns.get_mut(k).unwrap().spec,
                Sect::FnLoop(k, n) => o.fns.get_mut(k).unwrap().loops.entry(*n).or_default(),
                Sect::FnLoopHook(k, n, w) => {
                    o.fns.get_mut(k).unwrap().loop_hooks.entry((*n, w.clone())).or_default()
                }
                Sect::FnStart(k) => &mut o.fns.get_mut(k).unwrap().start,
                Sect::FnEnd(k) => &mut o.fns.get_mut(k).unwrap().end,
                Sect::FnTail(k) => &mut o.fns.get_mut(k).unwrap().tail,
                Sect::FnStmt(k, i) => &mut o.fns.get_mut(k).unwrap().stmts[*i].3,
            };
            dst.push_str(line);
            dst.push('\n');
        }
    }
    o
}
