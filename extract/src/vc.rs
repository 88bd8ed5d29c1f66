//! Parser of the contract files (`contracts/*.vc`).
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub key: String,               // TYPE::NAME or NAME
    pub ret: Option<String>,
    pub params: Vec<String>,       // contract names of the non-self parameters, by position
    pub locals: Vec<(String, usize)>,
    pub effects: bool,
    pub external: bool,
    pub nodecr: bool,
    pub diverges: bool,
    pub spec: String,
    pub begin: String,
    pub end: String,
    pub loops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    /// loops whose rounds that end early need no proof
    pub nocontinue: Vec<usize>,
    pub afterloop: BTreeMap<usize, String>,
    pub beforeloop: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub spawns: BTreeMap<usize, String>,
    pub asyncs: BTreeMap<usize, String>,
    pub sig: Option<String>,
    pub after: Vec<(String, String)>,
    pub attry: Vec<(String, String)>,
    pub before: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub generics_add: Option<String>,
    pub props: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum Piece {
    Env(String),
    Raw(String),
    Ddl(String),
    Item { source: String, kind: String, name: String, opts: Vec<String> },
    Impl { source: String, ty: String, tr: Option<String>, only: Option<Vec<String>>, skip: Vec<String>, assume: bool, header: Option<String>, ofdef: bool },
    FreeFn { source: String, name: String, assume: bool },
}

#[derive(Clone, Debug, Default)]
pub struct Unit {
    pub pieces: Vec<Piece>,
    pub fns: BTreeMap<String, FnSpec>,
    pub effects: BTreeSet<String>,
    pub macros: Vec<String>,
    pub drop_macros: BTreeSet<String>,
    pub features: BTreeSet<String>,
    pub renames: BTreeMap<String, String>,
    pub specfns: BTreeMap<String, String>,
    pub keepmods: BTreeSet<String>,
    pub drop_paths: BTreeSet<String>,
    pub derefs: BTreeSet<String>,
    /// SQL texts become ghost statements
    pub sql: bool,
    /// files with the tables' definitions
    pub ddl: Vec<String>,
    /// `format!` with the contents of what it writes
    pub format: bool,
    /// methods of builders that are modelled by value: `b.m(..);` becomes `b = b.m(..);`, and an array argument its elements one by one
    pub builder: BTreeSet<String>,
    pub included: BTreeSet<String>,
}

pub fn load(dir: &str, file: &str, assume: bool, unit: &mut Unit) -> Result<(), String> {
    if !unit.included.insert(file.to_string()) {
        return Ok(());
    }
    let path = format!("{dir}/{file}");
    let text = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let mut source = String::new();
    while i < lines.len() {
        let line = lines[i];
        i += 1;
        let Some(rest) = line.strip_prefix('#') else { continue };
        let mut words = rest.split_whitespace();
        let Some(dir_) = words.next() else { continue };
        let args: Vec<String> = words.map(|s| s.to_string()).collect();
        let opt = |name: &str| -> Option<String> {
            args.iter().find_map(|a| a.strip_prefix(&format!("{name}=")).map(|s| s.to_string()))
        };
        match dir_ {
            "env" | "raw" | "rawverify" => {
                let mut body = String::new();
                while i < lines.len() && lines[i] != "#end" {
                    body.push_str(lines[i]);
                    body.push('\n');
                    i += 1;
                }
                i += 1;
                match dir_ {
                    "env" => unit.pieces.push(Piece::Env(body)),
                    // lemmas that only the owning unit needs to discharge
                    "rawverify" => if !assume { unit.pieces.push(Piece::Raw(body)) },
                    _ => unit.pieces.push(Piece::Raw(body)),
                }
            }
            "source" => source = args[0].clone(),
            "item" => unit.pieces.push(Piece::Item {
                source: source.clone(), kind: args[0].clone(), name: args[1].clone(), opts: args[2..].to_vec(),
            }),
            "impl" => unit.pieces.push(Piece::Impl {
                source: source.clone(),
                ty: args[0].clone(),
                tr: opt("trait"),
                only: opt("only").map(|s| s.split(',').map(|x| x.to_string()).collect()),
                skip: opt("skip").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
                assume,
                ofdef: opt("of").map(|s| s == "trait").unwrap_or(false),
                header: opt("header").map(|s| s.replace("~", " ")),
            }),
            "freefn" => unit.pieces.push(Piece::FreeFn { source: source.clone(), name: args[0].clone(), assume }),
            "effects" => unit.effects.extend(args),
            "macros" => unit.macros.push(args[0].clone()),
            "dropmacros" => unit.drop_macros.extend(args),
            "feature" => { unit.features.insert(args[0].clone()); }
            "rename" => for a in &args { if let Some((x, y)) = a.split_once('=') { unit.renames.insert(x.into(), y.into()); } },
            "specfn" => for a in &args { if let Some((x, y)) = a.split_once('=') { unit.specfns.insert(x.into(), y.into()); } },
            "keepmods" => unit.keepmods.extend(args),
            "deref" => unit.derefs.extend(args),
            "sql" => unit.sql = true,
            "ddl" => { unit.ddl.push(args[0].clone()); unit.pieces.push(Piece::Ddl(args[0].clone())); }
            "format" => unit.format = true,
            "builder" => unit.builder.extend(args),
            "droppaths" => unit.drop_paths.extend(args),
            "include" => {
                let asm = assume || args.get(1).map(|s| s == "assume").unwrap_or(false);
                load(dir, &args[0], asm, unit)?;
            }
            "fn" => {
                let mut f = FnSpec { key: args[0].clone(), ..Default::default() };
                let mut cur: Option<(String, Vec<String>)> = None;
                let mut buf = String::new();
                let mut flush = |cur: &mut Option<(String, Vec<String>)>, buf: &mut String, f: &mut FnSpec| -> Result<(), String> {
                    if let Some((d, a)) = cur.take() {
                        let n = || -> Result<usize, String> { a.first().and_then(|s| s.parse().ok()).ok_or(format!("{path}: @{d} needs a number")) };
                        let txt = std::mem::take(buf);
                        match d.as_str() {
                            "spec" => f.spec = txt,
                            "begin" => f.begin = txt,
                            "end" => f.end = txt,
                            "loop" => { f.loops.insert(n()?, txt); }
                            "loopstart" => { f.loopstart.insert(n()?, txt); }
                            "nocontinue" => f.nocontinue.push(n()?),
                            "loopend" => { f.loopend.insert(n()?, txt); }
                            "afterloop" => { f.afterloop.insert(n()?, txt); }
                            "beforeloop" => { f.beforeloop.insert(n()?, txt); }
                            "closure" => { f.closures.insert(n()?, txt); }
                            "sig" => f.sig = Some(txt),
                            "attry" => f.attry.push((a.join(" "), txt)),
                            "after" => f.after.push((a.join(" "), txt)),
                            "before" => f.before.push((a.join(" "), txt)),
                            _ => return Err(format!("{path}: unknown @{d}")),
                        }
                    }
                    buf.clear();
                    Ok(())
                };
                while i < lines.len() && lines[i] != "#end" {
                    let l = lines[i];
                    i += 1;
                    if let Some(r) = l.strip_prefix('@') {
                        flush(&mut cur, &mut buf, &mut f)?;
                        let mut w = r.split_whitespace();
                        let d = w.next().unwrap_or("").to_string();
                        let a: Vec<String> = w.map(|s| s.to_string()).collect();
                        match d.as_str() {
                            "ret" => f.ret = Some(a[0].clone()),
                            "params" => f.params = a,
                            "local" => f.locals.push((a[0].clone(), a[1].parse().unwrap())),
                            "effects" => f.effects = true,
                            "external" => f.external = true,
                            "diverges" => f.diverges = true,
                            "nodecr" => f.nodecr = true,
                            "attr" => f.attrs.push(a.join(" ")),
                            "generics" => f.generics_add = Some(a.join(" ")),
                            "prop" => f.props = a,
                            "spawn" => { f.spawns.insert(a[0].parse().unwrap(), a[1..].join(" ")); }
                            "async" => { f.asyncs.insert(a[0].parse().unwrap(), a[1..].join(" ")); }
                            _ => cur = Some((d, a)),
                        }
                    } else {
                        buf.push_str(l);
                        buf.push('\n');
                    }
                }
                i += 1;
                flush(&mut cur, &mut buf, &mut f)?;
                if f.effects {
                    let last = f.key.rsplit("::").next().unwrap().to_string();
                    unit.effects.insert(last);
                }
                unit.fns.insert(f.key.clone(), f);
            }
            "end" => {}
            other => return Err(format!("{path}:{i}: unknown directive #{other}")),
        }
    }
    Ok(())
}
