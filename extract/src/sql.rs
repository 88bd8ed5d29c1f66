//! The SQL subset: a statement's text becomes a ghost value that says what it selects, removes or adds.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
enum T { W(String), N(String), S(String), P(Option<usize>), H(String), O(String) }

fn lex(s: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() { i += 1; continue; }
        let take = |i: &mut usize, f: &dyn Fn(char) -> bool| { let a = *i; while *i < c.len() && f(c[*i]) { *i += 1; } c[a..*i].iter().collect::<String>() };
        if x.is_alphabetic() || x == '_' { v.push(T::W(take(&mut i, &|d| d.is_alphanumeric() || d == '_'))); continue; }
        if x.is_ascii_digit() { v.push(T::N(take(&mut i, &|d| d.is_ascii_digit()))); continue; }
        if x == '?' || x == '$' { i += 1; let n = take(&mut i, &|d| d.is_ascii_digit()); v.push(T::P(if n.is_empty() { None } else { Some(n.parse().map_err(|_| "parameter")?) })); continue; }
        if x == '\'' { i += 1; let t = take(&mut i, &|d| d != '\''); i += 1; v.push(T::S(t)); continue; }
        if x == '{' { i += 1; let t = take(&mut i, &|d| d != '}'); i += 1; v.push(T::H(t)); continue; }
        let two: String = c[i..(i + 2).min(c.len())].iter().collect();
        if ["<=", ">=", "<>", "!=", "=="].contains(&two.as_str()) { v.push(T::O(two)); i += 2; continue; }
        if "(),=<>;*".contains(x) { v.push(T::O(x.to_string())); i += 1; continue; }
        return Err(format!("SQL: {x:?} in {s:?}"));
    }
    Ok(v)
}
struct P { t: Vec<T>, i: usize, binds: usize }
impl P {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn word(&mut self, w: &str) -> bool { if matches!(self.peek(), Some(T::W(x)) if x.eq_ignore_ascii_case(w)) { self.i += 1; true } else { false } }
    fn op(&mut self, o: &str) -> bool { if matches!(self.peek(), Some(T::O(x)) if x == o) { self.i += 1; true } else { false } }
    fn need_w(&mut self, w: &str) -> Result<(), String> { if self.word(w) { Ok(()) } else { Err(format!("SQL: no {w} at {:?}", self.peek())) } }
    fn need_o(&mut self, w: &str) -> Result<(), String> { if self.op(w) { Ok(()) } else { Err(format!("SQL: no {w} at {:?}", self.peek())) } }
    fn name(&mut self) -> Result<String, String> { match self.peek().cloned() { Some(T::W(x)) => { self.i += 1; Ok(x) } x => Err(format!("SQL: name instead of {x:?}")) } }
    fn table(&mut self) -> Result<String, String> { match self.peek().cloned() { Some(T::H(x)) => { self.i += 1; Ok(format!("tbl({x}@)")) } _ => Ok(format!("Tbl::{}", self.name()?.to_lowercase())) } }
    fn bind(&mut self, n: Option<usize>) -> String { let k = match n { Some(k) => k - 1, None => { self.binds += 1; self.binds - 1 } }; format!("b[{k}]") }
    fn value(&mut self) -> Result<String, String> {
        if self.op("(") { let v = self.value()?; self.need_o(")")?; return Ok(v); }
        let t = self.peek().cloned();
        self.i += 1;
        match t {
            Some(T::W(x)) => Ok(format!("r[Col::{}]", if x.eq_ignore_ascii_case("type") { "r#type".to_string() } else { x.to_lowercase() })),
            Some(T::N(x)) => Ok(format!("Val::Num({x} * NANO)")),
            Some(T::S(x)) => Ok(format!("Val::Txt({x:?}@)")),
            Some(T::P(n)) => Ok(self.bind(n)),
            x => Err(format!("SQL: value instead of {x:?}")),
        }
    }
    fn or(&mut self) -> Result<String, String> { let mut a = self.and()?; while self.word("or") { let b = self.and()?; a = format!("({a} || {b})"); } Ok(a) }
    fn and(&mut self) -> Result<String, String> { let mut a = self.not()?; while self.word("and") { let b = self.not()?; a = format!("({a} && {b})"); } Ok(a) }
    fn not(&mut self) -> Result<String, String> {
        if self.word("not") { return Ok(format!("!{}", self.not()?)); }
        // a parenthesis may hold a condition or a value
        let (i, b) = (self.i, self.binds);
        if self.op("(") { if let Ok(c) = self.or() { if self.op(")") && !matches!(self.peek(), Some(T::O(o)) if o != ")" && o != ";") { return Ok(c); } } self.i = i; self.binds = b; }
        let a = self.value()?;
        let Some(T::O(o)) = self.peek().cloned() else { return Err(format!("SQL: comparison instead of {:?}", self.peek())) };
        self.i += 1;
        let c = self.value()?;
        Ok(match o.as_str() { "=" | "==" => format!("({a} == {c})"), "<>" | "!=" => format!("({a} != {c})"), "<" => format!("lt({a}, {c})"), ">" => format!("lt({c}, {a})"), "<=" => format!("!lt({c}, {a})"), ">=" => format!("!lt({a}, {c})"), _ => return Err(format!("SQL: {o}")) })
    }
    fn cond(&mut self) -> Result<String, String> { let c = if self.word("where") { self.or()? } else { "true".into() }; Ok(format!("|r: Row, b: Seq<Val>| {c}")) }
}
pub fn ghost(s: &str) -> Result<String, String> {
    let mut p = P { t: lex(s)?, i: 0, binds: 0 };
    let mut o = String::new();
    if p.word("delete") {
        p.need_w("from")?;
        let t = p.table()?;
        let c = p.cond()?;
        let ret = p.word("returning");
        if ret { p.need_o("*")?; }
        write!(o, "Sql::Delete({t}, {c}, {ret})").unwrap();
    } else if p.word("insert") || p.word("replace") {
        let mut rep = matches!(&p.t[0], T::W(w) if w.eq_ignore_ascii_case("replace"));
        if p.word("or") { if p.word("replace") { rep = true; } else { return Err(format!("SQL: insert or {:?}", p.peek())); } }
        p.need_w("into")?;
        let t = p.table()?;
        p.need_o("(")?;
        let mut cols = vec![];
        loop { cols.push(p.name()?.to_lowercase()); if !p.op(",") { break; } }
        p.need_o(")")?;
        // the rows follow (QueryBuilder::push_values)
        if p.i == p.t.len() && !rep {
            let row = cols.iter().enumerate().fold("no_row()".to_string(), |r, (k, c)| format!("{r}.insert(Col::{c}, b[{k}])"));
            return Ok(format!("Sql::Fill({t}, |b: Seq<Val>| {row}, Seq::empty())"));
        }
        p.need_w("values")?;
        p.need_o("(")?;
        let mut row = "no_row()".to_string();
        for (k, c) in cols.iter().enumerate() { if k > 0 { p.need_o(",")?; } let v = p.value()?; row = format!("{row}.insert(Col::{c}, {v})"); }
        p.need_o(")")?;
        write!(o, "Sql::Insert({t}, {rep}, |b: Seq<Val>| {row})").unwrap();
    } else if p.word("drop") {
        p.need_w("table")?;
        p.need_w("if")?;
        p.need_w("exists")?;
        let n = p.name()?.to_lowercase();
        write!(o, "Sql::Drop(Tbl::{n}, \"{n}\"@)").unwrap();
    } else if p.word("create") {
        p.need_w("table")?;
        p.need_w("if")?;
        p.need_w("not")?;
        p.need_w("exists")?;
        let n = p.name()?.to_lowercase();
        let keys = ddl(s)?;
        let k = keys.first().map(|k| k.1.clone()).unwrap_or_default();
        write!(o, "Sql::Create(Tbl::{n}, \"{n}\"@, {})", if k.is_empty() { "None".to_string() } else { format!("Some(Col::{k})") }).unwrap();
        p.i = p.t.len();
    } else if p.word("select") {
        if p.op("*") {
            p.need_w("from")?;
            let t = p.table()?;
            let c = p.cond()?;
            write!(o, "Sql::Select({t}, {c})").unwrap();
        } else {
            p.need_w("count")?;
            p.need_o("(")?;
            if !p.op("*") { p.name()?; }
            p.need_o(")")?;
            if p.word("as") { p.name()?; }
            p.need_w("from")?;
            let t = p.table()?;
            let c = p.cond()?;
            write!(o, "Sql::Count({t}, {c})").unwrap();
        }
    } else { return Err(format!("SQL: {s:?} is not read")); }
    p.op(";");
    if p.i != p.t.len() { return Err(format!("SQL: {:?} is not read", &p.t[p.i..])); }
    Ok(o)
}
/// CREATE TABLE texts: each table's primary key
pub fn ddl(s: &str) -> Result<Vec<(String, String)>, String> {
    let text: String = s.lines().filter(|l| !l.trim_start().starts_with("--")).collect::<Vec<_>>().join("\n");
    let mut out = vec![];
    for stmt in text.split(';') {
        let low = stmt.to_lowercase();
        let Some(a) = low.find("create table") else { if low.trim().is_empty() { continue } return Err(format!("DDL: {stmt:?}")) };
        let rest = low[a + 12..].trim_start().trim_start_matches("if not exists").trim_start();
        let (name, cols) = rest.split_once('(').ok_or("DDL")?;
        let cols = cols.rsplit_once(')').ok_or("DDL")?.0;
        let mut keys = vec![];
        for c in cols.split(',') { if c.contains("primary key") { keys.push(c.split_whitespace().next().unwrap_or("").to_string()); } else if c.split_whitespace().any(|w| ["key", "unique", "default", "check", "on", "references"].contains(&w) || w.starts_with("check(")) { return Err(format!("DDL: {c:?}")); } }
        if keys.len() > 1 || keys.iter().any(|k| k == "primary") { return Err(format!("DDL: {stmt:?}")); }
        out.push((name.trim().to_string(), keys.pop().unwrap_or_default()));
    }
    Ok(out)
}
/// the Rust type a column of a table is read as (integers: any)
pub fn col_types(s: &str, out: &mut std::collections::BTreeMap<String, String>) {
    for l in s.lines() {
        let w: Vec<String> = l.split_whitespace().map(|x| x.trim_end_matches(',').to_lowercase()).collect();
        if w.len() >= 2 { if let Some(t) = match w[1].as_str() { "blob" | "bytea" => Some("Vec<u8>"), "text" => Some("String"), "real" => Some("f64"), _ => None } { out.insert(w[0].clone(), t.into()); } }
    }
}
