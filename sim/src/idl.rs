//! Interface files: a generator of valid ones (with the meaning of every type), and storage damage.
use crate::choice::Ch;
use crate::rt::{stat, St};
use crate::schema::{Env, S};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Const,
    Enum,
    Struct,
    Union,
    Typedef,
    Program,
}
#[derive(Clone, Debug)]
pub struct Def {
    pub kind: K,
    pub name: String,
    pub text: String,
    /// names this definition mentions
    pub deps: Vec<String>,
    /// names it introduces
    pub intro: Vec<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Idl {
    pub gaps: Vec<String>,
    pub defs: Vec<Def>,
    pub types: Vec<Type>,
    pub recs: Vec<(String, T)>,
    consts: Vec<(String, u32)>,
    enums: Vec<(String, Vec<(i32, String)>)>,
    next: usize,
    nest: usize,
    names: Vec<String>,
}
/// the meaning of a named type, before a generation mode is chosen
#[derive(Clone, Debug)]
pub enum T {
    Prim(S),
    Str,
    OpFix(usize),
    OpVar,
    Enum(String, Vec<(i32, String)>),
    Struct(String, Vec<(String, T)>),
    /// discriminant, arms (value, variant name, payload), default arm
    Union(String, Box<T>, Vec<(i64, String, Option<T>)>, Option<Option<Box<T>>>),
    Arr(Box<T>, usize),
    Seq(Box<T>),
    Opt(Box<T>),
    Rec(usize),
}
#[derive(Clone, Debug)]
pub struct Type {
    pub name: String,
    pub rust: String,
    pub t: T,
    /// emitted as a Rust item (typedefs are not)
    pub item: bool,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// meaning known and compilable in every mode of its class
    Peers { std: bool },
    /// anything the generator accepts
    Wild,
}

pub fn camel(s: &str) -> String {
    let up = |w: &str, low: bool| -> String {
        w.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else if low { c.to_ascii_lowercase() } else { c }).collect()
    };
    if s.contains('_') {
        s.split('_').map(|w| up(w, true)).collect()
    } else {
        up(s, false)
    }
}
fn ws(c: &mut Ch) -> &'static str {
    c.pick(&[" ", " ", " ", "\n", "\t", "  ", "\n    ", "\r\n"])
}
fn com(c: &mut Ch) -> &'static str {
    match c.weighted(&[24, 8, 1, 1, 1]) {
        0 => "",
        1 => c.pick(&[" ", "\n", "\t", "\n    "]),
        2 => c.pick(&["/* note */", " /* a; } struct x { */ ", "/**/"]),
        3 => "/* \u{e9}\u{3042} */",
        _ => "\n/* one */ /* two */\n",
    }
}
impl Idl {
    pub fn consts(&self) -> &[(String, u32)] {
        &self.consts
    }
    pub fn text(&self) -> (String, Vec<(usize, usize)>) {
        let mut s = self.gaps[0].clone();
        let mut l = vec![];
        for (d, g) in self.defs.iter().zip(&self.gaps[1..]) {
            let a = s.len();
            s += &d.text;
            l.push((a, s.len()));
            s += g;
        }
        (s, l)
    }
    fn fresh(&mut self, c: &mut Ch, forms: &[&str]) -> String {
        self.next += 1;
        let mut n = format!("{}{}", c.pick(forms), self.next);
        if c.chance(1, 40) {
            n = format!("{n}_{}", "very_long_".repeat(3 + c.us(24)) + "name");
        } else if !self.names.is_empty() && c.chance(1, 6) {
            // nearly the name of something else
            let mut t = c.pick(&self.names).clone();
            match c.us(3) {
                0 => t.push(*c.pick(&['q', 'Z'])),
                _ => {
                    let at: Vec<usize> = (1..t.len()).filter(|i| t.as_bytes()[*i].is_ascii_alphabetic()).collect();
                    if !at.is_empty() {
                        let i = *c.pick(&at);
                        let x = t.as_bytes()[i] ^ 32;
                        t.replace_range(i..i + 1, &(x as char).to_string());
                    }
                }
            }
            if !self.names.iter().any(|o| camel(o) == camel(&t)) {
                n = t;
            }
        }
        self.names.push(n.clone());
        n
    }
    fn type_name(&mut self, c: &mut Ch) -> String {
        self.fresh(c, &["rec", "Thing", "file_attr", "bigBlob", "NODE_INFO", "x", "int", "void_t", "enum_", "constant"])
    }
    fn upper(&mut self, c: &mut Ch) -> String {
        self.fresh(c, &["MAX_LEN", "K", "PROG_VAL", "LIM", "Limit"])
    }
    fn num(c: &mut Ch, v: u32) -> String {
        match c.weighted(&[6, 2, 1]) {
            1 => if c.chance(1, 2) { format!("0x{v:x}") } else { format!("0x{v:X}") },
            2 if v > 0 => format!("0{v:o}"),
            _ => v.to_string(),
        }
    }
    /// a number, as a literal or as the name of a constant
    fn value(&mut self, c: &mut Ch, lo: u32, hi: u32, deps: &mut Vec<String>) -> (u32, String) {
        let l: Vec<(String, u32)> = self.consts.iter().filter(|x| x.1 >= lo && x.1 <= hi).cloned().collect();
        if !l.is_empty() && c.chance(1, 3) {
            let (n, v) = c.pick(&l).clone();
            deps.push(n.clone());
            return (v, n);
        }
        let v = c.range(lo as u64, hi as u64) as u32;
        (v, Self::num(c, v))
    }
    fn prim(c: &mut Ch) -> (&'static str, S) {
        match c.us(13) {
            0 => ("int", S::I32),
            1 => ("unsigned int", S::U32),
            2 => ("hyper", S::I64),
            3 => ("unsigned hyper", S::U64),
            4 => ("float", S::F32),
            5 => ("double", S::F64),
            6 => ("bool", S::Bool),
            7 => ("char", S::I8),
            8 => ("unsigned char", S::U8),
            9 => ("short", S::I16),
            10 => ("unsigned short", S::U16),
            11 => ("unsigned  int", S::U32),
            _ => ("unsigned", S::U32),
        }
    }
    /// an element type: text and meaning. `plain`: usable inside arrays and options
    fn elem(&mut self, c: &mut Ch, st: Style, plain: bool, deps: &mut Vec<String>) -> (String, T) {
        let l: Vec<Type> = self
            .types
            .iter()
            .filter(|t| match &t.t {
                T::OpFix(_) => !plain,
                T::OpVar => !plain,
                T::Enum(..) => st != Style::Peers { std: true },
                _ => true,
            })
            .cloned()
            .collect();
        if !l.is_empty() && c.chance(2, 5) {
            let t = if c.chance(1, 2) { l.last().unwrap().clone() } else { c.pick(&l).clone() };
            deps.push(t.name.clone());
            return (t.name, t.t);
        }
        let (n, s) = Self::prim(c);
        (n.to_string(), T::Prim(s))
    }
    /// a declaration named `name`
    fn decl(&mut self, c: &mut Ch, st: Style, name: &str, arm: bool, deps: &mut Vec<String>) -> (String, T) {
        if st == Style::Wild && self.nest < 12 && c.chance(1, if self.nest == 0 { 40 } else { 5 }) {
            // declared in place: the grammar has it, the generator does not support it
            self.nest += 1;
            let mut t = match c.us(4) {
                0 => format!("enum {{{}A{} = {}}}", ws(c), self.next, c.below(9)),
                1 => {
                    let (d, _) = self.decl(c, st, "u", true, deps);
                    format!("union switch{}(int x) {{ case{}1: {d}; default: void; }}", ws(c), ws(c))
                }
                _ => {
                    let mut b = String::new();
                    for i in 0..1 + c.us(2) {
                        b += &format!("{}; ", self.decl(c, st, &format!("n{i}"), false, deps).0);
                    }
                    format!("struct {{{}{b}}}", com(c))
                }
            };
            self.nest -= 1;
            if self.nest == 0 && c.chance(1, 4) {
                for i in 0..c.us(40) {
                    t = if c.chance(1, 4) { format!("union switch(int x) {{ case 1: {t} m{i}; }}") } else { format!("struct {{{t} m{i};}}") };
                }
            }
            t += match c.us(3) { 0 => " *", _ => " " };
            t += name;
            t += match c.us(4) { 0 => "<>", 1 => "[3]", _ => "" };
            return (t, T::Prim(S::Unit));
        }
        match c.weighted(&[10, 3, 4, 2, 2, 3, 3, 3]) {
            1 => {
                let (e, t) = self.elem(c, st, true, deps);
                let (n, x) = self.value(c, 1, 11, deps);
                (format!("{e}{}{name}[{x}]", ws(c)), T::Arr(Box::new(t), n as usize))
            }
            2 => {
                let (e, t) = self.elem(c, st, true, deps);
                let b = if c.chance(1, 2) { self.value(c, 1, 2000, deps).1 } else { String::new() };
                (format!("{e}{}{name}<{b}>", ws(c)), T::Seq(Box::new(t)))
            }
            3 if !arm => {
                let (n, x) = self.value(c, 1, 32, deps);
                (format!("opaque{}{name}[{x}]", ws(c)), T::OpFix(n as usize))
            }
            3 | 4 => {
                let b = if c.chance(1, 2) { self.value(c, 1, 2000, deps).1 } else { String::new() };
                (format!("opaque{}{name}<{b}>", ws(c)), T::OpVar)
            }
            5 => {
                let b = if c.chance(1, 2) { self.value(c, 1, 2000, deps).1 } else { String::new() };
                (format!("string{}{name}<{b}>", ws(c)), T::Str)
            }
            6 => {
                let (e, t) = self.elem(c, st, true, deps);
                (format!("{e}{}*{}{name}", ws(c), if c.chance(1, 3) { " " } else { "" }), T::Opt(Box::new(t)))
            }
            _ => {
                // a list of opaque elements through a typedef, the one composite the generator knows
                let ops: Vec<Type> = self.types.iter().filter(|t| matches!(t.t, T::OpVar)).cloned().collect();
                if !ops.is_empty() && c.chance(1, 4) {
                    let o = c.pick(&ops).clone();
                    deps.push(o.name.clone());
                    return (format!("{}{}{name}<>", o.name, ws(c)), T::Seq(Box::new(o.t)));
                }
                if st == (Style::Peers { std: true }) && !arm {
                    let es: Vec<Type> = self.types.iter().filter(|t| matches!(t.t, T::Enum(..))).cloned().collect();
                    if !es.is_empty() && c.chance(1, 2) {
                        let e = c.pick(&es).clone();
                        deps.push(e.name.clone());
                        return (format!("{}{}{name}", e.name, ws(c)), e.t);
                    }
                }
                let (e, t) = self.elem(c, st, arm, deps);
                (format!("{e}{}{name}", ws(c)), t)
            }
        }
    }
    fn add(&mut self, kind: K, name: &str, text: String, deps: Vec<String>, mut intro: Vec<String>) {
        intro.push(name.to_string());
        self.defs.push(Def { kind, name: name.into(), text, deps, intro });
    }
    fn field(c: &mut Ch, i: usize) -> String {
        match c.weighted(&[8, 2, 1, 1]) {
            1 => format!("some_field{i}"),
            3 => format!("{}{i}", c.pick(&["userID", "XMLName", "aB", "_x", "ABC", "a__b", "Last_Name", "k_"])),
            2 if i < 12 => ["type", "match", "fn", "move", "ref", "impl", "loop", "use", "in", "mod", "trait", "where"][i % 12].to_string(),
            _ => format!("f{i}"),
        }
    }

    fn a_const(&mut self, c: &mut Ch, st: Style) {
        let n = self.upper(c);
        if st == Style::Wild && c.chance(1, 24) {
            let v = (1u128 << 32) + match c.us(12) { 0 => u64::MAX as u128 + c.below(9) as u128, 1 | 2 => (u64::MAX - (1 << 32) - c.below(3)) as u128, _ => c.log(60) as u128 };
            let x = match c.us(4) { 0 => format!("0x{v:x}"), 1 => format!("0x{v:X}"), 2 => format!("0{v:o}"), _ => v.to_string() };
            return self.add(K::Const, &n, format!("const{}{n}{}={}{x}{};", ws(c), com(c), com(c), com(c)), vec![], vec![]);
        }
        let mut deps = vec![];
        let (v, x) = if c.chance(1, 4) { self.value(c, 0, 2000, &mut deps) } else {
            let v = match c.us(3) { 0 => c.range(0, 40), 1 => c.range(1, 32), _ => c.range(0, 2000) } as u32;
            (v, Self::num(c, v))
        };
        let t = format!("const{}{n}{}={}{x}{};", ws(c), com(c), com(c), com(c));
        self.consts.push((n.clone(), v));
        self.add(K::Const, &n, t, deps, vec![]);
    }
    fn an_enum(&mut self, c: &mut Ch, st: Style) {
        let n = self.type_name(c);
        let k = 1 + if c.chance(1, 40) { 20 + c.us(120) } else { c.us(6) };
        let mut items: Vec<(i32, String)> = vec![];
        let mut deps = vec![];
        let mut texts = vec![];
        let mut intro = vec![];
        let mut v = match c.us(4) { 0 => 0, 1 => 1, _ => c.below(20) as i32 };
        if st == Style::Wild && c.chance(1, 6) {
            v = -(c.range(1, 40) as i32);
        }
        for _ in 0..k {
            let en = self.fresh(c, &["RED", "CODE_A", "ok", "NFS3ERR_IO"]);
            let fit: Vec<(String, u32)> = self.consts.iter().filter(|x| x.1 as i32 >= v && (x.1 as i32) < v + 60).cloned().collect();
            let x = if !fit.is_empty() && c.chance(1, 4) {
                let (cn, cv) = c.pick(&fit).clone();
                v = cv as i32;
                deps.push(cn.clone());
                cn
            } else if v < 0 {
                v.to_string()
            } else {
                Self::num(c, v as u32)
            };
            texts.push(format!("{en}{}={}{x}", com(c), com(c)));
            items.push((v, camel(&en)));
            intro.push(en);
            let wide = match st { Style::Wild => 16, Style::Peers { std: true } => 8, _ => 64 };
            v += 1 + match c.us(4) {
                0 if c.chance(1, wide) => if st == Style::Wild { c.log(13) as i32 } else { 30 + c.log(9) as i32 },
                0 => c.below(30) as i32,
                _ => 0,
            };
        }
        if c.chance(1, 4) {
            texts.reverse();
        }
        let mut b = String::new();
        for (i, t) in texts.iter().enumerate() {
            if i > 0 {
                b += &format!("{},{}", com(c), com(c));
            }
            b += t;
        }
        let text = format!("enum{}{n}{}{{{}{b}{}}}{};", ws(c), com(c), com(c), com(c), com(c));
        items.sort();
        let raw: Vec<(i32, String)> = {
            // enumerator spelling in the file, by value
            let mut r: Vec<(i32, String)> = intro.iter().map(|e| (items.iter().find(|i| i.1 == camel(e)).unwrap().0, e.clone())).collect();
            r.sort();
            r
        };
        self.enums.push((n.clone(), raw));
        self.types.push(Type { name: n.clone(), rust: camel(&n), t: T::Enum(camel(&n), items), item: true });
        self.add(K::Enum, &n, text, deps, intro);
    }
    fn a_struct(&mut self, c: &mut Ch, st: Style) {
        let n = self.type_name(c);
        let k = 1 + match c.us(8) { 0 => 8 + c.us(8), _ => c.us(6) };
        let mut deps = vec![];
        let mut fs = vec![];
        let mut b = String::new();
        for i in 0..k {
            let f = Self::field(c, i);
            let (t, m) = self.decl(c, st, &f, false, &mut deps);
            b += &format!("{t}{};{}", com(c), com(c));
            fs.push((f, m));
        }
        if c.chance(1, 5) {
            let f = format!("next{}", self.next);
            b += &format!("{n} *{f};{}", com(c));
            let r = self.recs.len();
            self.recs.push((camel(&n), T::Prim(S::Unit)));
            fs.push((f, T::Opt(Box::new(T::Rec(r)))));
            self.recs[r].1 = T::Struct(camel(&n), fs.clone());
        }
        let text = format!("struct{}{n}{}{{{}{b}{}}}{};", ws(c), com(c), com(c), com(c), com(c));
        self.types.push(Type { name: n.clone(), rust: camel(&n), t: T::Struct(camel(&n), fs), item: true });
        self.add(K::Struct, &n, text, deps, vec![]);
    }
    fn a_union(&mut self, c: &mut Ch, st: Style) {
        let n = self.type_name(c);
        let mut deps = vec![];
        let enums: Vec<(String, Vec<(i32, String)>)> = self.enums.iter().filter(|e| e.1.iter().all(|i| i.0 >= 0)).cloned().collect();
        let std = st == Style::Peers { std: true };
        let (mut cond, mut ct, labels): (String, T, Vec<(i64, String)>) = if !std && !enums.is_empty() && c.chance(1, 2) {
            let e = c.pick(&enums).clone();
            deps.push(e.0.clone());
            let t = self.types.iter().find(|t| t.name == e.0).unwrap().t.clone();
            let mut l: Vec<(i64, String)> = e.1.iter().map(|x| (x.0 as i64, x.1.clone())).collect();
            let keep = 1 + c.us(l.len());
            while l.len() > keep {
                let i = c.us(l.len());
                l.remove(i);
            }
            (e.0, t, l)
        } else if c.chance(1, if st == Style::Wild { 3 } else { 5 }) {
            ("bool".into(), T::Prim(S::Bool), vec![(1, "TRUE".into()), (0, "FALSE".into())])
        } else if st != Style::Wild && c.chance(1, 2) {
            // labels of its own: neighbours mostly
            let mut l: Vec<(i64, String)> = vec![];
            let mut v = if c.chance(1, 2) { c.below(3) } else { c.below(40) };
            for _ in 0..1 + c.us(5) {
                let n = self.upper(c);
                self.add(K::Const, &n, format!("const {n} = {v};"), vec![], vec![]);
                self.consts.push((n.clone(), v as u32));
                l.push((v as i64, n));
                v += 1 + match c.us(6) { 0 => c.below(4), 1 => c.log(8), _ => 0 };
            }
            if c.chance(1, 4) {
                let i = c.us(l.len());
                l.rotate_left(i);
            }
            ("unsigned int".into(), T::Prim(S::U32), l)
        } else {
            let mut l: Vec<(i64, String)> = vec![];
            for (k, v) in &self.consts {
                if *v < 300 && !l.iter().any(|x| x.0 == *v as i64) && l.len() < 5 {
                    l.push((*v as i64, k.clone()));
                }
            }
            if l.is_empty() {
                ("bool".into(), T::Prim(S::Bool), vec![(0, "FALSE".into()), (1, "TRUE".into())])
            } else {
                ("unsigned int".into(), T::Prim(S::U32), l)
            }
        };
        let is_bool = matches!(ct, T::Prim(S::Bool));
        if matches!(ct, T::Prim(S::U32)) && c.chance(1, 3) {
            (cond, ct) = ("int".into(), T::Prim(S::I32));
        }
        // by another name
        let other: Vec<String> = self
            .types
            .iter()
            .filter(|t| match (&t.t, &ct) {
                (T::Prim(a), T::Prim(b)) => format!("{a:?}") == format!("{b:?}"),
                (T::Enum(a, _), T::Enum(b, _)) => a == b && !t.item,
                _ => false,
            })
            .map(|t| t.name.clone())
            .collect();
        if !other.is_empty() && c.chance(1, 3) {
            cond = c.pick(&other).clone();
            deps.push(cond.clone());
        }
        let mut arms: Vec<(i64, String, Option<T>)> = vec![];
        let mut b = String::new();
        let mut i = 0;
        while i < labels.len() {
            let many = if st == Style::Wild { 1 } else { 2 };
            let m = if c.chance(many, 4) { (1 + c.us(3)).min(labels.len() - i) } else { 1 };
            for l in &labels[i..i + m] {
                b += &format!("{}case{}{}{}:{}", com(c), ws(c), l.1, com(c), com(c));
                if !is_bool {
                    deps.push(l.1.clone());
                }
            }
            let (t, p) = if c.chance(1, 3) { ("void".to_string(), None) } else {
                let (t, p) = self.decl(c, st, &format!("a{i}"), true, &mut deps);
                (t, Some(p))
            };
            b += &format!("{t}{};{}", com(c), com(c));
            for l in &labels[i..i + m] {
                arms.push((l.0, camel(&l.1), p.clone()));
            }
            i += m;
        }
        let mut default = None;
        if !is_bool && c.chance(1, 2) {
            let (t, p) = if c.chance(1, 2) { ("void".to_string(), None) } else {
                let mut sub = Ch::zeros();
                let plain = if c.chance(1, 2) { self.decl(&mut sub, st, "d", true, &mut deps) } else { ("int d".into(), T::Prim(S::I32)) };
                (plain.0, Some(Box::new(plain.1)))
            };
            b += &format!("default{}:{}{t}{};", com(c), com(c), com(c));
            default = Some(p);
        }
        arms.sort_by_key(|a| a.0);
        let text = format!(
            "union{}{n}{}switch{}({}{cond}{}disc{}){}{{{}{b}{}}}{};",
            ws(c), ws(c), com(c), com(c), ws(c), com(c), com(c), com(c), com(c), com(c)
        );
        self.types.push(Type { name: n.clone(), rust: camel(&n), t: T::Union(camel(&n), Box::new(ct), arms, default), item: true });
        self.add(K::Union, &n, text, deps, vec![]);
    }
    fn a_typedef(&mut self, c: &mut Ch, st: Style) {
        let n = self.type_name(c);
        let mut deps = vec![];
        let (t, m) = self.decl(c, st, &n, false, &mut deps);
        self.types.push(Type { name: n.clone(), rust: camel(&n), t: m, item: false });
        let text = format!("typedef{}{t}{};", ws(c), com(c));
        self.add(K::Typedef, &n, text, deps, vec![]);
    }
    /// the named types and a few basic ones, each as it is, optional, repeated and fixed in number:
    /// once as fields, once as arms
    fn a_sampler(&mut self, c: &mut Ch, st: Style, arms: bool) {
        let std = st == Style::Peers { std: true };
        let mut l: Vec<(String, T)> = self.types.iter().map(|t| (t.name.clone(), t.t.clone())).collect();
        while l.len() > if arms { 3 } else { 5 } {
            let i = c.us(l.len());
            l.remove(i);
        }
        let named = l.len();
        let (n, p) = Self::prim(c);
        l.push((n.into(), T::Prim(p)));
        l.push(("string".into(), T::Str));
        let mut deps: Vec<String> = vec![];
        let mut ds: Vec<(String, T)> = vec![];
        for (k, (n, t)) in l.iter().enumerate() {
            let b = || Box::new(t.clone());
            for form in 0..4 {
                let f = format!("f{}", ds.len());
                let ok = match t {
                    T::OpFix(_) => form == 0 && !arms,
                    T::OpVar => form == 0 || form == 2,
                    T::Enum(..) if std => form == 0 && !arms,
                    T::Str if n == "string" => form == 2,
                    _ => true,
                };
                if !ok || !c.chance(2, 3) {
                    continue;
                }
                if k < named {
                    deps.push(n.clone());
                }
                ds.push(match form {
                    0 => (format!("{n} {f}"), t.clone()),
                    1 => (format!("{n} *{f}"), T::Opt(b())),
                    2 if n == "string" => (format!("{n} {f}<>"), T::Str),
                    2 => (format!("{n} {f}<>"), T::Seq(b())),
                    _ => {
                        let k = 1 + c.us(3);
                        (format!("{n} {f}[{k}]"), T::Arr(b(), k))
                    }
                });
            }
        }
        if ds.is_empty() {
            return;
        }
        let name = self.type_name(c);
        if !arms {
            let fs = ds.iter().enumerate().map(|(i, d)| (format!("f{i}"), d.1.clone())).collect();
            let text = format!("struct {name} {{ {} }};", ds.iter().map(|d| format!("{}; ", d.0)).collect::<String>());
            self.types.push(Type { name: name.clone(), rust: camel(&name), t: T::Struct(camel(&name), fs), item: true });
            return self.add(K::Struct, &name, text, deps, vec![]);
        }
        // the labels: an enumeration of their own, or constants
        let mut labels: Vec<(i64, String)> = vec![];
        let mut v = c.below(9) as u32;
        for _ in 0..ds.len() + 2 {
            let n = self.fresh(c, &["CASE_", "sel", "Opt_"]);
            labels.push((v as i64, n));
            v += 1 + c.below(3) as u32;
        }
        let (cond, ct) = if std {
            for (v, n) in &labels {
                self.consts.push((n.clone(), *v as u32));
                self.add(K::Const, n, format!("const {n} = {v};"), vec![], vec![]);
            }
            ("unsigned int".to_string(), T::Prim(S::U32))
        } else {
            let e = self.type_name(c);
            let b: Vec<String> = labels.iter().map(|l| format!("{} = {}", l.1, l.0)).collect();
            let items: Vec<(i32, String)> = labels.iter().map(|l| (l.0 as i32, camel(&l.1))).collect();
            let t = T::Enum(camel(&e), items);
            self.enums.push((e.clone(), labels.iter().map(|l| (l.0 as i32, l.1.clone())).collect()));
            self.types.push(Type { name: e.clone(), rust: camel(&e), t: t.clone(), item: true });
            self.add(K::Enum, &e, format!("enum {e} {{ {} }};", b.join(", ")), vec![], labels.iter().map(|l| l.1.clone()).collect());
            deps.push(e.clone());
            (e, t)
        };
        let mut b = String::new();
        let mut out = vec![];
        let mut i = 0;
        let mut d = ds.iter();
        while i < labels.len() {
            let m = if c.chance(1, 3) { 2.min(labels.len() - i) } else { 1 };
            let p = if c.chance(1, 8) { None } else { d.next() };
            for l in &labels[i..i + m] {
                b += &format!("case {}: ", l.1);
                deps.push(l.1.clone());
                out.push((l.0, camel(&l.1), p.map(|p| p.1.clone())));
            }
            b += &format!("{}; ", p.map_or("void", |p| &p.0));
            i += m;
        }
        let mut def = None;
        if c.chance(1, 2) {
            b += "default: void; ";
            def = Some(None);
        }
        let text = format!("union {name} switch ({cond} disc) {{ {b}}};");
        self.types.push(Type { name: name.clone(), rust: camel(&name), t: T::Union(camel(&name), Box::new(ct), out, def), item: true });
        self.add(K::Union, &name, text, deps, vec![]);
    }
    fn a_program(&mut self, c: &mut Ch) {
        let n = self.upper(c);
        let mut deps = vec![];
        let mut b = String::new();
        for v in 0..1 + c.us(2) {
            b += &format!("version{}V{}_{v}{}{{{}", ws(c), self.next, ws(c), ws(c));
            for p in 0..1 + c.us(4) {
                let ty = |c: &mut Ch| -> String {
                    let l: Vec<String> = self.types.iter().map(|t| t.name.clone()).collect();
                    match c.us(3) {
                        0 => "void".into(),
                        1 if !l.is_empty() => c.pick(&l).clone(),
                        _ => "int".into(),
                    }
                };
                let (r, q) = (ty(c), ty(c));
                b += &format!("{r}{}PROC{}_{p}{}({q} ){}={}{p};{}", ws(c), self.next, ws(c), ws(c), ws(c), ws(c));
            }
            b += &format!("}}{}={}{};", ws(c), ws(c), v + 1);
        }
        let (_, x) = self.value(c, 1, 2000, &mut deps);
        let text = format!("program{}{n}{}{{{}{b}{}}}{}={}{x};", ws(c), ws(c), ws(c), ws(c), ws(c), ws(c));
        self.add(K::Program, &n, text, vec![], vec![]);
    }
}

pub fn gen_idl(c: &mut Ch, st: Style, max: usize) -> Idl {
    gen_more(c, st, max, 0)
}
/// names are numbered from `next`
pub fn gen_more(c: &mut Ch, st: Style, max: usize, next: usize) -> Idl {
    let mut d = Idl { next, ..Default::default() };
    let n = 1 + c.us(max);
    for _ in 0..n {
        match c.weighted(&[6, 5, 5, 5, 3, 1]) {
            0 => d.a_struct(c, st),
            1 => d.a_const(c, st),
            2 => d.an_enum(c, st),
            3 => d.a_union(c, st),
            4 => d.a_typedef(c, st),
            _ => d.a_program(c),
        }
    }
    if d.defs.is_empty() {
        d.a_const(c, st);
    }
    if st != Style::Wild && max > 10 {
        let l = c.us(3);
        if l != 1 {
            d.a_sampler(c, st, false);
        }
        if l != 0 {
            d.a_sampler(c, st, true);
        }
    }
    let gap = |c: &mut Ch, first: bool| -> String {
        let mut g = String::from(if first { "" } else { "\n" });
        match c.weighted(&[10, 4, 2, 1]) {
            0 => {}
            1 => g += "\n",
            2 => g += c.pick(&["/* section */\n", "/* section */\n", "/***/", "/* // **/\r\n", "/* /* % */\n", "\x20\t\r\n"]),
            _ => g += c.pick(&["%#include <x.h>\n", "%#include <x.h>\n", "%\n", "%#define X(a) \\\n", "%/*\n", "%%\r\n", "%/* c */ struct no { int no; };\n"]),
        }
        g
    };
    d.gaps.push(gap(c, true));
    for _ in 0..d.defs.len() {
        let g = gap(c, false);
        d.gaps.push(g);
    }
    d
}

/// the generator's options, as the command line sets them
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Mode {
    pub std: bool,
    pub extra: bool,
    pub indexer: bool,
    pub union: bool,
    /// a configuration only callers of the library can ask for: its five switches
    pub lib: Option<u8>,
}
/// the 16 combinations of options and the 32 configurations of the library
pub const MODES: usize = 48;
impl Mode {
    pub fn of(i: usize) -> Mode {
        let lib = (i >= 16).then(|| ((i - 16) % 32) as u8);
        let i = if lib.is_some() { 0 } else { i };
        Mode { std: i & 1 != 0, extra: i & 2 != 0, indexer: i & 4 != 0, union: i & 8 != 0, lib }
    }
    pub fn flags(&self) -> Vec<String> {
        let mut l = vec![];
        if let Some(b) = self.lib {
            return vec![format!("library configuration {b:05b}")];
        }
        for (b, f) in [(self.std, "--use-std-trait"), (self.extra, "--use-extra-trait"), (self.indexer, "--use-indexer"), (self.union, "--use-union")] {
            if b {
                l.push(f.to_string());
            }
        }
        l
    }
    pub fn config(&self) -> rpcgen::gen_code::Config {
        if let Some(b) = self.lib {
            return rpcgen::gen_code::Config {
                remove_typedef: b & 1 != 0,
                enum_impl_indexer: b & 2 != 0,
                enum_impl_std_trait: b & 4 != 0,
                union_impl_indexer: b & 8 != 0,
                union_impl_union: b & 16 != 0,
            };
        }
        rpcgen::gen_code::Config {
            remove_typedef: true,
            enum_impl_std_trait: self.std,
            enum_impl_indexer: !self.std && self.indexer,
            union_impl_union: self.union,
            union_impl_indexer: !self.union && (self.extra || self.indexer),
        }
    }
    pub fn union_complement(&self) -> bool {
        let c = self.config();
        !c.union_impl_indexer && !c.union_impl_union
    }
}

/// the real generator, in this process; errors as the caller sees them
pub fn generate(text: &str, m: &Mode) -> Result<String, String> {
    let defs = rpcgen::parser::parse(text).map_err(|e| format!("{e:?}"))?;
    let code = rpcgen::gen_code::gen_code(defs, &m.config()).map_err(|e| format!("{e:?}"))?;
    Ok(code)
}

impl T {
    /// the message type a stub of the given mode stands for
    pub fn schema(&self, m: &Mode) -> S {
        let b = |t: &T| Box::new(t.schema(m));
        match self {
            T::Prim(s) => s.clone(),
            T::Str => S::Str,
            T::OpFix(n) => S::OpFix(*n),
            T::OpVar => S::OpVar,
            T::Enum(n, l) => S::S32(n.clone(), l.clone()),
            T::Struct(n, fs) => S::Struct(n.clone(), fs.iter().map(|f| (f.0.clone(), f.1.schema(m))).collect()),
            T::Arr(t, n) => S::Arr(b(t), *n),
            T::Seq(t) => S::Seq(if matches!(**t, T::OpVar) { Box::new(S::VArr) } else { b(t) }),
            T::Opt(t) => S::Opt(b(t)),
            T::Rec(i) => S::Rec(*i),
            T::Union(n, d, arms, def) => {
                let pay = |p: Option<&T>| -> Vec<S> {
                    match p {
                        None => vec![],
                        Some(T::OpVar) if !m.union_complement() => vec![S::VArr],
                        Some(t) => vec![t.schema(m)],
                    }
                };
                S::Uni(
                    n.clone(),
                    b(d),
                    arms.iter().map(|a| (vec![a.0], a.1.clone(), pay(a.2.as_ref()))).collect(),
                    def.as_ref().map(|p| ("Default".to_string(), pay(p.as_deref()))),
                    m.config().union_impl_union,
                )
            }
        }
    }
}
impl Idl {
    pub fn env(&self, m: &Mode) -> Env {
        Env { defs: self.recs.iter().map(|r| r.1.schema(m)).collect() }
    }
}

// ------------------------------------------------------------------ damage
#[derive(Clone)]
pub struct File {
    pub bytes: Vec<u8>,
    /// the definition each byte came from; GAP between definitions, NEW for damage
    tag: Vec<u32>,
    pub touched: Vec<bool>,
    /// old and new text of everything the damage touched
    pub touched_text: Vec<u8>,
    /// the damage may have opened or closed a comment
    pub delicate: bool,
    gap_delicate: Vec<bool>,
    pub log: Vec<String>,
}
const GAP: u32 = 1 << 20;
const NEW: u32 = 1 << 21;
impl File {
    pub fn new(i: &Idl) -> File {
        let mut bytes = vec![];
        let mut tag = vec![];
        let mut gd = vec![];
        for k in 0..i.gaps.len() {
            bytes.extend_from_slice(i.gaps[k].as_bytes());
            tag.extend(std::iter::repeat(GAP + k as u32).take(i.gaps[k].len()));
            gd.push(i.gaps[k].contains(['%', '/']));
            if k < i.defs.len() {
                bytes.extend_from_slice(i.defs[k].text.as_bytes());
                tag.extend(std::iter::repeat(k as u32).take(i.defs[k].text.len()));
            }
        }
        File { bytes, tag, touched: vec![false; i.defs.len()], touched_text: vec![], delicate: false, gap_delicate: gd, log: vec![] }
    }
    fn touch(&mut self, i: usize) {
        let t = self.tag[i];
        if (t as usize) < self.touched.len() {
            self.touched[t as usize] = true;
        } else if t >= GAP && t < NEW && self.gap_delicate[(t - GAP) as usize] {
            self.delicate = true;
        }
    }
    /// replace [a, b) by `new`
    fn splice(&mut self, a: usize, b: usize, new: &[u8]) {
        let lo = a.saturating_sub(1);
        let hi = (b + 1).min(self.bytes.len());
        for i in lo..hi {
            self.touch(i);
        }
        let old = self.bytes[a..b].to_vec();
        let edge: Vec<u8> = self.bytes[lo..a].iter().chain(&self.bytes[b..hi]).copied().collect();
        if old.iter().chain(new).chain(&edge).any(|x| matches!(x, b'/' | b'*' | b'%')) {
            self.delicate = true;
        }
        // whole words count as touched
        let word = |x: &u8| x.is_ascii_alphanumeric() || *x == b'_';
        let mut p = a;
        while p > 0 && word(&self.bytes[p - 1]) {
            p -= 1;
        }
        let mut q = b;
        while q < self.bytes.len() && word(&self.bytes[q]) {
            q += 1;
        }
        self.touched_text.push(b' ');
        let o = self.bytes[p..q].to_vec();
        self.touched_text.extend_from_slice(&o);
        self.touched_text.push(b' ');
        let l = self.bytes[p..a].to_vec();
        let r = self.bytes[b..q].to_vec();
        self.touched_text.extend_from_slice(&l);
        self.touched_text.extend_from_slice(new);
        self.touched_text.extend_from_slice(&r);
        self.bytes.splice(a..b, new.iter().copied());
        self.tag.splice(a..b, std::iter::repeat(NEW).take(new.len()));
    }
    fn reg(&self, c: &mut Ch, max: usize) -> (usize, usize) {
        let n = self.bytes.len();
        let a = c.us(n.max(1)).min(n);
        let k = match c.us(3) { 0 => 1 + c.us(4), 1 => 1 + c.us(40), _ => 1 + c.us(max) };
        (a, (a + k).min(n))
    }
    fn spans(&self) -> Vec<(usize, usize, u32)> {
        let mut l: Vec<(usize, usize, u32)> = vec![];
        for (i, t) in self.tag.iter().enumerate() {
            if *t >= GAP {
                continue;
            }
            match l.last_mut() {
                Some(x) if x.2 == *t && x.1 == i => x.1 = i + 1,
                _ => l.push((i, i + 1, *t)),
            }
        }
        l
    }
    fn tokens(&self) -> Vec<(usize, usize)> {
        let mut l = vec![];
        let mut i = 0;
        let b = &self.bytes;
        while i < b.len() {
            let a = i;
            if b[i].is_ascii_alphanumeric() || b[i] == b'_' {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                l.push((a, i));
            } else {
                if b[i].is_ascii_punctuation() {
                    l.push((a, i + 1));
                }
                i += 1;
            }
        }
        l
    }
    /// one storage fault; `tail`: also cut the end off
    pub fn fault(&mut self, c: &mut Ch, tail: bool) {
        let before = self.clone();
        if self.bytes.is_empty() {
            return;
        }
        let (k, what): (St, String) = match c.weighted(&[3, 4, 3, 3, 4, 3, 2, 2, 1, 9, 4, 4]) {
            0 if tail => {
                let a = c.us(self.bytes.len());
                let n = self.bytes.len();
                self.splice(a, n, b"");
                (St::ITorn, format!("cut off at {a}"))
            }
            1 | 0 => {
                let (a, b) = self.reg(c, 300);
                self.splice(a, b, b"");
                (St::IDrop, format!("lost {a}..{b}"))
            }
            2 => {
                let (a, b) = self.reg(c, 200);
                let t = self.bytes[a..b].to_vec();
                let r = match c.us(3) { 0 => 1, 1 => 1 + c.us(4), _ => 1 + c.us(60) };
                let t = t.repeat(r);
                let at = if c.chance(2, 3) { b } else { c.us(self.bytes.len() + 1) };
                self.splice(at, at, &t);
                (St::IDup, format!("{a}..{b} repeated {r} times at {at}"))
            }
            3 => {
                let (a, b) = self.reg(c, 300);
                let f = *c.pick(&[0u8, b' ', b'\n', b'{', b';', b'a', b'1', b'_']);
                let t = if c.chance(1, 3) {
                    let o = c.us(self.bytes.len());
                    self.bytes.iter().cycle().skip(o).take(b - a).copied().collect()
                } else {
                    vec![f; b - a]
                };
                self.splice(a, b, &t);
                (St::IZero, format!("{a}..{b} overwritten"))
            }
            4 => {
                let a = c.us(self.bytes.len());
                let t = self.bytes[a] ^ (1 << c.us(7));
                self.splice(a, a + 1, &[t]);
                (St::IFlip, format!("bit flip at {a}"))
            }
            5 => {
                let (a, b) = self.reg(c, 200);
                let (x, y) = self.reg(c, 200);
                let ((a, b), (x, y)) = if a <= x { ((a, b), (x, y)) } else { ((x, y), (a, b)) };
                if b > x {
                    return;
                }
                let (l, r) = (self.bytes[a..b].to_vec(), self.bytes[x..y].to_vec());
                self.splice(x, y, &l);
                self.splice(a, b, &r);
                (St::ISwap, format!("{a}..{b} and {x}..{y} swapped"))
            }
            6 | 7 => {
                let s = self.spans();
                if s.is_empty() {
                    return;
                }
                let (a, b, d) = *c.pick(&s);
                if c.chance(1, 2) {
                    self.splice(a, b, b"");
                    (St::IDefDrop, format!("definition {d} lost"))
                } else {
                    let t = self.bytes[a..b].to_vec();
                    let at = c.pick(&s).1;
                    let at = if at < self.bytes.len() { at + 1 } else { at };
                    self.splice(at, at, &t);
                    (St::IDefDup, format!("definition {d} repeated at {at}"))
                }
            }
            8 => {
                let a = c.us(self.bytes.len());
                let t = *c.pick(&[0x80u8, 0xff, 0xc0, 0xe2]);
                self.splice(a, a + 1, &[t]);
                (St::IUtf8, format!("byte {t:02x} at {a}"))
            }
            k @ (10 | 11) => {
                // a name that is introduced becomes another one, or a value becomes the name of one:
                // collisions, cycles and references forward, in a file that stays readable
                let l = self.tokens();
                let tok = |i: usize| -> &[u8] { l.get(i).map_or(b"", |t| &self.bytes[t.0..t.1]) };
                let ident = |w: &[u8]| w.first().is_some_and(|x| x.is_ascii_alphabetic() || *x == b'_');
                let mut intro = vec![];
                let mut value = vec![];
                for i in 1..l.len() {
                    let prev = tok(i - 1);
                    let kw = matches!(prev, b"struct" | b"union" | b"enum" | b"const" | b"program");
                    if ident(tok(i)) && (kw || tok(i + 1) == b"=") {
                        intro.push(l[i]);
                    }
                    let word = tok(i).first().is_some_and(|x| x.is_ascii_alphanumeric() || *x == b'_');
                    if word && matches!(prev, b"=" | b"case" | b"<" | b"[") {
                        value.push(l[i]);
                    }
                }
                let from = if k == 10 { &intro } else { &value };
                if from.is_empty() || intro.is_empty() {
                    return;
                }
                let (a, b) = *c.pick(from);
                let at = intro.iter().position(|t| t.0 >= a).unwrap_or(intro.len());
                let (x, y) = if c.chance(1, 2) { intro[(at + c.us(7)).saturating_sub(3).min(intro.len() - 1)] } else { *c.pick(&intro) };
                let new = self.bytes[x..y].to_vec();
                let w = format!("name {} became {}", String::from_utf8_lossy(&self.bytes[a..b]), String::from_utf8_lossy(&new));
                self.splice(a, b, &new);
                (St::IToken, w)
            }
            _ => {
                let l = self.tokens();
                if l.is_empty() {
                    return;
                }
                let (a, b) = *c.pick(&l);
                let class = |t: &(usize, usize)| -> u32 {
                    let w = &self.bytes[t.0..t.1];
                    match w[0] {
                        x if x.is_ascii_digit() => 1,
                        x if x.is_ascii_alphabetic() || x == b'_' => match w {
                            b"int" | b"bool" | b"float" | b"double" | b"hyper" | b"char" | b"short" | b"unsigned" => 2,
                            b"void" | b"opaque" | b"string" | b"struct" | b"union" | b"enum" | b"typedef" | b"const" | b"case" | b"default" | b"switch" | b"program" | b"version" => 3,
                            _ => 2,
                        },
                        _ => 4,
                    }
                };
                let new: Vec<u8> = match c.us(16) {
                    0 => b"".to_vec(),
                    8..=15 => {
                        // a token of the same kind from elsewhere: the file may well stay readable
                        let k = class(&(a, b));
                        let same: Vec<(usize, usize)> = l.iter().filter(|t| class(t) == k).copied().collect();
                        let at = same.iter().position(|t| t.0 == a).unwrap();
                        let (x, y) = if c.chance(1, 2) { same[(at + c.us(7)).saturating_sub(3).min(same.len() - 1)] } else { *c.pick(&same) };
                        self.bytes[x..y].to_vec()
                    }
                    1 | 2 | 3 => {
                        let (x, y) = *c.pick(&l);
                        self.bytes[x..y].to_vec()
                    }
                    4 => c.pick(&["{", "}", ";", ",", "<", ">", "[", "]", "*", "=", ":", "(", ")", "/*", "*/", "%"]).as_bytes().to_vec(),
                    5 if c.chance(1, 4) => c
                        .pick(&["4294967296", "0x100000000", "040000000000", "18446744073709551616", "0xfffffffffffffffff", "07777777777777777777777777", "99999999999999999999999999999999999999999999", "-4294967297"])
                        .as_bytes()
                        .to_vec(),
                    5 => c.pick(&["0", "-1", "-5", "7", "08", "0x", "0x1f", "99", "-0", "-9999", "9999", "010"]).as_bytes().to_vec(),
                    6 => c
                        .pick(&["void", "int", "bool", "opaque", "string", "struct", "union", "enum", "typedef", "const", "unsigned", "quadruple", "default", "case", "TRUE", "FALSE", "program", "version"])
                        .as_bytes()
                        .to_vec(),
                    _ => c.pick(&["_", "__", "_1", "self", "Self", "super", "crate", "x", "A", "u8", "void x", "int *", "r#a", "1a", "\u{e9}"]).as_bytes().to_vec(),
                };
                let w = format!("token {} became {}", String::from_utf8_lossy(&self.bytes[a..b]), String::from_utf8_lossy(&new));
                self.splice(a, b, &new);
                (St::IToken, w)
            }
        };
        // keep numbers small and nesting shallow, as the properties state
        if self.bytes.len() > 200_000 || self.big_numbers() || self.deep() {
            *self = before;
            return;
        }
        stat(k, 1);
        self.log.push(what);
    }
    /// cut off at `at`
    pub fn cut(&mut self, at: usize) {
        let n = self.bytes.len();
        self.splice(at, n, b"");
        stat(St::ITorn, 1);
    }
    fn big_numbers(&self) -> bool {
        let b = &self.bytes;
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() {
                let a = i;
                while i < b.len() && b[i].is_ascii_alphanumeric() {
                    i += 1;
                }
                // inside a name it is no number
                if a > 0 && (b[a - 1].is_ascii_alphabetic() || b[a - 1] == b'_') {
                    continue;
                }
                if i - a > 4 + (i - a > 1 && b[a + 1] == b'x') as usize && !beyond_words(&b[a..i]) {
                    return true;
                }
            } else if b[i].is_ascii_alphabetic() || b[i] == b'_' {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
            } else {
                i += 1;
            }
        }
        false
    }
    fn deep(&self) -> bool {
        let (mut d, mut m) = (0i32, 0);
        for x in &self.bytes {
            match x {
                b'{' => d += 1,
                b'}' | b';' if d > 0 && *x == b'}' => d -= 1,
                _ => {}
            }
            m = m.max(d);
        }
        m > 64
    }
    pub fn utf8(&self) -> Option<&str> {
        std::str::from_utf8(&self.bytes).ok()
    }
}

/// a number of more than 32 bits: no enumerator, label or discriminant has such a value
fn beyond_words(w: &[u8]) -> bool {
    let (digits, radix) = match w {
        [b'0', b'x', r @ ..] => (r, 16),
        [b'0', r @ ..] => (r, 8),
        r => (r, 10),
    };
    let mut v = 0u128;
    for d in digits {
        let Some(d) = (*d as char).to_digit(radix) else { return false };
        v = (v * radix as u128 + d as u128).min(1 << 100);
    }
    v > u32::MAX as u128
}
// ------------------------------------------------------------------ reading generated code
pub fn lex(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut l = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_whitespace() {
            i += 1;
            continue;
        }
        let a = i;
        if b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] >= 0x80 {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] >= 0x80) {
                i += 1;
            }
        } else if b[i] == b'"' {
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += 1 + (b[i] == b'\\') as usize;
            }
            i = (i + 1).min(b.len());
        } else {
            i += 1;
        }
        l.push(&s[a..i]);
    }
    l
}
/// the items of generated code: (names the item defines or implements for, its tokens joined)
pub fn items(s: &str) -> Vec<(String, String)> {
    let t = lex(s);
    let mut out = vec![];
    let mut a = 0;
    let mut d = 0i32;
    for i in 0..t.len() {
        match t[i] {
            "{" | "(" | "[" => d += 1,
            "}" | ")" | "]" => d -= 1,
            _ => {}
        }
        // a block ends an item, but `#[derive(..)]` only begins one
        if d == 0 && (t[i] == ";" || t[i] == "}") {
            let item = &t[a..=i];
            let mut name = String::new();
            for k in 0..item.len().saturating_sub(1) {
                if matches!(item[k], "struct" | "enum" | "const" | "type" | "for") {
                    name = item[k + 1].to_string();
                    break;
                }
                if item[k] == "{" {
                    break;
                }
            }
            out.push((name, item.join(" ")));
            a = i + 1;
        }
    }
    out
}
/// the names in a text
pub fn words(b: &[u8]) -> std::collections::HashSet<Vec<u8>> {
    b.split(|x| !(x.is_ascii_alphanumeric() || *x == b'_')).filter(|w| !w.is_empty()).map(|w| w.to_vec()).collect()
}
