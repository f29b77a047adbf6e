//! C24: later editions of an interface file, written differently or extended, which leave the messages of the
//! first edition as they were.
use crate::choice::{mix, Ch};
use crate::idl::{self, Idl, Style, K, T};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Num(String),
    Sign(char),
    Gap(String),
}
fn lex(t: &str) -> Vec<Tok> {
    let b: Vec<char> = t.chars().collect();
    let mut l = vec![];
    let mut i = 0;
    let word = |x: char| x.is_ascii_alphanumeric() || x == '_';
    while i < b.len() {
        let a = i;
        if b[i] == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            while !(b[i] == '*' && b.get(i + 1) == Some(&'/')) {
                i += 1;
            }
            i += 2;
            l.push(Tok::Gap(b[a..i].iter().collect()));
        } else if b[i].is_whitespace() {
            while i < b.len() && b[i].is_whitespace() {
                i += 1;
            }
            l.push(Tok::Gap(b[a..i].iter().collect()));
        } else if word(b[i]) {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            let s: String = b[a..i].iter().collect();
            l.push(if b[a].is_ascii_digit() { Tok::Num(s) } else { Tok::Word(s) });
        } else {
            l.push(Tok::Sign(b[i]));
            i += 1;
        }
    }
    l
}
fn value_of(s: &str) -> u32 {
    if let Some(h) = s.strip_prefix("0x").or(s.strip_prefix("0X")) {
        u32::from_str_radix(h, 16).expect("number")
    } else if s.len() > 1 && s.starts_with('0') {
        u32::from_str_radix(s, 8).expect("number")
    } else {
        s.parse().expect("number")
    }
}
fn notation(c: &mut Ch, v: u32) -> String {
    match c.us(6) {
        0 => format!("0x{v:x}"),
        1 => format!("0x{v:X}"),
        2 if v > 0 => format!("0{v:o}"),
        3 => format!("0x{v:0w$X}", w = 1 + c.us(8)),
        4 if v > 0 => format!("0{v:0w$o}", w = 1 + c.us(6)),
        _ => v.to_string(),
    }
}
const ALIASES: &[&str] =
    &["alias_t", "uint", "int_", "unsigned_t", "void_t", "boolean", "opaque_", "string_", "hyper_t", "floatx", "struct_t", "caseA", "default_", "K"];
const PRIM: &[&str] = &["int", "hyper", "float", "double", "bool", "char", "short"];

/// edition `ver` of interface `i`; 0 is the interface itself
pub fn edition(i: &Idl, std: bool, seed: u64, ver: usize) -> String {
    if ver == 0 {
        return i.text().0;
    }
    let mut q = Ch::quiet(mix(mix(seed ^ 0xed17) ^ ver as u64));
    let c = &mut q;
    let p = |c: &mut Ch| *c.pick(&[0u64, 1, 2, 6, 8]);
    let (p_num, p_lit, p_const, p_alias, p_named, p_ext) = (p(c), p(c), p(c), p(c), p(c), p(c));
    let consts: HashMap<String, u32> = i.consts().iter().cloned().collect();
    let named: Vec<&str> = i.types.iter().map(|t| t.name.as_str()).collect();
    let mut more: Vec<String> = vec![];
    let mut aliases: HashMap<String, String> = HashMap::new();
    let mut next = 0;
    let mut used: Vec<String> = vec![];
    for d in &i.defs {
        used.extend(lex(&d.text).into_iter().filter_map(|t| if let Tok::Word(w) = t { Some(w) } else { None }));
    }
    let mut fresh = |stem: &str| {
        next += 1;
        let mut n = format!("{stem}{ver}e{next}");
        let mut q = Ch::quiet(mix(seed ^ mix(next as u64) ^ ver as u64));
        if q.chance(1, 4) {
            // nearly a name there is already
            let mut t = q.pick(&used).clone();
            match q.us(3) {
                0 => t.push(*q.pick(&['q', 'Z', '1'])),
                _ => {
                    let at: Vec<usize> = (1..t.len()).filter(|i| t.as_bytes()[*i].is_ascii_alphabetic()).collect();
                    if !at.is_empty() {
                        let k = *q.pick(&at);
                        let x = t.as_bytes()[k] ^ 32;
                        t.replace_range(k..k + 1, &(x as char).to_string());
                    }
                }
            }
            if !used.iter().any(|o| idl::camel(o) == idl::camel(&t)) {
                n = t;
            }
        }
        used.push(n.clone());
        n
    };
    // added enumerators: enumeration -> (value, name)
    let mut added: HashMap<String, Vec<(i64, String)>> = HashMap::new();
    for t in i.types.iter().filter(|t| t.item) {
        if let T::Enum(_, l) = &t.t {
            let mut used: Vec<i64> = l.iter().map(|x| x.0 as i64).collect();
            while c.chance(p_ext, 16) {
                let max = *used.iter().max().unwrap();
                let v = if c.chance(1, 3) { c.below(max as u64 + 2) as i64 } else { max + 1 + if c.chance(1, 3) { c.below(9) as i64 } else { 0 } };
                if !used.contains(&v) {
                    used.push(v);
                    added.entry(t.name.clone()).or_default().push((v, fresh("LATER")));
                }
            }
        }
    }
    let mut defs: Vec<String> = vec![];
    for d in &i.defs {
        if d.kind == K::Program {
            defs.push(d.text.clone());
            continue;
        }
        let mut l = lex(&d.text);
        // what is added
        let end = l.iter().rposition(|t| *t == Tok::Sign('}'));
        if let (K::Enum, Some(end), Some(a)) = (d.kind, end, added.get(&d.name)) {
            let s: String = a.iter().map(|(v, n)| format!(", {n} = {}", notation(c, *v as u32))).collect();
            l.splice(end..end, lex(&s));
        }
        let t = i.types.iter().find(|t| t.name == d.name).map(|t| &t.t);
        if let (K::Union, Some(end), Some(T::Union(_, ct, arms, None))) = (d.kind, end, t) {
            let mut cases: Vec<(i64, String)> = vec![];
            match &**ct {
                T::Enum(rust, _) => {
                    let e = i.types.iter().find(|t| matches!(&t.t, T::Enum(r, _) if r == rust) && t.item);
                    cases = e.and_then(|e| added.get(&e.name)).cloned().unwrap_or_default();
                }
                T::Prim(crate::schema::S::U32 | crate::schema::S::I32) if c.chance(p_ext, 8) => {
                    let max = arms.iter().map(|a| a.0).max().unwrap();
                    let v = if c.chance(1, 3) { c.below(max as u64 + 2) as i64 } else { max + 1 + c.below(3) as i64 };
                    if !arms.iter().any(|a| a.0 == v) {
                        let n = fresh("LATERCASE");
                        more.push(format!("const {n} = {v};"));
                        cases.push((v, n));
                    }
                }
                _ => {}
            }
            let mut s = String::new();
            for (_, n) in &cases {
                s += &format!("case {n}: {}; ", c.pick(&["void", "int later", "string later<>", "unsigned hyper later", "float later[2]"]));
            }
            l.splice(end..end, lex(&s));
        }
        // what is written differently
        let mut o: Vec<Tok> = vec![];
        let mut k = 0;
        let mut before = Tok::Sign(';');
        while k < l.len() {
            let sig = |k: usize| (k..l.len()).find(|k| !matches!(l[*k], Tok::Gap(_)));
            match &l[k] {
                Tok::Gap(_) => {
                    // comments go, what separates stays
                    o.push(Tok::Gap(c.pick(&[" ", " ", "\n", "\t", "  ", "\r\n", "\n        ", " \n"]).to_string()));
                    k += 1;
                    continue;
                }
                Tok::Num(s) => {
                    let v = value_of(s);
                    if matches!(before, Tok::Sign('[' | '<')) && c.chance(p_const, 8) {
                        let n = fresh("LITERAL");
                        more.push(format!("const {n} = {};", notation(c, v)));
                        o.push(Tok::Word(n));
                    } else if c.chance(p_num, 8) {
                        o.push(Tok::Num(notation(c, v)));
                    } else {
                        o.push(l[k].clone());
                    }
                }
                Tok::Word(w) => {
                    let starts = match &before {
                        Tok::Sign('{' | ';' | ':' | '(') => k > 0,
                        Tok::Word(b) => d.kind == K::Typedef && b == "typedef",
                        _ => false,
                    };
                    let literal = matches!(before, Tok::Sign('[' | '<')) || (before == Tok::Sign('=') && matches!(d.kind, K::Enum | K::Const));
                    if let (true, Some(v)) = (literal && c.chance(p_lit, 8), consts.get(w)) {
                        o.push(Tok::Num(notation(c, *v)));
                    } else if starts && (w == "unsigned" || PRIM.contains(&w.as_str())) {
                        let mut ty = w.clone();
                        if w == "unsigned" {
                            if let Some(j) = sig(k + 1).filter(|j| matches!(&l[*j], Tok::Word(x) if PRIM.contains(&x.as_str()))) {
                                let Tok::Word(x) = &l[j] else { unreachable!() };
                                ty = format!("unsigned {x}");
                                k = j;
                            }
                        }
                        if c.chance(p_alias, 8) {
                            let share = c.chance(1, 2);
                            if let Some(a) = aliases.get(&ty).filter(|_| share) {
                                ty = a.clone();
                            } else {
                                let stem = *c.pick(ALIASES);
                                let a = fresh(stem);
                                more.push(format!("typedef {ty} {a};"));
                                aliases.insert(ty, a.clone());
                                ty = a;
                            }
                        } else if ty == "unsigned int" && c.chance(p_alias, 8) {
                            ty = "unsigned".into();
                        } else if ty == "unsigned" && c.chance(p_alias, 8) {
                            ty = "unsigned int".into();
                        }
                        o.push(Tok::Word(ty));
                    } else if starts && named.contains(&w.as_str()) && *w != d.name && c.chance(p_named, 8) {
                        let a = fresh("Named");
                        more.push(format!("typedef {w} {a};"));
                        o.push(Tok::Word(a));
                    } else {
                        o.push(l[k].clone());
                    }
                }
                Tok::Sign(_) => o.push(l[k].clone()),
            }
            before = l[k].clone();
            k += 1;
        }
        defs.push(
            o.iter()
                .map(|t| match t {
                    Tok::Word(s) | Tok::Num(s) | Tok::Gap(s) => s.clone(),
                    Tok::Sign(x) => x.to_string(),
                })
                .collect(),
        );
    }
    // definitions nobody uses
    if c.chance(1, 2) {
        let n = 1 + c.us(4);
        more.extend(idl::gen_more(c, Style::Peers { std }, n, 5000 + 1000 * ver).defs.into_iter().map(|d| d.text));
    }
    let order = c.us(3);
    for d in more {
        let at = match order {
            0 => defs.len(),
            1 => 0,
            _ => c.us(defs.len() + 1),
        };
        defs.insert(at, d);
    }
    match c.us(4) {
        0 => defs.reverse(),
        1 => {}
        _ => {
            for k in (1..defs.len()).rev() {
                let j = c.us(k + 1);
                defs.swap(k, j);
            }
        }
    }
    let mut t = c.pick(&["", "\n", "/* edition */\n", "%#include <later.h>\n", "%\n", "/***/"]).to_string();
    for d in defs {
        t += &d;
        t += c.pick(&[
            "\n",
            "\n",
            "\n\n",
            "\r\n",
            "",
            "\n/* struct gone { int x; }; */\n",
            "\n%#ifdef LATER\n%#endif\n",
            "\n  \t\n",
            "\n%\n%/*\n%% // */\n",
            "/** one **//* /* two % */\n",
            "\n%#define LATER(a) \\\n%struct gone { int x; };\n",
        ]);
    }
    // written with another editor
    if c.chance(1, 6) {
        t = t.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    t
}
