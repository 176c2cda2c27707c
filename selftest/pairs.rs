#![allow(dead_code)]
use std::collections::*;
pub struct Item { pub name: String, pub n: u32, pub kids: Vec<Item>, pub opt: Option<String>, pub on: bool }
#[inline(never)] pub fn sink(_: &str) {}
#[inline(never)] pub fn sink2(_: &str, _: &str) {}
// 1 dup detection
pub fn a1(xs: &[Item]) { let mut seen = HashSet::new(); for x in xs { if !seen.insert(&x.name) { sink(&x.name); } } }
pub fn b1(xs: &[Item]) { let mut seen: HashSet<&String> = HashSet::with_capacity(xs.len()); xs.iter().for_each(|x| { if seen.contains(&x.name) { sink(&x.name); return; } seen.insert(&x.name); }); }
pub fn c1(xs: &[Item]) { let mut seen = HashSet::new(); let mut i = 0; while i < xs.len() { let x = &xs[i]; i += 1; let fresh = seen.insert(&x.name); if fresh { continue; } sink(&x.name); } }
pub fn d1(xs: &[Item]) { let mut seen = HashSet::new(); for dup in xs.iter().filter(|x| !seen.insert(&x.name)) { sink(&dup.name); } }
// 2 any flag
pub fn a2(xs: &[Item]) -> bool { xs.iter().any(|x| x.on && x.n > 3) }
pub fn b2(xs: &[Item]) -> bool { for x in xs { if x.n <= 3 { continue } if x.on { return true; } } false }
pub fn c2(xs: &[Item]) -> bool { let mut r = false; for x in xs { if x.on && x.n > 3 { r = true; break; } } r }
pub fn d2(xs: &[Item]) -> bool { !xs.iter().all(|x| !x.on || !(x.n > 3)) }
pub fn e2(xs: &[Item]) -> bool { xs.iter().find(|x| x.on && x.n > 3).is_some() }
pub fn f2(xs: &[Item]) -> bool { let mut r = false; for x in xs { r |= x.on && x.n > 3; } r }
pub fn g2(xs: &[Item]) -> bool { xs.iter().filter(|x| x.on).filter(|x| x.n > 3).count() > 0 }
// 3 separator
pub fn a3(xs: &[Item]) { let mut first = true; for x in xs { if !first { sink(", "); } first = false; sink(&x.name); } }
pub fn b3(xs: &[Item]) { let mut first = true; for x in xs { if first { first = false; } else { sink(", "); } sink(&x.name); } }
// 4 collect
pub fn a4(xs: &[Item]) -> Vec<String> { xs.iter().filter(|x| x.on).map(|x| x.name.clone()).collect() }
pub fn b4(xs: &[Item]) -> Vec<String> { let mut v = Vec::new(); for x in xs { if x.on { v.push(x.name.clone()); } } v }
pub fn c4(xs: &[Item]) -> Vec<String> { let mut v = vec![]; for i in 0..xs.len() { if !xs[i].on { continue; } v.push(xs[i].name.to_owned()); } v }
pub fn d4(xs: &[Item]) -> Vec<String> { let mut v = vec![]; v.extend(xs.iter().filter_map(|x| x.on.then(|| x.name.clone()))); v }
pub fn e4(xs: &[Item]) -> Vec<String> { let mut v = vec![]; let mut it = xs.iter(); while let Some(x) = it.next() { match x.on { true => v.push(x.name.to_string()), false => {} } } v }
pub fn f4(xs: &[Item]) -> Vec<String> { xs.iter().fold(Vec::new(), |mut acc, x| { if x.on { acc.push(x.name.clone()); } acc }) }
// 5 grouping
pub fn a5(xs: &[Item]) { let mut m: HashMap<&str, Vec<&str>> = HashMap::new(); for x in xs { m.entry(&x.name).or_default().push(x.opt.as_deref().unwrap_or("")); } for (k, vs) in &m { for v in vs { sink2(k, v); } } }
pub fn b5(xs: &[Item]) { let mut m: BTreeMap<&str, Vec<&str>> = Default::default(); for x in xs { let e = m.entry(x.name.as_str()).or_insert_with(Vec::new); match &x.opt { Some(s) => e.push(s), None => e.push("") } } m.iter().for_each(|(k, vs)| vs.iter().for_each(|v| sink2(k, v))); }
// 6 error return
pub fn a6(xs: &[Item]) -> Result<u32, String> { for x in xs { check(x)?; } Ok(1) }
pub fn b6(xs: &[Item]) -> Result<u32, String> { xs.iter().try_for_each(check)?; Ok(1) }
pub fn c6(xs: &[Item]) -> Result<u32, String> { for x in xs { if !x.on { return Err(x.name.clone()); } } Ok(1) }
fn check(x: &Item) -> Result<(), String> { if x.on { Ok(()) } else { Err(x.name.clone()) } }
// 7 match
pub fn a7(o: &Option<String>, b: bool) -> &str { match (o, b) { (Some(s), true) => s, (Some(_), false) => "x", (None, _) => "y" } }
pub fn b7(o: &Option<String>, b: bool) -> &str { let Some(s) = o else { return "y" }; if !b { return "x" } s }
pub fn c7(o: &Option<String>, b: bool) -> &str { o.as_ref().map(|s| if b { s.as_str() } else { "x" }).unwrap_or("y") }
pub fn d7(o: &Option<String>, b: bool) -> &str { if let Some(s) = o && b { s } else if o.is_none() { "y" } else { "x" } }
// 8 nested dup pair
pub fn a8(xs: &[Item]) { for x in xs { for k in &x.kids { if xs.iter().any(|y| y.name == k.name) { sink2(&x.name, &k.name) } } } }
pub fn b8(xs: &[Item]) { for x in xs { x.kids.iter().filter(|k| { for y in xs { if y.name == k.name { return true } } false }).for_each(|k| sink2(&x.name, &k.name)) } }
pub fn c8(xs: &[Item]) { for (x, k) in xs.iter().flat_map(|x| x.kids.iter().map(move |k| (x, k))) { if xs.iter().position(|y| k.name == y.name).is_some() { helper8(x, k) } } }
fn helper8(x: &Item, k: &Item) { sink2(&x.name, &k.name) }
// 9 max / best
pub fn a9(xs: &[Item]) -> Option<&Item> { let mut best: Option<&Item> = None; for x in xs { if best.is_none_or(|b| b.n < x.n) { best = Some(x); } } best }
pub fn b9(xs: &[Item]) -> Option<&Item> { let mut best: Option<&Item> = None; for x in xs { match best { Some(b) if b.n >= x.n => {} _ => best = Some(x) } } best }
// 10 string building
pub fn a10(xs: &[Item]) -> String { let mut s = String::new(); for x in xs { s.push_str(&x.name); s.push('\n'); } s }
pub fn b10(xs: &[Item]) -> String { let mut s = String::new(); for x in xs { s += &format!("{}\n", x.name); } s }
pub fn c10(xs: &[Item]) -> String { xs.iter().map(|x| format!("{}\n", x.name)).collect() }
// 11 counter
pub fn a11(xs: &[Item]) -> usize { xs.iter().filter(|x| x.on).count() }
pub fn b11(xs: &[Item]) -> usize { let mut n = 0; for x in xs { if x.on { n += 1; } } n }
// 12 struct update
pub struct S { pub a: u32, pub b: u32, pub v: Vec<u32> }
pub fn a12(s: &mut S, c: bool) { if c { s.a = 1; s.v.push(2); } else { s.b += 1; } }
pub fn b12(s: &mut S, c: bool) { let S { a, b, v } = s; if !c { *b = *b + 1; return; } *a = 1; add12(v); }
fn add12(v: &mut Vec<u32>) { v.push(2) }
// 13 lazily dup in worklist
pub fn a13(x: &Item) { let mut st = vec![x]; while let Some(i) = st.pop() { sink(&i.name); for k in &i.kids { st.push(k); } } }
pub fn b13(x: &Item) { let mut st = vec![x]; while !st.is_empty() { let i = st.pop().unwrap(); sink(&i.name); st.extend(i.kids.iter()); } }
// 14 write!
pub fn a14(x: &Item, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}-{}", x.name, x.n) }
pub fn b14(x: &Item, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&x.name)?; f.write_str("-")?; write!(f, "{}", x.n) }
// 15 last wins / index
pub fn a15(xs: &[Item]) { for (i, x) in xs.iter().enumerate() { if i == 0 { sink(&x.name) } else { sink2(&x.name, "rest") } } }
pub fn b15(xs: &[Item]) { for i in 0..xs.len() { let x = &xs[i]; if i != 0 { sink2(&x.name, "rest"); continue; } sink(&x.name); } }
// 16 chain
pub fn a16(x: &Item, y: &Item) { for k in x.kids.iter().chain(&y.kids) { if k.on { sink(&k.name) } } }
pub fn b16(x: &Item, y: &Item) { for i in [x, y] { for k in &i.kids { if k.on { sink(&k.name) } } } }
pub fn c16(x: &Item, y: &Item) { let all: Vec<&Item> = x.kids.iter().chain(y.kids.iter()).collect(); for k in all { if k.on { sink(&k.name) } } }
// 17 find + let else
pub fn a17<'a>(xs: &'a [Item], n: &str) -> Option<&'a str> { xs.iter().find(|x| x.name == n).and_then(|x| x.opt.as_deref()) }
pub fn b17<'a>(xs: &'a [Item], n: &str) -> Option<&'a str> { let x = xs.iter().find(|x| x.name == n)?; x.opt.as_deref() }
pub fn c17<'a>(xs: &'a [Item], n: &str) -> Option<&'a str> { for x in xs { if x.name == n { return x.opt.as_deref(); } } None }
// 60 stop at the first bad one
pub fn a60(xs: &[Item]) { for x in xs { if !x.on { break; } sink(&x.name); } }
pub fn b60(xs: &[Item]) { for x in xs { if !x.on { return; } sink(&x.name); } }
pub fn c60(xs: &[Item]) { for x in xs.iter().take_while(|x| x.on) { sink(&x.name); } }
pub fn d60(xs: &[Item]) { xs.iter().take_while(|x| x.on).for_each(|x| sink(&x.name)); }
pub fn e60(xs: &[Item]) { let mut it = xs.iter(); while let Some(x) = it.next() { if x.on { sink(&x.name); } else { break; } } }
// 61 skip the bad ones
pub fn a61(xs: &[Item]) { for x in xs { if !x.on { continue; } sink(&x.name); } }
pub fn b61(xs: &[Item]) { xs.iter().filter(|x| x.on).for_each(|x| sink(&x.name)); }
// 62 collect until
pub fn a62(xs: &[Item]) -> Vec<&String> { let mut v = Vec::new(); for x in xs { if !x.on { break; } v.push(&x.name); } v }
pub fn b62(xs: &[Item]) -> Vec<&String> { xs.iter().take_while(|x| x.on).map(|x| &x.name).collect() }
pub fn c62(xs: &[Item]) -> Vec<&String> { xs.iter().map_while(|x| if x.on { Some(&x.name) } else { None }).collect() }
// 63 all or error
pub fn a63(xs: &[Item]) -> Result<Vec<&String>, u32> { let mut v = Vec::new(); for x in xs { if !x.on { return Err(x.n as u32); } v.push(&x.name); } Ok(v) }
pub fn b63(xs: &[Item]) -> Result<Vec<&String>, u32> { xs.iter().map(|x| if x.on { Ok(&x.name) } else { Err(x.n as u32) }).collect() }
pub fn c63(xs: &[Item]) -> Result<Vec<&String>, u32> { let mut v = Vec::new(); for x in xs { let n = if x.on { Ok(&x.name) } else { Err(x.n as u32) }?; v.push(n); } Ok(v) }
// 64 effects until an error
pub fn a64(xs: &[Item]) -> Result<(), u32> { for x in xs { if !x.on { return Err(x.n as u32); } sink(&x.name); } Ok(()) }
pub fn b64(xs: &[Item]) -> Result<(), u32> { xs.iter().try_for_each(|x| { if !x.on { return Err(x.n as u32); } sink(&x.name); Ok(()) }) }
// 65 break, then something else
pub fn a65(xs: &[Item]) -> u32 { for x in xs { if !x.on { break; } sink(&x.name); } sink("end"); 3 }
pub fn b65(xs: &[Item]) -> u32 { fn go(xs: &[Item]) { for x in xs { if !x.on { return; } sink(&x.name); } } go(xs); sink("end"); 3 }
// 66 inner stop
pub fn a66(ys: &[Vec<Item>]) { for xs in ys { for x in xs { if !x.on { break; } sink(&x.name); } } }
pub fn b66(ys: &[Vec<Item>]) { 'o: for xs in ys { for x in xs { if !x.on { continue 'o; } sink(&x.name); } } }
pub fn c66(ys: &[Vec<Item>]) { ys.iter().for_each(|xs| { for x in xs { if !x.on { return; } sink(&x.name); } }) }
// 67 outer stop
pub fn a67(ys: &[Vec<Item>]) { 'o: for xs in ys { for x in xs { if !x.on { break 'o; } sink(&x.name); } } }
pub fn b67(ys: &[Vec<Item>]) { for xs in ys { for x in xs { if !x.on { return; } sink(&x.name); } } }
// 68 skip while
pub fn a68(xs: &[Item]) { for x in xs.iter().skip_while(|x| x.on) { sink(&x.name); } }
pub fn b68(xs: &[Item]) { xs.iter().skip_while(|x| x.on).for_each(|x| sink(&x.name)); }
// 69 text until
pub fn a69(xs: &[Item]) -> String { let mut s = String::new(); for x in xs { if !x.on { break; } s.push_str(&x.name); } s }
pub fn b69(xs: &[Item]) -> String { let mut s = String::new(); for x in xs.iter().take_while(|x| x.on) { s.push_str(&x.name); } s }
pub fn c69(xs: &[Item]) -> String { xs.iter().take_while(|x| x.on).map(|x| x.name.as_str()).collect() }
// 70 text of the good ones
pub fn a70(xs: &[Item]) -> String { let mut s = String::new(); for x in xs { if !x.on { continue; } s.push_str(&x.name); } s }
pub fn b70(xs: &[Item]) -> String { xs.iter().filter(|x| x.on).map(|x| x.name.as_str()).collect() }
// 71 text behind a Display around a closure
struct Helper71<T>(T);
impl<T: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result> std::fmt::Display for Helper71<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (self.0)(f) } }
pub fn a71(x: &Item) -> String { use std::fmt::Write; let mut s = String::from("a"); write!(s, "{}", Helper71(|f: &mut std::fmt::Formatter<'_>| { f.write_str("enum ")?; f.write_str(&x.name) })).unwrap(); s }
pub fn b71(x: &Item) -> String { let mut s = String::from("a"); s.push_str("enum "); s.push_str(&x.name); s }
// 72 count until
pub fn a72(xs: &[Item]) -> usize { let mut n = 0; for x in xs { if !x.on { break; } n += 1; } n }
pub fn b72(xs: &[Item]) -> usize { xs.iter().take_while(|x| x.on).count() }
// 73 count some
pub fn a73(xs: &[Item]) -> usize { let mut n = 0; for x in xs { if x.on { n += 1; } } n }
pub fn b73(xs: &[Item]) -> usize { xs.iter().filter(|x| x.on).count() }
// 74 a separator before all but the first, by a flag or by a closure that keeps one
pub fn a74(xs: &[Item]) -> String { let mut s = String::new(); let mut first = true; for x in xs { if first { first = false; } else { s.push('\n'); } s.push_str(&x.name); } s }
pub fn b74(xs: &[Item]) -> String { let mut s = String::new(); let mut sep = { let mut first = true; move |s: &mut String| { if first { first = false; } else { s.push('\n'); } } }; for x in xs { sep(&mut s); s.push_str(&x.name); } s }
pub fn c74(xs: &[Item]) -> String { let mut s = String::new(); let mut first = true; let mut sep = |s: &mut String| { if first { first = false; } else { s.push('\n'); } }; for x in xs { sep(&mut s); s.push_str(&x.name); } s }
pub fn d74(xs: &[Item]) -> String { let mut s = String::new(); for (i, x) in xs.iter().enumerate() { if i > 0 { s.push('\n'); } s.push_str(&x.name); } s }
// 75 all but the first
pub fn a75(xs: &[Item]) -> Vec<&String> { let mut v = Vec::new(); let mut first = true; for x in xs { if first { first = false; } else { v.push(&x.name); } } v }
pub fn b75(xs: &[Item]) -> Vec<&String> { let mut v = Vec::new(); for (i, x) in xs.iter().enumerate() { if i > 0 { v.push(&x.name); } } v }
pub fn a76(xs: &[Item]) -> Vec<&String> { xs.iter().skip(1).map(|x| &x.name).collect() }
pub fn c75(xs: &[Item]) -> Vec<&String> { let mut v = Vec::new(); let mut first = true; xs.iter().for_each(|x| if first { first = false; } else { v.push(&x.name); }); v }
pub fn e75(xs: &[Item]) -> Vec<&String> { xs.iter().enumerate().filter(|(i, _)| *i > 0).map(|(_, x)| &x.name).collect() }
// 77 a part of the text that is there or not, and what comes after it
pub fn a77(ns: Option<&str>, x: &Item) -> String { use std::fmt::Write; let mut s = String::new(); let f = &mut s; f.write_str("enum ").unwrap(); if let Some(n) = ns { f.write_str(n).unwrap(); f.write_str("__").unwrap(); } f.write_str(&x.name).unwrap(); s }
pub fn b77(ns: Option<&str>, x: &Item) -> String { use std::fmt::Write; let mut s = String::new(); let f = &mut s; f.write_str("enum ").unwrap(); match ns { Some(n) => write!(f, "{}__{}", n, x.name).unwrap(), None => f.write_str(&x.name).unwrap() } s }
// 78 the same in a loop, with a test of the text so far
pub fn a78(xs: &[(Option<&str>, Item)]) -> String { use std::fmt::Write; let mut s = String::new(); for (ns, x) in xs { { let f = &mut s; f.write_str("enum ").unwrap(); if let Some(n) = ns { f.write_str(n).unwrap(); f.write_str("__").unwrap(); } f.write_str(&x.name).unwrap(); } if !s.ends_with('\n') { s.push('\n'); } } s }
pub fn b78(xs: &[(Option<&str>, Item)]) -> String { use std::fmt::Write; let mut s = String::new(); for (ns, x) in xs { { let f = &mut s; f.write_str("enum ").unwrap(); match ns { Some(n) => write!(f, "{}__{}", n, x.name).unwrap(), None => f.write_str(&x.name).unwrap() } } if !s.ends_with('\n') { s.push('\n'); } } s }
// 79 a number and its text
pub fn a79(n: u64) -> String { n.to_string() }
pub fn b79(n: u64) -> String { format!("{n}") }
pub fn a80(n: u64) -> (String, String) { (format!("a{n}b"), n.to_string() + "x") }
pub fn b80(n: u64) -> (String, String) { (format!("a{}b", n.to_string()), format!("{n}x")) }
// 81 conversions that keep the value
pub fn a81(n: u32, m: u16) -> u64 { n as u64 + m as u64 }
pub fn b81(n: u32, m: u16) -> u64 { u64::from(n) + u64::from(m) }
// 82, 83 one that does not
pub fn a82(n: u64) -> i64 { n as i64 }
pub fn a83(n: i64) -> i64 { n }

// 84 what a value does when it goes out of scope
pub struct Guard84<'a> { s: &'a mut String, done: bool }
impl Drop for Guard84<'_> { fn drop(&mut self) { if !self.done { self.s.push(')'); } } }
pub fn a84(x: &Item) -> String { let mut s = String::from("("); { let g = Guard84 { s: &mut s, done: x.on }; g.s.push_str(&x.name); } s }
pub fn b84(x: &Item) -> String { let mut s = String::from("("); let g = Guard84 { s: &mut s, done: x.on }; g.s.push_str(&x.name); drop(g); s }
pub fn c84(x: &Item) -> String { let mut s = String::from("("); s.push_str(&x.name); if !x.on { s.push(')'); } s }
// 85 the same, told not to
pub fn a85(x: &Item) -> String { let mut s = String::from("("); { let mut g = Guard84 { s: &mut s, done: false }; g.s.push_str(&x.name); g.done = true; } s }
pub fn b85(x: &Item) -> String { let mut s = String::from("("); s.push_str(&x.name); s }
// 86 a condition as a value, given back early or late
pub fn a86(x: &Item) -> bool { match x.n { 0 => false, 1 => x.on, _ => true } }
pub fn b86(x: &Item) -> bool { if x.n == 0 { return false; } x.n != 1 || x.on }
pub fn c86(x: &Item) -> bool { x.n != 0 && !(x.n == 1 && !x.on) }
// 87 nothing given back, or what gives nothing back
pub fn a87(x: &Item) { if x.on { return sink(&x.name); } sink("b") }
pub fn b87(x: &Item) { if x.on { sink(&x.name); } else { sink("b"); } }
// 88 every two of a few
pub fn a88(x: &str, y: &str, z: &str) { let v = [x, y, z]; for i in 0..v.len() { for o in v[i..].iter().skip(1) { if v[i] == *o { sink(o); } } } }
pub fn b88(x: &str, y: &str, z: &str) { let v = [x, y, z]; for (i, a) in v.iter().enumerate() { for o in &v[i + 1..] { if a == o { sink(o); } } } }
pub fn c88(x: &str, y: &str, z: &str) { if x == y { sink(y); } if x == z { sink(z); } if y == z { sink(z); } }
// 89 characters replaced
pub fn a89(x: &str) -> String { let mut s = String::new(); for c in x.chars() { match c { '-' | '.' => s.push('_'), _ => s.push(c.to_ascii_uppercase()) } } s }
pub fn b89(x: &str) -> String { x.chars().map(|c| match c { '-' | '.' => '_', _ => c.to_ascii_uppercase() }).collect() }
pub fn c89(x: &str) -> String { let mut s = String::new(); for c in x.chars() { s.push(if c == '-' || c == '.' { '_' } else { c.to_ascii_uppercase() }); } s }
