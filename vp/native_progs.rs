// Programs the compiled-program checks run on: ownership shapes, control flow, and bodies rejected by the borrow checker.
#[allow(dead_code)]
pub mod vpp {
  pub const PRE: &str = "struct D(String);\nimpl Drop for D { fn drop(&mut self) {} }\nstruct P { a: String, b: (String, i32), c: Box<String>, d: [i32; 3] }\nenum E { A(String), B { x: i32, y: String }, C }\nfn take<T>(_: T) {}\nfn id<'a>(x: &'a mut i32, y: &'a mut i32) -> &'a mut i32 { x }\n";
  pub const FNS: &[&str] = &[
    "fn a0() { let mut x = 1; let y = &mut x; *y = 2; let z = &x; take(z); x = 3; }",
    "fn a1() { let s = String::new(); let t = s; take(t); }",
    "fn a2() { let mut s = String::new(); let t = s; s = String::from(\"x\"); take(t); take(s); }",
    "fn a3(p: P) { take(p.a); take(p.b.0); let n = p.b.1; take(n); }",
    "fn a4(mut p: P) { take(p.a); p.a = String::new(); take(&p); take(p); }",
    "fn a5(b: Box<String>, mut c: Box<i32>) { *c = 2; let s = *b; take(s); }",
    "fn a6(r: &mut P) { let q = &mut r.a; q.push('x'); let z = &r.b; take(z); r.c = Box::new(String::new()); }",
    "fn a7(r: &P) { let q = &r.a; take(q); let n = r.b.1; take(n); }",
    "fn a8(d: D) { let r = &d.0; take(r); take(d); }",
    "fn a9(mut v: Vec<i32>) { let f = &v[0]; take(*f); v.push(1); for x in v.iter_mut() { *x += 1; } for y in v { take(y); } }",
    "fn b0(c: bool, s: String) { if c { take(s); } else { take(&s); } let n = 3; take(n); }",
    "fn b1(n: i32) { let mut t = String::new(); let mut i = 0; while i < n { let u = t; t = u; i += 1; } take(t); }",
    "fn b2(c: bool) { let x; if c { x = String::new(); } else { x = String::from(\"a\"); } take(&x); let y: i32; if c { y = 1; take(y); } }",
    "fn b3(o: Option<String>) { match o { Some(s) => take(s), None => {} } }",
    "fn b4(e: E) { match &e { E::A(s) => take(s), E::B { x, y } if *x > 0 => take(y), E::B { .. } => {} E::C => {} } take(e); }",
    "fn b5() { let mut a = [1, 2, 3]; let r = &mut a[1]; *r = 5; let i = 2; a[i] = 4; let [x, ..] = a; take(x); }",
    "fn b6() { let mut x = 1; let mut inc = || { x += 1; }; inc(); inc(); take(x); }",
    "fn b7(s: String) { let f = move || s.len(); take(f()); }",
    "fn b8(r: &mut &mut i32) { **r = 1; let q = &mut **r; *q = 2; let z = &*r; take(**z); }",
    "fn b9(p: *mut i32) { unsafe { *p = 1; let r = &mut *p; *r = 2; } }",
    "fn c0(mut t: (String, String)) { let a = &mut t.0; let b = &t.1; a.push('x'); take(b); take(t); }",
    "fn c1(n: u32) -> u32 { let mut s = 0; 'o: loop { for i in 0 .. n { if i == 3 { continue 'o; } if i > 5 { break 'o; } s += i; } s += 1; if s > 9 { return s; } } s }",
    "fn c2() -> Option<i32> { let x = Some(1)?; let mut y = x; { let z = &mut y; *z += 1; } Some(y) }",
    "fn c3(mut x: i32, mut y: i32) { let r = id(&mut x, &mut y); *r = 1; take(x); y = 2; take(y); }",
    "fn c4(x: i32) -> i32 { if x > 0 { if x > 1 { panic!() } 1 } else if x < -1 { 2 } else { let y = x; y } }",
    "fn c5(c: bool, mut p: P) { let q = if c { &mut p.a } else { &mut p.b.0 }; q.push('a'); take(&p); }",
    "fn c6(s: &mut Vec<String>) { if let Some(l) = s.last_mut() { l.push('c'); } let k = s.pop(); if let Some(k) = k { take(k); } }",
    "fn c7(b: Box<P>) { let P { a, b, .. } = *b; take(a); take(b); }",
    "fn c8(mut b: Box<Box<String>>) { **b = String::new(); let i = &mut *b; take(i); let x = *b; take(x); }",
    "fn c9() { let x = String::new(); let r; { r = &x; take(r); } let y = r; take(y); }",
    "fn d0() { let s = String::new(); take(s); take(s); }",
    "fn d1() { let mut x = 1; let r = &mut x; x = 2; *r = 3; }",
    "fn d2(v: &Vec<i32>) { v.push(1); }",
    "fn d3() { let x = 1; let r = &mut x; *r = 2; }",
    "fn d4(c: bool) { let s = String::new(); if c { take(s); } take(&s); }",
    "fn d5(mut v: Vec<i32>) { let f = &v[0]; v.push(2); take(*f); let g = &mut v; let h = &v; g.push(1); take(h); }",
    "fn d6(p: &P) { take(p.a); }",
    "fn d7() { let r; { let x = 1; r = &x; } take(*r); }",
    "fn d8(n: i32) { let s = String::new(); let mut i = 0; while i < n { take(s); i += 1; } }",
    "fn d9(p: P) { take(p.a); let q = &p; take(q.b.1); }",
  ];
  pub fn group(from: usize, to: usize) -> String { format!("{PRE}{}", FNS[from .. to].join("\n")) }
  pub fn groups() -> Vec<String> { vec![group(0, 10), group(10, 20), group(20, 30), group(30, 40)] }
  /// functions whose references flow between regions a caller names
  pub const FLOWS: &[&str] = &[
    "fn a0<'a, 'b, T>(a: &'a T, b: &'b T) -> &'a T { b }",
    "fn a1<'a, 'b: 'a, T>(a: &'a T, b: &'b T) -> &'a T { if true { a } else { b } }",
    "fn a2<'a, 'b: 'a, 'c: 'b, T>(a: &'a T, b: &'b T, c: &'c T) -> &'a T { let x: &'b T = c; x }",
    "fn a3<'a, 'b, T>(a: &mut Vec<&'a T>, b: &'b T) { a.push(b); }",
    "fn a4<'a>() -> &'a String { let s = String::from(\"s\"); &s }",
    "fn a5<'a>(v: &'a Vec<i32>, k: i32) -> &'a i32 { if k > 0 { &v[0] } else { &k } }",
    "fn a6<'a, 'b>(x: &'a mut &'b str, y: &'b str) { *x = y; }",
    "fn a7<'a, 'b>(x: &'a mut &'b str, y: &'a str) { *x = y; }",
    "fn a8(v: &mut Vec<&'static str>) { let s = String::new(); v.push(&s); }",
    "fn a9() -> usize { let r; { let s = String::new(); r = &s; } r.len() }",
    "fn b0<'a>(m: &mut std::collections::HashMap<&'a str, &'a str>, k: &'a str) -> Option<&'a str> { m.insert(k, k); m.get(k).copied() }",
    "fn b1<'a, F>(x: &'a i32, f: F) -> &'a i32 where F: Fn(&'a i32) -> &'a i32 { let g = |y: &'a i32| f(y); g(x) }",
    "fn b2<'a, 'b>(x: (&'a i32, &'b i32)) -> (&'b i32, &'a i32) { (x.1, x.0) }",
    "fn b3<'a, 'b>(x: (&'a i32, &'b i32)) -> (&'b i32, &'a i32) { (x.0, x.1) }",
    "struct S<'a> { r: &'a mut Vec<&'a i32> }\nfn b4<'a>(s: S<'a>, x: &'a i32) { s.r.push(x); }\nfn b5<'a>(s: &mut S<'a>) { let k = 1; s.r.push(&k); }",
    "fn b6() -> Vec<&'static str> { loop {} }",
    "fn b7<'a>() -> Option<&'a i32> { None }",
    "fn b8<'a>(x: &'a [i32]) -> impl Iterator<Item = &'a i32> { x.iter() }",
    "fn b9<'a, 'b, 'c>(a: &'a i32, b: &'b i32, c: &'c i32) -> &'c i32 where 'a: 'b, 'b: 'c { let x: &'b i32 = a; if *x > 0 { x } else { b } }",
    "fn c0<'a>(o: Option<&'a String>, d: &'a String) -> &'a String { match o { Some(s) => s, None => { let e = String::new(); &e } } }",
    "fn c1<'a>(x: &'a mut i32) -> &'a i32 { let y = &mut *x; *y += 1; y }",
    "thread_local! { static T: i32 = 1; }\nfn c2() -> i32 { T.with(|t| { let u = t; *u }) }",
    "fn c3<'a>(v: &'a mut Vec<String>) -> &'a mut String { match v.first_mut() { Some(s) => s, None => { v.push(String::new()); &mut v[0] } } }",
    "fn c4<'a, 'b>(x: &'b &'a i32) -> &'b i32 { let y = *x; y }",
  ];
  /// what the stepper gets wrong most easily; each after PRE
  pub const STEPS: &[&str] = &[
   "fn k0(c: bool, n: i32) { if c { match n { 0 => take(1), 1 => take(2), _ => return } take(5); } }",
   "fn k1(c: bool, n: i32) -> i32 { if c { let x = if n > 0 { 1 } else if n > -5 { 2 } else { return 3; }; take(x); } 4 }",
   "fn k2(v: Vec<i32>) -> i32 { for x in v { let y = match x { 0 => continue, 1 => break, 2 => return 4, 3 => 5, _ => 6 }; take(y); } 9 }",
   "fn k3(c: bool, n: Option<i32>) -> Option<i32> { if c { let y = n?; let z = if y > 0 { n? } else { 3 }; take(z); } None }",
   "fn h0(x: i32) { match x { y => loop {} } }",
   "fn h1(x: i32) { match x { y => { if y > 0 { take(y); } else { take(1); } } } }",
   "fn h2(x: (i32, String)) -> i32 { match x { (a, s) => { match a { 0 => 1, _ => { take(s); 2 } } } } }",
   "fn h3(x: i32) { loop { match x { y => { continue; } } } }",
   "fn h4(x: !) -> i32 { match x {} }",
   "enum V {}\nfn h5(x: V) -> i32 { match x {} }",
   "fn h6(r: Result<i32, std::convert::Infallible>) -> i32 { match r { Ok(x) => x, Err(e) => match e {} } }",
   "fn h7(x: bool) { if x { loop {} } else { take(1); } }",
   "fn h8(x: bool) -> i32 { if x { panic!() } else { return 1; } }",
   "fn h9(x: bool) -> i32 { if x { return 2 } else { return 1 } }",
   "fn i0(x: bool) -> i32 { if x { return 2 } if !x { return 3 } let y = if x { unreachable!() } else { 4 }; y }",
   "fn i1(x: i32) -> i32 { match x { 0 => return 1, 1 => panic!(), _ => {} } 5 }",
   "fn i2(x: Option<i32>) -> i32 { let Some(y) = x else { return 0; }; let Some(z) = Some(y) else { panic!() }; y + z }",
   "fn i3(x: Option<Option<String>>) -> i32 { if let Some(Some(s)) = x { take(s); 1 } else { 2 } }",
   "fn i4(x: &mut Vec<String>) { while let Some(s) = x.pop() { if s.is_empty() { continue; } if s.len() > 3 { break; } take(s); } x.clear(); }",
   "fn i5(x: u8) -> u8 { match x { 0 ..= 3 => 1, 4 | 6 | 8 => 2, n @ 9 ..= 200 => n, _ => { let y = x; if y > 3 { y } else { 0 } } } }",
   "fn i6(x: (Option<i32>, Option<i32>, Option<i32>)) -> i32 { match x { (Some(a), Some(b), Some(c)) => a + b + c, (Some(a), None, Some(c)) => a + c, (None, Some(b), _) => b, (_, _, Some(_)) => 9, _ => 0 } }",
   "fn i7(x: &[Option<i32>]) -> i32 { match x { [Some(a), Some(b)] => a + b, [None, Some(_) | None] => 3, [_, .., None] => 7, _ => 0 } }",
   "fn i8(x: i32) -> i32 { 'a: { if x > 3 { break 'a 5; } if x > 2 { break 'a 6; } 7 } }",
   "fn i9(x: bool, y: bool) -> i32 { match (x, y) { (true, true) => { if y { 1 } else { 2 } } (false, true) => 3, (true, false) => match x { true => 4, false => 5 }, (false, false) => loop { break 9; } } }",
   "fn j0(v: Vec<i32>) -> i32 { let mut s = 0; for x in v.iter() { for y in v.iter() { if x == y { s += 1; } else { match x { 0 => { s += 2; } 1 => { s += 3; } _ => {} } } } } s }",
   "fn j1(x: bool) { if { let y = x; y } { take(1); } while { take(2); x } { take(3); } }",
   "fn j2(x: Box<Option<Box<i32>>>) -> i32 { match *x { Some(b) => *b, None => 0 } }",
   "fn j3(x: bool, s: String) { let c = move || { if x { take(s); } else { match s.len() { 0 => take(1), _ => take(2) } } }; c(); }",
   "fn j4(s: &str) -> bool { matches!(s.len(), 1 | 2 | 5) && s.starts_with('a') || s.is_empty() }",
   "async fn j5(x: bool) -> i32 { if x { 1 } else { 2 } }",
   "const K: i32 = if true { 1 } else { 2 };\nstatic L: i32 = match K { 1 => 5, _ => 6 };",
   "fn j6(x: Option<i32>) -> Result<i32, String> { let y = x.ok_or(String::new())?; if y > 3 { Err(String::new())? } Ok(y) }",
   "fn l1() { let mut s = String::new(); let f = |t: &str| t.len(); f(\"a\"); { let r = &mut s; r.push('a'); } take(s); }",
   "fn l2(\n  mut v: Vec<String>,\n) {\n  let a = &v;\n  let b = a.len(); let c = &mut v; c.clear();\n  if b > 2 {\n    take(c.len());\n  }\n  let mut p = (String::new(), String::new());\n  let q = &mut p.0; q.push('a'); take(p.1); take(p.0);\n}",
   "fn l3(c: bool) {\n  let mut s = String::new();\n  let r = &mut s;\n  r.push('a');\n  let t = s;\n  take(r.len());\n  if c {\n    take(t);\n  }\n  let u = t;\n  take(u);\n}",
   "fn l4() -> &'static String {\n  let s = String::new();\n  let x = 1;\n  let y = &x;\n  take(*y);\n  &s\n}",
   "fn l5(s: String) {\n  take(s);\n  take(s.len());\n  let v = vec![1];\n  let w = &v;\n  take(w.len());\n}",
   "fn o1(a: i32, b: i32) -> i32 { match (a, b) { (1, _) | (_, 1) => 1, _ => 2 } }",
   "fn o2(a: i32, b: i32, s: String) -> i32 { match (a, b) { (1, _) | (_, 1) => { take(s); 1 } _ => { 2 } } }",
   "fn o3(a: Option<i32>, b: Option<i32>, s: String) -> i32 { match (a, b) { (Some(_), None) | (None, Some(_)) => { take(s); 1 } _ => { 2 } } }",
   "fn o4(a: bool, b: bool, s: String) { if a && b { take(s); } else { take(1); } }",
   "fn o5(a: bool, b: bool, s: String) { if a || b { take(s); } else { take(1); } }",
   "fn o6(a: E, b: E) -> i32 { match (&a, &b) { (E::A(s), E::A(t)) => { take(s); take(t); 1 } (E::C, _) | (_, E::C) => 0, _ => 5 } }",
   "fn o7(a: (bool, bool), s: String) -> i32 { match a { (true, true) => { take(s); 0 } (false, x) => { take(x); 1 } (x, false) => { take(x); 3 } } }",
   "fn o8(mut n: i32, s: String) { let mut t = s; while n > 0 { n -= 1; if n == 4 { t = String::new(); } else if n == 7 { continue; } else { take(&t); } } take(t); }",
   "fn o9(mut n: i32) { loop { n -= 1; if n == 4 { break; } if n == 2 { continue; } let s = String::new(); if n == 9 { take(s); } } }",
   "fn m0(n: Option<Option<i32>>) -> i32 { match n { Some(Some(0)) => 1, Some(Some(k)) => k, Some(None) => 2, None => 0 } }",
   "fn m1(a: Option<i32>, b: Option<i32>) -> i32 { match (a, b) { (Some(x), Some(y)) => x + y, (Some(x), None) => x, (None, Some(y)) => y, (None, None) => 0 } }",
   "fn m2(a: Option<String>, b: Option<String>) -> i32 { match (a, b) { (Some(x), Some(y)) => { take(x); take(y); 1 } (Some(x), None) => { take(x); 2 } (None, Some(y)) => { take(y); 4 } _ => 0 } }",
   "fn m3(a: Option<(i32, Option<i32>)>) -> i32 { match a { Some((0, None)) => 1, Some((1, Some(2))) => 2, Some((x, Some(y))) => { if x > 0 { y } else { match y { 0 => 1, 5 => 2, _ => 3 } } } Some((x, None)) => x, None => 9 } }",
   "fn m4(c: bool, d: bool) { let mut s = String::new(); if c { if d { s.push('a'); } else { take(&s); } } else { if d { take(s.len()); } } take(s); }",
   "fn m5(x: i32) -> String { let s = String::new(); match x { 0 => match s.len() { 0 => s, 1 => String::from(\"a\"), _ => { let t = s; t } }, 1 | 2 => s, _ => { if x > 4 { s } else { String::new() } } } }",
   "fn m6(v: Vec<Option<i32>>) -> i32 { let mut t = 0; for x in v { match x { Some(0) => continue, Some(n) if false => t += n, Some(n) => t += n, None => break } } t }",
   "fn m7(v: Vec<Option<i32>>) -> i32 { let mut t = 0; for x in v { match x { Some(0) => continue, Some(n) => t += n, None => break } } t }",
   "fn m8(r: Result<String, Option<String>>) -> String { match r { Ok(s) => s, Err(Some(s)) => { let u = s; u } Err(None) => String::new() } }",
   "fn m9(c: bool) -> i32 { let x = if c { let y = 1; y + 1 } else if !c { 2 } else { 3 }; let z = match x { 1 => 2, 2 => 3, 3 => { if c { 1 } else { 0 } } _ => 1 }; x + z }",
   "fn n0(mut n: u32) -> u32 { while n > 0 { if n % 2 == 0 { n /= 2; } else { if n > 5 { n -= 1; } else { break; } } } while n < 4 { n += 1; } n }",
   "fn n1(o: &mut Option<String>) { while let Some(s) = o { if s.len() > 3 { *o = None; } else { s.push('a'); } } }",
   "fn n2(a: E, b: E) -> i32 { match (&a, &b) { (E::A(s), E::A(t)) => { take(s); take(t); 1 } (E::B { x, .. }, E::B { x: y, .. }) => *x + *y, (E::C, _) | (_, E::C) => 0, _ => 5 } }",
   "fn n3(b: bool, o: Option<i32>) -> Option<i32> { let x = o?; let y = if b { o? } else { x }; if let Some(z) = o && z > y { return None; } Some(y) }",
   "fn n4(b: bool) { let s = String::new(); let t; if b { t = s; } else { t = String::new(); } let u = t; { let v = u; if b { take(v); } } }",
   "fn n5(x: (i32, i32, i32)) -> i32 { match x { (0, 0, 0) => 0, (0, 0, _) => 1, (0, _, 0) => 2, (_, 0, 0) => 3, (a, 1, b) => a + b, (1, a, b) => a - b, (a, b, c) => a + b + c } }",
   "fn n6(s: &str) -> i32 { match s { \"a\" => 1, \"bc\" => 2, _ => 3 } }\nfn n7(v: &[i32]) -> i32 { match v { [] => 0, [a] => *a, [a, .., b] if false => 1, [a, .., b] => a + b } }",
   "fn n8(v: &[i32]) -> i32 { match v { [] => 0, [a] => *a, [a, 3, ..] => *a, [a, .., b] => a + b } }",
   "fn n9(a: bool, b: bool, c: bool) -> i32 { let x = a && b || c; if x && (a || !b) { 1 } else { if !x || c && a { 2 } else { 3 } } }",
  ];
}
