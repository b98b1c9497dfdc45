use crate::{FnPointer, Function};

fn whole(v: &[f64]) -> f64 { if v.len() == 0 { 1.0 } else { v[0] } }
// == on functions: the same function, the same name and the same arity
fn other(v: &[f64]) -> f64 { v.len() as f64 }
#[kani::proof]
#[kani::unwind(14)]
fn function_equality() {
    let (n, m): (Option<u8>, Option<u8>) = (kani::any(), kani::any());
    let s = FnPointer::Static(whole);
    let d = Function::new_dyn("f", whole, n).func;
    let e = Function::new_dyn("f", whole, n).func;
    assert!(s == FnPointer::Static(whole) && s != FnPointer::Static(other));
    assert!(s != d && d != s);
    assert!(d == d.clone() && d != e);
    let f = Function::new_static("f", whole, n);
    assert!((f == Function::new_static("f", whole, m)) == (n == m));
    assert!(f != Function::new_static("g", whole, n) && f != Function::new_static("f", other, n));
    assert!(f == f.clone());
}

// whatever the functions compute, == tells by which they are, and calls neither
static mut CALLS: usize = 0;
fn any_a(_: &[f64]) -> f64 { unsafe { CALLS += 1; } kani::any() }
fn any_b(_: &[f64]) -> f64 { unsafe { CALLS += 1; CALLS += 0; } kani::any() }
#[kani::proof]
#[kani::unwind(14)]
fn equality_calls_nothing() {
    let (x, y): (bool, bool) = (kani::any(), kani::any());
    let (f, g): (fn(&[f64]) -> f64, fn(&[f64]) -> f64) = (if x { any_a } else { any_b }, if y { any_a } else { any_b });
    assert!((FnPointer::Static(f) == FnPointer::Static(g)) == (x == y));
    let n: Option<u8> = kani::any();
    let d = Function::new_dyn("f", move |v: &[f64]| any_a(v), n);
    let e = Function::new_dyn("f", move |v: &[f64]| any_b(v), n);
    let (p, q) = (if x { &d } else { &e }, if y { &d } else { &e });
    assert!((p.func == q.func) == (x == y) && (p == q) == (x == y));
    assert!(FnPointer::Static(f) != p.func && q.func != FnPointer::Static(f));
    assert!(unsafe { CALLS } == 0);
}
// names are compared whole, byte by byte
#[kani::proof]
#[kani::unwind(6)]
fn equality_of_names() {
    let (a, b): (&'static [u8; 3], &'static [u8; 3]) = (Box::leak(Box::new(kani::any())), Box::leak(Box::new(kani::any())));
    let (i, j): (usize, usize) = (kani::any(), kani::any());
    kani::assume(i <= 3 && j <= 3);
    kani::assume(a[0] < 128 && a[1] < 128 && a[2] < 128 && b[0] < 128 && b[1] < 128 && b[2] < 128);
    let (s, t) = unsafe { (core::str::from_utf8_unchecked(&a[..i]), core::str::from_utf8_unchecked(&b[..j])) };
    let (n, m): (Option<u8>, Option<u8>) = (kani::any(), kani::any());
    let same = i == j && (i < 1 || a[0] == b[0]) && (i < 2 || a[1] == b[1]) && (i < 3 || a[2] == b[2]);
    let (f, g) = (Function::new_static(s, any_a, n), Function::new_static(t, any_a, m));
    assert!((f == g) == (same && n == m));
    assert!((g == f) == (same && n == m));
    assert!(unsafe { CALLS } == 0);
}

// a clone is the same function, called through whatever it is called
#[kani::proof]
#[kani::unwind(14)]
fn function_clone() {
    let x: f64 = kani::any();
    let y: f64 = kani::any();
    let f = Function::new_static("f", whole, Some(1));
    let g = Function::new_dyn("g", move |v: &[f64]| if v.len() == 1 { y } else { v[0] }, None);
    let (p, q) = (f.clone(), g.clone());
    assert!(p == f && q == g);
    assert!(p.name == "f" && p.nb_args == Some(1) && q.name == "g" && q.nb_args == None);
    assert!((p.func)(&[x]).to_bits() == x.to_bits() && (f.func)(&[x]).to_bits() == x.to_bits());
    assert!((q.func)(&[x]).to_bits() == y.to_bits() && (g.func)(&[x]).to_bits() == y.to_bits());
    assert!((q.func)(&[x, y]).to_bits() == x.to_bits());
    drop(g);
    assert!((q.func)(&[x]).to_bits() == y.to_bits());
}
#[kani::proof]
#[kani::unwind(14)]
fn canary_function() {
    let n: Option<u8> = kani::any();
    assert!(Function::new_dyn("f", whole, n) == Function::new_dyn("f", whole, n));
}
