use crate::{xprs_fn, FnPointer, Function};

// what the wrapped function saw; it returns anything
static mut CALLS: u8 = 0;
static mut COUNT: usize = 0;
static mut SEEN: [u64; 9] = [0; 9];
static mut GIVEN: u64 = 0;
static mut AT: *const f64 = core::ptr::null();

macro_rules! seen {
    ($($a:ident),*) => {{
        let v: &[f64] = &[$($a),*];
        unsafe {
            CALLS += 1;
            COUNT = v.len();
            let mut _k = 0;
            $( SEEN[_k] = $a.to_bits(); _k += 1; )*
            f64::from_bits(GIVEN)
        }
    }};
}

/// calls f with any values and checks that the wrapped function was called once,
/// with exactly these in order, and that its result is the result
macro_rules! passes {
    ($f:expr, $n:tt, $name:expr, $($i:tt),*) => {{
        let f: Function = $f;
        assert!(f.nb_args == Some($n));
        assert!(f.name.as_bytes().len() == $name.len() && f.name.as_bytes() == $name);
        let args: [f64; $n] = kani::any();
        unsafe { CALLS = 0; GIVEN = kani::any(); }
        let r = (f.func)(&args);
        unsafe {
            assert!(CALLS == 1);
            assert!(COUNT == $n);
            $( assert!(SEEN[$i] == args[$i].to_bits()); )*
            assert!(r.to_bits() == GIVEN);
        }
    }};
}

macro_rules! arity {
    ($n:tt, $w:ident, $named:ident, $dynamic:ident, $unnamed:ident; $($a:ident),*; $($i:tt),*) => {
        fn $w($($a: f64),*) -> f64 { seen!($($a),*) }
        #[kani::proof]
        #[kani::unwind(12)]
        fn $named() { passes!(xprs_fn!("named", $w, $n), $n, b"named", $($i),*); }
        #[kani::proof]
        #[kani::unwind(12)]
        fn $dynamic() {
            let key: u64 = kani::any();
            let w = move |$($a: f64),*| { assert!(key == key); seen!($($a),*) };
            passes!(xprs_fn!("name of it", dyn w, $n), $n, b"name of it", $($i),*);
        }
        #[kani::proof]
        #[kani::unwind(12)]
        fn $unnamed() {
            let w = move |$($a: f64),*| { seen!($($a),*) };
            passes!(xprs_fn!(dyn w, $n), $n, b"w", $($i),*);
        }
    };
}

arity!(0, w0, macro_static_0, macro_dyn_0, macro_dyn_unnamed_0; ; );
arity!(1, w1, macro_static_1, macro_dyn_1, macro_dyn_unnamed_1; a; 0);
arity!(2, w2, macro_static_2, macro_dyn_2, macro_dyn_unnamed_2; a, b; 0, 1);
arity!(3, w3, macro_static_3, macro_dyn_3, macro_dyn_unnamed_3; a, b, c; 0, 1, 2);
arity!(4, w4, macro_static_4, macro_dyn_4, macro_dyn_unnamed_4; a, b, c, d; 0, 1, 2, 3);
arity!(5, w5, macro_static_5, macro_dyn_5, macro_dyn_unnamed_5; a, b, c, d, e; 0, 1, 2, 3, 4);
arity!(6, w6, macro_static_6, macro_dyn_6, macro_dyn_unnamed_6; a, b, c, d, e, f; 0, 1, 2, 3, 4, 5);
arity!(7, w7, macro_static_7, macro_dyn_7, macro_dyn_unnamed_7; a, b, c, d, e, f, g; 0, 1, 2, 3, 4, 5, 6);
arity!(8, w8, macro_static_8, macro_dyn_8, macro_dyn_unnamed_8; a, b, c, d, e, f, g, h; 0, 1, 2, 3, 4, 5, 6, 7);
arity!(9, w9, macro_static_9, macro_dyn_9, macro_dyn_unnamed_9; a, b, c, d, e, f, g, h, i; 0, 1, 2, 3, 4, 5, 6, 7, 8);

// variadic: the list itself is handed on, whatever its length
fn whole(v: &[f64]) -> f64 {
    unsafe {
        CALLS += 1;
        COUNT = v.len();
        AT = v.as_ptr();
        f64::from_bits(GIVEN)
    }
}

fn hands_on(f: Function, name: &[u8]) {
    assert!(f.nb_args == None);
    assert!(f.name.as_bytes().len() == name.len() && f.name.as_bytes() == name);
    // a list of any length a slice can have, of any contents (CBMC allocates a block of a symbolic size)
    let n: usize = kani::any();
    kani::assume(n <= (1usize << 46) / 8);
    let args: &[f64] = if n == 0 { &[] } else {
        let l = core::alloc::Layout::from_size_align(n * 8, 8).unwrap();
        unsafe { core::slice::from_raw_parts(std::alloc::alloc(l) as *const f64, n) }
    };
    unsafe { CALLS = 0; GIVEN = kani::any(); }
    let r = (f.func)(args);
    unsafe {
        assert!(CALLS == 1 && COUNT == n && AT == args.as_ptr());
        assert!(r.to_bits() == GIVEN);
    }
}

#[kani::proof]
#[kani::unwind(14)]
fn macro_variadic_static() { hands_on(xprs_fn!("variadic", whole), b"variadic"); }
#[kani::proof]
#[kani::unwind(14)]
fn macro_variadic_static_unnamed() { hands_on(xprs_fn!(whole), b"whole"); }
#[kani::proof]
#[kani::unwind(14)]
fn macro_variadic_dyn() { hands_on(xprs_fn!("variadic", dyn whole), b"variadic"); }
#[kani::proof]
#[kani::unwind(14)]
fn macro_variadic_dyn_unnamed() { hands_on(xprs_fn!(dyn whole), b"whole"); }

// the constructors keep what they are given
#[kani::proof]
#[kani::unwind(14)]
fn constructors() {
    let n: Option<u8> = kani::any();
    let f = Function::new_static("f", whole, n);
    assert!(f.nb_args == n && f.name == "f" && matches!(f.func, FnPointer::Static(g) if g == whole as fn(&[f64]) -> f64));
    let g = Function::new_dyn("g", whole, n);
    assert!(g.nb_args == n && g.name == "g" && matches!(g.func, FnPointer::Dyn(_)));
}

// must fail
fn swapped(a: f64, b: f64) -> f64 { seen!(b, a) }
#[kani::proof]
#[kani::unwind(12)]
fn canary_macro() { passes!(xprs_fn!("named", swapped, 2), 2, b"named", 0, 1); }
