//! C19: functions that panic, wherever they are called from.
use crate::alloc;
use crate::gen::*;
use crate::{Out, Run};
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use xprs::{Context, Function, Parser, Xprs};

thread_local! {
    /// calls left before one panics; negative: none does
    static LEFT: Cell<i64> = const { Cell::new(-1) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn tick() {
    CALLS.with(|c| c.set(c.get() + 1));
    LEFT.with(|l| match l.get() {
        0 => {
            l.set(-1);
            std::panic::panic_any("the function panics");
        }
        n if n > 0 => l.set(n - 1),
        _ => {}
    });
}

/// what every function owns
struct Owned(Arc<u32>, Vec<Box<u64>>);
fn owned(t: &Arc<u32>) -> Owned {
    Owned(t.clone(), (0..3).map(Box::new).collect())
}

fn make(t: &Arc<u32>) -> Parser<'static> {
    let (a, b, c, d) = (owned(t), owned(t), owned(t), owned(t));
    Parser::new_with_ctx(
        Context::default()
            .with_fn(Function::new_dyn("f", move |x: &[f64]| { tick(); x[0] + *a.1[1] as f64 + f64::from(*a.0) }, Some(1)))
            .with_fn(Function::new_dyn("g", move |x: &[f64]| { tick(); x[0] - 2.0 * x[1] + *b.1[2] as f64 + f64::from(*b.0) }, Some(2)))
            .with_fn(Function::new_dyn("h", move |x: &[f64]| { tick(); x.iter().sum::<f64>() + c.1.len() as f64 + f64::from(*c.0) }, None))
            .with_fn(Function::new_dyn("k", move |_: &[f64]| { tick(); 1.5 + d.1.len() as f64 + f64::from(*d.0) }, Some(0)))
            .with_var("c", 2.5),
    )
}

const VALS: [(&str, f64); 3] = [("x", 0.75), ("y", -2.5), ("z", 3.0)];

/// What is done with the expression, by number; the text of what came out.
fn act<'p>(how: usize, p: &'p Parser<'static>, x: Option<Xprs<'static>>, s: &'static str) -> String {
    let m: HashMap<&str, f64> = VALS.into_iter().collect();
    match (how, x) {
        (0, _) => p.parse(s).map(|x| x.to_string()).unwrap_or_default(),
        (1, Some(x)) => format!("{:?}", x.eval(&m)),
        (2, Some(x)) => format!("{:?}", x.eval_unchecked(&m)),
        (3, Some(x)) => x.simplify_for(("x", 0.5)).to_string(),
        (4, Some(x)) => x.simplify_for_multiple(&VALS).to_string(),
        (5, Some(mut x)) => {
            x.simplify_for_in_place(("y", 0.5));
            x.simplify_for_in_place(("x", 0.5));
            x.to_string()
        }
        (6, Some(mut x)) => {
            x.simplify_for_multiple_in_place(&VALS);
            x.to_string()
        }
        (7, Some(x)) => x.bind_n(["x", "y", "z"]).map(|f| f([0.75, -2.5, 3.0]).to_string()).unwrap_or_default(),
        (8, Some(x)) => x.bind3("x", "y", "z").map(|f| f(0.75, -2.5, 3.0).to_string()).unwrap_or_default(),
        (9, Some(x)) => x.bind_n_runtime(&["x", "y", "z"]).map(|f| format!("{:?}", f(&[0.75, -2.5, 3.0]))).unwrap_or_default(),
        (10, Some(x)) => {
            let y = x.clone();
            drop(x);
            format!("{:?}", y.eval(&m))
        }
        _ => String::new(),
    }
}
const ACTS: usize = 14;

/// Everything that is kept while a call panics, used again afterwards.
fn kept(how: usize, p: &Parser<'static>, x: &mut Option<Xprs<'static>>, s: &'static str) -> String {
    let m: HashMap<&str, f64> = VALS.into_iter().collect();
    match (how, x.as_mut()) {
        (11, Some(x)) => {
            x.simplify_for_in_place(("x", 0.5));
            x.to_string()
        }
        (12, Some(x)) => {
            x.simplify_for_multiple_in_place(&VALS);
            x.to_string()
        }
        (13, Some(x)) => format!("{:?}{:?}", x.eval(&m), x.eval_unchecked(&m)),
        _ => act(how, p, x.clone(), s),
    }
}

fn one(s: &'static str, how: usize, at: i64) -> Result<bool, String> {
    let token = Arc::new(7u32);
    let p = make(&token);
    LEFT.with(|l| l.set(-1));
    let mut x = p.parse(s).ok();
    let shown = x.as_ref().map(|x| x.to_string());
    let want = kept(how, &p, &mut x.clone(), s);
    let before = Arc::strong_count(&token);
    LEFT.with(|l| l.set(at));
    let r = catch_unwind(AssertUnwindSafe(|| kept(how, &p, &mut x, s)));
    let fired = at >= 0 && LEFT.with(|l| l.replace(-1)) == -1;
    let panicked = match r {
        Ok(got) => {
            if fired {
                return Err(format!("the function's panic does not come out: {got}"));
            }
            if got != want {
                return Err(format!("gives {got}, {want} before"));
            }
            false
        }
        Err(e) => {
            if e.downcast_ref::<&str>() != Some(&"the function panics") {
                return Err("another panic than the function's comes out".into());
            }
            true
        }
    };
    if Arc::strong_count(&token) > before {
        return Err(format!("{} owners of a function's data, {before} before", Arc::strong_count(&token)));
    }
    // whatever is left can be used
    if how != 11 && how != 12 {
        if x.as_ref().map(|x| x.to_string()) != shown {
            return Err(format!("displays as {:?}, {shown:?} before", x.map(|x| x.to_string())));
        }
        let again = kept(how, &p, &mut x, s);
        if again != want {
            return Err(format!("gives {again} afterwards, {want} before"));
        }
    } else if let Some(x) = &mut x {
        let _ = x.to_string();
        let _ = x.clone() == *x;
        x.simplify_for_multiple_in_place(&VALS);
        let _ = x.eval(&VALS.into_iter().collect());
    }
    if how % 2 == 0 {
        drop(p);
        drop(x);
    } else {
        drop(x);
        drop(p);
    }
    match Arc::strong_count(&token) {
        1 => Ok(panicked),
        n => Err(format!("{n} owners of a function's data are left, expected 1")),
    }
}

fn whole(s: &'static str, how: usize) -> Result<Out, String> {
    let mut any = false;
    for at in 0..40 {
        let mut last = 0;
        let mut more = false;
        // the second time nothing is allocated for good
        for round in 0..2 {
            let (t, l) = (alloc::TWICE.load(Ordering::Relaxed), alloc::live());
            let r = one(s, how, at).map_err(|e| format!("panic at call {at}: {e}"));
            let freed = alloc::TWICE.load(Ordering::Relaxed) - t;
            if freed > 0 {
                return Err(format!("panic at call {at}: {freed} blocks freed twice"));
            }
            more = r?;
            last = alloc::live() - l;
            if round == 1 && last != 0 {
                return Err(format!("panic at call {at}: {last} blocks more than before"));
            }
        }
        let _ = last;
        any |= more;
        if !more {
            break;
        }
    }
    Ok(if any { Out::Ok } else { Out::Trivial })
}

const WHAT: [&str; 14] = ["parse", "eval", "eval_unchecked", "simplify_for", "simplify_for_multiple", "simplify_for_in_place twice", "simplify_for_multiple_in_place",
    "bind_n", "bind3", "bind_n_runtime", "clone, eval", "simplify_for_in_place, kept", "simplify_for_multiple_in_place, kept", "eval and eval_unchecked, kept"];

pub fn c19(run: &mut Run) {
    alloc::ON.store(true, Ordering::Relaxed);
    let mut r = Rng::new(run.seed, 119);
    let fixed = ["f(x)", "f(1)", "f(1)+f(2)", "f(x)+f(1)*g(2,x)", "g(f(1),f(x))", "h(f(1),x,f(2),f(y),g(1,2))", "h(x,y,z,f(x))", "k()", "k()+x", "x*k()", "-f(1)", "f(1)!", "f(f(f(x)))",
        "f(x)^f(1)", "(x+y)*f(2)", "h()", "h(1,2,3)", "sin(f(1))+cos(f(x))", "max(f(1),f(2),x)", "0*f(1)", "f(1)-f(1)", "c f(c)", "f(x)/(1+f(1))", "h(h(h(1),h(x)),h(2))", "f(1)+f(1)+f(1)+f(1)", "f(0x)", "-(-(f(-x)))", "f(1", "f(1)+", "g(f(1))", "h(f(1),f(2)", "f(1) é"];
    for s in fixed {
        for how in 0..ACTS {
            run.case(format!("{} {s:?}", WHAT[how]), || whole(s, how));
        }
    }
    for _ in 0..400 * run.scale {
        let g = ExprGen { vars: &["x", "y", "z", "c"], funs: vec![("f", Some(1)), ("g", Some(2)), ("h", None), ("k", Some(0)), ("f", Some(1)), ("h", None), ("sin", Some(1))], sloppy: false, closed: false, small: true };
        let d = 1 + r.below(3);
        let s: &'static str = Box::leak(g.expr(&mut r, d).into_boxed_str());
        let how = r.below(ACTS as u64 as _) as usize;
        run.case(format!("{} {s:?}", WHAT[how]), || whole(s, how));
    }
}
