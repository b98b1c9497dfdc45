/// 0! = 1 and n! = n (n-1)!, one rounding per step, up to 170.
const FACT: [f64; 171] = {
    let mut t = [1.0; 171];
    let mut i = 1;
    while i <= 170 {
        t[i] = (i as f64) * t[i - 1];
        i += 1;
    }
    t
};

/// what the contract says of x! = r
fn is_factorial(x: f64, r: f64) -> bool {
    if x.is_nan() || x < 0.0 || (x != f64::INFINITY && x.trunc() != x) {
        r.is_nan()
    } else if x > 170.0 {
        r == f64::INFINITY
    } else {
        r.to_bits() == FACT[x as usize].to_bits()
    }
}

#[kani::ensures(|r| is_factorial(x, *r))]
fn factorial(x: f64) -> f64 {
    crate::utils::factorial::factorial(x)
}

// every f64; the conversion to an index and the indexing are checked on the way
#[kani::proof_for_contract(factorial)]
fn factorial_meets_its_contract() {
    factorial(kani::any());
}

// 0 and -0 have the same factorial (axiom fact_z of spec/10_values.rs)
#[kani::proof]
fn factorial_of_both_zeros() {
    assert!(factorial(0.0).to_bits() == factorial(-0.0).to_bits());
}

// the recurrence, on the numbers the table gives
#[kani::proof]
#[kani::unwind(172)]
fn factorial_recurrence() {
    assert!(factorial(0.0) == 1.0);
    let mut n = 1;
    while n <= 170 {
        assert!(factorial(n as f64) == (n as f64) * factorial((n - 1) as f64));
        n += 1;
    }
}

// an empty sum is a zero (axiom sum0 of spec/10_values.rs)
#[kani::proof]
#[kani::unwind(3)]
fn empty_sum_is_zero() {
    let v: [f64; 0] = [];
    assert!(v.iter().sum::<f64>() == 0.0);
}

// must fail: the contract is not vacuous
#[kani::proof]
fn canary_factorial() {
    let x: f64 = kani::any();
    let r = factorial(x);
    assert!(r.is_nan() || r == f64::INFINITY || r < 100.0);
}
