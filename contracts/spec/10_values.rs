// ===== values: f64 with every NaN counted as one value =====
// V is the set of those values; the arithmetic stays abstract except for the
// facts stated as axioms here, which contracts/kani checks on all f64 where it can.
pub struct V { pub code: int }
pub uninterp spec fn fv(x: f64) -> V;
pub open spec fn fvs(s: Seq<f64>) -> Seq<V> { s.map_values(|x: f64| fv(x)) }
pub uninterp spec fn is_nan(a: V) -> bool;
pub uninterp spec fn isz(a: V) -> bool;       // 0 or -0
pub uninterp spec fn neg_sign(a: V) -> bool;  // sign bit (NaN: unspecified)
pub uninterp spec fn ltz(a: V) -> bool;       // a < 0
pub uninterp spec fn finite(a: V) -> bool;
pub uninterp spec fn V0() -> V;   // 0.0
pub uninterp spec fn V1() -> V;   // 1.0
pub uninterp spec fn VNAN() -> V;
pub uninterp spec fn VINF() -> V;
pub uninterp spec fn VNINF() -> V;
pub uninterp spec fn VPI() -> V;
pub uninterp spec fn VE() -> V;
pub uninterp spec fn VSUM0() -> V;  // what an empty sum gives: 0 or -0
pub uninterp spec fn vlen(n: int) -> V;
pub uninterp spec fn vadd(a: V, b: V) -> V;
pub uninterp spec fn vsub(a: V, b: V) -> V;
pub uninterp spec fn vmul(a: V, b: V) -> V;
pub uninterp spec fn vdiv(a: V, b: V) -> V;
pub uninterp spec fn vrem(a: V, b: V) -> V;
pub uninterp spec fn vpow(a: V, b: V) -> V;
pub uninterp spec fn vneg(a: V) -> V;
pub uninterp spec fn vfact(a: V) -> V;
pub uninterp spec fn vmin(a: V, b: V) -> V;
pub uninterp spec fn vmax(a: V, b: V) -> V;
/// equal as numbers: the same value, or both zeros
pub open spec fn zeq(a: V, b: V) -> bool { a == b || (isz(a) && isz(b)) }
/// `==` on f64
pub open spec fn feq(a: V, b: V) -> bool { !is_nan(a) && zeq(a, b) }
pub open spec fn zeqs(a: Seq<V>, b: Seq<V>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> zeq(#[trigger] a[i], b[i])
}
pub open spec fn vfold(f: spec_fn(V, V) -> V, z: V, s: Seq<V>) -> V decreases s.len() {
    if s.len() == 0 { z } else { f(vfold(f, z, s.drop_last()), s.last()) }
}

pub mod ax_native {
    use super::*;
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    use vstd::float::FloatBitsProperties;
    // Verus's specification of the native f64 operators is relational; IEEE 754
    // makes each a function of its operands once NaNs are identified.
    pub broadcast axiom fn add_r(a: f64, b: f64) ensures #[trigger] a.add_req(b);
    pub broadcast axiom fn sub_r(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
    pub broadcast axiom fn mul_r(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
    pub broadcast axiom fn div_r(a: f64, b: f64) ensures #[trigger] a.div_req(b);
    pub broadcast axiom fn add_e(a: f64, b: f64, o: f64) requires #[trigger] add_ensures(a, b, o) ensures fv(o) == vadd(fv(a), fv(b));
    pub broadcast axiom fn sub_e(a: f64, b: f64, o: f64) requires #[trigger] sub_ensures(a, b, o) ensures fv(o) == vsub(fv(a), fv(b));
    pub broadcast axiom fn mul_e(a: f64, b: f64, o: f64) requires #[trigger] mul_ensures(a, b, o) ensures fv(o) == vmul(fv(a), fv(b));
    pub broadcast axiom fn div_e(a: f64, b: f64, o: f64) requires #[trigger] div_ensures(a, b, o) ensures fv(o) == vdiv(fv(a), fv(b));
    // the two literals the simplifier uses
    pub broadcast axiom fn lit(a: f64) ensures
        a == 0.0f64 ==> #[trigger] fv(a) == V0(),
        a == 1.0f64 ==> fv(a) == V1();
    pub broadcast group native { add_r, sub_r, mul_r, div_r, add_e, sub_e, mul_e, div_e, lit }
}

pub mod ax_ieee {
    use super::*;
    pub broadcast axiom fn consts() ensures
        #[trigger] isz(V0()), !is_nan(V0()), !isz(V1()), !is_nan(V1()), is_nan(VNAN()), !ltz(V0()), !ltz(V1()), V0() != V1();
    pub broadcast axiom fn sum0() ensures isz(#[trigger] VSUM0());
    pub broadcast axiom fn zero_facts(a: V) ensures #[trigger] isz(a) ==> !is_nan(a) && !ltz(a);
    pub broadcast axiom fn nan_one(a: V) ensures #[trigger] is_nan(a) ==> a == VNAN();
    // operations do not tell 0 from -0, the stated cases apart
    pub broadcast axiom fn add_z(a: V, b: V, c: V, d: V) requires zeq(a, c), zeq(b, d) ensures zeq(#[trigger] vadd(a, b), #[trigger] vadd(c, d));
    pub broadcast axiom fn sub_z(a: V, b: V, c: V, d: V) requires zeq(a, c), zeq(b, d) ensures zeq(#[trigger] vsub(a, b), #[trigger] vsub(c, d));
    pub broadcast axiom fn mul_z(a: V, b: V, c: V, d: V) requires zeq(a, c), zeq(b, d) ensures zeq(#[trigger] vmul(a, b), #[trigger] vmul(c, d));
    pub broadcast axiom fn div_z(a: V, b: V, c: V, d: V) requires zeq(a, c), zeq(b, d), !isz(b) ensures zeq(#[trigger] vdiv(a, b), #[trigger] vdiv(c, d));
    pub broadcast proof fn rem_z(a: V, b: V, c: V, d: V) requires zeq(a, c), zeq(b, d) ensures zeq(#[trigger] vrem(a, b), #[trigger] vrem(c, d)) {
        broadcast use {zero_facts, nan_one, rem_nan, rem_by_0, rem_0};
        if isz(b) {} else if a != c { if is_nan(b) {} else { assert(isz(vrem(a, b)) && isz(vrem(c, d))); } }
    }
    pub broadcast axiom fn pow_z(a: V, b: V, c: V, d: V) requires zeq(a, c), zeq(b, d), !(isz(a) && ltz(b)) ensures zeq(#[trigger] vpow(a, b), #[trigger] vpow(c, d));
    pub broadcast axiom fn neg_z(a: V, c: V) requires zeq(a, c) ensures zeq(#[trigger] vneg(a), #[trigger] vneg(c));
    pub broadcast axiom fn fact_z(a: V, c: V) requires zeq(a, c) ensures zeq(#[trigger] vfact(a), #[trigger] vfact(c));
    pub proof fn zz() ensures forall|a: V| #[trigger] isz(a) ==> !is_nan(a) && !ltz(a) { broadcast use zero_facts; }
    // commutativity
    pub broadcast axiom fn add_c(a: V, b: V) ensures #[trigger] vadd(a, b) == vadd(b, a);
    pub broadcast axiom fn mul_c(a: V, b: V) ensures #[trigger] vmul(a, b) == vmul(b, a);
    pub broadcast group zcong { consts, sum0, zero_facts, nan_one, add_z, sub_z, mul_z, div_z, rem_z, pow_z, neg_z, fact_z }
    // the algebra behind the rewrite rules
    pub broadcast axiom fn add_0(a: V, z: V) requires isz(z) ensures zeq(#[trigger] vadd(z, a), a);
    pub broadcast axiom fn add_0r(a: V, z: V) requires isz(z) ensures zeq(#[trigger] vadd(a, z), a);
    pub broadcast axiom fn sub_0(a: V, z: V) requires isz(z) ensures zeq(#[trigger] vsub(a, z), a);
    pub broadcast axiom fn sub_0l(a: V, z: V) requires isz(z) ensures zeq(#[trigger] vsub(z, a), vneg(a));
    pub broadcast axiom fn add_neg(a: V, b: V) requires zeq(a, b), !is_nan(vadd(vneg(a), b)) ensures isz(#[trigger] vadd(vneg(a), b));
    pub broadcast axiom fn add_neg2(a: V, b: V) requires zeq(a, b), !is_nan(vadd(b, vneg(a))) ensures isz(#[trigger] vadd(b, vneg(a)));
    pub broadcast axiom fn sub_same(a: V, b: V) requires zeq(a, b), !is_nan(vsub(a, b)) ensures isz(#[trigger] vsub(a, b));
    pub broadcast axiom fn sub_neg(a: V, b: V) ensures #[trigger] vsub(a, vneg(b)) == vadd(a, b);
    pub broadcast axiom fn mul_0(a: V, z: V) requires isz(z), !is_nan(vmul(z, a)) ensures isz(#[trigger] vmul(z, a));
    pub broadcast axiom fn mul_0r(a: V, z: V) requires isz(z), !is_nan(vmul(a, z)) ensures isz(#[trigger] vmul(a, z));
    pub broadcast axiom fn mul_1(a: V) ensures #[trigger] vmul(V1(), a) == a;
    pub broadcast axiom fn mul_1r(a: V) ensures #[trigger] vmul(a, V1()) == a;
    pub broadcast axiom fn mul_neg(a: V, b: V) ensures #[trigger] vmul(vneg(a), vneg(b)) == vmul(a, b);
    pub broadcast axiom fn div_0(a: V, z: V) requires isz(z), !isz(a), !is_nan(vdiv(z, a)) ensures isz(#[trigger] vdiv(z, a));
    pub broadcast axiom fn div_1(a: V) ensures #[trigger] vdiv(a, V1()) == a;
    pub broadcast axiom fn div_same(a: V, b: V) requires zeq(a, b), !isz(b), !is_nan(vdiv(a, b)) ensures #[trigger] vdiv(a, b) == V1();
    pub broadcast axiom fn div_neg(a: V, b: V) ensures #[trigger] vdiv(vneg(a), vneg(b)) == vdiv(a, b);
    pub broadcast axiom fn neg_zero(a: V) ensures isz(#[trigger] vneg(a)) == isz(a), is_nan(vneg(a)) == is_nan(a);
    pub broadcast axiom fn pow_0(a: V, z: V) requires isz(z) ensures #[trigger] vpow(a, z) == V1();
    pub broadcast axiom fn pow_1(a: V) ensures #[trigger] vpow(a, V1()) == a;
    pub broadcast axiom fn rem_0(a: V, z: V) requires isz(z), !isz(a), !is_nan(a) ensures isz(#[trigger] vrem(z, a));
    pub broadcast axiom fn rem_nan(a: V, b: V) requires is_nan(a) || is_nan(b) ensures is_nan(#[trigger] vrem(a, b));
    pub broadcast axiom fn rem_by_0(a: V, z: V) requires isz(z) ensures is_nan(#[trigger] vrem(a, z));
    pub broadcast axiom fn rem_same(a: V, b: V) requires zeq(a, b), !is_nan(vrem(a, b)) ensures isz(#[trigger] vrem(a, b));
    pub broadcast axiom fn finite_ax(a: V) ensures #[trigger] finite(a) ==> !is_nan(a);
    pub axiom fn neg_parts(v: V) requires finite(v), neg_sign(v) ensures finite(vneg(v)), !neg_sign(vneg(v)), vneg(vneg(v)) == v;
    pub broadcast group algebra { add_0, add_0r, sub_0, sub_0l, add_neg, add_neg2, sub_same, sub_neg, mul_0, mul_0r, mul_1, mul_1r, mul_neg, div_0, div_1, div_same, div_neg,
        neg_zero, pow_0, pow_1, rem_0, rem_nan, rem_by_0, rem_same }
}
