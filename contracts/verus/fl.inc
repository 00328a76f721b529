pub mod fl { use vstd::prelude::*; use vstd::std_specs::ops::*; use vstd::std_specs::cmp::*; verus! {
// Floating point: + - * / and the comparisons are the functions of IEEE 754, of which nothing more is assumed here
pub broadcast axiom fn mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn sub_req(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn mul_is(a: f64, b: f64) ensures #[trigger] a.mul_spec(b) == a.ieee_mul(b);
pub broadcast axiom fn add_is(a: f64, b: f64) ensures #[trigger] a.add_spec(b) == a.ieee_add(b);
pub broadcast axiom fn sub_is(a: f64, b: f64) ensures #[trigger] a.sub_spec(b) == a.ieee_sub(b);
pub broadcast axiom fn div_is(a: f64, b: f64) ensures #[trigger] a.div_spec(b) == a.ieee_div(b);
pub broadcast axiom fn mul_det() ensures #[trigger] <f64 as MulSpec>::obeys_mul_spec();
pub broadcast axiom fn add_det() ensures #[trigger] <f64 as AddSpec>::obeys_add_spec();
pub broadcast axiom fn sub_det() ensures #[trigger] <f64 as SubSpec>::obeys_sub_spec();
pub broadcast axiom fn div_det() ensures #[trigger] <f64 as DivSpec>::obeys_div_spec();
pub broadcast axiom fn ord_det() ensures #[trigger] <f64 as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn ord_is(a: f64, b: f64) ensures (#[trigger] a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Greater)) == a.ieee_gt(b), (a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less)) == a.ieee_lt(b), (a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal)) == a.ieee_eq(b);
pub broadcast group ieee { mul_req, add_req, sub_req, div_req, mul_is, add_is, sub_is, div_is, mul_det, add_det, sub_det, div_det, ord_det, ord_is }
// tells the verifier that x (a field) is a number
pub fn num(x: f64) -> (r: f64) ensures r == x { x }
} }
