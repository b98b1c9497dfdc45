#if NIGHTLY
#![feature(float_gamma)]
#endif
#![cfg_attr(any(), feature())]
#![allow(unused_imports, dead_code, unused_variables, unused_parens, unused_braces, unused_mut, non_snake_case, non_camel_case_types, unused_unsafe, unreachable_code, unreachable_patterns)]
use vstd::prelude::*;
verus! {
