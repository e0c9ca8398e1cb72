//@include lib/prelude.vrs
use core::ops::*; use vstd::std_specs::ops::*; use vstd::std_specs::cmp::*; use vstd::std_specs::convert::*; use vstd::std_specs::iter::*; use vstd::arithmetic::power::pow;
//@include lib/biguint.vrs
//@include lib/field.vrs contracts field
//@include lib/sharing.vrs
