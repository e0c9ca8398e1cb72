//@include lib/head_sharing.vrs
//@include lib/protocol.vrs
//@include lib/mult.vrs contracts mult
//@alias SEL = jester_sharing/src/conditional_selection/joint_conditional_selection.rs
pub proof fn choose_fact(c: int, x: int, y: int) requires p() > 1 ensures md(md(c * md(x - y)) + y) == md(c * (x - y) + y)
{ cong_mod(x - y); cong_mul(c, c, md(x - y), x - y); cong_mod(c * md(x - y)); cong_add(md(c * md(x - y)), c * (x - y), y, y); }
//@fn SEL ConditionalSelectionScheme for JointConditionalSelection::joint_conditional_selection | async chain vis=pub nogenerics nowhere
//@sub P => Pr
//@sub P:: => Pr::
//@sub S => Sh
//@sub T => F
//@spec
    ensures condition.sec() == 1 ==> r.sec() == lhs.sec(), condition.sec() == 0 ==> r.sec() == rhs.sec(), exists|x: int, y: int| one_mult(*old(protocol), *final(protocol), x, y)
//@at entry
    proof { let (c, x, y) = (condition.sec(), lhs.sec(), rhs.sec()); p_prime(); choose_fact(c, x, y); sec_range(*lhs); sec_range(*rhs); sec_range(*condition); small_mods(); assert(md(x - y) * c == c * md(x - y)) by(nonlinear_arith); assert(y + md(c * md(x - y)) == md(c * md(x - y)) + y); assert(0 * (x - y) + y == y && 1 * (x - y) + y == x); }
//@endfn
} fn main() {}
