// C18: Extrema
//@include _base.vx
use vstd::std_specs::cmp::{PartialOrdSpec, PartialOrdSpecImpl};
use std::cmp::Ordering;
fn main() {}
verus! {
pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
} // verus!
//@include _extrema.vx
verus! {
pub open spec fn starts<T, S>(v: Seq<(T, T, S)>) -> Seq<(T, S)> { v.map_values(|e: (T, T, S)| (e.0, e.2)) }
pub open spec fn ends<T, S>(v: Seq<(T, T, S)>) -> Seq<(T, S)> { v.map_values(|e: (T, T, S)| (e.1, e.2)) }
/// any sequence of insertions (start, end, source) into a new table
pub fn vx_history<T: Copy + Ord, S: Clone>(limit: usize, v: &Vec<(T, T, S)>) -> (r: Extrema<T, S>)
    requires ordered::<T>(), limit > 0, v@.len() < usize::MAX,
    ensures
        table(true, limit as nat, r.smallest@, starts(v@)), //# C18
        table(false, limit as nat, r.largest@, ends(v@)), //# C18
{
    let mut x = Extrema::new(limit);
    let mut i = 0;
    proof { assert(starts(v@).take(0) =~= Seq::<(T, S)>::empty()); assert(ends(v@).take(0) =~= Seq::<(T, S)>::empty()); }
    while i < v.len()
        invariant
            0 <= i <= v@.len(), v@.len() < usize::MAX, ordered::<T>(), limit > 0, x.limit == limit,
            table(true, limit as nat, x.smallest@, starts(v@).take(i as int)), //# C18
            table(false, limit as nat, x.largest@, ends(v@).take(i as int)), //# C18
        decreases v@.len() - i
    {
        let ghost hs = starts(v@).take(i as int);
        let ghost hl = ends(v@).take(i as int);
        x.add_range(vx_range(v[i].0, v[i].1), &v[i].2, Ghost(hs), Ghost(hl));
        proof {
            assert(starts(v@).take(i + 1) =~= hs.push((v@[i as int].0, v@[i as int].2)));
            assert(ends(v@).take(i + 1) =~= hl.push((v@[i as int].1, v@[i as int].2)));
        }
        i += 1;
    }
    proof { assert(starts(v@).take(i as int) =~= starts(v@)); assert(ends(v@).take(i as int) =~= ends(v@)); }
    x
}
} // verus!
