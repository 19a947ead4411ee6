== block mod ubig
/// digits compared as numbers without leading zeros
pub open spec fn dcmp<T: Ord>(a: Seq<T>, b: Seq<T>) -> Ordering { if a.len() < b.len() { Ordering::Less } else if a.len() > b.len() { Ordering::Greater } else { rlex(a, b, a.len() as int) } }
impl<T: Eq + Ord> PartialOrdSpecImpl for UBig<T> { open spec fn obeys_partial_cmp_spec() -> bool { T::obeys_cmp_spec() } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(dcmp(self.digits@, o.digits@)) } }
impl<T: Eq + Ord> OrdSpecImpl for UBig<T> { open spec fn obeys_cmp_spec() -> bool { T::obeys_cmp_spec() } open spec fn cmp_spec(&self, o: &Self) -> Ordering { dcmp(self.digits@, o.digits@) } }
/// (proved in every run: the verifier prunes the specification of the order where nothing mentions it)
/// for canonical numbers the comparison operators (whose contracts speak of eq_spec, cmp_spec, partial_cmp_spec) decide as the values do
 pub proof fn order_by_value<T: Digit>(a: UBig<T>, b: UBig<T>)
    requires a.nwf(), b.nwf()
    ensures <UBig<T> as PartialEqSpec>::obeys_eq_spec(), <UBig<T> as OrdSpec>::obeys_cmp_spec(), <UBig<T> as PartialOrdSpec>::obeys_partial_cmp_spec(),
        PartialEqSpec::eq_spec(&a, &b) == (a.nv() == b.nv()), OrdSpec::cmp_spec(&a, &b) == cmpn(a.nv() as int, b.nv() as int), PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(cmpn(a.nv() as int, b.nv() as int)),
        a.nv() == b.nv() ==> a.digits@.len() == b.digits@.len()
{
    ax_dcmp::<T>();
    let (x, y) = (a.digits@, b.digits@);
    if x.len() < y.len() { len_lt(x, y); }
    else if x.len() > y.len() { len_lt(y, x); }
    else {
        rlex_val(x, y, x.len() as int);
        if PartialEqSpec::eq_spec(&a, &b) { rlex_eq(x, y, x.len() as int); }
        if rlex(x, y, x.len() as int) == Ordering::Equal { rlex_eq2(x, y, x.len() as int); }
    }
}
proof fn rlex_eq<T: Digit>(x: Seq<T>, y: Seq<T>, n: int)
    requires 0 <= n <= x.len(), n <= y.len(), forall|i: int| 0 <= i < n ==> (#[trigger] x[i]).eq_spec(&y[i])
    ensures rlex(x, y, n) == Ordering::Equal decreases n
{ ax_dcmp::<T>(); if n > 0 { rlex_eq(x, y, n - 1); assert(x[n - 1].eq_spec(&y[n - 1])); } }
proof fn rlex_eq2<T: Digit>(x: Seq<T>, y: Seq<T>, n: int)
    requires 0 <= n <= x.len(), n <= y.len(), rlex(x, y, n) == Ordering::Equal
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] x[i]).eq_spec(&y[i]) decreases n
{ ax_dcmp::<T>(); if n > 0 { rlex_eq2(x, y, n - 1); } }
== end
== fn ubig::<UBig<T> as PartialOrd>::partial_cmp
== fn ubig::<UBig<T> as Ord>::cmp
== end
