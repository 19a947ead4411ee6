== block mod ubig
impl<T: PartialEq> PartialEqSpecImpl for UBig<T> { open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() } open spec fn eq_spec(&self, o: &Self) -> bool { self.digits@.len() == o.digits@.len() && forall|i: int| 0 <= i < self.digits@.len() ==> (#[trigger] self.digits@[i]).eq_spec(&o.digits@[i]) } }
impl<T: Digit> NumVal for UBig<T> {
    open spec fn nv(&self) -> nat { vl(self.digits@) }
    open spec fn nwf(&self) -> bool { dok(self.digits@) && dnorm(self.digits@) }
    open spec fn nbase() -> nat { 0 }
    open spec fn ndec() -> nat { 2 }
    open spec fn nbits() -> nat { 0 }
    open spec fn is_prim() -> bool { false }
    open spec fn st_prim() -> bool { false }
    open spec fn is_bin() -> bool { false }
    proof fn ax_prim() { }
}
== end
== block ubig::ops::<UBig<T> as Pow<usize>>
open spec fn pow_req(self, e: usize) -> bool { self.nwf() }
open spec fn pow_ens(self, e: usize, r: UBig<T>) -> bool { r.nwf() && r.nv() == vstd::arithmetic::power::pow(self.nv() as int, e as nat) }
== block ubig::ops::<&UBig<T> as Pow<usize>>
open spec fn pow_req(self, e: usize) -> bool { self.nwf() }
open spec fn pow_ens(self, e: usize, r: UBig<T>) -> bool { r.nwf() && r.nv() == vstd::arithmetic::power::pow(self.nv() as int, e as nat) }
== end
