== block mod ubig::ops
use crate::lem::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
== each s=UBig<T> r=T p=digit ; s=UBig<BinaryDigit<T>> r=T p=digit ; s=UBig<DecimalDigit<T>> r=T p=n ; s=UBig<T> r=UBig<T> p=other ; s=UBig<T> r=&UBig<T> p=other
== fn ubig::ops::<%s% as AddAssign<%r%>>::add_assign
-- req
self.nwf() && rhs.nwf()
-- spec
ensures final(self).nwf(), final(self).nv() == old(self).nv() + %p%.nv()
== endeach
== each s=UBig<T> r=T p=digit ; s=&UBig<T> r=T p=digit ; s=UBig<BinaryDigit<T>> r=T p=digit ; s=&UBig<BinaryDigit<T>> r=T p=digit ; s=UBig<DecimalDigit<T>> r=T p=digit ; s=&UBig<DecimalDigit<T>> r=T p=digit ; s=UBig<T> r=UBig<T> p=other ; s=UBig<T> r=&UBig<T> p=other ; s=&UBig<T> r=UBig<T> p=other ; s=&UBig<T> r=&UBig<T> p=other
== fn ubig::ops::<%s% as Add<%r%>>::add
-- req
self.nwf() && rhs.nwf()
-- spec
ensures r.nwf(), r.nv() == self.nv() + %p%.nv()
== endeach
== each s=UBig<T> r=T p=digit ; s=UBig<BinaryDigit<T>> r=T p=digit ; s=UBig<DecimalDigit<T>> r=T p=n ; s=UBig<T> r=UBig<T> p=other ; s=UBig<T> r=&UBig<T> p=other
== fn ubig::ops::<%s% as SubAssign<%r%>>::sub_assign
-- req
self.nwf() && rhs.nwf() && rhs.nv() <= self.nv()
-- req @B
self.nwf() && rhs.nwf()
-- spec
ensures final(self).nwf(), final(self).nv() == old(self).nv() - %p%.nv()
-- spec @B
ensures final(self).nwf(), old(self).nv() >= %p%.nv(), final(self).nv() == old(self).nv() - %p%.nv()
== endeach
== each s=UBig<T> r=T p=digit ; s=&UBig<T> r=T p=digit ; s=UBig<BinaryDigit<T>> r=T p=digit ; s=&UBig<BinaryDigit<T>> r=T p=digit ; s=UBig<DecimalDigit<T>> r=T p=digit ; s=&UBig<DecimalDigit<T>> r=T p=digit ; s=UBig<T> r=UBig<T> p=other ; s=UBig<T> r=&UBig<T> p=other ; s=&UBig<T> r=UBig<T> p=other ; s=&UBig<T> r=&UBig<T> p=other
== fn ubig::ops::<%s% as Sub<%r%>>::sub
-- req
self.nwf() && rhs.nwf() && rhs.nv() <= self.nv()
-- req @B
self.nwf() && rhs.nwf()
-- spec
ensures r.nwf(), r.nv() == self.nv() - %p%.nv()
-- spec @B
ensures r.nwf(), self.nv() >= %p%.nv(), r.nv() == self.nv() - %p%.nv()
== endeach
== each s=UBig<T> r=T p=digit ; s=UBig<BinaryDigit<T>> r=T p=digit ; s=UBig<DecimalDigit<T>> r=T p=n ; s=UBig<T> r=UBig<T> p=other ; s=UBig<T> r=&UBig<T> p=other
== fn ubig::ops::<%s% as MulAssign<%r%>>::mul_assign
-- req
self.nwf() && rhs.nwf()
-- spec
ensures final(self).nwf(), final(self).nv() == old(self).nv() * %p%.nv()
== endeach
== each s=UBig<T> r=T p=digit ; s=&UBig<T> r=T p=digit ; s=UBig<BinaryDigit<T>> r=T p=digit ; s=&UBig<BinaryDigit<T>> r=T p=digit ; s=UBig<DecimalDigit<T>> r=T p=digit ; s=&UBig<DecimalDigit<T>> r=T p=digit ; s=UBig<T> r=UBig<T> p=other ; s=UBig<T> r=&UBig<T> p=other ; s=&UBig<T> r=UBig<T> p=other ; s=&UBig<T> r=&UBig<T> p=other
== fn ubig::ops::<%s% as Mul<%r%>>::mul
-- req
self.nwf() && rhs.nwf()
-- spec
ensures r.nwf(), r.nv() == self.nv() * %p%.nv()
== endeach
== each s=UBig<T> r=T p=digit ; s=UBig<BinaryDigit<T>> r=T p=digit ; s=UBig<DecimalDigit<T>> r=T p=n ; s=UBig<T> r=UBig<T> p=other ; s=UBig<T> r=&UBig<T> p=other
== fn ubig::ops::<%s% as DivAssign<%r%>>::div_assign
-- req
self.nwf() && rhs.nwf() && rhs.nv() > 0
-- req @B
self.nwf() && rhs.nwf()
-- spec
ensures final(self).nwf(), final(self).nv() == old(self).nv() / %p%.nv()
-- spec @B
ensures final(self).nwf(), %p%.nv() > 0, final(self).nv() == old(self).nv() / %p%.nv()
== endeach
== each s=UBig<T> r=T p=digit ; s=&UBig<T> r=T p=digit ; s=UBig<BinaryDigit<T>> r=T p=digit ; s=&UBig<BinaryDigit<T>> r=T p=digit ; s=UBig<DecimalDigit<T>> r=T p=digit ; s=&UBig<DecimalDigit<T>> r=T p=n ; s=UBig<T> r=UBig<T> p=other ; s=UBig<T> r=&UBig<T> p=other ; s=&UBig<T> r=UBig<T> p=other ; s=&UBig<T> r=&UBig<T> p=other
== fn ubig::ops::<%s% as Div<%r%>>::div
-- req
self.nwf() && rhs.nwf() && rhs.nv() > 0
-- req @B
self.nwf() && rhs.nwf()
-- spec
ensures r.nwf(), r.nv() == self.nv() / %p%.nv()
-- spec @B
ensures r.nwf(), %p%.nv() > 0, r.nv() == self.nv() / %p%.nv()
== endeach
== each s=UBig<T> r=T p=digit ; s=UBig<BinaryDigit<T>> r=T p=digit ; s=UBig<DecimalDigit<T>> r=T p=n ; s=UBig<T> r=UBig<T> p=other ; s=UBig<T> r=&UBig<T> p=other
== fn ubig::ops::<%s% as RemAssign<%r%>>::rem_assign
-- req
self.nwf() && rhs.nwf() && rhs.nv() > 0
-- req @B
self.nwf() && rhs.nwf()
-- spec
ensures final(self).nwf(), final(self).nv() == old(self).nv() % %p%.nv()
-- spec @B
ensures final(self).nwf(), %p%.nv() > 0, final(self).nv() == old(self).nv() % %p%.nv()
== endeach
== each s=UBig<T> r=T p=digit ; s=&UBig<T> r=T p=digit ; s=UBig<BinaryDigit<T>> r=T p=digit ; s=&UBig<BinaryDigit<T>> r=T p=digit ; s=UBig<DecimalDigit<T>> r=T p=digit ; s=&UBig<DecimalDigit<T>> r=T p=digit ; s=UBig<T> r=UBig<T> p=other ; s=UBig<T> r=&UBig<T> p=other ; s=&UBig<T> r=UBig<T> p=other ; s=&UBig<T> r=&UBig<T> p=other
== fn ubig::ops::<%s% as Rem<%r%>>::rem
-- req
self.nwf() && rhs.nwf() && rhs.nv() > 0
-- req @B
self.nwf() && rhs.nwf()
-- spec
ensures r.nwf(), r.nv() == self.nv() % %p%.nv()
-- spec @B
ensures r.nwf(), %p%.nv() > 0, r.nv() == self.nv() % %p%.nv()
== endeach
== each s=UBig<BinaryDigit<T>> ; s=UBig<DecimalDigit<T>>
== fn ubig::ops::<%s% as ShlAssign<usize>>::shl_assign
-- req
self.nwf()
-- spec
ensures final(self).nwf(), final(self).nv() == old(self).nv() * pow2(n as nat)
== fn ubig::ops::<%s% as Shl<usize>>::shl
-- req
self.nwf()
-- spec
ensures r.nwf(), r.nv() == self.nv() * pow2(n as nat)
== fn ubig::ops::<&%s% as Shl<usize>>::shl
-- req
self.nwf()
-- spec
ensures r.nwf(), r.nv() == self.nv() * pow2(n as nat)
== fn ubig::ops::<%s% as ShrAssign<usize>>::shr_assign
-- req
self.nwf()
-- spec
ensures final(self).nwf(), final(self).nv() == old(self).nv() / pow2(n as nat)
== fn ubig::ops::<%s% as Shr<usize>>::shr
-- req
self.nwf()
-- spec
ensures r.nwf(), r.nv() == self.nv() / pow2(n as nat)
== fn ubig::ops::<&%s% as Shr<usize>>::shr
-- req
self.nwf()
-- spec
ensures r.nwf(), r.nv() == self.nv() / pow2(n as nat)
== endeach
== end
