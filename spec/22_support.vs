== block mod ubig::support
use crate::lem::*;
== fn ubig::support::drop_leading_zeros
-- spec
requires len <= nr@.len(), dok(nr@.subrange(0, len as int))
ensures r <= len, r > 0 ==> nr@[r - 1].nv() != 0, forall|i: int| r <= i < len ==> (#[trigger] nr@[i]).nv() == 0
-- body start
proof { assert forall|i: int| 0 <= i < len implies (#[trigger] nr@[i]).nwf() by { assert(nr@.subrange(0, len as int)[i] == nr@[i]); } }
-- loop 0
invariant n <= len, forall|i: int| n <= i < len ==> (#[trigger] nr@[i]).nv() == 0
decreases n
== end
