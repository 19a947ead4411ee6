"""Per property: the functions its proof starts from, and the functions whose failing obligations speak about it."""
import os, re

def op(*ns): return ['ubig::ops::*as %s*' % n for n in ns]
CANON = ['ubig::*drop_leading_zeros', 'ubig::support::*', 'ubig::<UBig<T>>::new']

OPS = ['Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl', 'Shr', 'Pow']
OFFS = ['ubig::*add_assign_big_at_offset']

PROPS = {
 'C01': dict(title='addition', roots=op('Add'), own=op('Add') + ['ubig::add::*', 'ubig::*add_assign_big_at_offset', 'digit::*add*', 'digit::*inc*']),
 'C02': dict(title='subtraction', roots=op('Sub'), own=op('Sub') + ['ubig::sub::*', 'ubig::rsub::*', 'ubig::*sub_assign_big_at_offset', 'digit::*sub*', 'digit::*dec*'] + CANON, mode_b=op('Sub')),
 'C03': dict(title='multiplication', roots=op('Mul'), own=op('Mul') + ['ubig::mul::*', 'ubig::<UBig<T>>::mul*', 'digit::*mul*', 'digit::*prod*', 'digit::*double*'] + CANON),
 'C04': dict(title='square and power', elsewhere=['ubig::div::*'] + op('Div', 'Rem'), roots=op('Pow') + ['ubig::<UBig<T>>::square'], own=op('Pow') + ['ubig::<UBig<T>>::square', 'ubig::mul::*', 'digit::*prod*', 'digit::*double*'] + CANON),
 'C05': dict(title='division', roots=op('Div', 'Rem') + ['ubig::<UBig<T>>::div*', 'ubig::<UBig<T>>::rem*'], own=op('Div', 'Rem') + ['ubig::div::*', 'ubig::<UBig<T>>::div*', 'ubig::<UBig<T>>::rem*', 'digit::*div*', 'digit::*rem*'] + CANON),
 'C06': dict(title='division by zero', roots=op('Div', 'Rem') + ['ubig::<UBig<T>>::div*', 'ubig::<UBig<T>>::rem*'], own=op('Div', 'Rem') + ['ubig::div::*', 'ubig::<UBig<T>>::div*', 'ubig::<UBig<T>>::rem*'],
             elsewhere=['ubig::mul::*', 'ubig::div::bz::*', 'ubig::div::long::*'], mode_b=op('Div', 'Rem')),
 'C07': dict(title='left shift', elsewhere=['ubig::div::*', 'ubig::mul::*'] + op('Div', 'Rem'), roots=op('Shl'), own=op('Shl') + ['ubig::shl::*', 'digit::*shl*'] + CANON),
 'C08': dict(title='right shift', roots=op('Shr'), elsewhere=['ubig::mul::toom3::*', 'ubig::mul::karatsuba::*', 'ubig::div::bz::*'] + op('Mul', 'Div', 'Rem') + ['ubig::<UBig<T>>::square'], own=op('Shr') + ['ubig::shr::*', 'digit::*shr*'] + CANON),
 'C14': dict(title='construction', roots=['ubig::<UBig<T>>::new', 'ubig::*as From*', 'ubig::*as Zero*', 'ubig::*as One*', 'ubig::<UBig<T>>::digits', 'ubig::<UBig<T>>::nr_digits', 'digit::*::split', 'digit::*::fits_single'],
             elsewhere=op('Mul', 'Div', 'Rem') + ['ubig::<UBig<T>>::square', 'ubig::mul::*', 'ubig::div::*'], own=['ubig::<UBig<T>>::new', 'ubig::*as From*', 'ubig::*as Zero*', 'ubig::*as One*', 'digit::*::split', 'digit::*::fits_single'] + CANON),
 'C09': dict(title='comparison', roots=['ubig::<UBig<T> as *Ord>::*', 'ubig::<UBig<T> as *Eq>::*', 'ubig::cmp::*', 'ubig::*as Zero*'], own=['ubig::<UBig<T> as *Ord>::*', 'ubig::<UBig<T> as *Eq>::*', 'ubig::cmp::*', 'ubig::*as Zero>::is_zero', 'digit::*Ord>*', 'digit::*Eq>*']),
 'C10': dict(title='canonical form', roots=['ubig::*'], own=['ubig::ops::*', 'ubig::<*'], clause=r'nwf\(|dnorm|dok', kinds=['post']),
 'C11': dict(title='parsing', roots=['ubig::is_number', 'ubig::*FromStr*'], own=['ubig::is_number', 'ubig::*FromStr*', 'digit::*_str', 'digit::*PLACES'], elsewhere=op(*OPS) + ['ubig::div::*', 'ubig::add::*', 'ubig::mul::*::*', 'ubig::mul::*into*', 'ubig::mul::*work*', 'ubig::mul::mul_pair*', 'ubig::mul::double*', 'ubig::cmp::*', 'ubig::sh*::*', 'ubig::sub::*', 'ubig::rsub::*',
             'ubig::<UBig<T>>::square', 'ubig::<UBig<T>>::mul_pair*', 'digit::<*u*as Digit>::*rem*', 'digit::<*u*as Digit>::*div*', 'digit::<*u*as Digit>::*sub*', 'digit::<*u*as Digit>::*prod*', 'digit::<*u*as Digit>::*sh*_*']),
 'C12': dict(title='formatting', roots=['ubig::*LowerHex*', 'ubig::*UpperHex*', 'ubig::*Display*'], own=['ubig::*LowerHex*', 'ubig::*UpperHex*', 'ubig::*Display*', 'ubig::*to_decimal', 'digit::*PLACES'],
     elsewhere=['ubig::*build_decimal', 'ubig::div::*', 'ubig::mul::*', 'ubig::add::*', 'digit::*u*as Digit*'] + OFFS),
 'C13': dict(title='binary to decimal', roots=['ubig::*to_decimal', 'ubig::*build_decimal'], own=['ubig::*to_decimal', 'ubig::*build_decimal'] + OFFS, elsewhere=['ubig::div::bz::*', 'ubig::div::long::*', 'ubig::mul::*', 'digit::*u*as Digit*']),
 'C15': dict(title='operator forms', roots=op(*OPS), own=['ubig::ops::* as %s<*' % o for o in OPS] + ['ubig::ops::* as %sAssign<UBig<T>>>::*' % o for o in OPS] + ['ubig::ops::<&UBig<T> as Pow<*'], kinds=['post', 'pre'], elsewhere=['ubig::div::*', 'ubig::mul::*', 'digit::*u*as Digit*']),
 'C17': dict(title='no panic, overflow or hang', roots=['ubig::*', 'digit::*'], own=['ubig::*', 'digit::*'], kinds=['overflow', 'pre', 'decreases']),
 'C16': dict(title='digit arithmetic', roots=['digit::*'], own=['digit::*']),
}
# contracts that callers rely on while the body is only run (bounded stand-in), not proved
ASSUMED = []
# mutually recursive functions: verified together, so that termination is checked
GROUPS = [['ubig::mul::mul_big_into_with_work', 'ubig::mul::square_into_with_work', 'ubig::mul::karatsuba::mul_big_karatsuba_into', 'ubig::mul::karatsuba::square_karatsuba_into',
           'ubig::mul::toom3::mul_big_toom3_into', 'ubig::mul::toom3::square_toom3_into'],
          ['ubig::div::div_big_with_work', 'ubig::div::bz::div_big_bz', 'ubig::div::bz::div_big_bz_2n_n', 'ubig::div::bz::div_big_bz_3n_2n']]
# solver time in ms of the expensive functions (for balancing)
HEAVY = {'ubig::mul::toom3::mul_big_toom3_into': 26000, 'ubig::mul::toom3::square_toom3_into': 9000, 'ubig::mul::toom3::mul_big_toom3_into__r123': 10000, 'ubig::mul::toom3::square_toom3_into__r123': 14000,
         'ubig::mul::karatsuba::mul_big_karatsuba_into': 30000, 'ubig::mul::karatsuba::square_karatsuba_into': 8000,
         'ubig::div::div_assign_digit_pair': 26000, 'ubig::div::long::div_big_long_scaled': 14000, 'ubig::div::bz::div_big_bz': 14000, 'ubig::div::bz::div_big_bz_3n_2n': 6000}
NOT_YET = {p: 'not built yet' for p in []}

ASSUMPTIONS = [
 'the Verus verifier, z3 and rustc are sound',
 'the extraction (macro expansion, desugaring of iterators, closures and operators; listed in DESIGN.md) preserves meaning',
 'usize is 64 bits wide; lengths stay below 2^55 digits',
 'the standard library operations named in spec/01_shim.rs behave as their contracts say',
]

def trusted_base(v):
    """every assumption marker in the committed contracts, found mechanically"""
    out = []
    d = os.path.join(v, 'spec')
    for f in sorted(os.listdir(d)):
        if not f.endswith(('.rs', '.vs')): continue
        lines = open(os.path.join(d, f)).read().split('\n')
        for i, l in enumerate(lines):
            if re.search(r'external_body|assume_specification|\badmit\(|\bassume\(|axiom fn|external_type|external_trait|-- external', l):
                t = l.strip() if 'external_body' not in l or 'fn' in l else l.strip() + ' ' + (lines[i + 1].strip() if i + 1 < len(lines) else '')
                out.append('%s:%d %s' % (f, i + 1, t[:160]))
    return out
