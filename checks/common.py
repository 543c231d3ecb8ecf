"""Spec helpers shared by the checks: Rust source of the component types' own arithmetic with overflow flags."""
from engine.check import *

# Sp: the component type's arithmetic, written independently of the library.
# Every operation returns the wrapped value and raises *f when the real operation panics (overflow checks on).
SPEC = r'''
pub trait Sp: Copy { fn add_(self,o:Self,f:&mut bool)->Self; fn sub_(self,o:Self,f:&mut bool)->Self; fn mul_(self,o:Self,f:&mut bool)->Self; fn div_(self,o:Self,f:&mut bool)->Self;
  fn neg_(self,f:&mut bool)->Self; fn zero_()->Self; fn one_(f:&mut bool)->Self; fn is0(self)->bool; fn lt0(self)->bool; fn max_()->Self; fn min_()->Self; }
macro_rules! sp_float { ($t:ty) => { impl Sp for $t {
  fn add_(self,o:Self,f:&mut bool)->Self{self+o} fn sub_(self,o:Self,f:&mut bool)->Self{self-o} fn mul_(self,o:Self,f:&mut bool)->Self{self*o} fn div_(self,o:Self,f:&mut bool)->Self{self/o}
  fn neg_(self,f:&mut bool)->Self{-self} fn zero_()->Self{0.0} fn one_(f:&mut bool)->Self{1.0} fn is0(self)->bool{self==0.0} fn lt0(self)->bool{self<0.0} fn max_()->Self{<$t>::MAX} fn min_()->Self{<$t>::MIN} } } }
sp_float!(f32); sp_float!(f64);
macro_rules! sp_int { ($($t:ty)*) => { $(impl Sp for $t {
  fn add_(self,o:Self,f:&mut bool)->Self{let (r,c)=self.overflowing_add(o); *f|=c; r} fn sub_(self,o:Self,f:&mut bool)->Self{let (r,c)=self.overflowing_sub(o); *f|=c; r}
  fn mul_(self,o:Self,f:&mut bool)->Self{let (r,c)=self.overflowing_mul(o); *f|=c; r}
  fn div_(self,o:Self,f:&mut bool)->Self{ if o==0 {*f=true; return 0} let (r,c)=self.overflowing_div(o); *f|=c; r}
  fn neg_(self,f:&mut bool)->Self{let (r,c)=self.overflowing_neg(); *f|=c; r} fn zero_()->Self{0} fn one_(f:&mut bool)->Self{1} fn is0(self)->bool{self==0} fn lt0(self)->bool{self<(0 as $t)} fn max_()->Self{<$t>::MAX} fn min_()->Self{<$t>::MIN} } )* } }
sp_int!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
macro_rules! sp_fix { ($($t:ty)*) => { $(impl Sp for $t {
  fn add_(self,o:Self,f:&mut bool)->Self{let (r,c)=self.overflowing_add(o); *f|=c; r} fn sub_(self,o:Self,f:&mut bool)->Self{let (r,c)=self.overflowing_sub(o); *f|=c; r}
  fn mul_(self,o:Self,f:&mut bool)->Self{let (r,c)=self.overflowing_mul(o); *f|=c; r}
  fn div_(self,o:Self,f:&mut bool)->Self{ if o.to_bits()==0 {*f=true; return <$t>::ZERO} let (r,c)=self.overflowing_div(o); *f|=c; r}
  fn neg_(self,f:&mut bool)->Self{let (r,c)=self.overflowing_neg(); *f|=c; r} fn zero_()->Self{<$t>::from_bits(0)}
  fn one_(f:&mut bool)->Self{ let (r,c)=<$t>::overflowing_from_num(1); *f|=c; r}
  fn is0(self)->bool{self.to_bits()==0} fn lt0(self)->bool{self.to_bits()<0} fn max_()->Self{<$t>::MAX} fn min_()->Self{<$t>::MIN} } )* } }
pub fn add<T:Sp>(a:T,b:T,f:&mut bool)->T{a.add_(b,f)} pub fn sub<T:Sp>(a:T,b:T,f:&mut bool)->T{a.sub_(b,f)}
pub fn mul<T:Sp>(a:T,b:T,f:&mut bool)->T{a.mul_(b,f)} pub fn div<T:Sp>(a:T,b:T,f:&mut bool)->T{a.div_(b,f)} pub fn neg<T:Sp>(a:T,f:&mut bool)->T{a.neg_(f)}
'''

def sty(t): return t.rust
def sin(t, e): return t.inp(e)
def sout(t, e): return t.out(e)

FLOATS = tys('f32', 'f64')
SINTS = tys('i8 i16 i32 i64 i128 isize')
UINTS = tys('u8 u16 u32 u64 u128 usize')
def fixed_types(quick, signed=True, unsigned=False):
    """every supported width; sampled fraction counts including the extremes of what the crate supports"""
    q = {8: [0, 3, 5], 16: [0, 8, 13], 32: [0, 16, 22, 28, 29], 64: [0, 32, 61]}
    al = {8: range(6), 16: range(14), 32: range(30), 64: range(62)}
    r = []
    for sg in ([True] if signed else []) + ([False] if unsigned else []):
        for w in (8, 16, 32, 64):
            for f in (q if quick else al)[w]:
                r.append(Ty(f"{'I' if sg else 'U'}{w}U{f}"))
    return r
def cargs(t, *names):
    """spec bindings: let a_=..."""
    return ' '.join(f'let {n}_ = {sin(t, n)};' for n in names)
FL = ' let mut fl=false; let f=&mut fl; '
BOUNDS_FULL = 'none on the inputs: every bit pattern of every input'

NIIRF = 'mixed_num::trigonometry::sqrt::niirf'
WRAP = 'mixed_num::trigonometry::wrap_phase'
A_ARITH = 'the overflow-reporting operations of core (integers) and of the fixed crate (fixed point) are the component type\'s own arithmetic'
A_NAN = 'NaN payloads and signs are not distinguished'
A_DEV = 'build profile with overflow checks (dev)'
def A_CUT(what): return f'{what} are uninterpreted functions of their arguments: the property is decided for whatever value they return; a panic inside them is outside the encoding'

def convs(src, dst):
    """Rust statement binding k_ = src value s converted to component type dst (flag f raised where it must panic)"""
    if dst.kind == 'fixed':
        if src in ('f32', 'f64'):
            return f'let mut k_ = {dst.rust}::from_bits(0); if s.is_finite() {{ let (z,c) = {dst.rust}::overflowing_from_num(s); k_ = z; *f |= c; }} else {{ *f = true; }}'
        return f'let (k_, c) = {dst.rust}::overflowing_from_num(s); *f |= c;'
    return f'let k_ = s as {dst.rust};'
