//! C19: formatting of complex numbers, decided by Kani (CBMC) over symbolic component values and formatting flags.
//! The component type `V` follows the formatting conventions of the number types (sign, radix prefix on `#`, precision)
//! and prints its magnitude as two characters, so that what each part was asked to print is visible in the text.
#![cfg_attr(kani, feature(formatting_options))]
#![allow(dead_code, unused)]
use core::fmt::{self, Formatter, Write};
use mixed_num::traits::*;
use mixed_num::*;
pub const N: usize = 24;
pub struct Buf { pub b: [u8; N], pub n: usize }
impl Buf {
    pub fn new() -> Buf { Buf { b: [0; N], n: 0 } }
    pub fn put(&mut self, c: u8) { if self.n < N { self.b[self.n] = c; self.n += 1; } }
}
/// sink that compares what is written with what is expected
pub struct Cmp<'a> { pub w: &'a Buf, pub n: usize, pub ok: bool }
impl<'a> fmt::Write for Cmp<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.as_bytes() { if self.n >= self.w.n || self.w.b[self.n] != *c { self.ok = false; } self.n += 1; }
        Ok(())
    }
}
#[derive(PartialEq, PartialOrd, Copy, Clone)]
pub struct V(pub i8);
impl core::ops::Sub for V { type Output = V; fn sub(self, o: V) -> V { V(self.0.wrapping_sub(o.0)) } }
impl core::ops::Neg for V { type Output = V; fn neg(self) -> V { V(self.0.wrapping_neg()) } }
impl MixedZero for V { fn mixed_zero() -> V { V(0) } }
impl MixedNum for V {}
fn text(m: u8, tag: u8, prec: Option<u16>) -> [u8; 4] {
    [tag, match prec { None => b'~', Some(p) => b'0' + (p as u8 & 7) }, b'A' + (m >> 4), b'a' + (m & 15)]
}
fn toy(v: V, f: &mut Formatter<'_>, tag: u8, prefix: &str) -> fmt::Result {
    if v.0 < 0 { f.write_str("-")?; } else if f.sign_plus() { f.write_str("+")?; }
    if f.alternate() { f.write_str(prefix)?; }
    let t = text(v.0.unsigned_abs(), tag, f.precision().map(|p| p as u16));
    f.write_str(unsafe { core::str::from_utf8_unchecked(&t) })
}
macro_rules! toy { ($($t:ident $tag:literal $p:literal;)*) => { $(impl fmt::$t for V { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { toy(*self, f, $tag, $p) } })* } }
toy! { Display b'D' ""; LowerExp b'e' ""; UpperExp b'E' ""; LowerHex b'x' "0x"; UpperHex b'X' "0x"; Octal b'o' "0o"; Binary b'b' "0b"; }
/// what has to be printed: [sign][prefix]re sign [prefix]im i
pub fn expect(b: &mut Buf, re: i8, im: i8, plus: bool, alt: bool, prec: Option<u16>, tag: u8, prefix: &[u8]) {
    let mut part = |v: i8, plus: bool| {
        if v < 0 { b.put(b'-') } else if plus { b.put(b'+') }
        if alt { for c in prefix { b.put(*c) } }
        for c in text(v.unsigned_abs(), tag, prec) { b.put(c) }
    };
    part(re, plus); part(im, true); b.put(b'i');
}
pub fn expect_polar(b: &mut Buf, mag: i8, ang: i8) {
    fn part(b: &mut Buf, v: i8) { if v < 0 { b.put(b'-') } for c in text(v.unsigned_abs(), b'D', None) { b.put(c) } }
    part(b, mag);
    for c in "\u{2220}".as_bytes() { b.put(*c) }
    part(b, ang);
}

#[cfg(kani)]
mod proofs {
    use super::*;
    use core::fmt::{FormattingOptions, Sign};
    macro_rules! proof { ($($name:ident $t:ident $tag:literal $p:literal;)*) => { $(
        #[kani::proof]
        #[kani::unwind(10)]
        fn $name() {
            let re: i8 = kani::any(); let im: i8 = kani::any(); let plus: bool = kani::any(); let alt: bool = kani::any(); let hp: bool = kani::any(); let p: u8 = kani::any();
            kani::assume(re != -128 && im != -128 && p < 8);
            let prec = if hp { Some(p as u16) } else { None };
            let mut o = FormattingOptions::new();
            if plus { o.sign(Some(Sign::Plus)); }
            o.alternate(alt); o.precision(prec);
            let mut want = Buf::new(); expect(&mut want, re, im, plus, alt, prec, $tag, $p);
            let mut c = Cmp { w: &want, n: 0, ok: true };
            { let mut f = Formatter::new(&mut c, o); let r = fmt::$t::fmt(&Cartesian::new(V(re), V(im)), &mut f); assert!(r.is_ok()); }
            assert!(c.ok && c.n == want.n, "text");
            kani::cover!(c.n == want.n && re < 0 && im < 0 && alt && hp);
        } )* } }
    proof! { display Display b'D' b""; lower_exp LowerExp b'e' b""; upper_exp UpperExp b'E' b""; lower_hex LowerHex b'x' b"0x"; upper_hex UpperHex b'X' b"0x"; octal Octal b'o' b"0o"; binary Binary b'b' b"0b"; }
    #[kani::proof]
    #[kani::unwind(10)]
    fn polar() {
        let re: i8 = kani::any(); let im: i8 = kani::any();
        kani::assume(re != -128 && im != -128);
        let mut want = Buf::new(); expect_polar(&mut want, re, im);
        let mut c = Cmp { w: &want, n: 0, ok: true };
        { let mut f = Formatter::new(&mut c, FormattingOptions::new()); let r = fmt::Display::fmt(&Polar::new(V(re), V(im)), &mut f); assert!(r.is_ok()); }
        assert!(c.ok && c.n == want.n, "text");
        kani::cover!(c.n == want.n && re < 0 && im < 0);
    }
}
