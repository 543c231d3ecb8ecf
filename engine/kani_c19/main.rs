//! native replay: c19 <harness> <re> <im> <plus> <alt> <has precision> <precision> ...: prints "same" or what was printed instead
use c19::*;
use mixed_num::*;
use core::fmt::Write;
fn one(h: &str, re: i8, im: i8, plus: bool, alt: bool, hp: bool, p: u8) -> (bool, String, String) {
    let prec = if hp { Some(p as u16) } else { None };
    let mut want = Buf::new();
    let c = Cartesian::new(V(re), V(im)); let n = p as usize;
    macro_rules! f { ($t:literal, $tag:literal, $pre:literal) => {{
        expect(&mut want, re, im, plus, alt, prec, $tag, $pre);
        match (plus, alt, hp) {
            (false, false, false) => format!(concat!("{:", $t, "}"), c), (true, false, false) => format!(concat!("{:+", $t, "}"), c),
            (false, true, false) => format!(concat!("{:#", $t, "}"), c), (true, true, false) => format!(concat!("{:+#", $t, "}"), c),
            (false, false, true) => format!(concat!("{:.1$", $t, "}"), c, n), (true, false, true) => format!(concat!("{:+.1$", $t, "}"), c, n),
            (false, true, true) => format!(concat!("{:#.1$", $t, "}"), c, n), (true, true, true) => format!(concat!("{:+#.1$", $t, "}"), c, n),
        }
    }} }
    let got = match h {
        "display" => f!("", b'D', b""), "lower_exp" => f!("e", b'e', b""), "upper_exp" => f!("E", b'E', b""), "lower_hex" => f!("x", b'x', b"0x"),
        "upper_hex" => f!("X", b'X', b"0x"), "octal" => f!("o", b'o', b"0o"), "binary" => f!("b", b'b', b"0b"),
        "polar" => { expect_polar(&mut want, re, im); format!("{}", Polar::new(V(re), V(im))) }
        _ => panic!(),
    };
    let w = String::from_utf8_lossy(&want.b[..want.n]).to_string();
    (got == w, got, w)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "scan" {     // scan <harness> <count> <seed>
        let mut s: u64 = a[4].parse().unwrap(); let mut k = 0;
        for _ in 0..a[3].parse::<u32>().unwrap() {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let (mut re, mut im) = ((s >> 24) as i8, (s >> 32) as i8); if re == -128 { re = 0 } if im == -128 { im = 0 }
            let (p, q, r, n) = (s >> 41 & 1 == 1, s >> 42 & 1 == 1, s >> 43 & 1 == 1, (s >> 45 & 7) as u8);
            let (ok, g, w) = one(&a[2], re, im, p, q, r, n);
            if !ok { println!("{} {} {} {} {} {}\t{}\t{}", re, im, p as u8, q as u8, r as u8, n, g, w); return }
            k += 1;
        }
        println!("same {}", k); return
    }
    let v: Vec<i16> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
    let (ok, g, w) = one(&a[1], v[0] as i8, v[1] as i8, v[2] != 0, v[3] != 0, v[4] != 0, v[5] as u8);
    if ok { println!("same 1") } else { println!("{}\t{}\t{}", a[2..].join(" "), g, w) }
}
