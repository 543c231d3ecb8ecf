"""Edits that keep the behaviour; the checks of the properties named have to stay quiet on them.
usage: refactors.py [ids...]   (scratch copies under $TB or /tmp/rf)"""
import os, sys, subprocess, shutil, time
OPS='src/complex/ops.rs'; CI='src/complex/cartesian_impl.rs'; PI='src/complex/polar_impl.rs'; FX='src/fixed_impl.rs'; IN='src/int_impl.rs'; FL='src/float_impl.rs'; TR='src/trigonometry.rs'; SQ='src/trigonometry/sqrt.rs'; AT='src/trigonometry/atan.rs'
F32='src/float_impl/f32_impl.rs'; F64='src/float_impl/f64_impl.rs'; NC='src/complex/cartesian_impl/num_complex_impl.rs'; CX='src/complex.rs'
DEN=[('return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));','let den = c.mixed_powi(2)+d.mixed_powi(2);\n                let im = b*c-a*d;\n                let re = a*c+b*d;\n                return Cartesian::new(re/den, im/den);')]
R = [
 ('powi_while', 'C13 C16 C14 C20', [(TR,'    for _i in 0..power-1 {\n        temp = temp*base;\n    }','    let mut left = power;\n    while 1 < left {\n        temp *= base;\n        left -= 1;\n    }')]),
 ('powi_fold', 'C13 C15', [(TR,'    let mut temp:T = base;\n    for _i in 0..power-1 {\n        temp = temp*base;\n    }\n    return temp;','    return (1..power).fold(base, |acc, _| acc*base);')]),
 ('wrap_loop', 'C12 C06 C04', [(TR,'''    while temp_scalar < -mixed_pi
    {
        temp_scalar = temp_scalar + mixed_pi + mixed_pi; // 2π may not be representable.
    }
    while mixed_pi <= temp_scalar
    {
        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
    }
    return temp_scalar;''','''    loop
    {
        if temp_scalar < -mixed_pi { temp_scalar = temp_scalar + mixed_pi + mixed_pi; }
        else if temp_scalar >= mixed_pi { temp_scalar = temp_scalar - mixed_pi - mixed_pi; }
        else { return temp_scalar; }
    }''')]),
 ('wrap_helper', 'C12 C16', [(TR,'''    while temp_scalar < -mixed_pi
    {
        temp_scalar = temp_scalar + mixed_pi + mixed_pi; // 2π may not be representable.
    }''','''    fn up<T: core::ops::Add<Output = T> + Copy>(x: T, pi: T) -> T { return x + pi + pi; }
    while temp_scalar < -mixed_pi
    {
        temp_scalar = up(temp_scalar, mixed_pi);
    }''')]),
 ('niirf_for', 'C14', [(SQ,'''    while norm.abs() != 0
    {
        // Denormalize the solution.
        if 0 < norm
        {
            y = y*T::mixed_from_num(2);
            norm-=1;
        }
        else if norm < 0
        {
            y = y/T::mixed_from_num(2);
            norm+=1;
        }
    }''','''    for _ in 0..norm
    {
        y = y*T::mixed_from_num(2);
    }
    for _ in norm..0
    {
        y = y/T::mixed_from_num(2);
    }'''),(SQ,'if x == T::mixed_zero()','if T::mixed_zero() == x')]),
 ('niirf_table', 'C14', [(SQ,'''        if x < T::mixed_from_num(5.0/16.0) {
            return beta_values[0];
        }
''','''        for k in 0..11
        {
            if x < T::mixed_from_num((5.0 + k as f64)/16.0) { return beta_values[k]; }
        }
        if x < T::mixed_from_num(15.0/16.0) {
            return beta_values[10];
        }
        if x < T::mixed_from_num(5.0/16.0) {
            return beta_values[0];
        }
''')]),
 ('niirf_four', 'C14', [(SQ,'x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);','let double = x_+x_;\n        x_ = double+double;')]),
 ('atan_quadrant', 'C15', [(AT,'''            // First octant.
            if y_abs - x_abs < T::mixed_from_num( 0.0 )
            {
                return atan_poly_1( y, x );
            }
            // Second octant.
            else
            {
                return pi_half -atan_poly_2( y, x );
            }''','''            if x_abs <= y_abs { return pi_half - atan_poly_2( y, x ); }
            return atan_poly_1( y, x );'''),(AT,'return T::mixed_pi()/T::mixed_from_num( 2 );','return pi_half;')]),
 ('atan_one_poly', 'C15', [(AT,'''    let t   = y/x; // |t| < 1. The squares of x and y may not be representable.
    let phi = t / ( T::mixed_from_num( 1 ) + T::mixed_from_num( 0.28125 )*t.mixed_powi(2) );
    return phi;''','''    return atan_poly_2( x, y );''')]),
 ('sin_powers', 'C16', [(TR,'''    let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
    return sinx;''','''    let mut sinx = x_;
    let mut add = false;
    for (n, f) in [(3i32, 6i32), (5, 120), (7, 5040), (9, 362880)]
    {
        let term = x_.mixed_powi(n)/T::mixed_from_num(f);
        if add { sinx += term; } else { sinx -= term; }
        add = !add;
    }
    return sinx;''')]),
 ('sin_reflect', 'C16', [(TR,'''        let delta:T = x+mixed_pi_half;
        x_ = -mixed_pi_half-delta;''','''        x_ = -mixed_pi_half-(x+mixed_pi_half);'''),(TR,'''        let delta:T = x-mixed_pi_half;
        x_ = mixed_pi_half-delta;''','''        x_ = mixed_pi_half-x+mixed_pi_half;''')]),
 ('cos_direct', 'C16', [(TR,'    let mut x_shifted = x+mixed_pi_half;\n    x_shifted = wrap_phase(x_shifted);\n    return sin(x_shifted);','    return sin(wrap_phase(mixed_pi_half+x));')]),
 ('div_den', 'C02', [(CI, *DEN[0])]),
 ('assign_delegates', 'C01 C02', [(CI,'                self.re =  self.re+rhs.re;\n                self.im =  self.im+rhs.im;','                *self = *self + rhs;'),(CI,'                self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));\n                self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));','                let den = c.mixed_powi(2)+d.mixed_powi(2);\n                self.im = (b*c-a*d)/den;\n                self.re = (a*c+b*d)/den;')]),
 ('scalar_once', 'C03', [(CI,'        return Cartesian::new(self.re/T2::mixed_from_num(rhs), self.im/T2::mixed_from_num(rhs));','        let scale = T2::mixed_from_num(rhs);\n        let im = self.im/scale;\n        return Cartesian::new(self.re/scale, im);'),(CI,'        self.re = self.re/T2::mixed_from_num(rhs);\n        self.im = self.im/T2::mixed_from_num(rhs);','        *self = *self/rhs;')]),
 ('mul_polar_flat', 'C04', [(OPS,'    if a.mag==T::mixed_from_num(0) || b.mag==T::mixed_from_num(0)\n','    let zero = T::mixed_from_num(0);\n    let degenerate = a.mag==zero || b.mag==zero;\n    if degenerate\n')]),
 ('mag_delegates', 'C06 C02 C20', [(CI,'        return (self.re.mixed_powi(2)+self.im.mixed_powi(2)).mixed_sqrt();','        return ops::abs(*self);'),(OPS,'        mag:     abs(x),\n        ang: x.im.mixed_atan2(x.re)','        ang: x.arg(),\n        mag:     x.mag()')]),
 ('exp_new', 'C20', [(CI,'        let mut r_value =  Self::new_from_cartesian(re, im);\n        r_value.re *= scale;\n        r_value.im *= scale;\n        return r_value;','        let (mut x, mut y) = (re, im);\n        x *= scale;\n        y *= scale;\n        return Self::new_from_cartesian(x, y);')]),
 ('sincos_pair', 'C18 C06 C20', [(FX,'                return cordic::sin_cos(*self);','                return (cordic::sin(*self), cordic::cos(*self));')]),
 ('atan_call', 'C18', [(FX,'                return cordic::atan2(*self, other);','                let y = *self;\n                let x = other;\n                return cordic::atan2(y, x);')]),
 ('db_helper', 'C17', [(FL,'                let exponent: $T = *self/<$T>::mixed_from_num(20i32);\n                return exponent.mixed_exp10();','                fn ratio(x: $T, d: i32) -> $T { return x/<$T>::mixed_from_num(d); }\n                return ratio(*self, 20).mixed_exp10();')]),
 ('sign_match', 'C11', [(TR,'''    if x < T::mixed_from_num(0)
    {
        return T::mixed_from_num(-1);
    }
    else
    {
        return T::mixed_from_num(1);
    }''','''    match x < T::mixed_from_num(0)
    {
        true => T::mixed_from_num(-1),
        false => T::mixed_from_num(1),
    }''')]),
 ('abs_branch', 'C11 C14 C15', [(FX,'                return self.abs();','                if *self < Self::from_num(0) { return -*self; }\n                return *self;')]),
 ('conj_copy', 'C05', [(CI,'        return T::new_from_cartesian(self.re, -self.im);','        let c = *self;\n        let im = -c.im;\n        return T::new_from_cartesian(c.re, im);')]),
 ('conv_temp', 'C09 C08 C07', [(FX,'                return Self::from_num(number.re);','                let re = number.re;\n                return re.to_fixed_();'),(FX,'use crate::*;','use crate::*;\n#[allow(non_camel_case_types)]\ntrait to_fixed__<T> { fn to_fixed_(self) -> T; }\nimpl<N: fixed::traits::ToFixed, T: fixed::traits::Fixed> to_fixed__<T> for N { fn to_fixed_(self) -> T { T::from_num(self) } }')]),
 ('floor_neg', 'C21', [(F64,'        return libm::floor(*self);','        return -libm::ceil(-*self);'),(F32,'        return libm::ceilf(*self);','        let x = *self;\n        return libm::ceilf(x);')]),
 ('eq_manual', 'C22', [(CX,'#[derive(PartialEq, PartialOrd, Eq, Copy, Clone, Debug, Default)]\n#[repr(C)]\n/// Cartesian','impl<T: PartialEq> PartialEq for Cartesian<T> {\n    fn eq(&self, other: &Self) -> bool { self.im == other.im && self.re == other.re }\n}\n\n#[derive(PartialOrd, Eq, Copy, Clone, Debug, Default)]\n#[repr(C)]\n/// Cartesian')]),
 ('fmt_helper', 'C19', [(NC,'''            let sign = if re_neg {
                "-"
            } else if f.sign_plus() {
                "+"
            } else {
                ""
            };
''','''            let sign = match (re_neg, f.sign_plus()) {
                (true, _) => "-",
                (false, true) => "+",
                _ => "",
            };
''')]),
 ('fmt_neg_first', 'C19', [(NC,'''        let abs_re = if $re < T::mixed_zero() {
            T::mixed_zero() - $re.clone()
        } else {
            $re.clone()
        };''','''        let zero = T::mixed_zero();
        let re_neg = $re < zero;
        let abs_re = if !re_neg { $re.clone() } else { zero - $re.clone() };''')]),
 ('pi_consts', 'C10', [(FL,'return 1 as $T;','return <$T>::mixed_from_num(1i32);')]),
 ('powi_float', 'C13', [(FL,'return self.powi( exp );','let base = *self;\n                return FloatCore::powi(base, exp);')]),
 ('powi_recursive', 'C13 C20', [(TR,'    let mut temp:T = base;\n    for _i in 0..power-1 {\n        temp = temp*base;\n    }\n    return temp;','    if power == 1 { return base; }\n    return powi(base, power-1)*base;')]),
 ('powi_one_first', 'C13 C16', [(TR,'    let mut temp:T = base;\n    for _i in 0..power-1 {\n        temp = temp*base;\n    }\n    return temp;','    let mut k = 1;\n    let mut temp:T = base;\n    loop {\n        if k == power { return temp; }\n        temp = temp*base;\n        k += 1;\n    }')]),
 ('powi_base', 'C13 C20', [(IN,"""                if exp < 0
                {
                    return trigonometry::powi( 1/(*self), exp.unsigned_abs() as usize );
                }
                return trigonometry::powi( *self, exp as usize );""","""                let base = if exp < 0 { 1/(*self) } else { *self };
                return trigonometry::powi( base, exp.unsigned_abs() as usize );"""),(FX,"""                if exp < 0
                {
                    return trigonometry::powi( Self::mixed_one()/(*self), exp.unsigned_abs() as usize );
                }
                return trigonometry::powi( *self, exp as usize );""","""                let base = match exp { e if e < 0 => Self::mixed_one()/(*self), _ => *self };
                return trigonometry::powi( base, exp.unsigned_abs() as usize );""")]),
 ('wrap_swap', 'C12 C06', [(TR,"""    while temp_scalar < -mixed_pi
    {
        temp_scalar = temp_scalar + mixed_pi + mixed_pi; // 2π may not be representable.
    }
    while mixed_pi <= temp_scalar
    {
        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
    }""","""    while mixed_pi <= temp_scalar
    {
        temp_scalar = temp_scalar - mixed_pi - mixed_pi;
    }
    while temp_scalar < -mixed_pi
    {
        temp_scalar = temp_scalar + mixed_pi + mixed_pi; // 2π may not be representable.
    }""")]),
 ('wrap_if_else', 'C12', [(TR,"""    let mut temp_scalar = phi;
    
    while temp""","""    let mut temp_scalar = phi;
    let inside = !(temp_scalar < -mixed_pi) && temp_scalar < mixed_pi;
    if inside { return temp_scalar; }

    while temp""")]),
 ('niirf_norm_fn', 'C14', [(SQ,"""    let mut x_ = x.mixed_abs();

    // First we normalize x to the range 0.25 =< x < 1.
    let mut norm = 0i32; // Number of normalizations.
    while x_< T::mixed_from_num(0.25)
    {
        norm -=1;
        x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);
    }
    while T::mixed_from_num(1.0) <= x_
    {
        norm +=1;
        x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
    }
""","""    fn normalize<T>( x: T ) -> (T, i32)
        where T: crate::MixedReal + crate::MixedOps
    {
        let (mut x_, mut norm) = (x, 0i32);
        while T::mixed_from_num(1.0) <= x_
        {
            x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
            norm +=1;
        }
        while x_< T::mixed_from_num(0.25)
        {
            x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2);
            norm -=1;
        }
        return (x_, norm);
    }
    let (x_, mut norm) = normalize(x.mixed_abs());
""")]),
 ('niirf_while_norm', 'C14', [(SQ,"""    while norm.abs() != 0
    {
        // Denormalize the solution.
        if 0 < norm
        {
            y = y*T::mixed_from_num(2);
            norm-=1;
        }
        else if norm < 0
        {
            y = y/T::mixed_from_num(2);
            norm+=1;
        }
    }
    return y;""","""    while 0 < norm
    {
        y = y*T::mixed_from_num(2);
        norm-=1;
    }
    while norm < 0
    {
        y = y/T::mixed_from_num(2);
        norm+=1;
    }
    return y;"""),(SQ,"""    for _n in 1..iterations
    {
        let y_sqr""","""    let b = beta(x_);
    let mut n = 1;
    while n < iterations
    {
        n += 1;
        let y_sqr"""),(SQ,'y = y-beta(x_)*(y_sqr-x_);','y = y-b*(y_sqr-x_);'),(SQ,'y = beta(x_)*(x_-y_sqr)+y;','y = b*(x_-y_sqr)+y;')]),
 ('niirf_index', 'C14', [(SQ,"""        if x < T::mixed_from_num(5.0/16.0) {
            return beta_values[0];
        }
        else if x < T::mixed_from_num(6.0/16.0) {
            return beta_values[1];
        }""","""        let mut index = 0;
        if !(x < T::mixed_from_num(5.0/16.0)) { index += 1; }
        if x < T::mixed_from_num(6.0/16.0) {
            return beta_values[index];
        }""")]),
 ('atan_match', 'C15', [(AT,"""            if y_abs - x_abs < T::mixed_from_num( 0.0 )
            {
                return atan_poly_1( y, x );
            }
            // Second octant.
            else
            {
                return pi_half -atan_poly_2( y, x );
            }""","""            return match y_abs - x_abs < T::mixed_zero()
            {
                true => atan_poly_1( y, x ),
                false => pi_half - atan_poly_2( y, x ),
            };"""),(AT,"""            if T::mixed_zero() <= y_abs - x_abs
            {
                return -pi_half - atan_poly_2( y, x );
            }
            // Eigth octant.
            else
            {
                return -pi + atan_poly_1( y, x );
            }""","""            let steep = !(y_abs < x_abs);
            return if steep { -pi_half - atan_poly_2( y, x ) } else { -pi + atan_poly_1( y, x ) };""")]),
 ('atan_zero_x_first', 'C15', [(AT,"""    else if y.mixed_is_positive()
    {
        if  x == T::mixed_zero()
        {
            return T::mixed_pi()/T::mixed_from_num( 2 );
        }
        else if""","""    if x == T::mixed_zero()
    {
        return if y.mixed_is_positive() { pi_half } else { -pi/T::mixed_from_num( 2 ) };
    }
    else if y.mixed_is_positive()
    {
        if""")]),
 ('sin_horner', 'C16', [(TR,"""    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
    return sinx;""","""    let x2 = x_*x_;
    let x7 = x2*x_*x_*x_*x_*x_;
    sinx -= x7/T::mixed_from_num(5040);
    sinx += x7*x_*x_/T::mixed_from_num(362880);
    return sinx;""")]),
 ('sin_helper', 'C16', [(TR,"""    let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
    return sinx;""","""    fn term<T: crate::MixedNum + crate::MixedOps + crate::MixedPowi>( x: T, n: i32, fact: i32 ) -> T { return x.mixed_powi(n)/T::mixed_from_num(fact); }
    return x_ - term(x_, 3, 6) + term(x_, 5, 120) - term(x_, 7, 5040) + term(x_, 9, 362880);""")]),
 ('ops_addassign', 'C01', [(CI,'                self.re =  self.re+rhs.re;\n                self.im =  self.im+rhs.im;','                let im = self.im+rhs.im;\n                *self = Self{re: self.re+rhs.re, im};'),(CI,'return Cartesian::new(self.re-rhs.re, self.im-rhs.im);','let (re, im) = (self.re-rhs.re, self.im-rhs.im);\n                return Self{re, im};')]),
 ('mul_inline', 'C01 C04', [(OPS,'    let re = (a*c) - (b*d);\n    let im = (a*d) + (b*c);','    let (ac, bd, ad, bc) = (a*c, b*d, a*d, b*c);\n    let re = ac - bd;\n    let im = ad + bc;')]),
 ('divassign_self', 'C02', [(CI,"""                self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));""","""                let sq = |v: T| v*v;
                let den = sq(c)+sq(d);
                let (re, im) = (a*c+b*d, b*c-a*d);
                self.re = re/den;
                self.im = im/den;""")]),
 ('scalar_zero_const', 'C03', [(CI,"""        if rhs == T1::mixed_zero() {
            self.re =T2::mixed_max_value();
            self.im =T2::mixed_max_value();
            return;
        }
        self.re = self.re/T2::mixed_from_num(rhs);
        self.im = self.im/T2::mixed_from_num(rhs);""","""        *self = *self/rhs;""")]),
 ('mulassign_polar', 'C04', [(CI,"""                let temp = *self* rhs.to_cartesian();
                self.re = temp.re;
                self.im = temp.im;""","""                *self = *self*rhs;""")]),
 ('polar_div', 'C04', [(PI,"""        if rhs == T::mixed_zero() {
            return Polar::new(T::mixed_max_value(), self.ang);
        }
        return Polar::new(self.mag/rhs, self.ang);""","""        let mag = if rhs == T::mixed_zero() { T::mixed_max_value() } else { self.mag/rhs };
        return Self{mag, ang: self.ang};""")]),
 ('tocart_direct', 'C06 C05', [(OPS,"""    let theta = a.ang.mixed_wrap_phase();
    let (imag_s, real_s) = theta.mixed_sincos();
""","""    let (imag_s, real_s) = a.ang.mixed_wrap_phase().mixed_sincos();
    let (imag_s, real_s) = (imag_s, real_s);
""")]),
 ('abs_mul', 'C06 C20', [(OPS,'    let r_sqr = a.re.mixed_powi(2) + a.im.mixed_powi(2);\n    return r_sqr.mixed_sqrt();','    let (re, im) = (a.re, a.im);\n    return (re*re + im*im).mixed_sqrt();')]),
 ('conj_via_polar', 'C05', [(PI,'        return T::new_from_polar(self.mag, -self.ang);','        let flipped = Polar{ang: -self.ang, ..*self};\n        return T::new_from_polar(flipped.mag, flipped.ang);')]),
 ('cpowi_order', 'C20', [(OPS,"""    let phi:T  = base.im.mixed_atan2(base.re) *<T>::from_num(power);

    let (imag_s, real_s) = phi.mixed_sincos();

    let real   = mag*real_s;
    let imag   = mag*imag_s;
""","""    let angle = base.im.mixed_atan2(base.re);
    let n = <T>::from_num(power);
    let (s, c) = (angle*n).mixed_sincos();
    let imag   = mag*s;
    let real   = mag*c;
""")]),
 ('sign_helper', 'C11', [(FL,'                return self.is_sign_negative();','                return !self.is_sign_positive();'),(IN,"""                if 0<=*self
                {
                    return *self;
                }
                else
                {
                    return -self;
                }""","""                match *self < 0 { true => -*self, false => *self }""")]),
 ('db_inline', 'C17', [(FL,'return <$T>::mixed_from_num(20)*self.mixed_log10();','let db = self.mixed_log10();\n                return db*20.0;')]),
]
def main():
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = os.environ.get('TB', '/tmp/rf'); only = sys.argv[1:]
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.check_call(['git', 'clone', '-q', '/repo', f'{W}/repo'])
    subprocess.check_call(f'mkdir -p {W}/verif/build && cd {V} && cp -a checks engine tools run.py known_findings.json properties.jsonl {W}/verif/', shell=True)
    if os.path.isdir(f'{V}/build/target'): subprocess.call(f'cp -a {V}/build/target {W}/verif/build/', shell=True)
    for i, props, edits in R:
        if only and i not in only: continue
        bad = None
        for f, old, new in edits:
            p = f'{W}/repo/{f}'; t = open(p).read()
            if old not in t: bad = f'edit not found in {f}'; break
            open(p, 'w').write(t.replace(old, new, 1))
        if not bad and subprocess.run('cargo build --offline -q', shell=True, cwd=f'{W}/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode: bad = 'does not build'
        if bad: print(f'{i:18} {bad}', flush=True)
        else:
            for p in props.split():
                t = time.time()
                r = subprocess.run(['python3-vt', 'run.py', p, 'quick'], cwd=f'{W}/verif', env=dict(os.environ, VERIF_REPO=f'{W}/repo', VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                l = [x for x in r.stdout.split('\n') if ' harnesses, ' in x][-1:] or r.stdout.split('\n')[-5:]
                print(f'{i:18} {p} {"quiet" if r.returncode == 0 else "ALARM rc=%d" % r.returncode} {time.time()-t:.0f}s {l[0][:110]}', flush=True)
                if r.returncode: print('\n'.join(x[:300] for x in r.stdout.split('\n')[-8:]), flush=True)
                else:
                    for x in r.stdout.split('\n'):
                        if 'undecided:' in x: print('   ', x[:200], flush=True)
        subprocess.check_call(['git', '-C', f'{W}/repo', 'checkout', '-q', '--', '.'])
    shutil.rmtree(W, ignore_errors=True)
if __name__ == '__main__': main()
