//! X25519, written from RFC 7748 (field elements in 16 limbs of 16 bits).
type Gf = [i64; 16];
fn car(o: &mut Gf) {
    for i in 0..16 {
        o[i] += 1 << 16;
        let c = o[i] >> 16;
        if i < 15 {
            o[i + 1] += c - 1;
        } else {
            o[0] += c - 1 + 37 * (c - 1);
        }
        o[i] -= c << 16;
    }
}
fn sel(p: &mut Gf, q: &mut Gf, b: i64) {
    let c = !(b - 1);
    for i in 0..16 {
        let t = c & (p[i] ^ q[i]);
        p[i] ^= t;
        q[i] ^= t;
    }
}
fn pack(n: &Gf) -> [u8; 32] {
    let mut m: Gf = [0; 16];
    let mut t = *n;
    car(&mut t);
    car(&mut t);
    car(&mut t);
    for _ in 0..2 {
        m[0] = t[0] - 0xffed;
        for i in 1..15 {
            m[i] = t[i] - 0xffff - ((m[i - 1] >> 16) & 1);
            m[i - 1] &= 0xffff;
        }
        m[15] = t[15] - 0x7fff - ((m[14] >> 16) & 1);
        let b = (m[15] >> 16) & 1;
        m[14] &= 0xffff;
        sel(&mut t, &mut m, 1 - b);
    }
    let mut o = [0u8; 32];
    for i in 0..16 {
        o[2 * i] = (t[i] & 0xff) as u8;
        o[2 * i + 1] = (t[i] >> 8) as u8;
    }
    o
}
fn unpack(n: &[u8]) -> Gf {
    let mut o: Gf = [0; 16];
    for i in 0..16 {
        o[i] = n[2 * i] as i64 + ((n[2 * i + 1] as i64) << 8);
    }
    o[15] &= 0x7fff;
    o
}
fn add(a: &Gf, b: &Gf) -> Gf {
    let mut o = [0; 16];
    for i in 0..16 {
        o[i] = a[i] + b[i];
    }
    o
}
fn sub(a: &Gf, b: &Gf) -> Gf {
    let mut o = [0; 16];
    for i in 0..16 {
        o[i] = a[i] - b[i];
    }
    o
}
fn mul(a: &Gf, b: &Gf) -> Gf {
    let mut t = [0i64; 31];
    for i in 0..16 {
        for j in 0..16 {
            t[i + j] += a[i] * b[j];
        }
    }
    for i in 0..15 {
        t[i] += 38 * t[i + 16];
    }
    let mut o: Gf = [0; 16];
    o.copy_from_slice(&t[..16]);
    car(&mut o);
    car(&mut o);
    o
}
fn inv(i: &Gf) -> Gf {
    let mut c = *i;
    for a in (0..254).rev() {
        c = mul(&c, &c);
        if a != 2 && a != 4 {
            c = mul(&c, i);
        }
    }
    c
}
pub fn scalarmult(n: &[u8; 32], p: &[u8]) -> [u8; 32] {
    let mut z = *n;
    z[31] = (n[31] & 127) | 64;
    z[0] &= 248;
    let x = unpack(p);
    let (mut a, mut b, mut c, mut d): (Gf, Gf, Gf, Gf) = ([0; 16], x, [0; 16], [0; 16]);
    a[0] = 1;
    d[0] = 1;
    let mut k: Gf = [0; 16];
    k[0] = 0xdb41;
    k[1] = 1;
    for i in (0..255).rev() {
        let r = ((z[i >> 3] >> (i & 7)) & 1) as i64;
        sel(&mut a, &mut b, r);
        sel(&mut c, &mut d, r);
        let mut e = add(&a, &c);
        a = sub(&a, &c);
        c = add(&b, &d);
        b = sub(&b, &d);
        d = mul(&e, &e);
        let f = mul(&a, &a);
        a = mul(&c, &a);
        c = mul(&b, &e);
        e = add(&a, &c);
        a = sub(&a, &c);
        b = mul(&a, &a);
        c = sub(&d, &f);
        a = mul(&c, &k);
        a = add(&a, &d);
        c = mul(&c, &a);
        a = mul(&d, &f);
        d = mul(&b, &x);
        b = mul(&e, &e);
        sel(&mut a, &mut b, r);
        sel(&mut c, &mut d, r);
    }
    pack(&mul(&a, &inv(&c)))
}
pub fn base(n: &[u8; 32]) -> [u8; 32] {
    let mut p = [0u8; 32];
    p[0] = 9;
    scalarmult(n, &p)
}
#[cfg(test)]
mod t {
    #[test]
    fn rfc() {
        let h = |s: &str| -> Vec<u8> { (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
        let mut k = [0u8; 32];
        k.copy_from_slice(&h("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"));
        let u = h("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c");
        assert_eq!(super::scalarmult(&k, &u).to_vec(), h("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"));
    }
}
