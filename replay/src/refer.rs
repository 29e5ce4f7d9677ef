//! The protocol, written from README and property statements: framing, keys, encryption.
use ring::{digest, pbkdf2, signature};
use std::num::NonZeroU32;

pub const MAGIC: [u8; 4] = [0xE2, 0xC2, 0xE2, 0xD2];
pub const LOW: [[u8; 32]; 3] = [
    [0; 32],
    [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [
        0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d,
        0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00,
    ],
];

pub fn sha(d: &[u8]) -> Vec<u8> {
    digest::digest(&digest::SHA256, d).as_ref().to_vec()
}
pub fn frame(th: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    v.extend_from_slice(&[0, 0, 0, 1]);
    v.extend_from_slice(&((th.len() + payload.len()) as u64).to_be_bytes());
    v.extend_from_slice(th);
    v.extend_from_slice(payload);
    v
}
pub fn connect_msg(epk: &[u8], pk: &[u8], p: &[u8]) -> Vec<u8> {
    let mut th = vec![0, 1];
    th.extend_from_slice(epk);
    th.extend_from_slice(&[0, 0, 0, 0]);
    th.extend_from_slice(pk);
    frame(&th, p)
}
pub fn ack_msg(challenge: &[u8], p: &[u8]) -> Vec<u8> {
    let mut th = vec![0, 2];
    th.extend_from_slice(challenge);
    frame(&th, p)
}
pub fn user_plain(n: u64, p: &[u8], hash: bool) -> Vec<u8> {
    let mut th = vec![0, 0];
    th.extend_from_slice(&n.to_be_bytes());
    let mut f = frame(&th, p);
    let mut h = sha(&f);
    if !hash {
        h[7] ^= 0x10;
    }
    f.extend(h);
    f
}
#[derive(Clone, Debug, PartialEq)]
pub struct Key {
    pub k: Vec<u8>,
    pub n: Vec<u8>,
    pub a: Vec<u8>,
}
pub fn derive(own_epk: &[u8], peer_epk: &[u8], secret: &[u8]) -> Key {
    let salt = if own_epk > peer_epk { own_epk } else { peer_epk };
    let mut s = [0u8; 48];
    pbkdf2::derive(pbkdf2::PBKDF2_HMAC_SHA384, NonZeroU32::new(3).unwrap(), salt, secret, &mut s);
    Key { k: s[..32].to_vec(), n: s[32..44].to_vec(), a: s[44..].to_vec() }
}
pub fn seal(k: &Key, p: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let t = chacha20_poly1305_aead::encrypt(&k.k, &k.n, &k.a, p, &mut o).unwrap();
    o.extend_from_slice(&t);
    o
}
pub fn unseal(k: &Key, d: &[u8]) -> Option<Vec<u8>> {
    if d.len() < 16 {
        return None;
    }
    let mut o = vec![];
    chacha20_poly1305_aead::decrypt(&k.k, &k.n, &k.a, &d[..d.len() - 16], &d[d.len() - 16..], &mut o).ok()?;
    Some(o)
}
pub fn sig_valid(pk: &[u8], m: &[u8], s: &[u8]) -> bool {
    signature::UnparsedPublicKey::new(&signature::ED25519, pk).verify(m, s).is_ok()
}
#[derive(Clone, Debug, PartialEq)]
pub enum Hdr {
    Connect { epk: Vec<u8>, pk: Vec<u8> },
    Ack { challenge: Vec<u8> },
    User { n: u64 },
}
#[derive(Clone, Debug)]
pub struct Frame {
    pub data: Vec<u8>,
    pub begin: usize,
    pub end: usize,
    pub hdr: Hdr,
}
impl Frame {
    pub fn payload(&self) -> &[u8] {
        &self.data[self.begin..self.end]
    }
    pub fn covered(&self) -> &[u8] {
        &self.data[..self.end]
    }
    pub fn trailer(&self) -> &[u8] {
        &self.data[self.end..]
    }
    pub fn hash_ok(&self) -> bool {
        self.trailer() == &sha(self.covered())[..]
    }
    pub fn sig_ok(&self, pk: &[u8]) -> bool {
        sig_valid(pk, self.covered(), self.trailer())
    }
}
pub fn parse(d: &[u8]) -> Option<Frame> {
    if d.len() < 18 || d[..4] != MAGIC || d[4..8] != [0, 0, 0, 1] {
        return None;
    }
    let mut b = [0u8; 8];
    b.copy_from_slice(&d[8..16]);
    let sz = u64::from_be_bytes(b);
    let t = &d[16..];
    let (hl, hdr) = match (t[0], t[1]) {
        (0, 0) if t.len() >= 10 => {
            b.copy_from_slice(&t[2..10]);
            (10, Hdr::User { n: u64::from_be_bytes(b) })
        }
        (0, 1) if t.len() >= 70 && t[34..38] == [0, 0, 0, 0] => (70, Hdr::Connect { epk: t[2..34].to_vec(), pk: t[38..70].to_vec() }),
        (0, 2) if t.len() >= 34 => (34, Hdr::Ack { challenge: t[2..34].to_vec() }),
        _ => return None,
    };
    if sz < hl as u64 || sz > t.len() as u64 {
        return None;
    }
    Some(Frame { data: d.to_vec(), begin: 16 + hl, end: 16 + sz as usize, hdr })
}
pub fn clear(d: &[u8]) -> bool {
    d.len() >= 4 && d[..4] == MAGIC
}
pub fn deflate(level: u32, d: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
/// the data of a complete deflate stream that is nothing but one
pub fn inflate(d: &[u8]) -> Option<Vec<u8>> {
    let mut z = flate2::Decompress::new(false);
    let mut o: Vec<u8> = Vec::with_capacity(d.len() * 4 + 64);
    loop {
        let (i, n) = (z.total_in(), o.len());
        let st = z.decompress_vec(&d[i as usize..], &mut o, flate2::FlushDecompress::None).ok()?;
        match st {
            flate2::Status::StreamEnd => return if z.total_in() == d.len() as u64 { Some(o) } else { None },
            _ => {
                if z.total_in() == i && o.len() == n && o.capacity() > n {
                    return None;
                }
                let c = o.capacity();
                o.reserve(c);
            }
        }
    }
}
