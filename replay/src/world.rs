//! Runs operations on the real layer and holds every result against the model.
use crate::model::*;
use crate::refer::*;
use crate::x25519;
use pkstl::*;
use ring::signature::{Ed25519KeyPair, KeyPair};
use serde::{Deserialize, Serialize};
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Minimal,
    Binary,
    Typed,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pay {
    Absent,
    Len(usize, u8),
    /// typed mode, from the peer: this format code, then a value in another format, cut to the length
    Coded(u32, u8, usize, usize, u8),
}
impl Pay {
    fn len(self) -> Option<(usize, u8)> {
        match self {
            Pay::Absent => None,
            Pay::Len(l, f) | Pay::Coded(_, _, _, l, f) => Some((l, f)),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum W {
    Mem,
    /// accepts at most n bytes per call, through a buffer of the given capacity
    Chunk(usize, usize),
    /// accepts n bytes in all, then reports an error
    Fail(usize, usize),
    /// accepts n bytes in all, then accepts nothing any more (Ok(0))
    Full(usize, usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mutn {
    None,
    Flip(usize, u8),
    Cut(usize),
    Extend(usize),
    /// change the announced length by this much, re-signing or re-hashing nothing
    Length(i64),
    SetLength(u64),
    /// replace the trailing signature or hash
    Trailer(usize),
    /// overwrite one header byte before signing or hashing
    Pre(usize, u8),
    /// announce a different length before signing or hashing
    PreLength(i64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Epk {
    Peer,
    Other,
    /// the genuine key with the ignored top bit set
    High,
    Low(usize),
    Own,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chal {
    Right,
    OfPeer,
    Zero,
    OneBit(usize),
    RawKey,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum N {
    Next,
    Rel(i64),
    Abs(u64),
    Top(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum KeySel {
    Session,
    Wrong,
    Clear,
    WrongNonce,
    WrongAad,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
    C { signer: usize, announce: usize, epk: Epk, p: Pay, m: Mutn, sealed: bool },
    A { signer: usize, ch: Chal, p: Pay, m: Mutn, sealed: bool },
    U { n: N, p: Pay, hash: bool, key: KeySel, m: Mutn, algo: u8 },
    Old(usize),
    OldMut(usize, Mutn),
    Own(usize),
    Raw(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Connect(Pay, W),
    Ack(Pay, W),
    Write(Pay, W),
    Take,
    Drain,
    Clone,
    Switch(usize),
    Config(u8),
    Feed(Msg),
    /// feed user messages with numbers low+a .. low+b
    Batch(u64, u64),
    /// the same from the last one to the first one
    Down(u64, u64),
    /// feed user messages with the numbers a, a+step, .. below b, whatever has been received
    Span(u64, u64, u64),
    /// the numbers low .. low+a, in an order in which a number comes up to b places too early or too late
    Mixed(u64, u64),
    /// write so many short user messages
    Writes(usize),
}
#[derive(Clone, Debug)]
pub struct Setup {
    pub mode: Mode,
    /// 0: no expectation, 1: the genuine peer's key, 2: another key, 3..: nearly the genuine peer's key
    pub expect: u8,
    pub level: u32,
    pub min_size: usize,
    pub fmt: usize,
    pub peer_level: u32,
    pub peer_fmt: usize,
    pub seed: u64,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<&'static str>,
    pub kind: String,
    pub what: String,
    pub step: usize,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct T {
    n: u64,
    i: i32,
    s: String,
    v: Vec<u16>,
    o: Option<Box<T>>,
}
pub struct Sink {
    pub data: Vec<u8>,
    w: W,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let room = match self.w {
            W::Mem => b.len(),
            W::Chunk(n, _) => b.len().min(n.max(1)),
            W::Fail(n, _) => {
                if b.is_empty() {
                    0
                } else if self.data.len() >= n {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
                } else {
                    b.len().min(n - self.data.len())
                }
            }
            W::Full(n, _) => b.len().min(n.saturating_sub(self.data.len())),
        };
        self.data.extend_from_slice(&b[..room]);
        Ok(room)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn buf(w: W) -> BufWriter<Sink> {
    let cap = match w {
        W::Mem => 8192,
        W::Chunk(_, c) | W::Fail(_, c) | W::Full(_, c) => c,
    };
    BufWriter::with_capacity(cap, Sink { data: vec![], w })
}
/// everything the writer has taken: what reached the sink and what is still buffered
fn taken(b: BufWriter<Sink>) -> Vec<u8> {
    let (s, rest) = b.into_parts();
    let mut v = s.data;
    if let Ok(r) = rest {
        v.extend(r);
    }
    v
}

pub enum Lut {
    Min(MinimalSecureLayer),
    Full(SecureLayer),
}
pub struct World {
    pub s: Setup,
    luts: Vec<(Lut, Model)>,
    cur: usize,
    own_sig: Ed25519KeyPair,
    own_pk: Vec<u8>,
    sigs: Vec<Ed25519KeyPair>,
    pks: Vec<Vec<u8>>,
    sk: [u8; 32],
    epk: [u8; 32],
    sk2: [u8; 32],
    epk2: [u8; 32],
    sent: Vec<Vec<u8>>,
    own: Vec<Vec<u8>>,
    pub steps: usize,
    pub log: Vec<String>,
    pub reached: u32,
    /// the operations whose message was refused without having to fail the connection, and was it only a repetition
    pub refused_ops: Vec<(usize, bool)>,
    pub skip: std::collections::HashSet<usize>,
    blame: Vec<&'static str>,
    write_failed: bool,
    delivered: std::collections::BTreeSet<(usize, u64)>,
}
/// words from a small vocabulary: the levels of compression differ on it
fn prose(len: usize, f: u8) -> Vec<u8> {
    let mut x = 0x9E3779B97F4A7C15u64 ^ ((f as u64) << 32);
    let mut v = Vec::with_capacity(len + 16);
    while v.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let w = (x >> 40) % 300;
        for k in 0..2 + w % 9 {
            v.push(b'a' + ((w * 7 + k * k * 3 + w * k) % 26) as u8);
        }
        v.push(b' ');
    }
    v.truncate(len);
    v
}
pub fn fill(len: usize, f: u8) -> Vec<u8> {
    match f % 6 {
        5 => prose(len, f),
        0 => vec![0; len],
        4 => vec![f; len],
        1 => (0..len).map(|i| (i as u8).wrapping_mul(31).wrapping_add(f)).collect(),
        2 => {
            let mut x = 0x9E3779B97F4A7C15u64 ^ (len as u64) ^ ((f as u64) << 32);
            (0..len)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 24) as u8
                })
                .collect()
        }
        _ => {
            // looks like a frame
            let mut v = MAGIC.to_vec();
            v.extend_from_slice(&[0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 34]);
            v.resize(len, 7);
            v
        }
    }
}
fn typed(len: usize, f: u8) -> T {
    let b = fill(len, f);
    T {
        n: 0x1_0000_0000u64.wrapping_mul(len as u64 + 1) + f as u64,
        i: -(f as i32),
        s: b.iter().map(|x| (b'a' + x % 26) as char).collect(),
        v: b.iter().take(9).map(|x| *x as u16 * 257).collect(),
        o: if f % 3 == 0 { None } else { Some(Box::new(T { n: 1, i: 2, s: String::new(), v: vec![], o: None })) },
    }
}
pub fn fmt_of(i: usize) -> MessageFormat {
    match i {
        0 => MessageFormat::RawBinary,
        1 => MessageFormat::Utf8PlainText,
        2 => MessageFormat::Utf8Json,
        3 => MessageFormat::Cbor,
        _ => MessageFormat::Bincode,
    }
}
fn encode(fmt: usize, t: &T) -> Option<Vec<u8>> {
    let mut v = vec![0, 0, 0, fmt as u8];
    v.extend(match fmt {
        2 => serde_json::to_vec(t).ok()?,
        3 => serde_cbor::to_vec(t).ok()?,
        4 => bincode::serialize(t).ok()?,
        _ => return None,
    });
    Some(v)
}
fn decode(b: &[u8]) -> Option<T> {
    if b.len() < 4 || b[..3] != [0, 0, 0] {
        return None;
    }
    match b[3] {
        2 => serde_json::from_slice(&b[4..]).ok(),
        3 => serde_cbor::from_slice(&b[4..]).ok(),
        4 => bincode::deserialize(&b[4..]).ok(),
        _ => None,
    }
}
#[derive(Debug, PartialEq)]
enum Seen {
    Connect(Option<Vec<u8>>, Vec<u8>),
    Ack(Option<Vec<u8>>),
    User(Option<Vec<u8>>),
    TConnect(Option<T>, Vec<u8>),
    TAck(Option<T>),
    TUser(Option<T>),
}
enum Out {
    Ok(Vec<Seen>),
    Err(String),
    Panic(String),
}
fn short(b: &[u8]) -> String {
    let h: String = b.iter().take(40).map(|x| format!("{:02x}", x)).collect();
    format!("{}{} ({} bytes)", h, if b.len() > 40 { ".." } else { "" }, b.len())
}
fn vio(step: usize, props: &[&'static str], kind: &str, what: String) -> Violation {
    let mut p: Vec<&'static str> = vec![];
    for x in props {
        if !p.contains(x) {
            p.push(x);
        }
    }
    Violation { props: p, kind: kind.into(), what, step }
}
fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
fn config(s: &Setup) -> SecureLayerConfig {
    SecureLayerConfig {
        compression: flate2::Compression::new(s.level),
        compression_min_size: s.min_size,
        message_format: fmt_of(s.fmt),
        encrypt_algo: EncryptAlgo::default(),
    }
}
fn key_from(seed: u64, tag: u8) -> [u8; 32] {
    let mut v = seed.to_le_bytes().to_vec();
    v.push(tag);
    let h = sha(&v);
    let mut k = [0u8; 32];
    k.copy_from_slice(&h);
    k
}
pub type Check = std::result::Result<(), Violation>;

impl World {
    pub fn new(s: Setup) -> std::result::Result<World, Violation> {
        let sig = |t: u8| Ed25519KeyPair::from_seed_unchecked(&key_from(s.seed, t)).unwrap();
        let own_seed = key_from(s.seed, 9);
        let own_sig = Ed25519KeyPair::from_seed_unchecked(&own_seed).unwrap();
        let sigs = vec![sig(0), sig(1)];
        let pks: Vec<Vec<u8>> = sigs.iter().map(|k| k.public_key().as_ref().to_vec()).collect();
        let expect = match s.expect {
            0 => None,
            1 => Some(pks[0].clone()),
            2 => Some(pks[1].clone()),
            // nearly the genuine peer's key
            3 => Some(vec![]),
            4 => Some(pks[0][..s.seed as usize % 32].to_vec()),
            5 => Some([&pks[0][..], &[0u8; 3][..1 + s.seed as usize % 3]].concat()),
            6 => {
                let mut k = pks[0].clone();
                k[s.seed as usize % 32] ^= 1 << (s.seed >> 8) % 8;
                Some(k)
            }
            7 => Some(pks[0][s.seed as usize % 32..].to_vec()),
            _ => Some(vec![0; 32]),
        };
        let (c, e2) = (config(&s), expect.clone());
        let mode = s.mode;
        let r = catch_unwind(AssertUnwindSafe(|| match mode {
            Mode::Minimal => MinimalSecureLayer::create(c, e2).map(Lut::Min),
            _ => SecureLayer::create(c, Some(Seed32::new(own_seed)), e2).map(Lut::Full),
        }));
        let lut = match r {
            Ok(Ok(l)) => l,
            Ok(Err(e)) => return Err(vio(0, &["C12", "C16", "C17"], "create", format!("a layer cannot be created: {:?}", e))),
            Err(e) => return Err(vio(0, &["C01", "C12", "C16", "C17"], "panic", format!("creating a layer panics: {}", panic_text(e)))),
        };
        let (sk, sk2) = (key_from(s.seed, 3), key_from(s.seed, 4));
        let own_pk = own_sig.public_key().as_ref().to_vec();
        let m = Model::new(expect, s.fmt, s.level, s.min_size);
        Ok(World {
            luts: vec![(lut, m)],
            cur: 0,
            own_sig,
            own_pk,
            sigs,
            pks,
            epk: x25519::base(&sk),
            epk2: x25519::base(&sk2),
            sk,
            sk2,
            sent: vec![],
            own: vec![],
            steps: 0,
            log: vec![],
            reached: 0,
            refused_ops: vec![],
            skip: Default::default(),
            blame: vec![],
            write_failed: false,
            delivered: Default::default(),
            s,
        })
    }
    pub fn model(&self) -> &Model {
        &self.luts[self.cur].1
    }
    // ------------------------------------------------------------ messages of the reference peer
    fn pay(&self, p: Pay) -> (Option<Vec<u8>>, Vec<u8>) {
        // (payload as the application gave it, bytes in the frame)
        match p {
            Pay::Absent => (None, vec![]),
            Pay::Coded(code, fmt, cut, l, f) if self.s.mode == Mode::Typed => {
                let mut b = code.to_be_bytes().to_vec();
                b.extend(encode(fmt as usize, &typed(l.min(2000), f)).map_or(vec![1, 2, 3], |x| x[4..].to_vec()));
                b.truncate(cut);
                (Some(b.clone()), deflate(self.s.peer_level, &b))
            }
            Pay::Coded(_, _, _, l, f) | Pay::Len(l, f) => match self.s.mode {
                Mode::Minimal => {
                    let b = fill(l, f);
                    (Some(b.clone()), b)
                }
                Mode::Binary => {
                    let b = fill(l, f);
                    (Some(b.clone()), deflate(self.s.peer_level, &b))
                }
                Mode::Typed => {
                    let b = match encode(self.s.peer_fmt, &typed(l.min(70_000), f)) {
                        Some(b) => b,
                        None => {
                            let mut v = vec![0, 0, 0, self.s.peer_fmt as u8];
                            v.extend(fill(l.min(64), f));
                            v.truncate(l.min(68));
                            v
                        }
                    };
                    (Some(b.clone()), deflate(self.s.peer_level, &b))
                }
            },
        }
    }
    fn mutate(d: &mut Vec<u8>, m: Mutn, tail: usize) {
        match m {
            Mutn::Flip(i, b) => {
                if !d.is_empty() {
                    let i = i % d.len();
                    d[i] ^= if b == 0 { 1 } else { b };
                }
            }
            Mutn::Cut(n) => {
                let l = d.len();
                d.truncate(l - n.min(l));
            }
            Mutn::Extend(n) => d.extend(std::iter::repeat(0x5a).take(n)),
            Mutn::Length(x) => {
                if d.len() >= 16 {
                    let mut b = [0u8; 8];
                    b.copy_from_slice(&d[8..16]);
                    let v = (u64::from_be_bytes(b) as i64).wrapping_add(x) as u64;
                    d[8..16].copy_from_slice(&v.to_be_bytes());
                }
            }
            Mutn::SetLength(v) => {
                if d.len() >= 16 {
                    d[8..16].copy_from_slice(&v.to_be_bytes());
                }
            }
            Mutn::Trailer(k) => {
                let l = d.len();
                if tail <= l && tail > 0 {
                    match k % 4 {
                        0 => d.truncate(l - tail),
                        1 => d[l - tail..].iter_mut().for_each(|b| *b = 0),
                        2 => d[l - 1] ^= 0x80,
                        _ => d[l - tail] ^= 1,
                    }
                }
            }
            _ => {}
        }
    }
    fn pre(d: &mut Vec<u8>, m: Mutn) {
        match m {
            Mutn::Pre(i, b) => {
                if !d.is_empty() {
                    let i = i % d.len();
                    d[i] ^= if b == 0 { 1 } else { b };
                }
            }
            Mutn::PreLength(x) => Self::mutate(d, Mutn::Length(x), 0),
            _ => {}
        }
    }
    fn bytes(&self, msg: &Msg) -> Vec<u8> {
        let md = self.model();
        match msg {
            Msg::C { signer, announce, epk, p, m, sealed } => {
                let e = match epk {
                    Epk::Peer => self.epk.to_vec(),
                    Epk::Other => self.epk2.to_vec(),
                    Epk::High => {
                        let mut e = self.epk.to_vec();
                        e[31] |= 0x80;
                        e
                    }
                    Epk::Low(i) => LOW[i % LOW.len()].to_vec(),
                    Epk::Own => md.own_epk.clone().unwrap_or_else(|| self.epk2.to_vec()),
                };
                let mut d = connect_msg(&e, &self.pks[*announce], &self.pay(*p).1);
                Self::pre(&mut d, *m);
                let s = self.sigs[*signer].sign(&d);
                d.extend_from_slice(s.as_ref());
                Self::mutate(&mut d, *m, 64);
                if let (true, Some(k)) = (*sealed, &md.key) {
                    d = seal(k, &d);
                }
                d
            }
            Msg::A { signer, ch, p, m, sealed } => {
                let own = md.own_epk.clone().unwrap_or_else(|| vec![1; 32]);
                let c = match ch {
                    Chal::Right => sha(&own),
                    Chal::OfPeer => sha(&self.epk),
                    Chal::Zero => vec![0; 32],
                    Chal::OneBit(i) => {
                        let mut c = sha(&own);
                        c[i % 32] ^= 1 << (i % 8);
                        c
                    }
                    Chal::RawKey => own,
                };
                let mut d = ack_msg(&c, &self.pay(*p).1);
                Self::pre(&mut d, *m);
                let s = self.sigs[*signer].sign(&d);
                d.extend_from_slice(s.as_ref());
                Self::mutate(&mut d, *m, 64);
                if let (true, Some(k)) = (*sealed, &md.key) {
                    d = seal(k, &d);
                }
                d
            }
            Msg::U { n, p, hash, key, m, algo } => {
                let n = match n {
                    N::Next => md.low,
                    N::Rel(x) => (md.low as i64).wrapping_add(*x) as u64,
                    N::Abs(x) => *x,
                    N::Top(x) => u64::MAX - x,
                };
                let body = self.pay(*p).1;
                let mut f = user_plain(n, &body, true);
                let l = f.len();
                f.truncate(l - 32);
                Self::pre(&mut f, *m);
                let mut h = match algo {
                    0 => sha(&f),
                    1 => sha(&body),
                    _ => sha(&f[16..]),
                };
                if !hash {
                    h[(l * 7) % 32] ^= 0x20;
                }
                f.extend(h);
                if let Mutn::Trailer(_) | Mutn::Length(_) | Mutn::SetLength(_) = m {
                    Self::mutate(&mut f, *m, 32);
                }
                let k = match (&md.key, key) {
                    (_, KeySel::Clear) => return f,
                    (Some(k), KeySel::Session) => k.clone(),
                    (Some(k), KeySel::WrongNonce) => {
                        let mut k = k.clone();
                        k.n[0] ^= 1;
                        k
                    }
                    (Some(k), KeySel::WrongAad) => {
                        let mut k = k.clone();
                        k.a[3] ^= 1;
                        k
                    }
                    _ => Key { k: vec![3; 32], n: vec![0; 12], a: vec![0; 4] },
                };
                let mut d = seal(&k, &f);
                if let Mutn::Flip(..) | Mutn::Cut(_) | Mutn::Extend(_) = m {
                    Self::mutate(&mut d, *m, 0);
                }
                d
            }
            Msg::Old(i) => {
                if self.sent.is_empty() {
                    vec![]
                } else {
                    self.sent[i % self.sent.len()].clone()
                }
            }
            Msg::OldMut(i, m) => {
                let mut d = if self.sent.is_empty() { vec![] } else { self.sent[i % self.sent.len()].clone() };
                Self::mutate(&mut d, *m, 64);
                d
            }
            Msg::Own(i) => {
                if self.own.is_empty() {
                    vec![]
                } else {
                    self.own[i % self.own.len()].clone()
                }
            }
            Msg::Raw(b) => b.clone(),
        }
    }
    // ------------------------------------------------------------ observations
    fn call_read(&mut self, d: &[u8]) -> Out {
        let typed = self.s.mode == Mode::Typed;
        let l = &mut self.luts[self.cur].0;
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<Seen>> {
            match l {
                Lut::Min(m) => Ok(m.read(d)?.into_iter().map(seen_min).collect()),
                Lut::Full(f) if typed => Ok(f
                    .read::<T>(d)?
                    .into_iter()
                    .map(|m| match m {
                        IncomingMessage::Connect { custom_data, peer_sig_public_key } => Seen::TConnect(custom_data, peer_sig_public_key),
                        IncomingMessage::Ack { custom_data } => Seen::TAck(custom_data),
                        IncomingMessage::Message { data } => Seen::TUser(data),
                    })
                    .collect()),
                Lut::Full(f) => Ok(f
                    .read_bin(d)?
                    .into_iter()
                    .map(|m| match m {
                        IncomingBinaryMessage::Connect { custom_data, peer_sig_public_key } => Seen::Connect(custom_data, peer_sig_public_key),
                        IncomingBinaryMessage::Ack { custom_data } => Seen::Ack(custom_data),
                        IncomingBinaryMessage::Message { data } => Seen::User(data),
                    })
                    .collect()),
            }
        }));
        out(r)
    }
    fn complete(&self) -> bool {
        self.s.mode != Mode::Minimal
    }
    /// what the application must see of an event; None: an error instead
    fn shown(&self, e: &Ev) -> Option<Seen> {
        let conv = |p: &Option<Vec<u8>>| -> Option<Option<Vec<u8>>> {
            match p {
                None => Some(None),
                Some(z) if self.complete() => Some(Some(inflate(z)?)),
                Some(b) => Some(Some(b.clone())),
            }
        };
        if self.s.mode == Mode::Typed {
            let t = |p: &Option<Vec<u8>>| -> Option<Option<T>> {
                match conv(p)? {
                    None => Some(None),
                    Some(b) => Some(Some(decode(&b)?)),
                }
            };
            return Some(match e {
                Ev::Connect { pk, p } => Seen::TConnect(t(p)?, pk.clone()),
                Ev::Ack { p } => Seen::TAck(t(p)?),
                Ev::User { p } => Seen::TUser(t(p)?),
            });
        }
        Some(match e {
            Ev::Connect { pk, p } => Seen::Connect(conv(p)?, pk.clone()),
            Ev::Ack { p } => Seen::Ack(conv(p)?),
            Ev::User { p } => Seen::User(conv(p)?),
        })
    }
    fn x_props(&self, v: &[&'static str]) -> Vec<&'static str> {
        let mut v = v.to_vec();
        if self.complete() {
            v.push("C16");
        }
        if self.s.mode == Mode::Typed {
            v.push("C18");
        }
        if self.model().cloned {
            v.push("C19");
        }
        v
    }
    fn settle(&mut self, exp: Exp, out: Out, what: &str, is_read: bool) -> Check {
        let st = self.steps;
        let out = match out {
            Out::Panic(p) => {
                let mut v = vec!["C01"];
                match &exp {
                    Exp::Got(e) if !e.is_empty() => v.extend(self.x_props(&["C12"])),
                    Exp::Kept => v.push("C14"),
                    Exp::Refuse(w, true, _) => v.extend(w.props()),
                    _ => {}
                }
                if self.s.mode == Mode::Typed {
                    v.push("C18");
                }
                return Err(vio(st, &v, "panic", format!("{} panics: {}", what, p)));
            }
            o => o,
        };
        match exp {
            Exp::Open => Ok(()),
            Exp::AtMost(evs, whys) => {
                // a kept message is unacceptable: what comes out, if anything, are messages that are acceptable
                let want: Vec<Option<Seen>> = evs.iter().map(|e| self.shown(e)).collect();
                if let Out::Ok(got) = out {
                    let mut i = 0;
                    for g in &got {
                        while i < want.len() && want[i].as_ref() != Some(g) {
                            i += 1;
                        }
                        if i == want.len() {
                            let mut v: Vec<&'static str> = vec![];
                            for w in &whys {
                                v.extend(w.props());
                            }
                            return Err(vio(st, &v, "kept-accepted", format!("{}: a kept message that must be refused ({:?}) was delivered: {}", what, whys, dbg(&got))));
                        }
                        i += 1;
                    }
                }
                Err(vio(0, &[], "stop", String::new()))
            }
            Exp::Got(evs) => {
                if self.complete() && evs.iter().any(|e| e.payload().map_or(false, |z| inflate(z).is_none())) {
                    // not what a sender's layer produces: whatever comes, but no panic
                    return match out {
                        Out::Err(_) => Ok(()),
                        _ => Err(vio(0, &[], "stop", String::new())),
                    };
                }
                let want: Option<Vec<Seen>> = evs.iter().map(|e| self.shown(e)).collect();
                let maybe = std::mem::take(&mut self.luts[self.cur].1.maybe);
                match (want, out) {
                    // was the message taken, or had the connection failed before?
                    (None, Out::Err(_)) if maybe => Err(vio(0, &[], "stop", String::new())),
                    (None, Out::Ok(s)) if maybe && s.is_empty() => Err(vio(0, &[], "stop", String::new())),
                    (None, Out::Err(_)) => Ok(()),
                    (None, Out::Ok(s)) => {
                        Err(vio(st, if self.s.mode == Mode::Typed { &["C18"] } else { &["C16"] }, "undecodable-payload", format!("{}: a payload that cannot be decoded was delivered as {:?}", what, s)))
                    }
                    (Some(w), Out::Ok(s)) if w == s => {
                        for e in &evs {
                            match e {
                                Ev::Connect { .. } => self.reached |= 1,
                                Ev::Ack { .. } => self.reached |= 2,
                                Ev::User { .. } => self.reached |= 4,
                            }
                        }
                        Ok(())
                    }
                    (Some(_), Out::Ok(s)) if maybe && s.is_empty() && matches!(evs.first(), Some(Ev::Ack { .. })) => {
                        // a failed layer that never took the CONNECT may answer an ACK so
                        self.luts[self.cur].1.failed = true;
                        self.blame = vec!["C12"];
                        Ok(())
                    }
                    (Some(w), Out::Ok(s)) => {
                        let mut v: Vec<&'static str> = vec![];
                        if w.len() != s.len() {
                            v.push("C14");
                            if s.len() < w.len() {
                                v.push("C12");
                            } else {
                                v.push("C08");
                            }
                            if !is_read && what == "drain" {
                                v.push("C09");
                            }
                        }
                        for (e, (a, b)) in evs.iter().zip(w.iter().zip(s.iter())) {
                            if a == b {
                                continue;
                            }
                            match (e, a, b) {
                                (Ev::Connect { .. }, Seen::Connect(x, _), Seen::Connect(y, _)) if x == y => v.extend(["C02", "C12"]),
                                (Ev::Connect { .. }, Seen::TConnect(x, _), Seen::TConnect(y, _)) if x == y => v.extend(["C02", "C12"]),
                                (Ev::User { .. }, _, Seen::User(_)) | (Ev::User { .. }, _, Seen::TUser(_)) => v.extend(["C07", "C12"]),
                                _ => v.extend(["C12"]),
                            }
                            if evs.len() > 1 || what == "drain" {
                                v.push("C14");
                            }
                        }
                        if evs.len() > 1 {
                            v.push("C14");
                        }
                        let v = self.x_props(&v);
                        Err(vio(st, &v, "content", format!("{}: expected {} , got {}", what, dbg(&w), dbg(&s))))
                    }
                    (Some(w), Out::Err(e)) => {
                        if maybe {
                            // a refused message may have failed the connection: then it stays failed
                            self.luts[self.cur].1.failed = true;
                            self.blame = if evs.iter().any(|e| matches!(e, Ev::User { .. })) { vec!["C08", "C09", "C12"] } else { vec!["C12"] };
                            return Ok(());
                        }
                        let mut v: Vec<&'static str> = vec![];
                        for e in &evs {
                            match e {
                                Ev::User { .. } => v.extend(["C09", "C12"]),
                                _ => v.push("C12"),
                            }
                        }
                        if evs.len() != 1 || what == "drain" || what == "take" {
                            v.push("C14");
                        }
                        let v = self.x_props(&v);
                        Err(vio(st, &v, "refused", format!("{}: refused ({}), expected {}", what, e, dbg(&w))))
                    }
                    _ => Ok(()),
                }
            }
            Exp::Kept => {
                let maybe = std::mem::take(&mut self.luts[self.cur].1.maybe);
                match out {
                    Out::Ok(s) if s.is_empty() => {
                        // a failed layer may answer likewise
                        self.luts[self.cur].1.maybe = maybe;
                        Ok(())
                    }
                    Out::Ok(s) => Err(vio(st, &["C14", "C04"], "early", format!("{}: an early message was delivered at once: {}", what, dbg(&s)))),
                    Out::Err(_) if maybe => {
                        self.luts[self.cur].1.failed = true;
                        Ok(())
                    }
                    Out::Err(e) => {
                        let v = self.x_props(&["C14"]);
                        Err(vio(st, &v, "early", format!("{}: refused ({}), expected to be kept or ignored", what, e)))
                    }
                    _ => Ok(()),
                }
            }
            Exp::Refuse(why, must, may) => {
                match out {
                    Out::Err(_) => {}
                    Out::Ok(s) if s.is_empty() && (why == Why::Failed || !is_read) => {}
                    Out::Ok(s) => {
                        let mut v = why.props().to_vec();
                        if self.model().cloned {
                            v.push("C19");
                        }
                        if s.is_empty() {
                            v = v.into_iter().chain(["C14"]).collect();
                        }
                        if s.iter().any(|x| matches!(x, Seen::User(_) | Seen::TUser(_))) {
                            if !self.model().success() {
                                v.push("C04");
                            }
                        }
                        return Err(vio(st, &v, "accepted", format!("{}: must be refused ({:?}), but the result is {}", what, why, dbg(&s))));
                    }
                    _ => {}
                }
                let md = &mut self.luts[self.cur].1;
                md.refused += 1;
                if must {
                    md.failed = true;
                } else if may {
                    md.maybe = true;
                }
                if !must && is_read {
                    self.refused_ops.push((st, why == Why::Replay));
                }
                Ok(())
            }
        }
    }
    fn feed(&mut self, d: &[u8], what: &str) -> Check {
        let (epk, epk2, sk, sk2) = (self.epk, self.epk2, self.sk, self.sk2);
        let complete = self.complete();
        let md = &mut self.luts[self.cur].1;
        let mut exp = md.read(
            d,
            |e| x25519::scalarmult(&sk, e) == [0u8; 32],
            |e| if e[..31] == epk[..31] && e[31] & 0x7f == epk[31] & 0x7f { Some(sk) } else if e == epk2 { Some(sk2) } else { None },
        );
        if complete {
            // what has been kept is delivered by itself
            if let Exp::Got(v) = &mut exp {
                match v.first() {
                    Some(Ev::Connect { .. }) => {
                        if let Exp::Got(a) = md.take() {
                            v.extend(a)
                        }
                    }
                    Some(Ev::Ack { .. }) => match md.drain() {
                        Exp::Got(a) => v.extend(a),
                        Exp::AtMost(a, w) => {
                            v.extend(a);
                            exp = Exp::AtMost(std::mem::take(v), w);
                        }
                        _ => exp = Exp::Open,
                    },
                    _ => {}
                }
            }
        }
        let o = self.call_read(d);
        if let Exp::Open = exp {
            if let Out::Panic(p) = o {
                return Err(vio(self.steps, &["C01"], "panic", format!("{} panics: {}", what, p)));
            }
            return Err(vio(0, &[], "stop", String::new()));
        }
        self.settle(exp, o, what, true)
    }
    fn create(&mut self, connect: bool, p: Pay, w: W) -> Check {
        let st = self.steps;
        let what = if connect { "creating CONNECT" } else { "creating ACK" };
        let mode = self.s.mode;
        let md = &self.luts[self.cur].1;
        let may = if connect { md.ongoing() && !md.cc } else { md.ongoing() && md.pc && !md.oa };
        let fmt = md.fmt;
        let raw = p.len().map(|(l, f)| fill(l, f));
        let t = p.len().map(|(l, f)| typed(l.min(70_000), f));
        let serializable = mode != Mode::Typed || t.is_none() || fmt >= 2;
        let own_pk = self.own_pk.clone();
        let mut bw = buf(w);
        let r = {
            let l = &mut self.luts[self.cur].0;
            let b = &mut bw;
            catch_unwind(AssertUnwindSafe(|| -> Result<Vec<u8>> {
                match l {
                    Lut::Min(m) => {
                        if connect {
                            m.create_connect_message(&own_pk, raw.as_ref().map(|v| &v[..]))
                        } else {
                            m.create_ack_message(raw.as_ref().map(|v| &v[..]))
                        }
                    }
                    Lut::Full(f) => {
                        match (mode, connect) {
                            (Mode::Typed, true) => f.write_connect_msg(t.as_ref(), b)?,
                            (Mode::Typed, false) => f.write_ack_msg(t.as_ref(), b)?,
                            (_, true) => f.write_connect_msg_bin(raw.as_ref().map(|v| &v[..]), b)?,
                            (_, false) => f.write_ack_msg_bin(raw.as_ref().map(|v| &v[..]), b)?,
                        }
                        Ok(vec![])
                    }
                }
            }))
        };
        let mut got = taken(bw);
        let r = match r {
            Err(e) => return Err(vio(st, &if may { self.x_props(&["C01", "C12", "C17", "C11"]) } else { vec!["C01", "C04"] }, "panic", format!("{} panics: {}", what, panic_text(e)))),
            Ok(r) => r,
        };
        let md = &mut self.luts[self.cur].1;
        let maybe = std::mem::take(&mut md.maybe);
        if !serializable {
            if r.is_ok() {
                return Err(vio(st, &["C18"], "format", format!("{}: a format without typed values was accepted", what)));
            }
            if !got.is_empty() {
                return Err(vio(st, &["C17", "C18"], "output", format!("{}: refused, but bytes were written", what)));
            }
            md.maybe = maybe;
            return Ok(());
        }
        if !may {
            if maybe {
                md.maybe = true;
            }
            let failed = md.failed;
            let cloned = md.cloned;
            md.maybe = md.maybe || !failed;
            if r.is_ok() || !got.is_empty() {
                let mut v = vec!["C04"];
                if failed {
                    v = vec!["C05", "C04"];
                }
                if cloned {
                    v.push("C19");
                }
                return Err(vio(st, &v, "created", format!("{}: must be refused", what)));
            }
            return Ok(());
        }
        match r {
            Err(e) => {
                if maybe && (got.is_empty() || matches!(w, W::Mem | W::Chunk(..))) {
                    md.failed = true;
                    if !got.is_empty() {
                        return Err(vio(st, &["C05"], "output", format!("{}: a failed layer wrote bytes", what)));
                    }
                    return Ok(());
                }
                if !matches!(w, W::Mem | W::Chunk(..)) && self.s.mode != Mode::Minimal {
                    return Err(vio(0, &[], "stop", String::new()));
                }
                let v = self.x_props(&["C12", "C17", "C04"]);
                Err(vio(st, &v, "refused", format!("{}: refused ({:?}), but it is permitted", what, e)))
            }
            Ok(b) => {
                if mode == Mode::Minimal {
                    got = b;
                }
                // the expected bytes
                let (sig, body): (Vec<u8>, Vec<u8>) = if mode == Mode::Minimal {
                    (vec![], got.clone())
                } else if got.len() >= 64 {
                    (got[got.len() - 64..].to_vec(), got[..got.len() - 64].to_vec())
                } else {
                    (vec![], got.clone())
                };
                if mode != Mode::Minimal && !sig_valid(&own_pk, &body, &sig) {
                    return Err(vio(st, &["C17", "C12", "C16"], "signature", format!("{}: reported success, but the bytes handed over do not end with a valid signature of the message: {}", what, short(&got))));
                }
                let md = &mut self.luts[self.cur].1;
                if connect {
                    if body.len() >= 50 && md.own_epk.is_none() {
                        md.own_epk = Some(body[18..50].to_vec());
                        md.learn_key();
                    }
                    md.cc = true;
                } else {
                    md.oa = true;
                }
                let hl = if connect { 86 } else { 50 };
                let pay = if body.len() >= hl { body[hl..].to_vec() } else { vec![] };
                let want = if connect { connect_msg(md.own_epk.as_ref().unwrap_or(&vec![]), &own_pk, &pay) } else { ack_msg(&sha(md.peer_epk.as_ref().unwrap_or(&vec![])), &pay) };
                if body != want {
                    let mut v = vec!["C11", "C12"];
                    if !connect && body.len() >= 50 && body[18..50] != want[18..50] {
                        v.push("C03");
                    }
                    if mode != Mode::Minimal {
                        v.extend(["C17", "C16"]);
                    }
                    return Err(vio(st, &v, "bytes", format!("{}: expected {} , got {}", what, short(&want), short(&body))));
                }
                let ok = match (mode, &raw, &t) {
                    (Mode::Minimal, r, _) => pay == r.clone().unwrap_or_default(),
                    (_, None, None) => pay.is_empty(),
                    (Mode::Binary, Some(r), _) => !pay.is_empty() && inflate(&pay).as_ref() == Some(r),
                    (_, _, Some(t)) => !pay.is_empty() && inflate(&pay) == encode(fmt, t),
                    _ => false,
                };
                if !ok {
                    let mut v = vec!["C11", "C12"];
                    if mode != Mode::Minimal {
                        v.push("C16");
                    }
                    if mode == Mode::Typed {
                        v.extend(["C18", "C23"]);
                    }
                    return Err(vio(st, &v, "payload", format!("{}: the payload in the message is not the one given: {}", what, short(&pay))));
                }
                self.packed(&pay, what)?;
                self.own.push(got);
                Ok(())
            }
        }
    }
    /// a payload of complete mode is as large as the settings make it
    fn packed(&self, z: &[u8], what: &str) -> Check {
        if self.s.mode == Mode::Minimal || z.is_empty() {
            return Ok(());
        }
        let md = &self.luts[self.cur].1;
        if let Some(d) = inflate(z) {
            let lv = if d.len() < md.min_size { 0 } else { md.level };
            let r = deflate(lv, &d).len();
            if (z.len() as i64 - r as i64).abs() > 2 + r as i64 / 25 {
                return Err(vio(self.steps, &["C23"], "settings", format!("{}: {} bytes with the settings level {}, minimal size {} were packed into {} bytes instead of {}", what, d.len(), md.level, md.min_size, z.len(), r)));
            }
        }
        Ok(())
    }
    fn write(&mut self, p: Pay, w: W) -> Check {
        let st = self.steps;
        let mode = self.s.mode;
        let (l, f) = p.len().unwrap_or((0, 0));
        let raw = fill(l, f);
        let t = typed(l.min(70_000), f);
        let md = &self.luts[self.cur].1;
        let fmt = md.fmt;
        let may = md.success();
        let next = md.next_out;
        let serializable = mode != Mode::Typed || fmt >= 2;
        let mut bw = buf(w);
        let r = {
            let l = &mut self.luts[self.cur].0;
            let b = &mut bw;
            catch_unwind(AssertUnwindSafe(|| match l {
                Lut::Min(m) => m.write_message(&raw, b),
                Lut::Full(f) if mode == Mode::Typed => f.write(&t, b),
                Lut::Full(f) => f.write_bin(&raw, b),
            }))
        };
        let got = taken(bw);
        let r = match r {
            Err(e) => return Err(vio(st, &if may { self.x_props(&["C01", "C12", "C17", "C10"]) } else { vec!["C01", "C04"] }, "panic", format!("writing a user message panics: {}", panic_text(e)))),
            Ok(r) => r,
        };
        let md = &mut self.luts[self.cur].1;
        if !serializable {
            if r.is_ok() || !got.is_empty() {
                return Err(vio(st, &["C18"], "format", "writing a user message: a format without typed values was accepted".into()));
            }
            return Ok(());
        }
        if !may {
            if r.is_ok() || !got.is_empty() {
                let mut v = vec!["C04", "C06"];
                if md.failed {
                    v = vec!["C05", "C04"];
                }
                return Err(vio(st, &v, "written", format!("a user message was written although the negotiation is not successful: {}", short(&got))));
            }
            if !md.failed {
                md.maybe = true;
            }
            return Ok(());
        }
        let maybe = std::mem::take(&mut md.maybe);
        let key = match &md.key {
            Some(k) => k.clone(),
            None => return Ok(()),
        };
        match r {
            Err(e) => {
                if maybe && (got.is_empty() || matches!(w, W::Mem | W::Chunk(..))) {
                    md.failed = true;
                    if !got.is_empty() {
                        return Err(vio(st, &["C05"], "output", "a failed layer wrote bytes".into()));
                    }
                    return Ok(());
                }
                if matches!(w, W::Mem | W::Chunk(..)) {
                    let v = self.x_props(&["C12", "C10", "C17"]);
                    return Err(vio(st, &v, "refused", format!("writing a user message fails: {:?}", e)));
                }
                // a failed write ends writing
                md.failed = true;
                self.write_failed = true;
                Ok(())
            }
            Ok(()) => {
                md.next_out += 1;
                let plain = match unseal(&key, &got) {
                    Some(x) => x,
                    None => {
                        return Err(vio(st, &["C06", "C17", "C12", "C13", "C16"], "ciphertext", format!("reported success, but what was handed over is not the complete encryption under the session key: {}", short(&got))));
                    }
                };
                let body = if plain.len() >= 58 { plain[26..plain.len() - 32].to_vec() } else { vec![] };
                let want = user_plain(next, &body, true);
                if plain != want {
                    let mut v = vec!["C11", "C12", "C06"];
                    if plain.len() >= 26 && plain[18..26] != want[18..26] {
                        v = vec!["C10"];
                        if self.model().cloned {
                            v.push("C19");
                        }
                    }
                    return Err(vio(st, &v, "bytes", format!("the plaintext of user message {} is {} , expected {}", next, short(&plain), short(&want))));
                }
                let ok = match mode {
                    Mode::Minimal => body == raw,
                    Mode::Binary => !body.is_empty() && inflate(&body).as_ref() == Some(&raw),
                    Mode::Typed => inflate(&body) == encode(fmt, &t),
                };
                if !ok {
                    let mut v = vec!["C11", "C12", "C17"];
                    if mode != Mode::Minimal {
                        v.push("C16");
                    }
                    if mode == Mode::Typed {
                        v.extend(["C18", "C23"]);
                    }
                    return Err(vio(st, &v, "payload", format!("the payload in user message {} is not the one given: {}", next, short(&body))));
                }
                self.packed(&body, "user message")?;
                self.own.push(got);
                self.reached |= 8;
                Ok(())
            }
        }
    }
    fn min_op(&mut self, drain: bool) -> Check {
        let exp = {
            let md = &mut self.luts[self.cur].1;
            if drain {
                md.drain()
            } else {
                md.take()
            }
        };
        let l = &mut self.luts[self.cur].0;
        let r = match l {
            Lut::Min(m) => catch_unwind(AssertUnwindSafe(|| -> Result<Vec<Seen>> {
                if drain {
                    Ok(m.drain_tmp_stack_user_msgs()?.into_iter().map(seen_min).collect())
                } else {
                    Ok(m.take_ack_msg_recv_too_early()?.into_iter().map(seen_min).collect())
                }
            })),
            _ => return Ok(()),
        };
        if let (Exp::Open, Ok(_)) = (&exp, &r) {
            return Err(vio(0, &[], "stop", String::new()));
        }
        // nothing to deliver: no statement about an error is needed when the state is uncertain
        let o = out(r);
        if let (Exp::Kept, false) = (&exp, drain) {
            if self.model().maybe {
                return match o {
                    Out::Ok(s) if !s.is_empty() => Err(vio(self.steps, &["C14"], "taken", "an ACK came out although none is kept".into())),
                    Out::Panic(p) => Err(vio(self.steps, &["C01"], "panic", p)),
                    _ => Ok(()),
                };
            }
        }
        if let (Exp::Got(e), true) = (&exp, drain) {
            if e.is_empty() && self.model().maybe {
                return match o {
                    Out::Ok(s) if !s.is_empty() => Err(vio(self.steps, &["C14", "C08", "C04"], "drained", "messages came out although none is deliverable".into())),
                    Out::Panic(p) => Err(vio(self.steps, &["C01"], "panic", p)),
                    _ => Ok(()),
                };
            }
        }
        self.settle(exp, o, if drain { "drain" } else { "take" }, false)
    }
    fn try_clone(&mut self) -> Check {
        let st = self.steps;
        let (l, md) = &mut self.luts[self.cur];
        let r = catch_unwind(AssertUnwindSafe(|| match l {
            Lut::Min(m) => m.try_clone().map(Lut::Min),
            Lut::Full(f) => f.try_clone().map(Lut::Full),
        }));
        match r {
            Err(e) => Err(vio(st, &["C01", "C19"], "panic", format!("cloning panics: {}", panic_text(e)))),
            Ok(Ok(_)) if !md.success() => {
                let v: &[&'static str] = if md.failed { &["C05", "C19"] } else { &["C19"] };
                Err(vio(st, v, "cloned", "a layer whose negotiation has not succeeded was cloned".into()))
            }
            Ok(Ok(c)) => {
                md.maybe = false;
                md.cloned = true;
                let mut m2 = md.clone();
                m2.has_kp = false;
                // a clone does not know the key of the peer and keeps no early ACK
                m2.peer = None;
                m2.early = None;
                if self.luts.len() < 6 {
                    self.luts.push((c, m2));
                }
                self.reached |= 16;
                Ok(())
            }
            Ok(Err(e)) if md.success() => {
                if md.maybe {
                    md.maybe = false;
                    md.failed = true;
                    return Ok(());
                }
                Err(vio(st, &["C19"], "clone-refused", format!("a successful layer cannot be cloned: {:?}", e)))
            }
            Ok(Err(_)) => Ok(()),
        }
    }
    fn set_config(&mut self, k: u8) -> Check {
        let st = self.steps;
        let fmt = (k as usize) % 5;
        let s2 = Setup { level: (k % 10) as u32, min_size: (k as usize) * 40, fmt, ..self.s.clone() };
        let c = config(&s2);
        let (l, md) = &mut self.luts[self.cur];
        let r = catch_unwind(AssertUnwindSafe(|| match l {
            Lut::Min(m) => m.change_config(c),
            Lut::Full(f) => f.change_config(c),
        }));
        match r {
            Err(e) => Err(vio(st, &["C01", "C19"], "panic", format!("changing the settings panics: {}", panic_text(e)))),
            Ok(Ok(())) if md.cloned => Err(vio(st, &["C19", "C23"], "config", "the settings of a cloned layer were changed".into())),
            Ok(Err(e)) if !md.cloned => Err(vio(st, &["C19", "C23"], "config", format!("the settings cannot be changed: {:?}", e))),
            Ok(r) => {
                if r.is_ok() {
                    md.fmt = fmt;
                    md.level = s2.level;
                    md.min_size = s2.min_size;
                }
                Ok(())
            }
        }
    }
    fn one(&mut self, op: &Op) -> Check {
        match op {
            Op::Connect(p, w) => self.create(true, *p, *w),
            Op::Ack(p, w) => self.create(false, *p, *w),
            Op::Write(p, w) => self.write(*p, *w),
            Op::Take => self.min_op(false),
            Op::Drain => self.min_op(true),
            Op::Clone => self.try_clone(),
            Op::Switch(k) => {
                self.cur = k % self.luts.len();
                Ok(())
            }
            Op::Config(k) => self.set_config(*k),
            Op::Feed(m) => {
                let d = self.bytes(m);
                if self.skip.contains(&self.steps) {
                    self.sent.push(d);
                    return Ok(());
                }
                let r = self.feed(&d, &format!("reading {:?}", m).chars().take(200).collect::<String>());
                self.sent.push(d);
                r
            }
            Op::Writes(k) => {
                for _ in 0..*k {
                    if !self.model().success() {
                        break;
                    }
                    self.write(Pay::Len(1, 1), W::Mem)?;
                    if self.own.len() > 64 {
                        self.own.truncate(32);
                    }
                }
                Ok(())
            }
            Op::Batch(a, b) | Op::Down(a, b) => {
                let low = self.model().low;
                for i in *a..*b {
                    let n = if matches!(op, Op::Batch(..)) { i } else { a + (b - 1 - i) };
                    self.numbered(low.wrapping_add(n))?;
                }
                Ok(())
            }
            Op::Span(a, b, step) => {
                let mut n = *a;
                while n < *b {
                    self.numbered(n)?;
                    n = n.saturating_add(*step);
                }
                Ok(())
            }
            Op::Mixed(a, b) => {
                let low = self.model().low;
                let mut v: Vec<u64> = (0..*a).collect();
                let mut x = 0x2545_F491_4F6C_DD1Du64 ^ a;
                for c in v.chunks_mut(*b as usize) {
                    for i in (1..c.len()).rev() {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        c.swap(i, (x % (i as u64 + 1)) as usize);
                    }
                }
                for n in v {
                    self.numbered(low.wrapping_add(n))?;
                }
                Ok(())
            }
        }
    }
    fn numbered(&mut self, n: u64) -> Check {
        let m = Msg::U { n: N::Abs(n), p: Pay::Len(1, 1), hash: true, key: KeySel::Session, m: Mutn::None, algo: 0 };
        let d = self.bytes(&m);
        self.feed(&d, &format!("reading user message {}", n))
    }
    /// after a failure nothing may work any more; a failure only presumed from a refusal counts against C15
    fn silent(&mut self, presumed: bool) -> Check {
        let (w, y) = (W::Mem, Mutn::None);
        let p = Pay::Len(5, 1);
        let u = Op::Feed(Msg::U { n: N::Next, p, hash: true, key: KeySel::Session, m: y, algo: 0 });
        let c = Op::Feed(Msg::C { signer: 0, announce: 0, epk: Epk::Peer, p, m: y, sealed: false });
        let a = Op::Feed(Msg::A { signer: 0, ch: Chal::Right, p, m: y, sealed: false });
        // first what must not fail a healthy layer, then the rest
        let write_failed = std::mem::take(&mut self.write_failed);
        let md = self.model();
        let mut ops = vec![];
        if write_failed {
            ops.extend([Op::Write(p, w), Op::Write(Pay::Len(0, 1), w)]);
        } else if md.cc && md.pc && md.oa && md.pa {
            ops.extend([Op::Drain, Op::Clone, u.clone(), Op::Write(p, w), Op::Connect(p, w), Op::Ack(p, w)]);
        } else {
            ops.extend([Op::Connect(p, w), Op::Ack(p, w)]);
            if !md.pc {
                ops.extend([c.clone(), Op::Ack(p, w)]);
            }
            if !md.pa {
                ops.push(a.clone());
            }
        }
        ops.extend([Op::Take, Op::Drain, u, c, a, Op::Write(p, w), Op::Clone]);
        for op in ops {
            if let Err(mut v) = self.one(&op) {
                if v.props.is_empty() {
                    return Err(v);
                }
                if write_failed {
                    v.props.push("C10");
                }
                if presumed {
                    v.props.push("C15");
                    v.props.extend(self.blame.iter());
                    v.kind = "refused-not-failed".into();
                }
                v.what = format!("after the connection was failed{}: {}", if presumed { " (a legitimate operation was refused after a refused message)" } else { "" }, v.what);
                return Err(v);
            }
        }
        Ok(())
    }
    pub fn run(&mut self, ops: &[Op]) -> Check {
        for (i, op) in ops.iter().enumerate() {
            self.steps = i;
            let (f, m) = (self.model().failed, self.model().maybe);
            let cur = self.cur;
            let mut r = self.one(op);
            if r.is_ok() && cur == self.cur && !f && self.model().failed {
                r = self.silent(m);
            }
            if let Err(v) = r {
                if v.props.is_empty() {
                    return Ok(());
                }
                return Err(v);
            }
        }
        Ok(())
    }
    /// the layers of this world, each with its session key where the session is open
    pub fn into_layers(self) -> Vec<(Lut, Option<Key>)> {
        self.luts
            .into_iter()
            .map(|(l, m)| {
                let live = m.oa && m.pa && !m.failed && !m.maybe;
                (l, m.key.filter(|_| live))
            })
            .collect()
    }
    pub fn own_messages(&self) -> &[Vec<u8>] {
        &self.own
    }
    pub fn keys_used(&self) -> Option<(&Key, usize)> {
        self.model().key.as_ref().map(|k| (k, self.model().next_out as usize))
    }
}
fn out(r: std::thread::Result<Result<Vec<Seen>>>) -> Out {
    match r {
        Err(e) => Out::Panic(panic_text(e)),
        Ok(Err(e)) => Out::Err(catch_unwind(AssertUnwindSafe(|| format!("{:?}", e))).unwrap_or_default()),
        Ok(Ok(v)) => Out::Ok(v),
    }
}
fn seen_min(m: Message) -> Seen {
    match m {
        Message::Connect { custom_data, sig_pubkey, .. } => Seen::Connect(custom_data, sig_pubkey),
        Message::Ack { custom_data } => Seen::Ack(custom_data),
        Message::Message { custom_data } => Seen::User(custom_data),
    }
}
fn dbg<D: std::fmt::Debug>(v: &D) -> String {
    let s = format!("{:?}", v);
    if s.len() > 300 {
        format!("{}.. ({} chars)", s.chars().take(300).collect::<String>(), s.len())
    } else {
        s
    }
}
