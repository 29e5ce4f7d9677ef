//! What a layer has to do, as the properties state it (a model of the observable behaviour).
use crate::refer::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Why {
    Failed,
    Undecodable,
    Undecryptable,
    Encryption,
    BadSig,
    Pinned,
    Challenge,
    Hash,
    Replay,
    KeptDup,
    Permit,
    EarlyTwice,
    Overflow,
    NoAgreement,
}
impl Why {
    /// properties broken when such a message is taken after all
    pub fn props(self) -> &'static [&'static str] {
        match self {
            Why::Failed => &["C05", "C04"],
            Why::Undecodable => &["C05", "C07", "C02"],
            Why::Undecryptable => &["C05", "C07", "C06"],
            Why::Encryption => &["C06", "C05"],
            Why::BadSig | Why::Pinned => &["C02", "C15"],
            Why::Challenge => &["C03"],
            Why::Hash => &["C07"],
            Why::Replay => &["C08"],
            Why::KeptDup => &["C14", "C08"],
            Why::Permit => &["C04", "C05", "C03"],
            Why::EarlyTwice => &["C14", "C05"],
            Why::Overflow => &["C09", "C05"],
            Why::NoAgreement => &["C05", "C13"],
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Connect { pk: Vec<u8>, p: Option<Vec<u8>> },
    Ack { p: Option<Vec<u8>> },
    User { p: Option<Vec<u8>> },
}
impl Ev {
    pub fn payload(&self) -> Option<&Vec<u8>> {
        match self {
            Ev::Connect { p, .. } | Ev::Ack { p } | Ev::User { p } => p.as_ref(),
        }
    }
}
#[derive(Clone, Debug)]
pub enum Exp {
    Got(Vec<Ev>),
    Kept,
    /// refused; must the connection fail / may it fail
    Refuse(Why, bool, bool),
    /// nothing but these, in this order, some possibly missing; the others are refused for the reasons given
    AtMost(Vec<Ev>, Vec<Why>),
    /// the statement leaves it open
    Open,
}
#[derive(Clone)]
pub struct Model {
    pub failed: bool,
    pub maybe: bool,
    pub cc: bool,
    pub pc: bool,
    pub oa: bool,
    pub pa: bool,
    pub peer: Option<Vec<u8>>,
    pub own_epk: Option<Vec<u8>>,
    pub peer_epk: Option<Vec<u8>>,
    pub secret_for: Option<[u8; 32]>,
    pub key: Option<Key>,
    pub low: u64,
    pub orphans: BTreeSet<u64>,
    pub kept: Vec<Vec<u8>>,
    pub early: Option<Vec<u8>>,
    pub next_out: u64,
    pub cloned: bool,
    pub has_kp: bool,
    pub fmt: usize,
    pub level: u32,
    pub min_size: usize,
    pub refused: usize,
}
pub const WINDOW: usize = 10_000;
fn opt(p: &[u8]) -> Option<Vec<u8>> {
    if p.is_empty() {
        None
    } else {
        Some(p.to_vec())
    }
}
impl Model {
    pub fn new(expected: Option<Vec<u8>>, fmt: usize, level: u32, min_size: usize) -> Self {
        Model {
            failed: false,
            maybe: false,
            cc: false,
            pc: false,
            oa: false,
            pa: false,
            peer: expected,
            own_epk: None,
            peer_epk: None,
            secret_for: None,
            key: None,
            low: 0,
            orphans: BTreeSet::new(),
            kept: vec![],
            early: None,
            next_out: 0,
            cloned: false,
            has_kp: true,
            fmt,
            level,
            min_size,
            refused: 0,
        }
    }
    pub fn success(&self) -> bool {
        !self.failed && self.cc && self.pc && self.oa && self.pa
    }
    pub fn ongoing(&self) -> bool {
        !self.failed && !self.success()
    }
    pub fn keeps_user(&self) -> bool {
        self.ongoing() && self.cc && self.oa && !self.pa
    }
    pub fn received(&self, n: u64) -> bool {
        n < self.low || self.orphans.contains(&n)
    }
    /// the session key, once both ephemeral public keys are known here
    pub fn learn_key(&mut self) {
        if self.key.is_none() {
            if let (Some(o), Some(p), Some(sk)) = (&self.own_epk, &self.peer_epk, &self.secret_for) {
                let s = crate::x25519::scalarmult(sk, o);
                self.key = Some(derive(o, p, &s));
            }
        }
    }
    fn mark(&mut self, n: u64) {
        if n == self.low {
            self.low += 1;
            while self.orphans.remove(&self.low) {
                self.low += 1;
            }
        } else {
            self.orphans.insert(n);
        }
    }
    fn ack(&mut self, f: &Frame, d: &[u8]) -> Exp {
        let c = match &f.hdr {
            Hdr::Ack { challenge } => challenge,
            _ => unreachable!(),
        };
        if self.own_epk.as_ref().map_or(true, |o| sha(o) != *c) {
            return Exp::Refuse(Why::Challenge, false, true);
        }
        let pk = match &self.peer {
            None => {
                if self.early.is_none() {
                    self.early = Some(d.to_vec());
                    return Exp::Kept;
                }
                return Exp::Refuse(Why::EarlyTwice, true, true);
            }
            Some(p) => p.clone(),
        };
        if !f.sig_ok(&pk) {
            return Exp::Refuse(Why::BadSig, false, true);
        }
        if !(self.ongoing() && self.cc && !self.pa) {
            return Exp::Refuse(Why::Permit, true, true);
        }
        self.pa = true;
        Exp::Got(vec![Ev::Ack { p: opt(f.payload()) }])
    }
    fn user(&mut self, f: &Frame) -> Exp {
        let n = match f.hdr {
            Hdr::User { n } => n,
            _ => unreachable!(),
        };
        if self.received(n) {
            return Exp::Refuse(Why::Replay, false, false);
        }
        if self.kept.contains(&f.data) {
            return Exp::Refuse(Why::KeptDup, false, false);
        }
        if self.keeps_user() {
            self.kept.push(f.data.clone());
            return Exp::Kept;
        }
        if !self.success() {
            return Exp::Refuse(Why::Permit, true, true);
        }
        if !f.hash_ok() {
            return Exp::Refuse(Why::Hash, false, true);
        }
        if n != self.low && self.orphans.len() >= WINDOW {
            return Exp::Refuse(Why::Overflow, true, true);
        }
        self.mark(n);
        Exp::Got(vec![Ev::User { p: opt(f.payload()) }])
    }
    /// minimal mode
    pub fn read(&mut self, d: &[u8], x25519_zero: impl Fn(&[u8]) -> bool, secret_of: impl Fn(&[u8]) -> Option<[u8; 32]>) -> Exp {
        if self.failed {
            return Exp::Refuse(Why::Failed, true, true);
        }
        let plain = if d.len() < 4 {
            None
        } else if clear(d) {
            Some(d.to_vec())
        } else {
            match &self.key {
                Some(k) => match unseal(k, d) {
                    None => return Exp::Refuse(Why::Undecryptable, true, true),
                    x => x,
                },
                None => return Exp::Refuse(Why::Undecryptable, true, true),
            }
        };
        let f = match plain.as_ref().and_then(|p| parse(p)) {
            None => return Exp::Refuse(Why::Undecodable, true, true),
            Some(f) => f,
        };
        if clear(d) == matches!(f.hdr, Hdr::User { .. }) {
            return Exp::Refuse(Why::Encryption, true, true);
        }
        match &f.hdr {
            Hdr::Connect { epk, pk } => {
                if !f.sig_ok(pk) {
                    return Exp::Refuse(Why::BadSig, false, true);
                }
                if self.peer.as_ref().map_or(false, |p| p != pk) {
                    return Exp::Refuse(Why::Pinned, false, true);
                }
                if !(self.ongoing() && !self.pc) {
                    return Exp::Refuse(Why::Permit, true, true);
                }
                if x25519_zero(epk) {
                    return Exp::Refuse(Why::NoAgreement, true, true);
                }
                self.pc = true;
                self.has_kp = false;
                self.peer = Some(pk.clone());
                self.peer_epk = Some(epk.clone());
                self.secret_for = secret_of(epk);
                self.learn_key();
                Exp::Got(vec![Ev::Connect { pk: pk.clone(), p: opt(f.payload()) }])
            }
            Hdr::Ack { .. } => self.ack(&f, d),
            Hdr::User { .. } => self.user(&f),
        }
    }
    pub fn take(&mut self) -> Exp {
        match self.early.take() {
            None => Exp::Kept,
            Some(d) => {
                if self.failed {
                    return Exp::Refuse(Why::Failed, true, true);
                }
                let f = parse(&d).unwrap();
                self.ack(&f, &d)
            }
        }
    }
    pub fn drain(&mut self) -> Exp {
        if self.failed {
            return Exp::Refuse(Why::Failed, true, true);
        }
        if !self.success() {
            return Exp::Got(vec![]);
        }
        let v = std::mem::take(&mut self.kept);
        let mut out = vec![];
        let mut whys = vec![];
        for d in v {
            let f = parse(&d).unwrap();
            match self.user(&f) {
                Exp::Got(e) => out.extend(e),
                Exp::Refuse(w, _, _) => whys.push(w),
                _ => return Exp::Open,
            }
        }
        if whys.is_empty() {
            Exp::Got(out)
        } else {
            Exp::AtMost(out, whys)
        }
    }
}
