//! Random scenarios: a legitimate negotiation in any order, with early, hostile, replayed and reordered
//! messages in between, then traffic in both directions.
use crate::world::*;

pub struct Gen {
    x: u64,
    prop: String,
    lens: Vec<usize>,
    nums: Vec<u64>,
    lits: Vec<u64>,
    /// literals the source did not have before: a boundary may lie there
    novel: Vec<u64>,
    /// the minimal size for compression now
    min: usize,
}
impl Gen {
    pub fn new(seed: u64, prop: &str, lits: &[u64], novel: &[u64]) -> Gen {
        let mut lens: Vec<usize> = vec![
            0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 34, 35, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096,
            4097, 8191, 8192, 8193, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 100_000, 262_145,
        ];
        let mut nums = vec![0u64, 1, 2, 9_999, 10_000, 10_001, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 63) - 1];
        for &l in lits {
            for d in [l.wrapping_sub(1), l, l.wrapping_add(1)] {
                if d <= 600_000 && !lens.contains(&(d as usize)) {
                    lens.push(d as usize);
                }
                if !nums.contains(&d) {
                    nums.push(d);
                }
            }
        }
        Gen { x: seed | 1, prop: prop.into(), lens, nums, lits: lits.to_vec(), novel: novel.to_vec(), min: 0 }
    }
    fn r(&mut self) -> u64 {
        self.x = self.x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn n(&mut self, k: usize) -> usize {
        (self.r() % k as u64) as usize
    }
    fn p(&mut self, pc: usize) -> bool {
        self.n(100) < pc
    }
    fn pay(&mut self) -> Pay {
        if self.p(18) {
            return Pay::Absent;
        }
        if self.p(5) {
            // only of meaning in typed mode
            let good = 2 + self.n(3) as u8;
            let code = match self.n(6) {
                0 => good as u32,
                1 => self.n(8) as u32,
                2 => good as u32 | 1 << (8 + self.n(24)),
                3 => self.r() as u32,
                4 => (good as u32) << 24,
                _ => good as u32 | 0x100,
            };
            let cut = if self.p(40) { self.n(8) } else { 100_000 };
            return Pay::Coded(code, good, cut, self.n(40), self.n(256) as u8);
        }
        if !self.novel.is_empty() && self.p(15) {
            let i = self.n(self.novel.len());
            let l = self.novel[i].wrapping_add(self.n(3) as u64).wrapping_sub(1) as usize;
            if l <= 100_000 || (l <= 8_000_000 && self.p(30)) || (l <= 80_000_000 && self.p(2)) {
                return Pay::Len(l, self.n(256) as u8);
            }
        }
        if self.prop == "C23" && self.p(50) {
            let l = if self.min < 80_000 && self.p(70) { (self.min + self.n(5)).saturating_sub(2) } else { 500 + self.n(20_000) };
            return Pay::Len(l, self.n(256) as u8);
        }
        let l = if self.p(55) {
            self.n(48)
        } else if self.p(60) {
            let i = self.n(self.lens.len());
            let l = self.lens[i];
            if l > 20_000 && self.p(75) {
                l % 977
            } else {
                l
            }
        } else {
            self.n(3000)
        };
        Pay::Len(l, self.n(256) as u8)
    }
    fn w(&mut self) -> W {
        match self.n(12) {
            0..=4 => W::Mem,
            5..=9 => {
                let c = *[0, 1, 3, 16, 50, 64, 200].get(self.n(7)).unwrap();
                let k = self.n(70);
                W::Chunk(1 + k, c)
            }
            10 => W::Fail(self.n(400), self.n(3) * 20),
            _ => W::Full(self.n(400), self.n(3) * 20),
        }
    }
    fn wok(&mut self) -> W {
        match self.w() {
            W::Fail(..) | W::Full(..) => W::Mem,
            w => w,
        }
    }
    fn mutn(&mut self) -> Mutn {
        match self.n(14) {
            0..=2 => Mutn::Flip(self.r() as usize >> 1, 1 << self.n(8)),
            3 => Mutn::Flip(self.n(60), self.n(256) as u8),
            4 => Mutn::Cut(1 + self.n(100)),
            5 => Mutn::Extend(1 + self.n(80)),
            6 => {
                let d = self.n(9) as i64 - 4;
                Mutn::Length(if d == 0 { 64 } else { d })
            }
            7 => {
                let k = self.nums.len();
                let i = self.n(k);
                let v = self.nums[i];
                match self.n(4) {
                    0 => Mutn::SetLength(v),
                    1 => Mutn::SetLength(self.n(100) as u64),
                    2 => Mutn::SetLength(u64::MAX - self.n(110) as u64),
                    _ => Mutn::SetLength((1u64 << 63) - self.n(110) as u64),
                }
            }
            8 | 9 => Mutn::Trailer(self.n(4)),
            10 | 11 => Mutn::Pre(self.n(60), self.n(256) as u8),
            12 => Mutn::Pre(self.n(18), 1 + self.n(3) as u8),
            _ => Mutn::PreLength(self.n(140) as i64 - 70),
        }
    }
    fn num(&mut self) -> N {
        match self.n(10) {
            0..=3 => N::Next,
            4..=6 => N::Rel(self.n(14) as i64 - 4),
            7 => N::Abs(self.n(8) as u64),
            8 => {
                let k = self.nums.len();
                let i = self.n(k);
                N::Abs(self.nums[i])
            }
            _ => N::Top(self.n(3) as u64),
        }
    }
    /// how many messages to write in a row
    fn count(&mut self) -> usize {
        if !self.novel.is_empty() && self.p(50) {
            let i = self.n(self.novel.len());
            let l = self.novel[i];
            if l <= 3_000 || (l <= 100_000 && self.p(10)) {
                return l as usize + 2;
            }
        }
        match self.n(100) {
            0..=79 => self.n(20),
            80..=97 => 250 + self.n(20),
            98 => 1030,
            _ => if self.p(10) { 65_540 } else { 4_100 },
        }
    }
    fn c(&mut self) -> Msg {
        let epk = if self.p(5) { Epk::High } else { Epk::Peer };
        Msg::C { signer: 0, announce: 0, epk, p: self.pay(), m: Mutn::None, sealed: false }
    }
    fn a(&mut self) -> Msg {
        Msg::A { signer: 0, ch: Chal::Right, p: self.pay(), m: Mutn::None, sealed: false }
    }
    fn u(&mut self, n: N) -> Msg {
        Msg::U { n, p: self.pay(), hash: true, key: KeySel::Session, m: Mutn::None, algo: 0 }
    }
    /// hostile, but not such that the connection has to fail
    fn gentle(&mut self) -> Msg {
        match self.n(12) {
            0 => Msg::C { signer: 1, announce: 0, epk: Epk::Other, p: self.pay(), m: Mutn::None, sealed: false },
            1 => Msg::C { signer: 0, announce: 1, epk: Epk::Peer, p: self.pay(), m: Mutn::None, sealed: false },
            2 => Msg::C { signer: 0, announce: 0, epk: Epk::Peer, p: self.pay(), m: Mutn::Trailer(self.n(4)), sealed: false },
            3 => Msg::C { signer: 0, announce: 0, epk: Epk::Peer, p: self.pay(), m: Mutn::Flip(18 + self.n(68), 1 << self.n(8)), sealed: false },
            4 => Msg::A { signer: 1, ch: Chal::Right, p: self.pay(), m: Mutn::None, sealed: false },
            5 => {
                let ch = match self.n(4) {
                    0 => Chal::OfPeer,
                    1 => Chal::Zero,
                    2 => Chal::RawKey,
                    _ => Chal::OneBit(self.n(256)),
                };
                Msg::A { signer: self.n(2), ch, p: self.pay(), m: Mutn::None, sealed: false }
            }
            6 => Msg::A { signer: 0, ch: Chal::Right, p: self.pay(), m: Mutn::Trailer(self.n(4)), sealed: false },
            7 => Msg::A { signer: 0, ch: Chal::Right, p: self.pay(), m: Mutn::Flip(18 + self.n(40), 1 << self.n(8)), sealed: false },
            8 => Msg::U { n: self.num(), p: self.pay(), hash: false, key: KeySel::Session, m: Mutn::None, algo: 0 },
            9 => Msg::U { n: self.num(), p: self.pay(), hash: true, key: KeySel::Session, m: Mutn::None, algo: 1 + self.n(2) as u8 },
            10 => Msg::U { n: self.num(), p: self.pay(), hash: true, key: KeySel::Session, m: Mutn::Trailer(1 + self.n(3)), algo: 0 },
            _ => Msg::Old(self.n(64)),
        }
    }
    /// anything at all
    fn killer(&mut self) -> Msg {
        match self.n(16) {
            0 => Msg::C { signer: 0, announce: 0, epk: Epk::Low(self.n(3)), p: self.pay(), m: Mutn::None, sealed: false },
            1 => Msg::C { signer: 1, announce: 1, epk: Epk::Other, p: self.pay(), m: Mutn::None, sealed: false },
            2 => Msg::C { signer: 0, announce: 0, epk: Epk::Peer, p: self.pay(), m: self.mutn(), sealed: false },
            3 => Msg::C { signer: 0, announce: 0, epk: Epk::Peer, p: self.pay(), m: Mutn::None, sealed: true },
            4 => Msg::A { signer: 0, ch: Chal::Right, p: self.pay(), m: Mutn::None, sealed: true },
            5 => Msg::A { signer: 0, ch: Chal::Right, p: self.pay(), m: self.mutn(), sealed: false },
            6 => Msg::C { signer: 0, announce: 0, epk: Epk::Own, p: self.pay(), m: Mutn::None, sealed: false },
            7 | 8 => {
                let key = [KeySel::Session, KeySel::Wrong, KeySel::Clear, KeySel::WrongNonce, KeySel::WrongAad][self.n(5)];
                Msg::U { n: self.num(), p: self.pay(), hash: true, key, m: Mutn::None, algo: 0 }
            }
            9 | 10 => Msg::U { n: self.num(), p: self.pay(), hash: true, key: KeySel::Session, m: self.mutn(), algo: 0 },
            11 => Msg::OldMut(self.n(64), self.mutn()),
            12 => Msg::Own(self.n(16)),
            13 => {
                let l = self.n(40);
                Msg::Raw((0..l).map(|_| self.r() as u8).collect())
            }
            14 => {
                let mut b = vec![0xE2, 0xC2, 0xE2, 0xD2, 0, 0, 0, 1];
                let l = if self.p(50) { self.n(80) as u64 } else { u64::MAX - self.n(100) as u64 };
                b.extend_from_slice(&l.to_be_bytes());
                b.extend_from_slice(&[0, self.n(4) as u8]);
                let k = self.n(100);
                b.extend((0..k).map(|i| i as u8));
                let t = if self.p(30) { self.n(b.len()) } else { b.len() };
                b.truncate(t);
                Msg::Raw(b)
            }
            _ => self.gentle(),
        }
    }
    fn setup(&mut self) -> Setup {
        let m = self.n(100);
        let mode = match self.prop.as_str() {
            "C18" => Mode::Typed,
            "C23" => [Mode::Binary, Mode::Typed][self.n(2)],
            "C16" | "C17" => {
                if m < 65 {
                    Mode::Binary
                } else if m < 80 {
                    Mode::Minimal
                } else {
                    Mode::Typed
                }
            }
            _ => {
                if m < 55 {
                    Mode::Minimal
                } else if m < 85 {
                    Mode::Binary
                } else {
                    Mode::Typed
                }
            }
        };
        let min_size = match self.n(if self.prop == "C23" { 3 } else { 4 }) {
            0 => self.n(4),
            1 => self.n(300),
            2 => {
                let k = self.lens.len();
                let i = self.n(k);
                self.lens[i]
            }
            _ => [0, 100, usize::MAX, 8192][self.n(4)],
        };
        self.min = min_size;
        let fm = |g: &mut Gen| if g.p(85) { 2 + g.n(3) } else { g.n(2) };
        Setup {
            mode,
            expect: if self.p(60) { 0 } else if self.p(75) { 1 } else { 2 },
            level: self.n(10) as u32,
            min_size,
            fmt: fm(self),
            peer_level: self.n(10) as u32,
            peer_fmt: fm(self),
            seed: self.r(),
        }
    }
    fn config(&mut self) -> Op {
        let k = self.n(50);
        self.min = k * 40;
        Op::Config(k as u8)
    }
    pub fn scenario(&mut self) -> (Setup, Vec<Op>) {
        let mut s = self.setup();
        let mut o: Vec<Op> = vec![];
        let hostile = if self.p(35) { 0 } else { self.n(40) };
        let kill = if self.p(70) { 0 } else { self.n(25) };
        if kill == 0 && s.expect == 2 {
            s.expect = 1;
        }
        if self.p(if self.prop == "C02" { 15 } else { 2 }) {
            s.expect = 3 + self.n(6) as u8;
        }
        let minimal = s.mode == Mode::Minimal;
        // ---- the negotiation, in a random permitted order
        let (mut cc, mut pc, mut oa, mut pa) = (false, false, false, false);
        let mut early_n = 0u64;
        let wild = self.p(12); // also try what is not permitted yet
        while !(cc && pc && oa && pa) && o.len() < 60 {
            while self.p(hostile) {
                let g = self.gentle();
                // an ACK with the right challenge and a bad signature before the CONNECT is kept as an early one
                o.push(Op::Feed(g));
            }
            if self.p(kill) {
                let k = self.killer();
                o.push(Op::Feed(k));
            }
            if minimal && self.p(15) {
                o.push(if self.p(50) { Op::Take } else { Op::Drain });
            }
            if self.p(if self.prop == "C23" { 12 } else { 4 }) {
                o.push(self.config());
            }
            if self.p(3) {
                o.push(Op::Clone);
            }
            if wild && self.p(20) {
                let op = match self.n(5) {
                    0 => Op::Connect(self.pay(), self.w()),
                    1 => Op::Ack(self.pay(), self.w()),
                    2 => Op::Write(self.pay(), self.w()),
                    3 => Op::Feed(self.c()),
                    _ => Op::Feed(self.a()),
                };
                o.push(op);
            }
            match self.n(5) {
                0 if !cc => {
                    let (p, w) = (self.pay(), self.wok());
                    o.push(Op::Connect(p, w));
                    cc = true;
                }
                1 if !pc => {
                    let m = self.c();
                    o.push(Op::Feed(m));
                    pc = true;
                    if minimal && (pa || self.p(20)) {
                        o.push(Op::Take);
                    }
                }
                2 if pc && !oa => {
                    let (p, w) = (self.pay(), self.wok());
                    o.push(Op::Ack(p, w));
                    oa = true;
                }
                3 if cc && !pa => {
                    let m = self.a();
                    o.push(Op::Feed(m));
                    pa = true;
                }
                4 if cc && pc && oa && !pa => {
                    for _ in 0..self.n(4) {
                        let n = if self.p(70) {
                            early_n += 1;
                            N::Abs(early_n - 1)
                        } else {
                            N::Abs(self.n(6) as u64)
                        };
                        let m = match self.n(12) {
                            0 if hostile > 0 => Msg::U { n, p: self.pay(), hash: true, key: KeySel::Session, m: Mutn::None, algo: 0 },
                            1 if hostile > 0 => Msg::Old(o.len()),
                            2 if hostile > 0 => Msg::U { n, p: self.pay(), hash: false, key: KeySel::Session, m: Mutn::None, algo: 0 },
                            _ => {
                                early_n += 1;
                                let n = N::Abs(early_n + if self.p(20) { 3 } else { 0 });
                                self.u(n)
                            }
                        };
                        o.push(Op::Feed(m));
                    }
                }
                _ => {}
            }
        }
        // ---- afterwards
        if minimal {
            if self.p(80) {
                o.push(Op::Take);
            }
            if self.p(80) {
                o.push(Op::Drain);
            }
        }
        let k = self.n(14);
        for _ in 0..k {
            if self.p(kill) {
                let m = self.killer();
                o.push(Op::Feed(m));
            } else if self.p(hostile) {
                let m = self.gentle();
                o.push(Op::Feed(m));
            }
            let op = match self.n(16) {
                0..=5 => {
                    let n = match self.n(4) {
                        0 | 1 => N::Next,
                        2 => N::Rel(1 + self.n(9) as i64),
                        _ => self.num(),
                    };
                    Op::Feed(self.u(n))
                }
                6..=9 => {
                    let ok = if matches!(self.prop.as_str(), "C10" | "C11" | "C17") { 70 } else { 90 };
                    if self.p(3) {
                        let k = self.count();
                        Op::Writes(k)
                    } else {
                        Op::Write(self.pay(), if self.p(ok) { self.wok() } else { self.w() })
                    }
                }
                10 => Op::Feed(Msg::Old(self.n(64))),
                11 => Op::Clone,
                12 => Op::Switch(self.n(6)),
                13 => self.config(),
                14 => Op::Batch(1, 2 + self.n(9) as u64),
                _ => match self.n(4) {
                    0 => Op::Feed(self.c()),
                    1 => Op::Feed(self.a()),
                    2 => Op::Connect(self.pay(), self.w()),
                    _ => Op::Ack(self.pay(), self.w()),
                },
            };
            // negotiation messages now fail the layer: only in scenarios that may end so
            if matches!(&op, Op::Connect(..) | Op::Ack(..)) && kill == 0 {
                continue;
            }
            if matches!(&op, Op::Feed(Msg::C { .. }) | Op::Feed(Msg::A { .. })) && kill == 0 {
                continue;
            }
            o.push(op);
        }
        // ---- the window up to its edge
        let wide = match self.prop.as_str() {
            "C09" | "C08" => 6,
            "C05" | "C01" | "C14" => 3,
            _ => 1,
        };
        if minimal && self.n(200) < wide {
            let mut edge = vec![10_000u64, 10_000, 9_999, 5_000, 1_000];
            edge.extend(self.lits.iter().copied().filter(|l| *l > 20 && *l <= 20_000));
            let e = edge[self.n(edge.len())];
            o.push(Op::Batch(1, 1 + e));
            if self.p(50) {
                o.push(Op::Feed(self.u(N::Next)));
            } else {
                o.push(Op::Feed(self.u(N::Rel(e as i64 + 1))));
            }
            for _ in 0..3 {
                let n = self.num();
                o.push(Op::Feed(self.u(n)));
            }
        }
        // ---- finale: everything still has to work
        for i in 0..3 {
            let (p, w) = (self.pay(), self.wok());
            o.push(Op::Write(p, w));
            if i == 1 {
                o.push(Op::Feed(self.u(N::Rel(1))));
            }
            o.push(Op::Feed(self.u(N::Next)));
        }
        if minimal {
            o.push(Op::Drain);
            o.push(Op::Take);
        }
        o.push(Op::Clone);
        o.push(Op::Switch(1));
        o.push(Op::Write(self.pay(), W::Mem));
        o.push(Op::Feed(self.u(N::Next)));
        o.push(Op::Feed(Msg::Old(self.n(64))));
        (s, o)
    }
    /// long histories, each run once before the random ones
    pub fn long(&mut self) -> Vec<(Setup, Vec<Op>)> {
        let (mut v, w) = (vec![], W::Mem);
        let p = Pay::Len(1, 1);
        let start = |early: Vec<Op>| {
            let mut o = vec![
                Op::Connect(p, w),
                Op::Feed(Msg::C { signer: 0, announce: 0, epk: Epk::Peer, p, m: Mutn::None, sealed: false }),
                Op::Ack(p, w),
            ];
            o.extend(early);
            o.push(Op::Feed(Msg::A { signer: 0, ch: Chal::Right, p, m: Mutn::None, sealed: false }));
            o
        };
        let set = |mode: Mode| Setup { mode, expect: 0, level: 1, min_size: 8192, fmt: 2, peer_level: 1, peer_fmt: 2, seed: 77 };
        let ends = |o: &mut Vec<Op>| {
            o.extend([Op::Write(p, w), Op::Batch(0, 3), Op::Clone, Op::Batch(1, 4), Op::Switch(1), Op::Batch(0, 1)]);
        };
        let mut add = |mode: Mode, early: Vec<Op>, then: Vec<Op>| {
            let mut o = start(early);
            o.extend(then);
            ends(&mut o);
            v.push((set(mode), o));
        };
        match self.prop.as_str() {
            "C08" | "C09" | "C14" | "C05" | "C15" | "C12" | "C19" | "C01" | "C10" | "C23" | "ALL" => {
                // many numbers ahead of a missing one, the missing one, then on and on, then all of them again
                add(Mode::Minimal, vec![], vec![Op::Down(0, 400), Op::Batch(0, 10_100), Op::Span(0, 10_500, 7)]);
                add(Mode::Minimal, vec![], vec![Op::Batch(1, 10_001), Op::Span(1, 10_001, 3), Op::Batch(0, 1), Op::Span(0, 10_001, 5), Op::Batch(1, 10_001)]);
                // almost all numbers of the window, then numbers far ahead, then all of them again
                add(Mode::Minimal, vec![], vec![
                    Op::Batch(1, 9_200), Op::Span(18_000, 18_400, 1), Op::Span(1 << 32, (1 << 32) + 300, 1), Op::Span(u64::MAX - 99, u64::MAX, 1),
                    Op::Span(1, 9_200, 1), Op::Span(18_000, 18_400, 1), Op::Span(1 << 32, (1 << 32) + 300, 1), Op::Span(u64::MAX - 99, u64::MAX, 1), Op::Batch(0, 1),
                    Op::Span(0, 9_200, 1), Op::Batch(0, 600),
                ]);
                // a clone with many numbers waiting
                for k in [100, 5_000] {
                    add(Mode::Minimal, vec![], vec![
                        Op::Batch(1, k), Op::Write(p, w), Op::Clone, Op::Config(1), Op::Batch(0, 1), Op::Span(1, k, 1), Op::Write(p, w),
                        Op::Switch(1), Op::Config(2), Op::Span(1, k, 1), Op::Write(p, w), Op::Batch(0, k + 3),
                    ]);
                }
                // out of order all the time
                add(Mode::Minimal, vec![], vec![Op::Mixed(4_000, 64), Op::Mixed(8_000, 1_500), Op::Span(0, 12_000, 1)]);
                add(Mode::Minimal, vec![], vec![Op::Mixed(20_000, 9_999), Op::Span(0, 20_000, 2)]);
                // many kept messages
                add(Mode::Minimal, vec![Op::Batch(0, 3_000), Op::Span(0, 3_000, 11)], vec![Op::Drain, Op::Span(0, 3_000, 1), Op::Batch(0, 30)]);
                add(Mode::Minimal, vec![Op::Down(0, 1_200)], vec![Op::Drain, Op::Span(0, 1_200, 1)]);
                add(Mode::Binary, vec![Op::Batch(0, 1_500)], vec![Op::Span(0, 1_500, 1), Op::Down(0, 600), Op::Batch(0, 400)]);
            }
            _ => {}
        }
        match self.prop.as_str() {
            "C16" | "C12" | "C07" | "C17" | "C11" | "C06" | "C18" | "C23" | "ALL" => {
                for (k, mode) in [(17 << 20, Mode::Binary), ((4 << 20) + 1, Mode::Binary), ((8 << 20) + 3, Mode::Minimal), ((2 << 20) + 1, Mode::Typed)] {
                    let q = Pay::Len(k, 1);
                    add(mode, vec![], vec![Op::Write(q, w), Op::Feed(Msg::U { n: N::Next, p: q, hash: true, key: KeySel::Session, m: Mutn::None, algo: 0 })]);
                }
            }
            "C10" | "C20" => add(Mode::Minimal, vec![], vec![Op::Writes(70_000)]),
            _ => {}
        }
        v
    }
}
