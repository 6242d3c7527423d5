//! C37 trigger lines, C30 counter/timer chip of the example computer.
use crate::ral_io::{all_seq, all_seq_known};
use crate::rep::*;
use ral1243::bus::{BusDevice, Terminator};
use ral1243::ctc::{Ctc, CtcTrigger};
use ral1243::ctc_trigger::{CtcActive, CtcPassive};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use z80emu::Io;

type Ts = u32;

// ------------------------------------------------------------------ C37

const H: Ts = 5; // half period of the external clock in the C37 exploration

#[derive(Clone, Copy, Debug, PartialEq)]
enum To { Next(bool, Ts), Purge(Ts), Pulse(Ts), PNext(bool, Ts), PPurge(Ts), Sec }

struct Ts37 { a: CtcActive<4>, p: CtcPassive<4> }
/// The line as specified: edge number k is at base + k * h, odd edges rise; `k` counts the edges dealt with.
#[derive(Clone)]
struct Tm37 { ts: Ts, k: i64, base: i64, h: i64, q: VecDeque<Ts>, risen: bool, last: Ts,
    /// the known findings: a purge drops one edge only; a purged rising edge is delivered all the same
    one: bool, again: bool }
impl Tm37 {
    fn at(&self, k: i64) -> i64 { self.base + k * self.h }
    fn next(&mut self, rising: bool) -> Result<Ts, i64> {
        while self.at(self.k + 1) <= self.ts as i64 {
            self.k += 1;
            if (self.k & 1 == 1) == rising { return Ok(self.at(self.k) as Ts) }
        }
        let n = if (self.k + 1) & 1 == rising as i64 { self.k + 1 } else { self.k + 2 };
        Err(self.at(n))
    }
    fn purge(&mut self) -> i64 {
        if self.one { if self.at(self.k + 1) <= self.ts as i64 { self.k += 1 } return self.at(self.k + 1) }
        while self.at(self.k + 1) <= self.ts as i64 { self.k += 1 }
        self.at(self.k + 1)
    }
}

fn c37_step(s: &mut (Ts37, Tm37), o: To) -> Result<(), String> {
    let (s, m) = (&mut s.0, &mut s.1);
    match o {
        To::Next(r, g) => {
            m.ts += g;
            let got = s.a.next_clk_trg(r, m.ts);
            let ok = match (got, m.next(r)) {
                (Ok(a), Ok(b)) => a == b,
                // the hint promises that nothing of interest happens before it
                (Err(a), Err(b)) => a > m.ts && a as i64 <= b,
                _ => false,
            };
            if !ok { let mut w = m.clone(); return Err(format!("{o:?} at {}: clock line answers {got:?}; edges are {} T apart, the next one not yet dealt with is number {} at {}", m.ts, m.h, w.k + 1, { w.k += 1; w.at(w.k) })) }
        }
        To::Purge(g) => {
            m.ts += g;
            let (got, w) = (s.a.purge_clk_trg(m.ts), m.purge());
            if got as i64 != w { return Err(format!("purge at {}: returned {got}, the next edge is at {w}", m.ts)) }
        }
        To::Pulse(g) => {
            m.ts += g;
            if m.q.len() == 4 || m.ts < m.last + 3 { return Ok(()) }
            s.a.zc_to_pulse(m.ts);
            s.p.zc_to_pulse(m.ts);
            m.q.push_back(m.ts); m.last = m.ts;
        }
        To::PNext(r, g) => {
            m.ts += g;
            let got = s.p.next_clk_trg(r, m.ts);
            // the rising edge of the first pulse has been purged: only its falling edge is left, and not wanted
            if r && m.risen && m.q[0] + 2 <= m.ts { m.q.pop_front(); m.risen = false }
            if r && m.risen {
                let n = *m.q.get(1).unwrap_or(&Ts::MAX);
                return if matches!(got, Err(t) if t > m.ts && t <= n) { Ok(()) } else { Err(format!("{o:?} at {}: cascade line answers {got:?}, the rising edge at {} has been purged, pulses waiting {:?}", m.ts, m.q[0], m.q)) }
            }
            let off = if r { 0 } else { 2 };
            let ok = match (got, m.q.front()) {
                (Ok(t), Some(&q)) if q + off <= m.ts => { m.q.pop_front(); m.risen = false; t == q + off }
                (Err(t), Some(&q)) if q + off > m.ts => t > m.ts && t <= q + off,
                (Err(t), None) => t > m.ts,
                _ => false,
            };
            if !ok { return Err(format!("{o:?} at {}: cascade line answers {got:?}, pulses waiting {:?}", m.ts, m.q)) }
        }
        To::PPurge(g) => {
            m.ts += g;
            let got = s.p.purge_clk_trg(m.ts);
            while m.q.front().is_some_and(|&q| q + 2 <= m.ts) { m.q.pop_front(); m.risen = false }
            m.risen = !m.again && m.q.front().is_some_and(|&q| q <= m.ts);
            let ok = match m.q.front() { Some(&q) => got > m.ts && got <= q + 2, None => got > m.ts };
            if !ok { return Err(format!("cascade purge at {}: returned {got}, pulses left {:?}", m.ts, m.q)) }
        }
        To::Sec => {
            // one "second" (a whole number of clock periods) is taken off every time
            let d = 4 * H;
            if m.ts < d + H { return Ok(()) }
            c37_step_purge(s, m)?;
            if m.q.front().is_some_and(|&q| q < d) { return Ok(()) }
            s.a.next_second(d); s.p.next_second(d);
            m.ts -= d; m.base -= d as i64; m.last = m.last.saturating_sub(d);
            for q in &mut m.q { *q -= d }
        }
    }
    Ok(())
}
fn c37_step_purge(s: &mut Ts37, m: &mut Tm37) -> Result<(), String> {
    loop {
        let (got, w) = (s.a.purge_clk_trg(m.ts), m.purge());
        if got as i64 != w { return Err(format!("purge at {}: returned {got}, the next edge is at {w}", m.ts)) }
        if got > m.ts { return Ok(()) }
    }
}

pub fn c37(rep: &Rep) {
    use To::*;
    let with = |one: bool, again: bool| {
        let a = CtcActive::<4>::new(2 * H);
        let p = a.new_passive();
        (Ts37 { a, p }, Tm37 { ts: 0, k: 0, base: 0, h: H as i64, q: VecDeque::new(), risen: false, last: 0, one, again })
    };
    let (fresh, one, again, both) = (|| with(false, false), || with(true, false), || with(false, true), || with(true, true));
    let known: [(&str, &(dyn Fn() -> (Ts37, Tm37) + Sync)); 3] = [("clk-purge-one", &one), ("cascade-purged-rise", &again), ("clk-purge-one", &both)];
    let starts = [("new lines", vec![]), ("after a while", vec![Purge(H), Purge(H), Next(true, 3)]), ("long unattended", vec![Next(false, 2), Pulse(7 * H + 1)])];
    let active = [Next(true, 0), Next(true, 1), Next(true, H - 1), Next(true, H), Next(true, 2 * H), Next(true, 5 * H + 1), Next(false, 0), Next(false, 1), Next(false, H), Next(false, H + 1), Next(false, 4 * H),
        Purge(0), Purge(1), Purge(H), Purge(2 * H), Purge(3 * H + 2), Sec];
    let cascade = [Pulse(0), Pulse(1), Pulse(3), Pulse(7), PNext(true, 0), PNext(true, 1), PNext(true, 9), PNext(false, 0), PNext(false, 1), PNext(false, 2), PNext(false, 9), PPurge(0), PPurge(1), PPurge(2), PPurge(12), Next(true, 1), Purge(H), Sec];
    let fin = |s: &mut (Ts37, Tm37)| -> Result<(), String> {
        for r in [true, false, true] { for _ in 0..3 { c37_step(s, Next(r, 3))? } for _ in 0..5 { c37_step(s, PNext(r, 1))? } }
        Ok(())
    };
    let depth = rep.q(5, 6);
    all_seq_known(rep, "C37", &active, depth, &starts, &fresh, &c37_step, &fin, &known);
    if rep.stopped() { return }
    all_seq_known(rep, "C37", &cascade, depth, &starts, &fresh, &c37_step, &fin, &known);
    rep.bound(format!("{} starting situations x every sequence of {depth} of {} clock-line operations and of {} cascade operations, then a drain of both lines", starts.len(), active.len(), cascade.len()));
}

// ------------------------------------------------------------------ C30

/// The scripted CLK/TRG line: edges at these offsets (rising, falling, rising, ...), repeated every LPER.
const EDGES: [Ts; 6] = [3, 9, 10, 26, 31, 32];
const LPER: Ts = 50;
fn edge(k: u64) -> (Ts, bool) { ((k / 6) as Ts * LPER + EDGES[(k % 6) as usize], k % 2 == 0) }

#[derive(Default)]
struct LineSt { k: u64, delta: Ts, pulses: Vec<Ts> }
#[derive(Clone, Default)]
struct Line(Rc<RefCell<LineSt>>);
impl CtcTrigger for Line {
    type Timestamp = Ts;
    fn next_clk_trg(&mut self, rising: bool, ts: Ts) -> Result<Ts, Ts> {
        let mut s = self.0.borrow_mut();
        loop {
            let (t, r) = edge(s.k);
            if t > ts { return Err(t) }
            s.k += 1;
            if r == rising { return Ok(t) }
        }
    }
    fn purge_clk_trg(&mut self, ts: Ts) -> Ts {
        let mut s = self.0.borrow_mut();
        loop {
            let (t, _) = edge(s.k);
            if t > ts { return t }
            s.k += 1;
        }
    }
    fn zc_to_pulse(&mut self, ts: Ts) { self.0.borrow_mut().pulses.push(ts) }
    fn next_second(&mut self, d: Ts) { self.0.borrow_mut().delta += d }
}

/// What a channel is set to do.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Cfg { counter: bool, x256: bool, ext: bool, rising: bool }
impl Cfg {
    fn bits(self) -> u8 { 1 | (self.counter as u8) << 6 | (self.x256 as u8) << 5 | (self.rising as u8) << 4 | (self.ext as u8) << 3 }
}

/// One channel as documented, T-state by T-state.
#[derive(Clone)]
struct Chan {
    cfg: Cfg, ints: bool, pending: bool, tc_next: bool, reload: Option<u32>,
    /// counter mode: counts left. Timer: start of the running period and its length in counts
    left: u32, run: Option<Ts>, armed: bool,
    /// value shown while nothing runs
    shown: u8,
    now: Ts, k: u64, pulses: Vec<Ts>,
}
impl Chan {
    fn new() -> Self { Chan { cfg: Cfg { counter: false, x256: true, ext: false, rising: false }, ints: false, pending: false, tc_next: false, reload: None, left: 0, run: None, armed: false, shown: 0, now: 0, k: 0, pulses: vec![] } }
    fn p(&self) -> Ts { if self.cfg.x256 { 256 } else { 16 } }
    fn zero(&mut self, t: Ts) { self.pulses.push(t); if self.ints { self.pending = true } }
    fn count(&mut self, t: Ts) {
        self.left -= 1;
        if self.left == 0 { self.left = self.reload.unwrap(); self.zero(t) }
    }
    fn advance(&mut self, ts: Ts) {
        loop {
            let (t, r) = edge(self.k);
            if t > ts { break }
            self.k += 1;
            if r != self.cfg.rising || self.reload.is_none() { continue }
            if self.cfg.counter { self.count(t) }
            else if self.armed { self.armed = false; self.run = Some(t + 1) }
        }
        while let Some(s) = self.run {
            let e = s + self.left * self.p();
            if e > ts { break }
            self.left = self.reload.unwrap();
            self.run = Some(e);
            self.zero(e);
        }
        self.now = ts;
    }
    fn value(&self) -> u8 {
        if self.reload.is_none() { return self.shown }
        match self.run {
            Some(s) if self.now > s => (self.left - (self.now - s) / self.p()) as u8,
            _ => self.left as u8,
        }
    }
    fn control(&mut self, cfg: Cfg, ints: bool, tc: bool, reset: bool) {
        if reset {
            self.shown = self.value();
            self.reload = None; self.run = None; self.armed = false;
        }
        let flip = cfg.rising != self.cfg.rising;
        self.cfg = cfg;
        self.ints = ints;
        if !ints { self.pending = false }
        self.tc_next |= tc;
        if flip && self.reload.is_some() {
            if cfg.counter { self.count(self.now) }
            else if self.armed { self.armed = false; self.run = Some(self.now + 1) }
        }
    }
    fn constant(&mut self, c: u8) {
        let v = if c == 0 { 256 } else { c as u32 };
        self.tc_next = false;
        if self.reload.is_none() {
            self.left = v;
            if !self.cfg.counter { if self.cfg.ext { self.armed = true } else { self.run = Some(self.now + 1) } }
        }
        self.reload = Some(v);
    }
    fn reset(&mut self) {
        self.shown = self.value();
        self.reload = None; self.run = None; self.armed = false; self.tc_next = false; self.ints = false; self.pending = false; self.cfg.counter = false;
    }
}

type C30Ctc = Ctc<Ts, Line, Line, Line, Line, Terminator<Ts>>;
struct Cs { c: C30Ctc, l: [Line; 4], ts: Ts }
struct Cm { ch: [Chan; 4], vec: u8, service: bool, gaps: bool }
const PORT: [u16; 4] = [4, 5, 6, 7];

fn c30_fresh() -> (Cs, Cm) {
    let l: [Line; 4] = Default::default();
    let mut c = Ctc::new(l[0].clone(), l[1].clone(), l[2].clone(), l[3].clone(), Terminator::new()).with_port_bits(0xFC, 4, 1, 0);
    c.reset(0);
    let mut m = Cm { ch: [Chan::new(), Chan::new(), Chan::new(), Chan::new()], vec: 0x58, service: false, gaps: false };
    c.write_io(PORT[0], m.vec | 6, 0);
    for ch in &mut m.ch { ch.advance(0) }
    (Cs { c, l, ts: 0 }, m)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Co {
    /// reset, program and start: channel, set-up, interrupt enable, time constant
    Prog(usize, Cfg, bool, u8),
    /// the same in two writes that lie apart in time
    ProgSlow(usize, Cfg, bool, u8, Ts),
    /// interrupt enable changes, nothing else
    Ints(usize, bool),
    /// new time constant while running
    Load(usize, u8),
    Stop(usize), Flip(usize),
    Read(usize), Irq, M1, Frame, Reti, Reset,
    /// time passes; the chip is polled whenever something happens
    Wait(Ts),
    /// time passes unpolled
    Gap(Ts),
}

/// Lets time pass, polling the chip (twice) at every edge of the lines, at every timeout and one T-state after each: a poll that
/// comes later may notice a zero count late (the known findings in `c30_known`).
fn pass(s: &mut Cs, m: &mut Cm, t: Ts) {
    let end = s.ts + t;
    loop {
        let mut e = end;
        for c in &mut m.ch {
            c.advance(s.ts);
            let (n, _) = edge(c.k);
            e = e.min(n);
            if let Some(r) = c.run { e = e.min(r + c.left * c.p()) }
            if let Some(p) = c.pulses.last() { if p + 1 > s.ts { e = e.min(p + 1) } }
        }
        let n = (s.ts / LPER) * LPER;
        for k in EDGES { if n + k + 1 > s.ts { e = e.min(n + k + 1) } }
        if e > end || s.ts >= end { break }
        s.ts = e;
        s.c.m1(e); s.c.m1(e);
    }
    s.ts = end;
    for c in &mut m.ch { c.advance(end) }
}
/// Lets time pass until the next edge of the lines: by then a channel without work has made the chip look at all of them again.
fn settle(s: &mut Cs, m: &mut Cm) { let t = edge(m.ch[0].k).0 - s.ts; pass(s, m, t) }

fn wr(s: &mut Cs, m: &mut Cm, c: usize, d: u8) { s.c.write_io(PORT[c], d, s.ts); m.ch[c].advance(s.ts) }

fn c30_check(s: &mut Cs, m: &mut Cm, c: usize) -> Result<(), String> {
    for q in &mut m.ch { q.advance(s.ts) }
    let (g, _) = s.c.read_io(PORT[c], s.ts);
    let w = m.ch[c].value();
    if g != w { return Err(format!("at {}: channel {c} shows {g}, expected {w}", s.ts)) }
    let p = s.l[c].0.borrow();
    if p.pulses != m.ch[c].pulses { return Err(format!("at {}: channel {c} zero counts at {:?}, expected {:?}", s.ts, p.pulses, m.ch[c].pulses)) }
    Ok(())
}

fn c30_step((s, m): &mut (Cs, Cm), o: Co) -> Result<(), String> {
    match o {
        Co::Wait(t) => pass(s, m, t),
        Co::Gap(t) => s.ts += t,
        Co::Prog(c, cfg, i, tc) => {
            wr(s, m, c, cfg.bits() | 6 | (i as u8) << 7);
            m.ch[c].control(cfg, i, true, true);
            wr(s, m, c, tc);
            m.ch[c].constant(tc);
            if !m.gaps { settle(s, m) }
        }
        Co::ProgSlow(c, cfg, i, tc, gap) => {
            wr(s, m, c, cfg.bits() | 6 | (i as u8) << 7);
            m.ch[c].control(cfg, i, true, true);
            pass(s, m, gap);
            wr(s, m, c, tc);
            m.ch[c].constant(tc);
            settle(s, m);
        }
        Co::Ints(c, i) => {
            if m.ch[c].tc_next { return Ok(()) }
            let cfg = m.ch[c].cfg;
            wr(s, m, c, cfg.bits() | (i as u8) << 7);
            m.ch[c].control(cfg, i, false, false);
            settle(s, m);
        }
        Co::Load(c, tc) => {
            let k = &m.ch[c];
            // a new constant for a channel that has one but waits for its trigger: left open
            { let mut k = k.clone(); k.advance(s.ts); if k.tc_next || k.armed { return Ok(()) } }
            let (cfg, i) = (k.cfg, k.ints);
            wr(s, m, c, cfg.bits() | 4 | (i as u8) << 7);
            m.ch[c].control(cfg, i, true, false);
            wr(s, m, c, tc);
            m.ch[c].constant(tc);
            settle(s, m);
        }
        Co::Stop(c) => {
            let (cfg, i) = (m.ch[c].cfg, m.ch[c].ints);
            if m.ch[c].tc_next { return Ok(()) }
            wr(s, m, c, cfg.bits() | 2 | (i as u8) << 7);
            m.ch[c].control(cfg, i, false, true);
            settle(s, m);
        }
        Co::Flip(c) => {
            let (cfg, i) = (Cfg { rising: !m.ch[c].cfg.rising, ..m.ch[c].cfg }, m.ch[c].ints);
            if m.ch[c].tc_next { return Ok(()) }
            wr(s, m, c, cfg.bits() | (i as u8) << 7);
            m.ch[c].control(cfg, i, false, false);
            settle(s, m);
        }
        Co::Read(c) => return c30_check(s, m, c),
        Co::Irq => {
            for q in &mut m.ch { q.advance(s.ts) }
            let w = !m.service && m.ch.iter().any(|c| c.pending);
            let g = s.c.is_irq(s.ts);
            if g != w { return Err(format!("at {}: is_irq {g}, expected {w} (pending {:?})", s.ts, m.ch.each_ref().map(|c| c.pending))) }
            if g {
                let c = m.ch.iter().position(|c| c.pending).unwrap();
                let (v, _) = s.c.irq_data(0x1234, s.ts);
                if v != m.vec | (c as u8) << 1 { return Err(format!("at {}: vector {v:02x}, expected {:02x}", s.ts, m.vec | (c as u8) << 1)) }
                m.ch[c].pending = false;
                m.service = true;
            }
        }
        Co::M1 => s.c.m1(s.ts),
        Co::Frame => s.c.frame_end(s.ts),
        Co::Reti => { s.c.reti(0, s.ts); m.service = false }
        Co::Reset => {
            s.c.reset(s.ts);
            for c in &mut m.ch { c.advance(s.ts); c.reset() }
            m.service = false;
        }
    }
    Ok(())
}

const T16: Cfg = Cfg { counter: false, x256: false, ext: false, rising: false };
const T256: Cfg = Cfg { counter: false, x256: true, ext: false, rising: true };
const X16R: Cfg = Cfg { counter: false, x256: false, ext: true, rising: true };
const X256F: Cfg = Cfg { counter: false, x256: true, ext: true, rising: false };
const CR: Cfg = Cfg { counter: true, x256: false, ext: false, rising: true };
const CF: Cfg = Cfg { counter: true, x256: true, ext: true, rising: false };

pub fn c30(rep: &Rep) {
    use Co::*;
    let mut starts: Vec<(String, Vec<Co>)> = vec![];
    for (ci, c) in [0usize, 1, 2, 3].into_iter().enumerate() {
        for (j, cfg) in [T16, T256, X16R, X256F, CR, CF].into_iter().enumerate() {
            for (k, tc) in [1u8, 3, 0].into_iter().enumerate() {
                if rep.tier == Tier::Quick && (ci + j + k) % 4 != 0 { continue }
                starts.push((format!("channel {c} {cfg:?} constant {tc}"), vec![Wait(5), Prog(c, cfg, true, tc)]));
            }
        }
    }
    // several channels at once
    // one is left without work, see `settle`
    starts.push(("three timers".into(), vec![Prog(0, T16, true, 3), Prog(1, T16, true, 1), Wait(3), Prog(3, X16R, true, 2)]));
    starts.push(("counters and timers".into(), vec![Prog(0, CR, true, 5), Wait(9), Prog(1, T16, false, 2), M1, Wait(30), Prog(3, CR, false, 2)]));
    let fin = |x: &mut (Cs, Cm)| -> Result<(), String> {
        for t in [1, 15, 60, 700] { c30_step(x, Wait(t))?; c30_step(x, Irq)?; for c in 0..4 { c30_step(x, Read(c))? } c30_step(x, Reti)?; }
        Ok(())
    };
    let depth = rep.q(4, 5);
    for c in 0..4 {
        let st: Vec<(&str, Vec<Co>)> = starts.iter().filter(|s| s.0.starts_with(&format!("channel {c}")) || c % 3 == 0 && !s.0.starts_with("channel")).map(|s| (s.0.as_str(), s.1.clone())).collect();
        let ops = [Irq, M1, Read(c), Frame, Reti, Wait(1), Wait(4), Wait(16), Wait(50), Wait(255), Wait(600), Ints(c, false), Ints(c, true), Load(c, 2), Stop(c), Flip(c),
            Prog(c, T16, true, 1), Prog(c, CR, true, 2), ProgSlow(c, X16R, true, 2, 7), ProgSlow(c, T256, false, 1, 2), Reset];
        all_seq(rep, "C30", &ops, depth, &st, &c30_fresh, &c30_step, &fin);
        if rep.stopped() { return }
    }
    rep.bound(format!("{} programmed situations (all six modes on each channel, constants 1, 3, 256; two with three channels) x every sequence of {depth} of 21 operations (polls, waits, reads, acknowledge, reprogramming), then four more polls and reads of all channels; the trigger lines have {} edges per {LPER} T", starts.len(), EDGES.len()));
    // whatever is written to a channel, looking at it changes nothing
    let gaps: &[Ts] = rep.q(&[0, 13], &[0, 1, 13, 77]);
    let words: Vec<u8> = (0..128).map(|i| i << 1 | 1).collect();
    let tcs: &[u8] = rep.q(&[1, 2], &[1, 2, 7]);
    par(rep, words.len(), || (), |_, i| {
        let (mut st, mut tr) = (0, 0);
        for &b in &words { for &c in rep.q(&[0x95u8, 0x07, 0x91, 0xD5, 0xB1, 0x83, 0xA5][..], &words[..]) {
            if rep.stopped() { return }
            for &tc in tcs { for &g in gaps { for ch in [0, 3] {
                let w = [words[i], b, c];
                // changing the mode or the prescaler of a channel at work: known finding ctc-late-after-write
                if w.windows(2).any(|q| q[1] & 2 == 0 && (q[0] ^ q[1]) & 0x60 != 0) { continue }
                st += 3; tr += 1;
                if let Err(e) = guard(|| c30_lazy(ch, w, tc, g)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                    rep.violation(format!("C30: channel {ch}: control words {w:02x?} {g} T apart (constants {tc}, {} where one is due)\n{e}", tc + 1));
                }
            } } }
        } }
        rep.add(st, st, tr);
    });
    rep.bound(format!("observation changes nothing: 128 x 128 x {} control-word triples x {} constants x {} gaps x 2 channels, each run looked at four times and every 3 T", rep.q(7, 128), tcs.len(), gaps.len()));
    if rep.stopped() { return }
    c30_cascade(rep);
    if rep.stopped() { return }
    c30_known(rep);
}

/// The histories of the known findings: the same operations and the same model, but polled later than the moment something happens.
fn c30_known(rep: &Rep) {
    use Co::*;
    let long = |c| Prog(c, T256, false, 0);
    let hist: [(&str, Vec<Co>); 3] = [
        ("ctc-late-after-write", vec![long(0), long(1), long(2), long(3), Gap(5), M1, M1, Prog(0, T16, true, 1), Gap(20), Irq]),
        ("ctc-edges-left", vec![Wait(1), Prog(1, CR, false, 3), Gap(55), Read(1)]),
        ("ctc-trigger-lag", vec![Wait(1), Prog(1, X16R, true, 1), Gap(22), Irq]),
    ];
    for (key, h) in hist {
        rep.add(h.len() as u64, h.len() as u64, 1);
        let r = guard(|| -> Result<(), String> {
            let mut x = c30_fresh();
            x.1.gaps = true;
            for &o in &h { c30_step(&mut x, o)? }
            Ok(())
        }).unwrap_or_else(|p| Err(format!("panic: {p}")));
        if let Err(e) = r { rep.violation_keyed(key, format!("C30: {h:?}: {e}")) }
    }
    // the driving channel's pulse rises, the driven channel is programmed: the pulse must not count
    let r = guard(|| -> Result<(), String> {
        let (a0, a2) = (CtcActive::<4>::new(10), CtcActive::<4>::new(10));
        let (p0, p2) = (a0.new_passive(), a2.new_passive());
        let mut c: Real = Ctc::new(a0, p0, a2, p2, Terminator::new()).with_port_bits(0xFC, 4, 1, 0);
        c.reset(0);
        for (q, d) in [(4, CR.bits() | 6), (4, 1)] { c.write_io(q, d, 1); }
        for t in 2..=5 { c.m1(t); c.m1(t) }
        // channel 0 reached zero at 5
        for (q, d) in [(5, CR.bits() | 6), (5, 9)] { c.write_io(q, d, 6); }
        for t in 7..=14 { c.m1(t); c.m1(t) }
        let v = c.read_io(5, 14).0;
        if v != 9 { return Err(format!("channel 1 shows {v}, expected 9")) }
        Ok(())
    }).unwrap_or_else(|p| Err(format!("panic: {p}")));
    rep.add(20, 20, 1);
    if let Err(e) = r { rep.violation_keyed("cascade-purged-rise", format!("C30: channel 1 programmed within a pulse of channel 0: {e}")) }
}

/// Control words w, `g` apart, once looked at rarely and once often.
fn c30_lazy(ch: usize, w: [u8; 3], tc: u8, g: Ts) -> Result<(), String> {
    let run = |often: bool| -> (Vec<u8>, Vec<bool>, Vec<Ts>) {
        let (mut s, _) = c30_fresh();
        let (mut v, mut q) = (vec![], vec![]);
        let wait = |s: &mut Cs, g: Ts| {
            let end = s.ts + g;
            // polled whenever something might happen; what the program looks at in between makes no difference
            while s.ts < end {
                s.ts = (s.ts + 3).min(end);
                s.c.m1(s.ts); s.c.m1(s.ts);
                if often { s.c.is_irq(s.ts); s.c.read_io(PORT[ch], s.ts); s.c.frame_end(s.ts); }
            }
        };
        wait(&mut s, 11);
        for (i, &b) in w.iter().enumerate() {
            s.c.write_io(PORT[ch], b, s.ts);
            if b & 4 != 0 { wait(&mut s, 2); s.c.write_io(PORT[ch], tc + (i & 1) as u8, s.ts); }
            wait(&mut s, g);
        }
        for t in [22, 5, 16, 60] {
            wait(&mut s, t);
            q.push(s.c.is_irq(s.ts));
            v.push(s.c.read_io(PORT[ch], s.ts).0);
        }
        let p = s.l[ch].0.borrow().pulses.clone();
        (v, q, p)
    };
    let (a, b) = (run(false), run(true));
    if a != b { return Err(format!("values read, requests, zero counts:\nlooked at four times {a:?}\nlooked at every 3 T  {b:?}")) }
    Ok(())
}

// composite: the lines of the example computer

type Real = Ctc<Ts, CtcActive<4>, CtcPassive<4>, CtcActive<4>, CtcPassive<4>, Terminator<Ts>>;

/// The pair of channels as documented, one T-state after the other.
struct Pair { ts: Ts, h: Ts, c: [Chan; 2], now: [bool; 2] }
impl Pair {
    /// all that happens at T-state t
    fn tick(&mut self, t: Ts) {
        self.ts = t;
        let mut fired = None;
        // external clock edge
        if t % self.h == 0 { let rising = t / self.h % 2 == 1; if self.edge(0, rising, t) { fired = Some(t) } }
        if self.timer(0, t) { fired = Some(t) }
        self.now[1] |= fired.is_some();
        let _ = self.timer(1, t);
        if fired.is_some() { self.edge(1, true, t); }
    }
    fn edge(&mut self, i: usize, rising: bool, t: Ts) -> bool {
        let c = &mut self.c[i];
        let n = c.pulses.len();
        if c.reload.is_none() || c.cfg.rising != rising { return false }
        if c.cfg.counter { c.count(t) } else if c.armed { c.armed = false; c.run = Some(t + 1) }
        c.pulses.len() > n
    }
    fn timer(&mut self, i: usize, t: Ts) -> bool {
        let c = &mut self.c[i];
        c.now = t;
        if let Some(s) = c.run { if t == s + c.left * c.p() { c.left = c.reload.unwrap(); c.run = Some(t); c.zero(t); return true } }
        false
    }
}

/// Channel 0 or 2 on the external clock drives channel 1 or 3: polled like a running Cpu polls, compared at every poll.
fn c30_cascade(rep: &Rep) {
    let cfgs = [T16, T256, X16R, Cfg { rising: false, ..X16R }, CR, Cfg { rising: false, ..CR }];
    let slave = [CR, X16R, T16, Cfg { x256: true, ext: true, counter: false, rising: true }];
    // the chip is polled twice at every T-state (see `pass`); these are the moments it is looked at
    let steps: &[&[Ts]] = &[&[4], &[4, 3, 4, 5, 4, 4, 3], &[11, 12], &[19, 4], &[23], &[7, 1, 1, 13]];
    let mut items = vec![];
    for base in [0usize, 2] { for a in cfgs { for b in slave { for tc in [1u8, 2, 5] { for tc1 in [1u8, 3] { for st in 0..steps.len() { for &ext in rep.q(&[10u32, 16, 40][..], &[8, 10, 14, 16, 22, 40, 400][..]) { items.push((base, a, b, tc, tc1, st, ext)) } } } } } } }
    par(rep, items.len(), || (), |_, i| {
        let (base, a, b, tc, tc1, st, ext) = items[i];
        for phase in 0..rep.q(6, 40) {
            if rep.stopped() { return }
            let mut polls = 0;
            let r = guard(|| -> Result<(), String> {
                let (a0, a2) = (CtcActive::<4>::new(ext), CtcActive::<4>::new(ext));
                let (p0, p2) = (a0.new_passive(), a2.new_passive());
                let mut c: Real = Ctc::new(a0, p0, a2, p2, Terminator::new()).with_port_bits(0xFC, 4, 1, 0);
                c.reset(0);
                c.write_io(4, 0x40, 0);
                let mut m = Pair { ts: 0, h: ext / 2, c: [Chan::new(), Chan::new()], now: [false; 2] };
                let mut ts = 0;
                let mut k = 0;
                let mut program = |c: &mut Real, m: &mut Pair, q: usize, cfg: Cfg, tc: u8, ts: Ts| {
                    c.write_io(PORT[base + q], cfg.bits() | 0x86, ts);
                    m.c[q].control(cfg, true, true, true);
                    c.write_io(PORT[base + q], tc, ts);
                    m.c[q].constant(tc);
                };
                let order = phase % 2;
                let adv = |c: &mut Real, m: &mut Pair, ts: &mut Ts, g: Ts| { for _ in 0..g { *ts += 1; m.tick(*ts); c.m1(*ts); c.m1(*ts) } };
                let _ = &mut k;
                adv(&mut c, &mut m, &mut ts, 3 + phase);
                c.m1(ts);
                for q in [order as usize, 1 - order as usize] {
                    let (cfg, v) = if q == 0 { (a, tc) } else { (b, tc1) };
                    // not within a pulse of the driving channel: known finding cascade-purged-rise
                    while q == 1 && m.c[0].pulses.last().is_some_and(|t| t + 2 > ts) { adv(&mut c, &mut m, &mut ts, 1) }
                    program(&mut c, &mut m, q, cfg, v, ts);
                    adv(&mut c, &mut m, &mut ts, 4); c.m1(ts);
                    adv(&mut c, &mut m, &mut ts, 7); c.is_irq(ts);
                }
                for n in 0..rep.q(120, 400) {
                    let g = steps[st][n % steps[st].len()];
                    adv(&mut c, &mut m, &mut ts, g);
                    polls += 1;
                    if n % 3 == 0 { c.m1(ts) }
                    let w = m.c[0].pending || m.c[1].pending;
                    let got = c.is_irq(ts);
                    if got != w { return Err(format!("at {ts}: is_irq {got}, expected {w}")) }
                    if got && n % 2 == 0 {
                        let q = if m.c[0].pending { 0 } else { 1 };
                        let v = c.irq_data(0, ts).0;
                        if v != 0x40 | ((base + q) as u8) << 1 { return Err(format!("at {ts}: vector {v:02x}")) }
                        m.c[q].pending = false;
                        c.reti(0, ts);
                    }
                    for q in if n % 5 == 0 { [1, 0] } else { [0, 1] } {
                        if n % 2 == 0 { break }
                        let (v, w) = (c.read_io(PORT[base + q], ts).0, m.c[q].value());
                        if v != w { return Err(format!("at {ts}: channel {} shows {v}, expected {w}", base + q)) }
                    }
                }
                Ok(())
            }).unwrap_or_else(|p| Err(format!("panic: {p}")));
            rep.add(polls, polls, 1);
            if let Err(e) = r { rep.violation(format!("C30: channels {base} {a:?} constant {tc} driving {} {b:?} constant {tc1}, external clock {ext} T, phase {phase}, polled every {:?} T\n{e}", base + 1, steps[st])) }
        }
    });
    rep.bound(format!("the computer's own lines: {} combinations of driving and driven channel set-ups, constants, poll rhythms and external clocks x {} phases, a poll-by-poll comparison over {} polls", items.len(), rep.q(12, 40), rep.q(120, 400)));
}
