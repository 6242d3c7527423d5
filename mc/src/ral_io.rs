//! C31, C32, C34: daisy chain, PIO transfers, port decoding of the example computer.
use crate::rep::*;
use ral1243::bus::{Bus, BusDevice, MemoryControl, Terminator};
use ral1243::ctc::{Ctc, CtcTrigger};
use ral1243::pio::{Pio, PioDevice};
use ral1243::pio_device::{PioInput, PioOutput, PioSink, PioStream};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::num::NonZeroU16;
use std::rc::Rc;
use z80emu::{Io, Memory};

type Ts = u32;
const T0: Ts = 1_000_000;

/// A trigger line on which nothing ever happens.
#[derive(Default)]
pub struct Quiet;
impl CtcTrigger for Quiet {
    type Timestamp = Ts;
    fn next_clk_trg(&mut self, _r: bool, _ts: Ts) -> Result<Ts, Ts> { Err(Ts::MAX) }
    fn purge_clk_trg(&mut self, _ts: Ts) -> Ts { Ts::MAX }
    fn zc_to_pulse(&mut self, _ts: Ts) {}
    fn next_second(&mut self, _d: Ts) {}
}

#[derive(Clone, Default)]
struct Src(Rc<RefCell<VecDeque<u8>>>);
impl PioStream for Src { fn slurp(&mut self) -> Option<u8> { self.0.borrow_mut().pop_front() } }
#[derive(Clone, Default)]
struct Dst { got: Rc<RefCell<Vec<u8>>>, tried: Rc<RefCell<Vec<(u8, bool)>>>, open: Rc<Cell<bool>>, pattern: Rc<Cell<Option<u32>>> }
impl PioSink for Dst {
    fn flush(&mut self, d: u8) -> bool {
        let ok = match self.pattern.get() {
            None => self.open.get(),
            Some(p) => { self.pattern.set(Some(p >> 1 | p & 0x8000_0000)); p & 1 != 0 }
        };
        self.tried.borrow_mut().push((d, ok));
        if ok { self.got.borrow_mut().push(d) }
        ok
    }
}

// ------------------------------------------------------------------ C32

type P = Pio<Ts, PioInput<Src>, PioOutput<Dst>, Terminator<Ts>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Po {
    Poll, FrameEnd, M1, Ack, Reti, Push, Read(u8), Write(u8), Mode(u8, bool), Ien(u8, bool), Vec(u8), Open(bool), Reset,
}

/// One channel as specified. `sink` tells which device hangs on it.
#[derive(Clone)]
struct Ch { sink: bool, input: bool, want: bool, ien: bool, req: bool, wait: bool, dev_ready: bool, din: u8, dout: u8, held: Option<u8>, vec: u8 }
impl Ch {
    fn new(sink: bool) -> Self { Ch { sink, input: true, want: false, ien: false, req: false, wait: true, dev_ready: false, din: 0, dout: 0, held: None, vec: 0 } }
    fn raise(&mut self) { if self.ien { self.req = true } }
}
#[derive(Clone)]
struct Pm { ch: [Ch; 2], stream: VecDeque<u8>, sunk: Vec<u8>, open: bool, service: bool,
    /// the known finding pio-stale-byte: a refused byte stays held when a newer one is accepted
    stale: bool }
impl Pm {
    fn new() -> Self { Pm { ch: [Ch::new(false), Ch::new(true)], stream: VecDeque::new(), sunk: vec![], open: true, service: false, stale: false } }
    /// the device side: whatever can be transferred now is
    fn sample(&mut self, c: usize) {
        let k = &mut self.ch[c];
        if !k.wait { return }
        match (k.input, k.sink) {
            (true, false) => if k.dev_ready { if let Some(b) = self.stream.pop_front() { k.din = b; k.wait = false; k.dev_ready = false; k.raise() } },
            (false, true) => {
                if let Some(b) = k.held { if !self.open { return } self.sunk.push(b); k.held = None }
                k.wait = false; k.raise();
            }
            _ => {}
        }
    }
    fn irq(&mut self) -> bool {
        if self.service { return false }
        self.sample(0);
        // the second channel of the chip is looked at when the first one does not request
        if !self.ch[0].req { self.sample(1) }
        self.ch[0].req || self.ch[1].req
    }
    fn write(&mut self, c: usize, b: u8) {
        let k = &mut self.ch[c];
        k.dout = b;
        if k.input { return }
        if k.wait {
            if k.sink {
                // the previous byte is either taken right now or replaced
                if let Some(o) = k.held { if self.open { self.sunk.push(o); k.held = None; k.raise() } } else { k.raise() }
            }
        }
        k.wait = true;
        if k.sink { if self.open { self.sunk.push(b); if !self.stale { k.held = None } } else { k.held = Some(b) } }
    }
    fn read(&mut self, c: usize) -> u8 {
        let k = &mut self.ch[c];
        if k.input { k.wait = true; if !k.sink { k.dev_ready = true } k.din } else { k.dout }
    }
    fn mode(&mut self, c: usize, input: bool) {
        let k = &mut self.ch[c];
        k.input = input; k.wait = input;
        if !k.sink { k.dev_ready = input }
        if k.sink && input { k.held = None }
    }
}

struct Ps { p: P, src: Src, dst: Dst, nexti: u8, nexto: u8, ts: Ts }
fn pio_fresh() -> (Ps, Pm) {
    let (src, dst) = (Src::default(), Dst::default());
    dst.open.set(true);
    let p = Pio::new(PioInput::new(src.clone()), PioOutput::new(dst.clone()), Terminator::new()).with_port_bits(0xFC, 8, 1, 0);
    let mut s = Ps { p, src, dst, nexti: 1, nexto: 0x81, ts: T0 };
    let mut m = Pm::new();
    s.p.reset(s.ts);
    m.ch[0].dev_ready = true;
    (s, m)
}
fn port(c: u8, ctl: bool) -> u16 { 8 | (c as u16) << 1 | ctl as u16 }

fn pio_step(s: &mut Ps, m: &mut Pm, o: Po) -> Result<(), String> {
    s.ts += 5;
    let ts = s.ts;
    match o {
        Po::Poll => {
            let (g, w) = (s.p.is_irq(ts), m.irq());
            if g != w { return Err(format!("is_irq {g}, expected {w}")) }
        }
        Po::FrameEnd => { s.p.frame_end(ts); m.sample(0); m.sample(1) }
        Po::M1 => { s.p.m1(ts); for k in &mut m.ch { if k.want { k.want = false; k.ien = true } } }
        Po::Ack => {
            let (g, w) = (s.p.is_irq(ts), m.irq());
            if g != w { return Err(format!("is_irq {g}, expected {w}")) }
            if w {
                let c = if m.ch[0].req { 0 } else { 1 };
                m.ch[c].req = false; m.service = true;
                let (v, ws) = s.p.irq_data(0x1234, ts + 2);
                if v != m.ch[c].vec || ws.is_some() { return Err(format!("acknowledge gives {v:02x} ({ws:?}), expected {:02x}", m.ch[c].vec)) }
            }
        }
        Po::Reti => { let r = s.p.reti(0x1234, ts); m.service = false; if r.is_some() { return Err("reti requests a break".into()) } }
        Po::Push => { let b = s.nexti; s.nexti += 1; s.src.0.borrow_mut().push_back(b); m.stream.push_back(b) }
        Po::Read(c) => {
            let (g, w) = (s.p.read_io(port(c, false), ts), m.read(c as usize));
            if g != (w, None) { return Err(format!("read of channel {c}: {g:02x?}, expected {w:02x}")) }
        }
        Po::Write(c) => {
            let b = s.nexto; s.nexto = s.nexto.wrapping_add(1);
            let r = s.p.write_io(port(c, false), b, ts);
            m.write(c as usize, b);
            if r != (None, None) { return Err(format!("write returned {r:?}")) }
        }
        Po::Mode(c, i) => { s.p.write_io(port(c, true), if i { 0x4F } else { 0x0F }, ts); m.mode(c as usize, i) }
        Po::Ien(c, e) => {
            s.p.write_io(port(c, true), if e { 0x83 } else { 0x03 }, ts);
            let k = &mut m.ch[c as usize];
            if e { if !k.ien { k.want = true } } else { k.want = false; k.ien = false; k.req = false }
        }
        Po::Vec(c) => { let v = (0x10 | c << 2 | s.nexto << 4) & 0xFE; s.p.write_io(port(c, true), v, ts); m.ch[c as usize].vec = v }
        Po::Open(o) => { s.dst.open.set(o); m.open = o }
        Po::Reset => {
            s.p.reset(ts);
            m.service = false;
            for c in 0..2 {
                let (v, sink) = (m.ch[c].vec, m.ch[c].sink);
                m.ch[c] = Ch { vec: v, dev_ready: !sink, ..Ch::new(sink) };
            }
        }
    }
    let g = s.dst.got.borrow();
    if *g != m.sunk { return Err(format!("the sink has received {g:02x?}, expected {:02x?}", m.sunk)) }
    let left = s.src.0.borrow().len();
    if left != m.stream.len() { return Err(format!("{left} bytes left in the stream, expected {}", m.stream.len())) }
    Ok(())
}

/// Starting situations: programs run before the explored part.
fn pio_starts() -> Vec<(&'static str, Vec<Po>)> {
    use Po::*;
    vec![
        ("after reset", vec![]),
        ("A input, B output, interrupts on", vec![Mode(0, true), Mode(1, false), Vec(0), Vec(1), Ien(0, true), Ien(1, true), M1]),
        ("B output, a byte refused, interrupts on", vec![Mode(1, false), Vec(1), Vec(0), Ien(0, true), Ien(1, true), M1, Open(false), Write(1)]),
        ("A has a byte latched and requested, B has a byte accepted", vec![Mode(0, true), Mode(1, false), Vec(0), Vec(1), Ien(0, true), Ien(1, true), M1, Push, Write(1), FrameEnd]),
        ("A in service with more input waiting", vec![Mode(1, false), Vec(0), Vec(1), Ien(0, true), Ien(1, true), M1, Push, Push, Ack]),
    ]
}

/// Explores every sequence of `ops` of length `depth` after `start`.
pub fn all_seq<S, O: Copy + std::fmt::Debug + Sync>(rep: &Rep, id: &str, ops: &[O], depth: usize, starts: &[(&str, Vec<O>)],
    fresh: &(impl Fn() -> S + Sync), step: &(impl Fn(&mut S, O) -> Result<(), String> + Sync), fin: &(impl Fn(&mut S) -> Result<(), String> + Sync))
{
    all_seq_known(rep, id, ops, depth, starts, fresh, step, fin, &[])
}
/// `known`: a deviation from the specification is the known finding `key` if the code agrees all the way with the model
/// that has just that defect, made by the second component.
#[allow(clippy::too_many_arguments)]
pub fn all_seq_known<S, O: Copy + std::fmt::Debug + Sync>(rep: &Rep, id: &str, ops: &[O], depth: usize, starts: &[(&str, Vec<O>)],
    fresh: &(impl Fn() -> S + Sync), step: &(impl Fn(&mut S, O) -> Result<(), String> + Sync), fin: &(impl Fn(&mut S) -> Result<(), String> + Sync),
    known: &[(&str, &(dyn Fn() -> S + Sync))])
{
    let n = ops.len();
    let items: Vec<(usize, usize, usize)> = (0..starts.len()).flat_map(|s| (0..n).flat_map(move |a| (0..n).map(move |b| (s, a, b)))).collect();
    par(rep, items.len(), || (), |_, i| {
        let (si, a, b) = items[i];
        let total = n.pow(depth as u32 - 2);
        let (mut st, mut tr) = (0u64, 0u64);
        for x in 0..total {
            if rep.stopped() { break }
            let mut at = 0;
            let mut seq = [ops[a]; 12];
            seq[1] = ops[b];
            let mut r = x;
            for q in seq.iter_mut().take(depth).skip(2) { *q = ops[r % n]; r /= n }
            let res = guard(|| -> Result<(), String> {
                let mut s = fresh();
                for &o in &starts[si].1 { step(&mut s, o).map_err(|e| format!("setup {o:x?}: {e}"))? }
                for &o in &seq[..depth] { at += 1; step(&mut s, o)? }
                at += 1;
                fin(&mut s)
            }).unwrap_or_else(|p| Err(format!("panic: {p}")));
            st += depth as u64; tr += depth as u64;
            if let Err(e) = res {
                let as_known = known.iter().find(|k| matches!(guard(|| -> Result<(), String> {
                    let mut s = k.1();
                    for &o in &starts[si].1 { step(&mut s, o)? }
                    for &o in &seq[..depth] { step(&mut s, o)? }
                    fin(&mut s)
                }), Ok(Ok(()))));
                if let Some(k) = as_known { rep.violation_keyed(k.0, format!("{id}: start: {} {:x?}\noperations {:x?}\nat step {at}: {e}", starts[si].0, starts[si].1, &seq[..depth])); continue }
                rep.violation(format!("{id}: start: {} {:x?}\noperations {:x?}\nat step {at}: {e}", starts[si].0, starts[si].1, &seq[..depth])) }
        }
        rep.add(st, tr, total as u64);
        if i % 131 == 0 { rep.sample(|| format!("{}: {:x?} {:x?} ... {total} continuations", starts[si].0, ops[a], ops[b])) }
    });
}

pub fn c32(rep: &Rep) {
    use Po::*;
    let depth = rep.q(5, 6);
    // the whole alphabet, shorter; the transfer alphabet, longer
    let full = [Poll, FrameEnd, M1, Ack, Reti, Push, Read(0), Read(1), Write(0), Write(1), Mode(0, true), Mode(0, false), Mode(1, true), Mode(1, false),
        Ien(0, true), Ien(0, false), Ien(1, true), Ien(1, false), Vec(0), Open(true), Open(false), Reset];
    let starts = pio_starts();
    let fin = |(s, m): &mut (Ps, Pm)| -> Result<(), String> {
        // drain: whatever is still on its way must come out, once and in order
        for o in [Open(true), Reti, FrameEnd, Ack, Reti, Ack, Reti, Read(0), FrameEnd, Read(0), Poll] { pio_step(s, m, o).map_err(|e| format!("while draining ({o:?}): {e}"))? }
        Ok(())
    };
    let stale = || { let mut x = pio_fresh(); x.1.stale = true; x };
    all_seq_known(rep, "C32", &full, depth - 1, &starts, &pio_fresh, &|(s, m), o| pio_step(s, m, o), &fin, &[("pio-stale-byte", &stale)]);
    if rep.stopped() { return }
    let small = [Poll, FrameEnd, Ack, Reti, Push, Read(0), Write(1), Open(true), Open(false), Mode(1, false)];
    all_seq_known(rep, "C32", &small, depth + 1, &starts[1..], &pio_fresh, &|(s, m), o| pio_step(s, m, o), &fin, &[("pio-stale-byte", &stale)]);
    rep.bound(format!("{} starting situations x every sequence of {} of {} operations, and of {} of the {} transfer operations, each followed by draining", starts.len(), depth - 1, full.len(), depth + 1, small.len()));
    if rep.stopped() { return }
    // a sink that changes its mind between any two attempts: what arrives is an ordered selection of what was written
    let ops = [Write(1), Poll, FrameEnd, Mode(1, false), Ack, Reti, Mode(1, true), Reset];
    let d = rep.q(5, 6);
    let n = ops.len();
    let pats = 1u32 << rep.q(6, 8);
    par(rep, n * n, || (), |_, i| {
        let total = n.pow(d as u32 - 2);
        let mut cnt = 0u64;
        for x in 0..total {
            if rep.stopped() { break }
            let mut seq = vec![ops[i / n], ops[i % n]];
            let mut r = x;
            for _ in 2..d { seq.push(ops[r % n]); r /= n }
            for pat in 0..pats {
                let res = guard(|| race(&seq, pat | 0x8000_0000)).unwrap_or_else(|p| Err(format!("panic: {p}")));
                cnt += 1;
                if let Err(e) = res { rep.violation_keyed(if e.starts_with("(stale)") { "pio-stale-byte" } else { "" }, format!("C32: output with a sink accepting attempts per bits of {pat:08b} (from bit 0, then always): {seq:?}: {e}")); break }
            }
        }
        rep.add(cnt * d as u64, cnt * d as u64, cnt);
    });
    rep.bound(format!("output side: every sequence of {d} of {n} operations x every pattern of {} accepted/refused attempts", pats.trailing_zeros()));
}

/// No model of attempts here, only what must hold for any of them.
fn race(seq: &[Po], pat: u32) -> Result<(), String> {
    let (mut s, _) = pio_fresh();
    for c in [(3u8, 0x0Fu8), (3, 0x83), (3, 0x20)] { s.p.write_io(8 | c.0 as u16, c.1, T0); }
    s.p.m1(T0);
    s.dst.pattern.set(Some(pat));
    let (mut service, mut out, mut acks, mut last) = (false, true, 0usize, None::<u8>);
    let mut total_written = 0usize;
    // the known finding: nothing arrives out of order but single bytes refused before the newer byte was accepted
    let known = |s: &Ps| -> &'static str {
        let (g, t) = (s.dst.got.borrow(), s.dst.tried.borrow());
        let explained = g.windows(2).filter(|w| w[0] >= w[1]).all(|w| {
            let acc = t.iter().position(|x| *x == (w[0], true)).unwrap();
            w[0] != w[1] && t[..acc].contains(&(w[1], false)) && g.iter().filter(|b| **b == w[1]).count() == 1
        });
        if explained { "(stale) " } else { "" }
    };
    let check_order = |s: &Ps| -> Result<(), String> {
        let g = s.dst.got.borrow();
        if g.windows(2).any(|w| w[0] >= w[1]) { return Err(format!("{}bytes written in ascending order arrive as {g:02x?}", known(s))) }
        Ok(())
    };
    for &o in seq {
        s.ts += 5;
        let ts = s.ts;
        match o {
            Po::Write(_) => { let b = s.nexto; s.nexto += 1; s.p.write_io(10, b, ts); if out { total_written += 1; last = Some(b) } }
            Po::Poll => { s.p.is_irq(ts); }
            Po::FrameEnd => s.p.frame_end(ts),
            Po::Mode(_, i) => { s.p.write_io(11, if i { 0x4F } else { 0x0F }, ts); out = !i; last = None }
            Po::Ack => if s.p.is_irq(ts) { s.p.irq_data(0, ts); acks += 1; service = true; },
            Po::Reti => { s.p.reti(0, ts); service = false; }
            Po::Reset => { s.p.reset(ts); out = false; last = None; service = false; }
            _ => {}
        }
        check_order(&s)?;
    }
    let _ = service;
    // once the sink accepts, the last byte that was not overwritten arrives
    s.dst.pattern.set(Some(u32::MAX));
    s.p.reti(0, s.ts);
    s.p.frame_end(s.ts + 10);
    s.p.frame_end(s.ts + 20);
    check_order(&s)?;
    let g = s.dst.got.borrow();
    if g.len() > total_written { return Err(format!("{} bytes written, {} arrived", total_written, g.len())) }
    if let Some(b) = last { if g.iter().max() != Some(&b) { return Err(format!("the last byte {b:02x} never arrives: {g:02x?}")) } }
    if acks > g.len() { return Err(format!("{acks} requests for {} accepted bytes", g.len())) }
    Ok(())
}

// ------------------------------------------------------------------ C31

type C31Bus = Ctc<Ts, Quiet, Quiet, Quiet, Quiet, P>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    /// an edge on the input of a CTC channel that counts single edges
    Pulse(u8), CtcIen(u8, bool), CtcVec, Ack, Look, Reti, PushA, ReadA, WriteB, PioIen(u8, bool), PioVec(u8), M1, Reset, Program,
}
struct Ds { b: C31Bus, src: Src, ts: Ts, edge: [bool; 4], n: u8 }
#[derive(Clone)]
struct Dm { cpend: [bool; 4], cien: [bool; 4], cprog: [bool; 4], cvec: u8, cserv: bool, p: Pm }

fn daisy_fresh() -> (Ds, Dm) {
    let (ps, mut pm) = pio_fresh();
    let b = Ctc::new(Quiet, Quiet, Quiet, Quiet, ps.p).with_port_bits(0xFC, 4, 1, 0);
    let mut s = Ds { b, src: ps.src, ts: T0, edge: [false; 4], n: 1 };
    s.b.reset(T0);
    pm.open = true;
    (s, Dm { cpend: [false; 4], cien: [false; 4], cprog: [false; 4], cvec: 0, cserv: false, p: pm })
}
impl Dm {
    fn irq(&self) -> bool { !self.cserv && (self.cpend.iter().any(|&x| x) || !self.p.service && (self.p.ch[0].req || self.p.ch[1].req)) }
}
fn daisy_step(s: &mut Ds, m: &mut Dm, o: Do) -> Result<(), String> {
    s.ts += 5;
    let ts = s.ts;
    let cport = |k: u8| 4 | k as u16;
    match o {
        Do::Pulse(k) => {
            let i = k as usize;
            s.edge[i] = !s.edge[i];
            s.b.write_io(cport(k), 0x41 | (s.edge[i] as u8) << 4 | (m.cien[i] as u8) << 7, ts);
            if m.cprog[i] && m.cien[i] { m.cpend[i] = true }
        }
        Do::CtcIen(k, e) => {
            let i = k as usize;
            s.b.write_io(cport(k), 0x41 | (s.edge[i] as u8) << 4 | (e as u8) << 7, ts);
            m.cien[i] = e;
            if !e { m.cpend[i] = false }
        }
        Do::CtcVec => { let v = 0x40 ^ (s.n & 0x1F) << 3; s.b.write_io(cport(s.n & 3), v, ts); m.cvec = v & 0xF8; s.n += 1 }
        Do::Look => {}
        Do::Ack => {
            let (g, w) = (s.b.is_irq(ts), m.irq());
            if g != w { return Err(format!("is_irq {g}, expected {w}")) }
            if w {
                let v = if let Some(k) = (0..4).find(|&k| m.cpend[k]) { m.cpend[k] = false; m.cserv = true; m.cvec | (k as u8) << 1 }
                    else { let c = if m.p.ch[0].req { 0 } else { 1 }; m.p.ch[c].req = false; m.p.service = true; m.p.ch[c].vec };
                let (g, ws) = s.b.irq_data(0x1234, ts);
                if g != v || ws.is_some() { return Err(format!("acknowledge gives {g:02x} ({ws:?}), expected {v:02x}")) }
            }
        }
        Do::Reti => {
            if s.b.reti(0x4321, ts).is_some() { return Err("reti requests a break".into()) }
            if m.cserv { m.cserv = false } else { m.p.service = false }
        }
        Do::PushA => { let b = s.n; s.n += 1; s.src.0.borrow_mut().push_back(b); m.p.stream.push_back(b) }
        Do::ReadA => { let (g, w) = (s.b.read_io(8, ts).0, m.p.read(0)); if g != w { return Err(format!("read {g:02x}, expected {w:02x}")) } }
        Do::WriteB => { s.b.write_io(10, s.n, ts); m.p.write(1, s.n); s.n += 1 }
        Do::PioIen(c, e) => {
            s.b.write_io(port(c, true), if e { 0x83 } else { 0x03 }, ts);
            let k = &mut m.p.ch[c as usize];
            if e { if !k.ien { k.want = true } } else { k.want = false; k.ien = false; k.req = false }
        }
        Do::PioVec(c) => { let v = (0x90 | c << 1 | s.n << 2) & 0xFE; s.b.write_io(port(c, true), v, ts); m.p.ch[c as usize].vec = v; s.n += 1 }
        Do::M1 => { s.b.m1(ts); for k in &mut m.p.ch { if k.want { k.want = false; k.ien = true } } }
        Do::Program => {
            for k in 0..4u8 {
                s.edge[k as usize] = true;
                s.b.write_io(cport(k), 0xD7, ts); // counter, rising, time constant follows, reset, interrupts on
                s.b.write_io(cport(k), 1, ts);
                m.cien[k as usize] = true; m.cprog[k as usize] = true;
            }
            for (p, d) in [(9u16, 0x4Fu8), (11, 0x0F), (9, 0x83), (11, 0x83)] { s.b.write_io(p, d, ts); }
            m.p.mode(0, true); m.p.mode(1, false);
            for k in &mut m.p.ch { if !k.ien { k.want = true } }
        }
        Do::Reset => {
            s.b.reset(ts);
            m.cpend = [false; 4]; m.cien = [false; 4]; m.cprog = [false; 4]; m.cserv = false; m.p.service = false;
            for c in 0..2 { let (v, sink) = (m.p.ch[c].vec, m.p.ch[c].sink); m.p.ch[c] = Ch { vec: v, dev_ready: !sink, ..Ch::new(sink) } }
        }
    }
    // devices update themselves at the end of a frame: let one end after each step, so that sampling moments are definite
    s.b.frame_end(ts);
    m.p.sample(0); m.p.sample(1);
    let (g, w) = (s.b.is_irq(ts), m.irq());
    if g != w { return Err(format!("after {o:?}: is_irq {g}, expected {w}")) }
    if s.b.is_irq(ts) != w { return Err(format!("after {o:?}: asking again changes is_irq")) }
    Ok(())
}

pub fn c31(rep: &Rep) {
    use Do::*;
    let setup = vec![CtcVec, PioVec(0), PioVec(1), Program, M1];
    let mut two = setup.clone(); two.extend([PushA, Ack, Pulse(2)]);
    let mut nest = setup.clone(); nest.extend([WriteB, PushA, Ack, Pulse(3), Ack, Pulse(0), Pulse(1)]);
    let mut all = setup.clone(); all.extend([Pulse(3), Pulse(2), Pulse(1), Pulse(0), PushA, WriteB]);
    let starts = [("all devices programmed", setup), ("PIO A in service, CTC 2 requesting", two), ("PIO A then CTC 3 in service, CTC 0 and 1 requesting", nest), ("everything requesting", all)];
    let full = [Pulse(0), Pulse(1), Pulse(2), Pulse(3), CtcIen(0, false), CtcIen(0, true), CtcIen(2, false), CtcVec, Ack, Look, Reti, PushA, ReadA, WriteB,
        PioIen(0, false), PioIen(0, true), PioIen(1, false), PioVec(0), PioVec(1), M1, Reset, Program];
    let fin = |(s, m): &mut (Ds, Dm)| -> Result<(), String> {
        // serve everything that is pending, nested and one after the other
        for _ in 0..3 { daisy_step(s, m, Ack)? }
        for _ in 0..2 { daisy_step(s, m, Reti)? }
        for _ in 0..7 { daisy_step(s, m, Ack)?; daisy_step(s, m, Reti)? }
        Ok(())
    };
    let depth = rep.q(5, 6);
    all_seq(rep, "C31", &full, depth - 1, &starts, &daisy_fresh, &|(s, m), o| daisy_step(s, m, o), &fin);
    if rep.stopped() { return }
    let small = [Pulse(0), Pulse(1), Pulse(3), Ack, Reti, PushA, ReadA, WriteB, CtcIen(1, false)];
    all_seq(rep, "C31", &small, depth + 1, &starts, &daisy_fresh, &|(s, m), o| daisy_step(s, m, o), &fin);
    rep.bound(format!("{} starting situations x every sequence of {} of {} operations, and of {} of {} request/acknowledge/RETI operations, each followed by serving everything", starts.len(), depth - 1, full.len(), depth + 1, small.len()));
}

// ------------------------------------------------------------------ C34

#[derive(Clone, Default)]
struct Log(Rc<RefCell<Vec<(&'static str, u32, u8)>>>);
impl Log {
    fn put(&self, w: &'static str, p: u32, d: u8) { self.0.borrow_mut().push((w, p, d)) }
    fn take(&self) -> Vec<(&'static str, u32, u8)> { std::mem::take(&mut *self.0.borrow_mut()) }
}
/// PIO device that records what it is told.
struct Dev(Log, &'static str, [&'static str; 2]);
fn dev(l: &Log, which: usize) -> Dev { Dev(l.clone(), ["A", "B"][which], [["A sent", "A floating"], ["B sent", "B floating"]][which]) }
impl PioDevice for Dev {
    type Timestamp = Ts;
    fn set_floating_bus(&mut self, _t: Ts) { self.0.put(self.2[1], 0, 0) }
    fn ready_with_data(&mut self, d: u8, _t: Ts) { self.0.put(self.2[0], 0, d) }
}
/// Last device: records accesses that nobody took.
struct Last(Log);
impl BusDevice for Last {
    type Timestamp = Ts;
    type NextDevice = Terminator<Ts>;
    fn reset(&mut self, _: Ts) {}
    fn frame_end(&mut self, _: Ts) {}
    fn m1(&mut self, _: Ts) {}
    fn next_device(&mut self) -> &mut Terminator<Ts> { unreachable!() }
    fn next_second(&mut self, _: Ts) {}
}
impl Io for Last {
    type Timestamp = Ts;
    type WrIoBreak = ();
    type RetiBreak = ();
    fn read_io(&mut self, p: u16, ts: Ts) -> (u8, Option<NonZeroU16>) { self.0.put("last read", p as u32, (ts & 0xFF) as u8); (0x5A, NonZeroU16::new(3)) }
    fn write_io(&mut self, p: u16, d: u8, _ts: Ts) -> (Option<()>, Option<NonZeroU16>) { self.0.put("last write", p as u32, d); (None, NonZeroU16::new(4)) }
    fn is_irq(&mut self, _: Ts) -> bool { false }
    fn irq_data(&mut self, _: u16, _: Ts) -> (u8, Option<NonZeroU16>) { (0xE7, None) }
    fn reti(&mut self, _: u16, _: Ts) -> Option<()> { None }
}
struct Mm(Log, u8);
impl MemoryControl for Mm {
    fn read_ctrl(&self) -> u8 { self.0.put("ctrl read", 0, 0); self.1 }
    fn write_ctrl(&mut self, d: u8) { self.0.put("ctrl write", 0, d); self.1 = d }
    fn memory_debug(&self, _: std::ops::Range<u16>) -> Vec<u8> { vec![] }
}
impl Memory for Mm {
    type Timestamp = Ts;
    fn read_debug(&self, _: u16) -> u8 { 0 }
}

type C34Pio = Pio<Ts, Dev, Dev, Last>;
type C34Bus = Bus<Ctc<Ts, Quiet, Quiet, Quiet, Quiet, C34Pio>, Mm>;

/// mask, bits (and select bit numbers) of the three decoders
#[derive(Clone, Copy, Debug)]
struct Dec { mem: (u16, u16), ctc: (u16, u16, u32, u32), pio: (u16, u16, u32, u32) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum To { Mem, Ctc(u8), Pio(u8, bool), Last }
fn decode(d: &Dec, p: u16) -> To {
    if p & d.mem.0 == d.mem.1 { return To::Mem }
    if p & d.ctc.0 == d.ctc.1 { return To::Ctc(((p >> d.ctc.2 & 1) << 1 | p >> d.ctc.3 & 1) as u8) }
    if p & d.pio.0 == d.pio.1 { return To::Pio((p >> d.pio.2 & 1) as u8, p >> d.pio.3 & 1 == 1) }
    To::Last
}

fn c34_bus(d: &Dec) -> (C34Bus, Log) {
    let l = Log::default();
    let pio = Pio::new(dev(&l, 0), dev(&l, 1), Last(l.clone())).with_port_bits(d.pio.0, d.pio.1, d.pio.2, d.pio.3);
    let ctc = Ctc::new(Quiet, Quiet, Quiet, Quiet, pio).with_port_bits(d.ctc.0, d.ctc.1, d.ctc.2, d.ctc.3);
    (Bus::new(ctc, Mm(l.clone(), 0x77)).with_port_bits(d.mem.0, d.mem.1), l)
}
/// Runs every port through one bus: what each device holds is tracked, the log must show exactly the access expected.
fn c34_sweep(d: &Dec, ports: impl Iterator<Item = u16>) -> Result<u64, String> {
    let (mut b, l) = c34_bus(d);
    // which port values reach each register, as far as they exist (earlier decoders may hide them)
    let mut canon: [Option<u16>; 4] = [None; 4];
    let mut canonp: [[Option<u16>; 2]; 2] = [[None; 2]; 2];
    for p in 0..=0xFFFFu16 {
        match decode(d, p) { To::Ctc(k) => { canon[k as usize].get_or_insert(p); } To::Pio(c, x) => { canonp[c as usize][x as usize].get_or_insert(p); } _ => {} }
    }
    // PIO channels to output mode, where reachable; CTC channels as counters with their own constants
    let mut output = [false; 2];
    for c in 0..2 { if let Some(p) = canonp[c][1] { b.write_io(p, 0x0F, T0); output[c] = true } }
    let mut ctcv = [0u8; 4];
    let mut shadow = (0x77u8, [0u8; 2]);
    for k in 0..4 { if let Some(p) = canon[k] { b.write_io(p, 0x57, T0); ctcv[k] = 0x20 + k as u8; b.write_io(p, ctcv[k], T0); } }
    l.take();
    let mut n = 0u64;
    let fail = |p: u16, what: &str, got: String| Err(format!("port {p:04x} should be {:?}: {what}: {got}", decode(d, p)));
    for p in ports {
        let to = decode(d, p);
        let ts = T0 + (n as u32 % 1000);
        // read
        let r = b.read_io(p, ts);
        let log = l.take();
        let (wr, wl): ((u8, u16), Vec<(&str, u32, u8)>) = match to {
            To::Mem => ((shadow.0, 0), vec![("ctrl read", 0, 0)]),
            To::Ctc(k) => ((ctcv[k as usize], 0), vec![]),
            To::Pio(c, _) => ((if output[c as usize] { shadow.1[c as usize] } else { 0 }, 0), vec![]),
            To::Last => ((0x5A, 3), vec![("last read", p as u32, (ts & 0xFF) as u8)]),
        };
        if (r.0, r.1.map_or(0, |x| x.get())) != wr || log != wl { return fail(p, "read", format!("{r:02x?} {log:02x?}, expected {wr:02x?} {wl:02x?}")) }
        // write; the value is a legal word for any register: even = vector for control registers
        let v = (p as u8 ^ (p >> 8) as u8) & 0xFE | 0x40;
        let cw = if let To::Ctc(_) = to { 0x57 } else { v };
        let r = b.write_io(p, cw, ts);
        let log = l.take();
        let (ww, wl): (u16, Vec<(&str, u32, u8)>) = match to {
            To::Mem => { shadow.0 = v; (0, vec![("ctrl write", 0, v)]) }
            To::Ctc(_) => (0, vec![]),
            To::Pio(c, false) => { shadow.1[c as usize] = v; (0, if output[c as usize] { vec![(["A sent", "B sent"][c as usize], 0, v)] } else { vec![] }) }
            To::Pio(_, true) => (0, vec![]),
            To::Last => (4, vec![("last write", p as u32, v)]),
        };
        if r.0.is_some() || r.1.map_or(0, |x| x.get()) != ww || log != wl { return fail(p, "write", format!("{r:02x?} {log:02x?}, expected waits {ww} {wl:02x?}")) }
        if let To::Ctc(k) = to {
            // the word that follows is this channel's time constant
            ctcv[k as usize] = v | 1;
            b.write_io(p, v | 1, ts);
            let log = l.take();
            if !log.is_empty() { return fail(p, "time constant", format!("{log:02x?}")) }
        }
        if let To::Pio(c, true) = to {
            // an input mode word is seen by this channel's device alone
            b.write_io(p, 0x4F, ts);
            let log = l.take();
            if log != [(["A floating", "B floating"][c as usize], 0, 0)] { return fail(p, "input mode", format!("{log:02x?}")) }
            b.write_io(p, 0x0F, ts);
        }
        // nobody else noticed
        for k in 0..4 { if let Some(q) = canon[k] { let r = b.read_io(q, ts).0; if r != ctcv[k] { return fail(p, "afterwards", format!("CTC channel {k} counts {r:02x}, expected {:02x}", ctcv[k])) } } }
        for c in 0..2 { if let (true, Some(q)) = (output[c], canonp[c][0].or(canonp[c][1])) { let r = b.read_io(q, ts).0; if r != shadow.1[c] { return fail(p, "afterwards", format!("PIO channel {c} holds {r:02x}, expected {:02x}", shadow.1[c])) } } }
        l.take();
        n += 1;
    }
    Ok(n)
}

pub fn c34(rep: &Rep) {
    let ral = Dec { mem: (0xFF, 124), ctc: (0xFC, 4, 1, 0), pio: (0xFC, 8, 1, 0) };
    let mut decs = vec![ral,
        // the documented examples
        Dec { mem: (0x00FF, 0x00FE), ctc: (0x0300, 0x0200, 7, 0), pio: (0x0300, 0x0100, 6, 1) },
        // everything matches the memory port; everything matches the CTC; overlapping decoders: the first in the chain wins
        Dec { mem: (0, 0), ctc: (0xFC, 4, 1, 0), pio: (0xFC, 8, 1, 0) },
        Dec { mem: (0xFFFF, 0xFFFF), ctc: (0, 0, 9, 3), pio: (0xFC, 8, 1, 0) },
        Dec { mem: (0x80, 0x80), ctc: (0xF0, 0x10, 15, 8), pio: (0, 0, 0, 1) },
        Dec { mem: (0x01, 0x01), ctc: (0x04, 0x04, 1, 3), pio: (0x08, 0x08, 4, 2) },
        Dec { mem: (0xFFFF, 0x0000), ctc: (0xFFFC, 0x0000, 0, 1), pio: (0xFFFC, 0x8000, 0, 1) },
    ];
    let nfull = decs.len();
    for d in 0..nfull {
        let chunk = 4096;
        par(rep, 65536 / chunk, || (), |_, i| {
            let r = guard(|| c34_sweep(&decs[d], (i * chunk..(i + 1) * chunk).map(|p| p as u16))).unwrap_or_else(|p| Err(format!("panic: {p}")));
            match r {
                Ok(n) => rep.add(n * 2, n * 2, n),
                Err(e) => rep.violation(format!("C34: {:x?}: {e}", decs[d])),
            }
        });
        if rep.stopped() { return }
        rep.sample(|| format!("{:x?}: 65536 ports read and written", decs[d]));
    }
    rep.bound(format!("{nfull} decoder configurations (the computer's, the documented examples, catch-all and overlapping ones) x 65536 ports x read and write, all registers looked at after each"));
    // every pair of select bits, mask of all the other bits
    decs.clear();
    for s1 in 0..16u32 { for s0 in 0..16u32 { if s1 != s0 {
        let mask = !(1u16 << s1 | 1 << s0);
        let bits = mask & 0xA5C3;
        decs.push(Dec { mem: (0xFFFF, 0x0F0F), ctc: (mask, bits, s1, s0), pio: (mask, mask & !bits, s1, s0) });
        decs.push(Dec { mem: (0xFFFF, 0x0F0F), ctc: (mask & 0x8421, mask & 0x8001, s1, s0), pio: (mask & 0x1248, mask & 0x0048, s1, s0) });
    } } }
    let step = rep.q(37u32, 1);
    par(rep, decs.len(), || (), |_, i| {
        let d = decs[i];
        // all ports of the devices, a lattice (thorough: all) of the others
        let ports = (0..=0xFFFFu32).filter(|&p| decode(&d, p as u16) != To::Last && (p % 7 == 0 || d.ctc.0.count_ones() > 8) || p % step == 0).map(|p| p as u16);
        let r = guard(|| c34_sweep(&d, ports)).unwrap_or_else(|p| Err(format!("panic: {p}")));
        match r {
            Ok(n) => rep.add(n * 2, n * 2, n),
            Err(e) => rep.violation(format!("C34: {d:x?}: {e}")),
        }
    });
    rep.bound(format!("{} configurations with every pair of select bits", decs.len()));
    if rep.stopped() { return }
    // the real computer's bus: memory control and terminator through the CPU-facing interface
    let r = guard(|| real_bus(rep)).unwrap_or_else(|p| Err(format!("panic: {p}")));
    if let Err(e) = r { rep.violation(format!("C34: example computer: {e}")) }
}

/// The composition made by Ral1243::new is private; what a program sees of it is explored by running IN/OUT programs on it.
fn real_bus(rep: &Rep) -> Result<(), String> {
    use ral1243::ctc_trigger::CtcActive;
    use ral1243::*;
    let mk = || {
        let (src, dst) = (Src::default(), Dst::default());
        dst.open.set(true);
        let pio = Pio::new(PioInput::new(src.clone()), PioOutput::new(dst.clone()), Terminator::new()).with_port_bits(PIO_PORT_MASK, PIO_PORT_BITS, PIO_PORT_CHANNEL_SELECT, PIO_PORT_CONTROL_SELECT);
        let c0 = CtcActive::new(400); let c1 = c0.new_passive(); let c2 = CtcActive::new(400); let c3 = c2.new_passive();
        let ctc = Ctc::new(c0, c1, c2, c3, pio).with_port_bits(CTC_PORT_MASK, CTC_PORT_BITS, CTC_PORT_CHANNEL_SELECT1, CTC_PORT_CHANNEL_SELECT0);
        let bus: BusT<Src, Dst> = Bus::new(ctc, ral1243::memory::Memory::new(ROM, 1)).with_port_bits(MEMORY_PORT_MASK, MEMORY_PORT_BITS);
        (bus, src, dst)
    };
    let mut n = 0;
    let (mut b, src, dst) = mk();
    b.reset(T0);
    b.write_io(0x000B, 0x0F, T0);
    let mut sent = vec![];
    for p in 0..=0xFFFFu16 {
        let low = p as u8;
        let v = (p >> 8) as u8 ^ low;
        match low {
            124 => {
                b.write_io(p, v, T0);
                if b.read_io(p, T0) != (v, None) || b.memory_ref().read_ctrl() != v { return Err(format!("memory control through {p:04x}")) }
            }
            8 => {
                src.0.borrow_mut().push_back(v);
                b.frame_end(T0);
                if b.read_io(p, T0).0 != v || !src.0.borrow().is_empty() { return Err(format!("input through {p:04x}")) }
            }
            10 => { b.write_io(p, v, T0); sent.push(v); b.frame_end(T0); if *dst.got.borrow() != sent { return Err(format!("output through {p:04x}")) } }
            9 | 11 => { b.write_io(p, v & 0xFE, T0); }
            4..=7 => {
                b.write_io(p, 0x17, T0); b.write_io(p, v, T0); // timer: not advancing while the clock stands still
                if b.read_io(p, T0).0 != v { return Err(format!("CTC through {p:04x}")) }
            }
            _ => {
                if b.read_io(p, T0) != (0xFF, None) || b.write_io(p, v, T0) != (None, None) { return Err(format!("unused port {p:04x}")) }
            }
        }
        n += 1;
    }
    if !src.0.borrow().is_empty() || *dst.got.borrow() != sent { return Err("bytes moved through other ports".into()) }
    rep.add(n, n, n);
    rep.bound("the example computer's own port map: all 65536 ports");
    Ok(())
}
