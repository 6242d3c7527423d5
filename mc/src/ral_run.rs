//! C35 frames and wrap-around, C36 debug stepping, C38 control thread of the example computer.
use crate::rep::*;
use ral1243::bus::{Bus, BusDevice, Terminator};
use ral1243::clock::TClock;
use ral1243::ctc::Ctc;
use ral1243::ctc_trigger::CtcActive;
use ral1243::memory::Memory as Mem;
use ral1243::pio::Pio;
use ral1243::pio_device::{PioInput, PioOutput};
use ral1243::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use z80emu::*;

type Cpu8 = Z80NMOS;

#[derive(Clone, Default)]
pub struct Src(Rc<RefCell<VecDeque<u8>>>, Dst);
/// Input begins once the program has sent a byte: by then it has set the chip up.
impl PioStream for Src { fn slurp(&mut self) -> Option<u8> { if self.1.0.borrow().is_empty() { return None } self.0.borrow_mut().pop_front() } }
#[derive(Clone, Default)]
pub struct Dst(Rc<RefCell<Vec<u8>>>);
impl PioSink for Dst { fn flush(&mut self, d: u8) -> bool { self.0.borrow_mut().push(d); true } }

type Machine = BusT<Src, Dst>;

fn machine(rom: &[u8], ext: Ts, input: &[u8]) -> (Machine, Dst) {
    let dst = Dst::default();
    let src = Src(Default::default(), dst.clone());
    src.0.borrow_mut().extend(input);
    let pio = Pio::new(PioInput::new(src), PioOutput::new(dst.clone()), Terminator::new()).with_port_bits(PIO_PORT_MASK, PIO_PORT_BITS, PIO_PORT_CHANNEL_SELECT, PIO_PORT_CONTROL_SELECT);
    let (a0, a2) = (CtcActive::new(ext), CtcActive::new(ext));
    let (p0, p2) = (a0.new_passive(), a2.new_passive());
    let ctc = Ctc::new(a0, p0, a2, p2, pio).with_port_bits(CTC_PORT_MASK, CTC_PORT_BITS, CTC_PORT_CHANNEL_SELECT1, CTC_PORT_CHANNEL_SELECT0);
    let bus = Bus::new(ctc, Mem::new(rom, 2)).with_port_bits(MEMORY_PORT_MASK, MEMORY_PORT_BITS);
    (bus, dst)
}

// ------------------------------------------------------------------ programs

/// Main loops: what the computer does while devices work.
const BODIES: [(&str, &[u8]); 6] = [
    ("EI; HALT; JR", &[0xFB, 0x76, 0x18, 0xFD]),
    ("DI; read the counters, output them; JR", &[0xF3, 0xDB, 4, 0xD3, 10, 0xDB, 5, 0xD3, 10, 0xDB, 6, 0xD3, 10, 0xDB, 7, 0xD3, 10, 0x18, 0xEE]),
    ("EI; INC (HL); CALL; JR", &[0xFB, 0x34, 0x3C, 0xCD, 0x50, 0, 0x18, 0xF9]),
    ("EI; EX (SP),IX x2; DJNZ; EI; JR", &[0xFB, 0xDD, 0xE3, 0xDD, 0xE3, 0x10, 0xFA, 0xFB, 0x18, 0xF6]),
    ("EI; IN A,(5); OUT (10),A; DI; prefixes; LD A,R; EI; JR", &[0xFB, 0xDB, 5, 0xD3, 10, 0xF3, 0xDD, 0xFD, 0xDD, 0x23, 0xED, 0x5F, 0xFB, 0x18, 0xF1]),
    ("EI; LDIR of 8; RET C/CALL Z mix; JR", &[0xFB, 0x21, 0, 0x40, 0x11, 0x10, 0x40, 0x01, 8, 0, 0xED, 0xB0, 0xCD, 0x54, 0, 0x18, 0xF0]),
];

/// CTC set-ups: (port, word) pairs.
const CTCS: [(&str, &[(u8, u8)]); 10] = [
    ("timer 0 x16 by 5 drives counter 1 by 3", &[(4, 0x00), (4, 0x87), (4, 5), (5, 0xD7), (5, 3)]),
    ("counter 0 falling by 2, timer 1 x16 by 12", &[(4, 0x00), (4, 0xC7), (4, 2), (5, 0x87), (5, 12)]),
    ("timer 0 x256 by 0 (no interrupt), timer 1 x16 by 0", &[(4, 0x00), (4, 0x27), (4, 0), (5, 0x87), (5, 0)]),
    ("timer 0 x256 by 0 (longest), counter 2 by 4", &[(4, 0x00), (4, 0xA7), (4, 0), (6, 0xD7), (6, 4)]),
    ("triggered timer 2 x16 by 7, counter 3 by 1", &[(4, 0x00), (6, 0x9F), (6, 7), (7, 0xC7), (7, 1)]),
    ("all four: timers 0, 3, counters 1, 2", &[(4, 0x00), (4, 0x87), (4, 9), (5, 0xD7), (5, 0), (6, 0xC7), (6, 3), (7, 0xA7), (7, 2)]),
    ("counter 0 by 0, triggered timer 1 x256 by 1", &[(4, 0x00), (4, 0xD7), (4, 0), (5, 0xBF), (5, 1)]),
    ("nothing", &[(4, 0x00)]),
    // only for the known findings
    ("four timers x256 by 0", &[(4, 0x00), (4, 0x27), (4, 0), (5, 0x27), (5, 0), (6, 0x27), (6, 0), (7, 0xA7), (7, 0)]),
    ("counter 0 falling by 2 drives counter 1 rising by 2", &[(4, 0x00), (4, 0xC7), (4, 2), (5, 0xD7), (5, 2)]),
];
const NCTC: usize = CTCS.len() - 2;
/// PIO use: input echoed by interrupts / output ready interrupts
const PIOS: [(&str, &[(u8, u8)]); 3] = [
    ("output without interrupts", &[(11, 0x0F)]),
    ("input A with interrupts", &[(11, 0x0F), (9, 0x4F), (9, 0x10), (9, 0x83)]),
    ("output B with interrupts", &[(11, 0x0F), (11, 0x12), (11, 0x83)]),
];

/// `idle`: 420 NOPs before the chips are programmed.
fn rom(idle: bool, pad: usize, body: usize, ctc: usize, pio: usize) -> Vec<u8> {
    let mut r = vec![0u8; 0x2000];
    r[0] = 0xC3; r[1] = 0x00; r[2] = 0x03;
    // subroutines
    r[0x50..0x54].copy_from_slice(&[0x0C, 0xCB, 0x11, 0xC9]);           // INC C; RL C; RET
    r[0x54..0x5B].copy_from_slice(&[0xD8, 0x3C, 0xC0, 0xB7, 0xC8, 0x00, 0xC9]); // RET C; INC A; RET NZ; OR A; RET Z; NOP; RET
    r[0x38] = 0xC9;
    r[0x66] = 0xED; r[0x67] = 0x45;
    for n in 0..16usize {
        let h = 0x200 + n * 16;
        let src = if n < 4 { 4 + n as u8 } else { 8 };
        r[0x100 + 2 * n] = h as u8; r[0x101 + 2 * n] = (h >> 8) as u8;
        // PUSH AF; LD A,n; OUT (10),A; IN A,(src); OUT (10),A; POP AF; EI; RETI
        r[h..h + 13].copy_from_slice(&[0xF5, 0x3E, 0xA0 | n as u8, 0xD3, 10, 0xDB, src, 0xD3, 10, 0xF1, 0xFB, 0xED, 0x4D]);
        if n == 9 { // output ready: send nothing but a count, rarely
            r[h..h + 13].copy_from_slice(&[0xF5, 0x3A, 0x80, 0x40, 0x3C, 0x32, 0x80, 0x40, 0xF1, 0xFB, 0xED, 0x4D, 0]);
        }
    }
    let mut p = 0x300;
    let mut put = |b: &[u8]| { r[p..p + b.len()].copy_from_slice(b); p += b.len() };
    if idle { put(&[0; 420]) }
    for _ in 0..pad { put(&[0]) }
    put(&[0x31, 0x00, 0x44, 0x3E, 1, 0xED, 0x47, 0xED, 0x5E, 0x21, 0x20, 0x40]); // LD SP; LD I,A; IM 2; LD HL,4020
    for &(q, v) in CTCS[ctc].1.iter().chain(PIOS[pio].1) { put(&[0x3E, v, 0xD3, q]) }
    put(&[0xD3, 10]);
    put(BODIES[body].1);
    r
}

/// What the program can observe at an instruction boundary.
#[derive(Clone, PartialEq)]
struct Snap { t: Ts, cpu: Cpu8, sunk: usize }

/// The machine run instruction by instruction on a clock that never wraps.
struct Base { trace: Vec<Snap>, sunk: Vec<u8>, ram: Vec<u8> }
fn baseline(rom: &[u8], hz: Ts, ext: Ts, input: &[u8], total: Ts) -> Base {
    let (mut bus, dst) = machine(rom, ext, input);
    let mut cpu = Cpu8::default();
    let mut clock = TClock::new(hz);
    cpu.reset();
    let t0 = clock.as_timestamp();
    bus.reset(t0);
    let mut trace = vec![];
    loop {
        trace.push(Snap { t: clock.as_timestamp() - t0, cpu: cpu.clone(), sunk: dst.0.borrow().len() });
        if clock.as_timestamp() - t0 > total { break }
        match cpu.execute_next(&mut bus, &mut clock, None::<CpuDebugFn>) { Ok(()) | Err(BreakCause::Halt) => {} Err(c) => panic!("{c}") }
    }
    let sunk = dst.0.borrow().clone();
    let ram = bus.memory_ref().memory_debug_all();
    Base { trace, sunk, ram }
}
trait DebugAll { fn memory_debug_all(&self) -> Vec<u8>; }
impl DebugAll for Mem { fn memory_debug_all(&self) -> Vec<u8> { (0x4000..0x4800u16).map(|a| z80emu::Memory::read_debug(self, a)).collect() } }

/// How emulated time is divided.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Div { Frames, Steps, Mixed(u8), RunInt, RunRet, Brkpt, Alternate(u8) }

fn regs(c: &Cpu8) -> String { format!("{c:x?}") }

struct Drive<const E: u32, const F: u32> { r: FrameRunner<E, F>, cpu: Cpu8, bus: Machine, dst: Dst, elapsed: Ts }
impl<const E: u32, const F: u32> Drive<E, F> {
    fn new(rom: &[u8], hz: Ts, input: &[u8]) -> Self {
        let (mut bus, dst) = machine(rom, hz / E, input);
        let mut r = FrameRunner::<E, F>::new(hz);
        let mut cpu = Cpu8::default();
        r.start(&mut cpu, &mut bus);
        Drive { r, cpu, bus, dst, elapsed: 0 }
    }
    fn go(&mut self, d: Div, n: usize) -> Ts {
        match d {
            Div::Frames => self.r.step(&mut self.cpu, &mut self.bus),
            Div::Steps => self.r.debug_step(&mut self.cpu, &mut self.bus).1,
            Div::RunInt => self.r.debug_runto_int(&mut self.cpu, &mut self.bus).1,
            Div::RunRet => self.r.debug_runto_ret(&mut self.cpu, &mut self.bus).1,
            Div::Brkpt => self.r.run_until_brkpt(&mut self.cpu, &mut self.bus, &[]).1,
            Div::Mixed(k) => if n % (k as usize + 1) == 0 { self.go(Div::Frames, n) } else { self.go(Div::Steps, n) },
            Div::Alternate(k) => self.go([Div::Frames, Div::RunInt, Div::Steps, Div::Brkpt, Div::RunRet][(n * k as usize) % 5], n),
        }
    }
}

fn c35_run<const E: u32, const F: u32>(rom: &[u8], hz: Ts, input: &[u8], base: &Base, d: Div, total: Ts) -> Result<u64, String> {
    let mut x = Drive::<E, F>::new(rom, hz, input);
    let (mut n, mut i, mut frames) = (0usize, 0usize, 0);
    let frame = hz / F;
    while x.elapsed + 2 * frame + 60 < total {
        let before = x.elapsed;
        let ts = x.go(d, n);
        n += 1;
        x.elapsed += ts;
        while base.trace[i].t < x.elapsed { i += 1 }
        let b = &base.trace[i];
        // several boundaries at one moment do not exist: every step takes time
        if b.t != x.elapsed { return Err(format!("step {n} ended {} T after the start: no instruction ends there (the next boundary is at {})", x.elapsed, b.t)) }
        if b.cpu != x.cpu || b.sunk != x.dst.0.borrow().len() {
            return Err(format!("{} T after the start (step {n}): Cpu {}\nexpected            {}\nbytes sent {}, expected {}", x.elapsed, regs(&x.cpu), regs(&b.cpu), x.dst.0.borrow().len(), b.sunk));
        }
        if d == Div::Frames {
            frames += 1;
            // the frame ends with the first instruction that reaches its limit
            let limit = frames * frame;
            let prev = if i > 0 { base.trace[i - 1].t } else { 0 };
            if x.elapsed < limit || prev >= limit { return Err(format!("frame {frames} ({frame} T each) ended {} T after the start (an instruction ended at {prev})", x.elapsed)) }
        }
        if ts == 0 && d != Div::Brkpt { return Err(format!("step {n} took no time at {before}")) }
    }
    let s = x.dst.0.borrow();
    if s[..] != base.sunk[..s.len()] { return Err(format!("bytes sent {:x?}\nexpected {:x?}", s, &base.sunk[..s.len()])) }
    Ok(n as u64)
}

pub fn c35(rep: &Rep) {
    let mut items = vec![];
    let pads: Vec<usize> = rep.q((0..16).collect(), (0..64).collect());
    for body in 0..BODIES.len() { for ctc in 0..NCTC { for pio in 0..PIOS.len() { for &pad in &pads { items.push((body, ctc, pio, pad)) } } } }
    let divs = [Div::Frames, Div::Steps, Div::Mixed(1), Div::Mixed(6), Div::RunInt, Div::RunRet, Div::Brkpt, Div::Alternate(1), Div::Alternate(3)];
    // The known findings (see DESIGN.md) are kept out: the clock line catches up with the start of time during the idle phase,
    // no two of its edges fall between two polls, and no timer period is longer than a second.
    let fast: &[Ts] = rep.q(&[5000, 5400], &[5000, 5400, 7000, 10000, 20000]);
    let slow: &[Ts] = &[70000];
    par(rep, items.len(), || (), |_, i| {
        let (body, ctc, pio, pad) = items[i];
        let rom = rom(true, pad, body, ctc, pio);
        let input = [0x41, 0x42, 0x43, 0x44, 0x45];
        let (mut st, mut tr) = (0, 0);
        let long = ctc == 2 || ctc == 3;
        if long && pad > 1 { return }
        for &hz in if long { slow } else { fast } {
            if rep.stopped() { return }
            // through several wraps; the longest timer lasts 65536 T
            let total = hz * 7 / 2;
            let base = baseline(&rom, hz, hz / 100, &input, total);
            let _ = &base.ram;
            for d in divs {
                let mut one = |name: &str, f: &dyn Fn() -> Result<u64, String>| {
                    tr += 1;
                    match guard(f).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                        Ok(n) => st += n,
                        Err(e) => rep.violation(format!("C35: {} T per second, {name}, divided by {d:?}\nprogram: {pad} NOPs, {}; {}; {}\n{e}", hz, BODIES[body].0, CTCS[ctc].0, PIOS[pio].0)),
                    }
                };
                one("10 frames per second", &|| c35_run::<100, 10>(&rom, hz, &input, &base, d, total));
                one("7 frames per second", &|| c35_run::<100, 7>(&rom, hz, &input, &base, d, total));
                one("2 frames per second", &|| c35_run::<100, 2>(&rom, hz, &input, &base, d, total));
                if d == Div::Frames { one("40 frames per second", &|| c35_run::<100, 40>(&rom, hz, &input, &base, d, total)); }
            }
            st += base.trace.len() as u64;
        }
        rep.add(st, st, tr);
        if i % 97 == 0 { rep.sample(|| format!("{pad} NOPs; {}; {}; {}", BODIES[body].0, CTCS[ctc].0, PIOS[pio].0)) }
    });
    rep.bound(format!("{} programs ({} main loops x {} timer set-ups x {} PIO set-ups x {} phases) x {} clock rates x 28 divisions of 3.5 emulated seconds (10, 7, 2, 40 frames per second; debug steps, run-to functions, mixtures), compared at every division point with the machine run instruction by instruction on a clock that never wraps", items.len(), BODIES.len(), NCTC, PIOS.len(), pads.len(), fast.len()));
    c35_known(rep);
}

/// The histories of the known findings, each with what ought to happen.
fn c35_known(rep: &Rep) {
    let input = [0x41, 0x42, 0x43];
    for (key, idle, hz, body, ctc) in [("ctc-long-timer-wrap", false, 1000, 0, 8), ("ctc-poll-lag-frames", true, 5000, 0, 9)] {
        let rom = rom(idle, 1, body, ctc, 0);
        let total = hz * 7 / 2;
        let r = guard(|| { let base = baseline(&rom, hz, hz / 100, &input, total); c35_run::<100, 7>(&rom, hz, &input, &base, Div::Frames, total) }).unwrap_or_else(|p| Err(format!("panic: {p}")));
        rep.add(0, 0, 1);
        if let Err(e) = r { rep.violation_keyed(key, format!("C35: {hz} T per second, 7 frames per second: {}; {}\n{e}", BODIES[body].0, CTCS[ctc].0)) }
    }
}

// ------------------------------------------------------------------ C36

/// Host wrapper that notes interrupt acknowledges.
struct Spy<'a> { bus: &'a mut Machine, data: Option<u8> }
impl Io for Spy<'_> {
    type Timestamp = Ts;
    type WrIoBreak = ();
    type RetiBreak = ();
    fn write_io(&mut self, p: u16, d: u8, ts: Ts) -> (Option<()>, Option<std::num::NonZeroU16>) { self.bus.write_io(p, d, ts) }
    fn read_io(&mut self, p: u16, ts: Ts) -> (u8, Option<std::num::NonZeroU16>) { self.bus.read_io(p, ts) }
    fn is_irq(&mut self, ts: Ts) -> bool { self.bus.is_irq(ts) }
    fn irq_data(&mut self, pc: u16, ts: Ts) -> (u8, Option<std::num::NonZeroU16>) { let r = self.bus.irq_data(pc, ts); self.data = Some(r.0); r }
    fn reti(&mut self, a: u16, ts: Ts) -> Option<()> { self.bus.reti(a, ts) }
}
impl z80emu::Memory for Spy<'_> {
    type Timestamp = Ts;
    fn read_debug(&self, a: u16) -> u8 { z80emu::Memory::read_debug(&*self.bus, a) }
    fn read_mem(&self, a: u16, ts: Ts) -> u8 { self.bus.read_mem(a, ts) }
    fn read_mem16(&self, a: u16, ts: Ts) -> u16 { self.bus.read_mem16(a, ts) }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: Ts) -> u8 { self.bus.read_opcode(pc, ir, ts) }
    fn write_mem(&mut self, a: u16, d: u8, ts: Ts) { self.bus.write_mem(a, d, ts) }
}

/// One call of execute_next: the state before, what the debugger was told, what the interrupting device supplied.
struct Step { snap: Snap, deb: Option<CpuDebug>, irq: Option<u8> }

fn steps_of(rom: &[u8], hz: Ts, ext: Ts, input: &[u8], total: Ts) -> Vec<Step> {
    let (mut bus, dst) = machine(rom, ext, input);
    let mut cpu = Cpu8::default();
    let mut clock = TClock::new(hz);
    cpu.reset();
    let t0 = clock.as_timestamp();
    bus.reset(t0);
    let mut v = vec![];
    loop {
        let snap = Snap { t: clock.as_timestamp() - t0, cpu: cpu.clone(), sunk: dst.0.borrow().len() };
        let end = snap.t > total;
        let mut deb = None;
        let mut spy = Spy { bus: &mut bus, data: None };
        match cpu.execute_next(&mut spy, &mut clock, Some(|d| deb = Some(d))) { Ok(()) | Err(BreakCause::Halt) => {} Err(c) => panic!("{c}") }
        let irq = spy.data;
        v.push(Step { snap, deb, irq });
        if end { break }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Dc { Frame, Step, Int, Ret, Brk(usize) }

/// The debugger functions as specified, on the recorded run: `i` is the current boundary, `limit` the end of the current frame.
struct Dm<'a> { v: &'a [Step], i: usize, limit: Ts, frame: Ts }
impl Dm<'_> {
    fn one(&mut self) { self.i += 1 }
    fn t(&self) -> Ts { self.v[self.i].snap.t }
    fn passed(&mut self) -> bool { if self.t() >= self.limit + self.frame { self.limit += self.frame; true } else { false } }
}
fn fmt_deb(d: &Option<CpuDebug>) -> String { match d { Some(d) => format!("{d:x} {:x?} prefix {:?}", d.code, d.prefix), None => "none".into() } }
/// what is to be reported for the step just done from boundary j, with the pc it is reported for
fn shown(v: &[Step], j: usize) -> (Option<CpuDebug>, Option<(u16, u16)>) {
    let s = &v[j];
    match s.irq {
        Some(d) if s.snap.cpu.get_im() == InterruptMode::Mode2 => (s.deb.clone(), Some((s.snap.cpu.get_pc(), u16::from_le_bytes([d, s.snap.cpu.get_i()])))),
        _ => (s.deb.clone(), None),
    }
}
fn same_deb(got: &Option<CpuDebug>, want: &(Option<CpuDebug>, Option<(u16, u16)>)) -> bool {
    match (got, &want.0, want.1) {
        (None, None, _) => true,
        (Some(g), Some(_), Some((pc, vec))) => g.pc == pc && g.mnemonic == "IRQ#" && matches!(g.args, CpuDebugArgs::Single(CpuDebugArg::Imm16(v)) if v == vec),
        (Some(g), Some(w), None) => g.pc == w.pc && g.code == w.code && g.mnemonic == w.mnemonic && format!("{:x}", g.args) == format!("{:x}", w.args),
        _ => false,
    }
}

fn c36_call<const F: u32>(x: &mut Drive<100, F>, m: &mut Dm, o: Dc, sets: &[Vec<u16>]) -> Result<(), String> {
    let i0 = m.i;
    // the preview tells the next instruction and leaves everything as it is
    let before = x.cpu.clone();
    let pv = x.r.debug_preview(&x.cpu, &x.bus);
    if x.cpu != before { return Err("the preview changed the Cpu".into()) }
    let n = &m.v[i0];
    if let (Some(d), None, false) = (&n.deb, n.irq, n.snap.cpu.is_halt()) {
        if pv.pc != d.pc || pv.code != d.code || pv.mnemonic != d.mnemonic || format!("{:x}", pv.args) != format!("{:x}", d.args) {
            return Err(format!("preview {}, executed next {}", fmt_deb(&Some(pv)), fmt_deb(&n.deb)));
        }
    }
    let t0 = m.t();
    let (got, ts): (String, Ts);
    let ok;
    let want: String;
    match o {
        Dc::Frame => {
            let l = m.limit + m.frame;
            while m.t() < l { m.one() }
            m.limit = l;
            ts = x.r.step(&mut x.cpu, &mut x.bus);
            got = String::new(); want = String::new(); ok = true;
        }
        Dc::Step => {
            let mut prefix = n.snap.cpu.get_prefix().is_some();
            let exp = loop {
                m.one();
                m.passed();
                let (j, c) = (m.i - 1, &m.v[m.i].snap.cpu);
                if m.v[j].deb.is_some() || c.is_halt() { break shown(m.v, j) }
                if prefix { // a prefix that another one overrides
                    let mut d = CpuDebug { pc: n.snap.cpu.get_pc(), mnemonic: "NOP*", ..Default::default() };
                    let _ = &mut d;
                    break (Some(d), None)
                }
                prefix = true;
            };
            let r = x.r.debug_step(&mut x.cpu, &mut x.bus);
            ts = r.1;
            ok = if exp.0.as_ref().is_some_and(|d| d.mnemonic == "NOP*") { r.0.as_ref().is_some_and(|d| d.mnemonic == "NOP*" && d.code.len() == 1) } else { same_deb(&r.0, &exp) };
            got = fmt_deb(&r.0); want = format!("{} {:x?}", fmt_deb(&exp.0), exp.1);
        }
        Dc::Int => {
            let exp = loop {
                m.one();
                let p = m.passed();
                if m.v[m.i - 1].irq.is_some() { break shown(m.v, m.i - 1) }
                if p { break (None, None) }
            };
            let r = x.r.debug_runto_int(&mut x.cpu, &mut x.bus);
            ts = r.1;
            ok = same_deb(&r.0, &exp);
            got = fmt_deb(&r.0); want = format!("{} {:x?}", fmt_deb(&exp.0), exp.1);
        }
        Dc::Ret => {
            let exp = loop {
                m.one();
                let p = m.passed();
                let (s, c) = (&m.v[m.i - 1], &m.v[m.i].snap.cpu);
                if let (Some(d), None) = (&s.deb, s.irq) {
                    let ret = match d.code[..] {
                        [0xC9] | [0xED, 0x45 | 0x4D | 0x55 | 0x5D | 0x65 | 0x6D | 0x75 | 0x7D] => true,
                        [b] if b & 0xC7 == 0xC0 => c.get_sp() == s.snap.cpu.get_sp().wrapping_add(2),
                        _ => false,
                    };
                    if ret { break (s.deb.clone(), None) }
                }
                if p { break (None, None) }
            };
            let r = x.r.debug_runto_ret(&mut x.cpu, &mut x.bus);
            ts = r.1;
            ok = same_deb(&r.0, &exp);
            got = fmt_deb(&r.0); want = fmt_deb(&exp.0);
        }
        Dc::Brk(k) => {
            let set = &sets[k];
            let hit = |c: &Cpu8| set.iter().position(|&b| b == c.get_pc());
            let (mut exp, mut at_end) = (hit(&n.snap.cpu), false);
            if exp.is_none() {
                loop {
                    m.one();
                    let p = m.passed();
                    exp = hit(&m.v[m.i].snap.cpu);
                    // at the end of a frame the breakpoint may be reported by this call or, at once, by the next one
                    if p { at_end = true; break }
                    if exp.is_some() { break }
                }
            }
            let r = x.r.run_until_brkpt(&mut x.cpu, &mut x.bus, set);
            ts = r.1;
            ok = r.0 == exp || at_end && r.0.is_none();
            got = format!("{:?}", r.0); want = format!("{exp:?}");
        }
    }
    let e = &m.v[m.i].snap;
    if x.cpu != e.cpu || x.dst.0.borrow().len() != e.sunk { return Err(format!("{o:?}: stopped at {}\nexpected   {} ({} T on, {} instructions)\nreported {ts} T", regs(&x.cpu), regs(&e.cpu), e.t - t0, m.i - i0)) }
    if ts != e.t - t0 { return Err(format!("{o:?}: reported {ts} T, took {}", e.t - t0)) }
    if !ok { return Err(format!("{o:?}: reported {got}, expected {want}")) }
    Ok(())
}

fn c36_one<const F: u32>(rom: &[u8], v: &[Step], hz: Ts, lead: Lead, seq: &[Dc], sets: &[Vec<u16>]) -> Result<u64, String> {
    let mut x = Drive::<100, F>::new(rom, hz, &[0x41, 0x42, 0x43]);
    let mut m = Dm { v, i: 0, limit: 0, frame: hz / F };
    for _ in 0..lead.1 { c36_call(&mut x, &mut m, Dc::Frame, sets).map_err(|e| format!("on the way: {e}"))? }
    for _ in 0..lead.0 { c36_call(&mut x, &mut m, Dc::Step, sets).map_err(|e| format!("on the way: {e}"))? }
    for (n, &o) in seq.iter().enumerate() { c36_call(&mut x, &mut m, o, sets).map_err(|e| format!("call {}: {e}", n + 1))? }
    Ok(m.i as u64)
}
type Lead = (usize, usize);

pub fn c36(rep: &Rep) {
    let mut items = vec![];
    for body in 0..BODIES.len() { for ctc in rep.q(vec![0, 1, 3, 5], (0..NCTC).collect()) { for pio in 0..PIOS.len() { items.push((body, ctc, pio)) } } }
    let depth: u32 = rep.q(2, 3);
    let leads: Vec<Lead> = rep.q(vec![0, 3, 24, 25, 26, 27, 28, 29, 30, 31, 33, 38], (0..48).collect()).into_iter().map(|n| (n, 0)).chain((1..rep.q(8, 24)).flat_map(|f| [(0, f), (1, f), (2, f), (5, f)])).collect();
    par(rep, items.len(), || (), |_, i| {
        let (body, ctc, pio) = items[i];
        let rom = rom(true, i % 3, body, ctc, pio);
        let hz = 5000;
        let v = steps_of(&rom, hz, 50, &[0x41, 0x42, 0x43], hz / 4 * (leads.iter().map(|l| l.1).max().unwrap_or(0) as Ts + depth as Ts + 8) + 10000);
        // breakpoint sets from the addresses the program visits
        let mut pcs: Vec<u16> = v.iter().skip(422).take(1200).map(|s| s.snap.cpu.get_pc()).collect();
        pcs.sort(); pcs.dedup();
        let k = pcs.len();
        let mut sets = vec![vec![], vec![0xFFFF], vec![pcs[k - 1]], vec![pcs[k / 2]], vec![pcs[k / 3], pcs[2 * k / 3]], pcs.iter().copied().filter(|p| *p < 0x300).collect(), vec![pcs[k - 2], pcs[k - 1] + 1]];
        sets.push(vec![0x38, 0x50, 0x202, 0x20C, 0x215, 0x300]);
        let ops: Vec<Dc> = [Dc::Frame, Dc::Step, Dc::Int, Dc::Ret].into_iter().chain((0..sets.len()).map(Dc::Brk)).collect();
        let (mut st, mut tr) = (0, 0);
        for &lead in &leads {
            for q in 0..ops.len().pow(depth) {
                if rep.stopped() { break }
                let mut s = vec![]; let mut r = q;
                for _ in 0..depth { s.push(ops[r % ops.len()]); r /= ops.len() }
                s.extend([Dc::Step, Dc::Frame]);
                tr += 1;
                // two frame lengths
                let r = guard(|| if q % 2 == 0 { c36_one::<10>(&rom, &v, hz, lead, &s, &sets) } else { c36_one::<4>(&rom, &v, hz, lead, &s, &sets) }).unwrap_or_else(|p| Err(format!("panic: {p}")));
                match r {
                    Ok(n) => st += n,
                    Err(e) => rep.violation(format!("C36: after {} steps, {} frames; calls {s:?}\nprogram: {}; {}; {}; breakpoint sets {sets:x?}\n{e}", lead.0, lead.1, BODIES[body].0, CTCS[ctc].0, PIOS[pio].0)),
                }
            }
        }
        rep.add(st, st, tr);
        if i % 5 == 0 { rep.sample(|| format!("{}; {}; {}; breakpoints {sets:x?}", BODIES[body].0, CTCS[ctc].0, PIOS[pio].0)) }
    });
    rep.bound(format!("{} programs x {} starting points x every sequence of {depth} calls of 12 (frame, step, run to interrupt, run to return, run to each of 8 breakpoint sets), two frame lengths, through clock wraps", items.len(), leads.len()));
}

// ------------------------------------------------------------------ C38


const THZ: u32 = 4000;
const TCLK: Ts = 20_000_000;
type Comp<I, O> = Ral1243<z80emu::z80::NMOS, I, O, 10_000, THZ>;
const MSGS: [RunnerMsg; 7] = [RunnerMsg::Continue, RunnerMsg::Nmi, RunnerMsg::Reset, RunnerMsg::DebugNext, RunnerMsg::DebugCompletion, RunnerMsg::DebugRunIrq, RunnerMsg::Terminate];
const INPUT: [u8; 4] = [13, b'1', 27, b'0'];

/// What the thread is to do with the messages, one per frame while running, one per order in debug mode; returns the bytes sent.
fn c38_model(msgs: &[RunnerMsg]) -> Vec<u8> {
    use RunnerMsg::*;
    let (src, dst) = (Src::default(), Dst::default());
    src.0.borrow_mut().extend(INPUT);
    let src = Src38(src.0);
    let mut c = Comp::new(1, TCLK, None::<Vec<ral1243::memory::Rom>>, src, dst.clone());
    let (mut nmi, mut debug) = (false, false);
    let mut it = msgs.iter();
    // a limit of one emulated second on each run in debug mode
    loop {
        if nmi && c.nmi().is_some() { nmi = false }
        if !debug {
            c.step();
            match it.next() {
                None | Some(Terminate) => break,
                Some(Reset) => { nmi = false; c.reset() }
                Some(Nmi) => nmi = c.nmi().is_none(),
                Some(DebugNext | DebugCompletion | DebugRunIrq) => debug = true,
                Some(Continue) => {}
            }
        }
        else {
            match it.next() {
                None | Some(Terminate) => break,
                Some(Continue) => debug = false,
                Some(Reset) => { nmi = false; c.reset() }
                Some(Nmi) => nmi = true,
                Some(DebugNext) => { c.debug_step(); }
                Some(DebugRunIrq) => { for _ in 0..=THZ { if c.debug_runto_int().0.is_some() { break } } }
                Some(DebugCompletion) => {
                    // step; after a return that is all, after a call run to the instruction behind it, otherwise to the end of the subroutine
                    let pv = c.debug_preview();
                    let (d, _) = c.debug_step();
                    let mut done = false;
                    if let Some(d) = &d {
                        // the preview after the step tells where the program went
                        let next = d.pc.wrapping_add(d.code.len() as u16);
                        let now = c.debug_preview().pc;
                        let op = d.code[0];
                        let is_call = matches!(op, 0xCD) || op & 0xC7 == 0xC4 || op & 0xC7 == 0xC7;
                        let is_ret = matches!(op, 0xC9) || op & 0xC7 == 0xC0 || op == 0xED && d.code[1] & 0xC7 == 0x45;
                        let cond = op & 0xC7 == 0xC4 || op & 0xC7 == 0xC0;
                        let _ = &pv;
                        if is_ret && !(cond && now == next) { done = true }
                        else if is_call && !(cond && now == next) {
                            for _ in 0..=THZ { if c.run_until_brkpt(&[next]).0.is_some() { break } }
                            done = true;
                        }
                    }
                    if !done { for _ in 0..=THZ { if c.debug_runto_ret().0.is_some() { break } } }
                }
            }
        }
    }
    let v = dst.0.borrow().clone();
    v
}
struct Src38(Rc<RefCell<VecDeque<u8>>>);
impl PioStream for Src38 { fn slurp(&mut self) -> Option<u8> { self.0.borrow_mut().pop_front() } }

fn c38_thread(msgs: &[RunnerMsg]) -> Result<Vec<u8>, String> {
    use std::sync::mpsc::*;
    let (mtx, mrx) = channel();
    let (itx, irx) = channel();
    let (otx, orx) = sync_channel(1 << 20);
    for &b in &INPUT { itx.send(b).unwrap() }
    for &m in msgs { mtx.send(m).unwrap() }
    drop(mtx);
    let h = Ral1243::<z80emu::z80::NMOS, Receiver<u8>, SyncSender<u8>, 10_000, THZ>::start_thread(mrx, 1, TCLK, None::<Vec<ral1243::memory::Rom>>, irx, otx);
    let mut v = vec![];
    let t0 = std::time::Instant::now();
    loop {
        match orx.recv_timeout(std::time::Duration::from_secs(30)) {
            Ok(b) => v.push(b),
            Err(RecvTimeoutError::Disconnected) => break,
            Err(RecvTimeoutError::Timeout) => if t0.elapsed().as_secs() > 30 { return Err(format!("the thread has not ended 30 s after its last message and the end of its channel; sent {v:02x?}")) },
        }
    }
    h.join().map_err(|_| "the thread panicked".to_string())?;
    Ok(v)
}

/// Runs in a process of its own: the debug mode prints to the standard output.
pub fn c38_worker(thorough: bool) {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    use std::io::Write;
    let leads: &[usize] = if thorough { &[0, 589, 592, 594, 596, 640, 2800] } else { &[591] };
    let depth = 4;
    let short = if thorough { 0 } else { 3 };
    let mut seqs: Vec<(usize, Vec<RunnerMsg>)> = vec![];
    let all = |depth: u32, lead: usize, seqs: &mut Vec<(usize, Vec<RunnerMsg>)>| for q in 0..7usize.pow(depth) {
        let mut r = q;
        let s: Vec<RunnerMsg> = (0..depth).map(|_| { let m = MSGS[r % 7]; r /= 7; m }).collect();
        // nothing after Terminate matters: once is enough
        if s.iter().position(|&m| m == RunnerMsg::Terminate).is_some_and(|p| s[p + 1..].iter().any(|&m| m != RunnerMsg::Nmi)) { continue }
        seqs.push((lead, s));
    };
    for &l in leads { all(if thorough { depth } else { 3 }, l, &mut seqs) }
    if short > 0 { for l in [0, 594] { all(2, l, &mut seqs) } }
    let next = AtomicUsize::new(0);
    let bytes = AtomicUsize::new(0);
    let frames = AtomicUsize::new(0);
    let bad = AtomicUsize::new(0);
    std::thread::scope(|sc| for _ in 0..48 { sc.spawn(|| loop {
        let i = next.fetch_add(1, Relaxed);
        if i >= seqs.len() || bad.load(Relaxed) > 4 { break }
        let (lead, s) = &seqs[i];
        let mut m = vec![RunnerMsg::Continue; *lead];
        m.extend(s);
        m.extend([RunnerMsg::Continue; 5]);
        let want = c38_model(&m);
        let got = c38_thread(&m);
        bytes.fetch_add(want.len(), Relaxed);
        frames.fetch_add(m.len(), Relaxed);
        if got.as_ref().ok() != Some(&want) {
            bad.fetch_add(1, Relaxed);
            let show = |v: &[u8]| String::from_utf8_lossy(v).escape_debug().to_string();
            let _ = writeln!(std::io::stderr(), "VIOL {lead} frames, then messages {s:?}: sent {} expected {:?}", match &got { Ok(v) => format!("{:?}", show(v)), Err(e) => e.clone() }, show(&want));
        }
    }); });
    eprintln!("STATS {} {} {}", seqs.len().min(next.load(Relaxed)), frames.load(Relaxed), bytes.load(Relaxed));
}

pub fn c38(rep: &Rep) {
    let exe = std::env::current_exe().expect("exe");
    let out = std::process::Command::new(exe).args(["C38W", if rep.thorough() { "thorough" } else { "quick" }]).env("MC_CHILD", "1")
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).output().expect("worker");
    let text = String::from_utf8_lossy(&out.stderr);
    let mut seen = false;
    for l in text.lines() {
        if let Some(v) = l.strip_prefix("VIOL ") { rep.violation(format!("C38: {v}")) }
        if let Some(v) = l.strip_prefix("STATS ") {
            let n: Vec<u64> = v.split(' ').map(|x| x.parse().unwrap()).collect();
            rep.add(n[1], n[1], n[0]);
            rep.bound(format!("{} message sequences (every sequence of {} of the 7 messages at each of {} moments of the boot of the built-in ROM, then Continue x5, then the channel closes): {} messages obeyed, {} bytes of output compared", n[0], rep.q("3 (at one moment) and 2", "4"), rep.q(3, 7), n[1], n[2]));
            seen = true;
        }
    }
    if !seen && rep.viols() == 0 { rep.violation(format!("C38: the exploring process ended early ({:?})\n{}", out.status, text.lines().rev().take(20).collect::<Vec<_>>().join("\n"))) }
    rep.sample(|| "591 frames, then [DebugNext, Nmi, DebugCompletion], Continue x5, end".into());
    rep.sample(|| "594 frames, then [Reset, DebugRunIrq], Continue x5, end".into());
}
