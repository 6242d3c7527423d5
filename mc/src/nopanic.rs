//! C21: whatever bytes, answers and calls, every entry point returns, within its cycle bound, without panicking.
use crate::host::*;
use crate::onestep::*;
use crate::refm::*;
use crate::rep::*;
use crate::sut::*;
use std::num::{NonZeroU16, NonZeroU8};
use z80emu::*;

/// A host without logs: memory is a repeated byte pattern overlaid at an address by a code string.
pub struct Pat { pub pat: [u8; 4], pub n: u16, pub at: u16, pub code: [u8; 4], pub io: u8, pub ws: u16, pub vec: u8, pub irq: bool, pub brk: bool }
impl Pat {
    #[inline(always)]
    fn get(&self, a: u16) -> u8 {
        let d = a.wrapping_sub(self.at);
        if d < 4 { self.code[d as usize] } else if self.n == 0 { (a >> 8) as u8 ^ a as u8 } else { self.pat[(a % self.n) as usize] }
    }
}
impl Io for Pat {
    type Timestamp = u32;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, _: u16, _: u32) -> (u8, Option<NonZeroU16>) { (self.io, NonZeroU16::new(self.ws)) }
    fn write_io(&mut self, _: u16, _: u8, _: u32) -> (Option<u32>, Option<NonZeroU16>) { (if self.brk { Some(1) } else { None }, NonZeroU16::new(self.ws)) }
    fn is_irq(&mut self, _: u32) -> bool { self.irq }
    fn irq_data(&mut self, _: u16, _: u32) -> (u8, Option<NonZeroU16>) { (self.vec, NonZeroU16::new(self.ws)) }
    fn reti(&mut self, _: u16, _: u32) -> Option<u32> { if self.brk { Some(2) } else { None } }
}
impl Memory for Pat {
    type Timestamp = u32;
    #[inline(always)]
    fn read_debug(&self, a: u16) -> u8 { self.get(a) }
}
/// Counts events, stops a runaway.
pub struct Cnt { pub now: u32, pub n: u32, pub max: u32 }
impl Cnt {
    #[inline(always)]
    fn add(&mut self, t: u32) -> u32 {
        self.n += 1;
        if self.n > self.max { panic!("{}", RUNAWAY) }
        self.now = self.now.wrapping_add(t);
        self.now
    }
}
impl Clock for Cnt {
    type Limit = u32;
    type Timestamp = u32;
    #[inline(always)]
    fn is_past_limit(&self, l: u32) -> bool { self.now >= l }
    fn add_irq(&mut self, _: u16) -> u32 { self.add(6) }
    fn add_no_mreq(&mut self, _: u16, n: NonZeroU8) { self.add(n.get() as u32); }
    fn add_m1(&mut self, _: u16) -> u32 { self.add(4) }
    fn add_mreq(&mut self, _: u16) -> u32 { self.add(3) }
    fn add_io(&mut self, _: u16) -> u32 { self.add(4) }
    fn add_wait_states(&mut self, _: u16, w: NonZeroU16) { self.add(w.get() as u32); }
    fn as_timestamp(&self) -> u32 { self.now }
}

/// No instruction, acceptance included, needs more clock events or T-states (without wait states).
const MAX_EV: u32 = 40;
const MAX_TS: u32 = 48;

fn host(code: [u8; 4], at: u16) -> Pat { Pat { pat: [0; 4], n: 0, at, code, io: code[2], ws: 0, vec: code[0], irq: false, brk: false } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum How { Next, NextDbg, Irq, IrqDbg, Exec, ExecDbg, Run, Nmi }
const HOWS: [How; 8] = [How::Next, How::NextDbg, How::Irq, How::IrqDbg, How::Exec, How::ExecDbg, How::Run, How::Nmi];

fn call<C: Cpu>(c: &mut C, how: How, h: &mut Pat, k: &mut Cnt, op: u8) -> bool {
    let mut len = 0usize;
    let mut dbg = |d: CpuDebug| { len += d.code.as_slice().len() };
    match how {
        How::Next => { let _ = c.execute_next::<_, _, CpuDebugFn>(h, k, NODBG); }
        How::NextDbg => { let _ = c.execute_next(h, k, Some(&mut dbg)); }
        How::Irq => { return c.irq::<_, _, CpuDebugFn>(h, k, NODBG).is_some() }
        How::IrqDbg => { return c.irq(h, k, Some(&mut dbg)).is_some() }
        How::Exec => { let _ = c.execute_instruction::<_, _, CpuDebugFn>(h, k, NODBG, op); }
        How::ExecDbg => { let _ = c.execute_instruction(h, k, Some(&mut dbg), op); }
        How::Run => { let _ = c.execute_with_limit(h, k, k.now.wrapping_add(1)); }
        How::Nmi => { return c.nmi(h, k) }
    }
    true
}

/// A: every 3-byte instruction string through every entry point.
fn strings<F: Fla>(rep: &Rep) {
    par(rep, 256, Loader::<F>::new, |ld, b0| {
        let b0 = b0 as u8;
        let mut n = 0u64;
        let mut ev = 0u64;
        for how in HOWS { for var in 0..6u8 {
            // pending prefix x (running | halted | after EI) x pointers at the ends of the address space
            let pfx = var % 3;
            if how == How::Nmi && (b0 != 0 || pfx != 0) { continue }
            let q = how == How::Next || how == How::Exec || how == How::Irq;
            if !rep.thorough() && !q && var > 2 { continue }
            let far = var > 2;
            let s = RCpu {
                af: 0x5A00 | if far { 0xD7 } else { 0x28 }, bc: if far { 0x0001 } else { 0x0000 }, de: if far { 0xFFFF } else { 0x8000 }, hl: if far { 0xFFFF } else { 0x7FFF },
                ix: if far { 0xFFF0 } else { 0x0005 }, iy: if far { 0x0003 } else { 0xFFFB }, sp: if far { 0x0001 } else { 0xFFFF }, pc: if far { 0xFFFE } else { 0x4000 },
                i: 0xFF, r: 0xFF, iff1: true, iff2: false, im: 0, halt: far && matches!(how, How::Irq | How::IrqDbg | How::Nmi),
                pfx: if matches!(how, How::Irq | How::IrqDbg) { 0 } else { pfx }, ei: false, q: F::F != Fl::Cmos && far, ..Default::default() };
            let im = if matches!(how, How::Irq | How::IrqDbg) { pfx } else { 0 };
            let mut s = s;
            s.im = im;
            let c0 = ld.load(&s);
            for b1 in 0..=255u8 { for b2 in 0..=255u8 {
                let supplied = matches!(how, How::Exec | How::ExecDbg | How::Irq | How::IrqDbg);
                let code = [b0, b1, b2, b1 ^ b2.rotate_left(3)];
                let at = if supplied { [b1, b2, code[3], b0] } else { code };
                let mut h = host(at, s.pc);
                h.vec = b0;
                h.irq = matches!(how, How::Irq | How::IrqDbg);
                h.io = b2;
                let mut k = Cnt { now: 0, n: 0, max: MAX_EV };
                let mut c = c0.clone();
                describe_input([how as u64, u64::from_le_bytes([b0, b1, b2, code[3], var, 0, 0, 0]), s.pc as u64, F::F as u64]);
                let r = guard(|| call(&mut c, how, &mut h, &mut k, b0));
                n += 1;
                ev += k.n as u64;
                match r {
                    Err(m) => { rep.violation(format!("{:?} with bytes {:02x?} ({}), flavour {}: panic: {m}\nstart {}", how, code, if supplied { "first byte supplied" } else { "at PC" }, F::NAME, show_cpu(&s))); }
                    Ok(_) if k.now > MAX_TS || (k.now == 0 && !matches!(how, How::Irq | How::IrqDbg | How::Exec | How::ExecDbg)) => { rep.violation(format!("{:?} with bytes {:02x?}, flavour {}: {} T-states\nstart {}", how, code, F::NAME, k.now, show_cpu(&s))); }
                    Ok(a) => {
                        if matches!(how, How::Irq | How::IrqDbg) && !a { rep.violation(format!("{how:?} refused, vector {b0:02x}, flavour {}", F::NAME)) }
                        let g = snap(&c);
                        if g.im > 2 { rep.violation(format!("impossible state {}", show_cpu(&g))) }
                    }
                }
            } if rep.stopped() { return } }
        } }
        rep.add(n + ev, ev, n);
    });
}

/// B: memory filled with a repeated pattern, run to a limit.
fn patterns<F: Fla>(rep: &Rep, n: u16, nvar: u8) {
    par(rep, 256, Loader::<F>::new, |ld, b0| {
        let mut cnt = 0u64;
        let mut ev = 0u64;
        for b1 in 0..=255u8 { for b2 in 0..=(if n == 3 { 255u8 } else { 0 }) { for var in 0..nvar {
            let s = RCpu { af: 0x00FF, bc: 0x0203, de: 0x4567, hl: 0x89AB, ix: 0xFFFE, iy: 1, sp: 2, pc: 0xFFF0, i: 0xFF, iff1: var & 1 != 0, im: var % 3, ..Default::default() };
            let mut h = Pat { pat: [b0 as u8, b1, b2, 0], n, at: 0, code: [0; 4], io: b1, ws: if var & 2 != 0 { 65535 } else { 0 }, vec: b1, irq: var & 1 != 0, brk: var & 4 != 0 };
            h.code = [h.pat[0], h.pat[1 % n as usize], h.pat[2 % n as usize], h.pat[3 % n as usize]];
            let mut k = Cnt { now: 0, n: 0, max: 400 };
            let mut c = ld.load(&s);
            describe_input([100, u64::from_le_bytes([b0 as u8, b1, b2, n as u8, var, 0, 0, 0]), 0, F::F as u64]);
            let r = guard(|| c.execute_with_limit(&mut h, &mut k, 300));
            cnt += 1;
            ev += k.n as u64;
            match r {
                Err(m) => rep.violation(format!("execute_with_limit(300) over memory filled with {:02x?} (period {n}), variant {var}, flavour {}: panic: {m}", &h.pat[..n as usize], F::NAME)),
                Ok(Ok(())) if k.now < 300 => rep.violation(format!("execute_with_limit(300) over {:02x?} returned at {} without a cause, flavour {}", &h.pat[..n as usize], k.now, F::NAME)),
                _ => {}
            }
        } } if rep.stopped() { return } }
        rep.add(cnt + ev, ev, cnt);
    });
}

/// C: sequences of calls.
const VOC: usize = 36;
fn act<C: Cpu + Default>(c: &mut C, a: usize, k: &mut Cnt) {
    let mut h = host([0xDD, 0xED, 0xB0, 0xFB], 0);
    h.irq = true;
    h.vec = [0xCB, 0xED, 0xDD, 0x76, 0xFB, 0xCD, 0x00][a % 7];
    h.ws = 65535 * (a & 1) as u16;
    let code = |c: &C, h: &mut Pat, b: [u8; 4]| { h.at = c.get_pc(); h.code = b };
    match a {
        0..=9 => { code(c, &mut h, [[0, 0, 0, 0], [0xDD, 0xCB, 0x7F, 0x46], [0xFD, 0xFB, 0, 0], [0xED, 0xB0, 0, 0], [0xED, 0xB3, 0, 0], [0x76, 0, 0, 0], [0xFB, 0xFB, 0, 0], [0x10, 0x80, 0, 0], [0xED, 0x4D, 0, 0], [0xED, 0x5E, 0xED, 0x57]][a]);
            let _ = c.execute_next::<_, _, CpuDebugFn>(&mut h, k, NODBG); }
        10 => { let _ = c.irq::<_, _, CpuDebugFn>(&mut h, k, NODBG); }
        11 => { h.vec = 0xDD; let _ = c.irq::<_, _, CpuDebugFn>(&mut h, k, NODBG); }
        12 => { h.vec = 0x76; let _ = c.irq::<_, _, CpuDebugFn>(&mut h, k, NODBG); }
        13 => { let _ = c.nmi(&mut h, k); }
        14..=19 => { let _ = c.execute_instruction::<_, _, CpuDebugFn>(&mut h, k, NODBG, [0xDD, 0xCB, 0xED, 0x76, 0xFB, 0xFF][a - 14]); }
        20 => { let l = k.now.wrapping_add(60); k.max = u32::MAX; let _ = c.execute_with_limit(&mut h, k, l); }
        21 => { let l = k.now; let _ = c.execute_with_limit(&mut h, k, l); }
        22 => c.reset(),
        23 => c.halt(),
        24 => c.enable_interrupts(),
        25 => c.disable_interrupts(),
        26 => c.set_im(InterruptMode::Mode0),
        27 => c.set_im(InterruptMode::Mode2),
        28 => c.set_pc(0xFFFF),
        29 => c.set_sp(0),
        30 => c.exx(),
        31 => c.ex_af_af(),
        32 => c.set_iffs(true, false),
        33 => { c.set_reg(Reg8::H, Some(Prefix::Yfd), 0xFF); c.set_i(0xFF); c.set_r(0xFF) }
        34 => { c.inc_r(); c.add_r(-128); let _ = c.get_ir(); }
        _ => { c.set_reg16(StkReg16::BC, 1); c.set_index16(Prefix::Xdd, 0xFFFF) }
    }
}
fn seqs<C: Cpu + Default>(rep: &Rep, name: &str, depth: u32) {
    par(rep, VOC * VOC, || (), |_, i| {
        let mut n = 0u64;
        let total = VOC.pow(depth - 2);
        for r in 0..total {
            let mut seq = vec![i / VOC, i % VOC];
            let mut x = r;
            for _ in 2..depth { seq.push(x % VOC); x /= VOC }
            let mut c = C::default();
            let mut k = Cnt { now: 0, n: 0, max: 0 };
            let mut w = [0u8; 8];
            for (a, b) in w.iter_mut().zip(&seq) { *a = *b as u8 }
            describe_input([200, u64::from_le_bytes(w), 0, 0]);
            let g = guard(|| for &a in &seq { k.n = 0; k.max = MAX_EV; act(&mut c, a, &mut k) });
            n += depth as u64;
            if let Err(m) = g { rep.violation(format!("{name}: call sequence {seq:?} (vocabulary of nopanic.rs): panic: {m}")) }
        }
        rep.add(n, n, total as u64);
    });
}

pub fn c21(rep: &Rep) {
    use z80emu::z80::*;
    // every opcode over the byte cells of the one-step product: arithmetic on register values
    explore(rep, C_PANIC, 0);
    if rep.stopped() { return }
    rep.bound("all 2^24 three-byte strings (the fourth byte derived) x 8 entry points (stepping, interrupt data in IM 0/1/2, supplied opcode, limited run, NMI; with and without a debugger) x pending prefix x 2 register layouts (quick: one layout for the debugger and limited-run entries) x 3 flavours; at most 40 clock events and 48 T-states per instruction");
    rep.bound(format!("execute_with_limit over memory filled with every byte pattern of period 2 x 8 variants{}, wait states of 65535, an always active INT line and break requests included", rep.q("", " and of period 3")));
    rep.bound(format!("all sequences of {} out of {VOC} calls (execution, interrupts, control, setters) on Z80<NMOS|CMOS|BM1> and Z80Any", rep.q(4, 5)));
    rep.note("the checker is compiled with overflow checks and debug assertions, including those of unreachable_unchecked");
    strings::<NMOS>(rep);
    strings::<CMOS>(rep);
    strings::<BM1>(rep);
    patterns::<NMOS>(rep, 2, 8);
    patterns::<CMOS>(rep, 2, 8);
    patterns::<BM1>(rep, 2, 8);
    patterns::<NMOS>(rep, 3, rep.q(1, 8));
    let d = rep.q(4, 5);
    seqs::<Z80NMOS>(rep, "NMOS", d);
    seqs::<Z80CMOS>(rep, "CMOS", d);
    seqs::<Z80BM1>(rep, "BM1", d);
    seqs::<Z80Any>(rep, "Z80Any", d);
    rep.sample(|| "irq in IM 0 with data ED, memory B0 xx: LDIR supplied by the interrupting device".into());
}
