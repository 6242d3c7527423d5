//! Enumerates a fixed space of executions of the z80emu crate and prints one line per group: `<group> <hash of
//! everything observable>`. The same program is built in several configurations (features, optimisation, run-time
//! checks) whose outputs have to be equal, and is run by an interpreter that detects undefined behaviour.
//! usage: xcfg full|ub|ral|ralwrite <slice> <slices> <states> | xcfg show|showub <group> <states> (prints the events of the group instead of hashing)
use std::cell::{Cell, RefCell};
use std::fmt::Write;
use std::num::{NonZeroU16, NonZeroU8};
use z80emu::*;
use z80emu::z80::*;

thread_local! { static SHOW: Cell<bool> = const { Cell::new(false) }; static UB: Cell<bool> = const { Cell::new(false) }; }

#[derive(Clone)]
struct H { h: u64, txt: Option<String> }
impl H {
    fn new() -> H { H { h: 0xcbf29ce484222325, txt: if SHOW.get() { Some(String::new()) } else { None } } }
    #[inline(always)]
    fn w(&mut self, tag: u8, v: u64) {
        self.h = (self.h ^ (v.wrapping_mul(0x9E3779B97F4A7C15) ^ tag as u64)).wrapping_mul(0x100000001b3);
        self.h ^= self.h >> 29;
        if let Some(t) = &mut self.txt { let _ = writeln!(t, "{} {:x}", tag as char, v); }
    }
}
impl Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() { self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3); }
        if let Some(t) = &mut self.txt { t.push_str(s); }
        Ok(())
    }
}

/// Memory: code at an address, what was written, a pattern elsewhere.
struct Host { at: u16, code: [u8; 6], wr: Vec<(u16, u8)>, io: u8, ws: u16, vec: u8, irq_at: u32, brk: bool, log: RefCell<H> }
impl Host {
    fn l(&self, t: u8, v: u64) { self.log.borrow_mut().w(t, v) }
}
impl Memory for Host {
    type Timestamp = u32;
    fn read_debug(&self, a: u16) -> u8 {
        if let Some(x) = self.wr.iter().rev().find(|x| x.0 == a) { return x.1 }
        let d = a.wrapping_sub(self.at) as usize;
        if d < 6 { self.code[d] } else { (a as u8).wrapping_mul(5) ^ (a >> 8) as u8 }
    }
    fn read_mem(&self, a: u16, t: u32) -> u8 { self.l(b'r', (t as u64) << 16 | a as u64); self.read_debug(a) }
    fn read_mem16(&self, a: u16, t: u32) -> u16 {
        self.l(b'R', (t as u64) << 16 | a as u64);
        u16::from_le_bytes([self.read_debug(a), self.read_debug(a.wrapping_add(1))])
    }
    fn read_opcode(&mut self, a: u16, ir: u16, t: u32) -> u8 { self.l(b'f', (t as u64) << 32 | (ir as u64) << 16 | a as u64); self.read_debug(a) }
    fn write_mem(&mut self, a: u16, v: u8, t: u32) { self.l(b'w', (t as u64) << 24 | (v as u64) << 16 | a as u64); self.wr.push((a, v)) }
}
impl Io for Host {
    type Timestamp = u32;
    type WrIoBreak = u8;
    type RetiBreak = u8;
    fn read_io(&mut self, p: u16, t: u32) -> (u8, Option<NonZeroU16>) { self.l(b'i', (t as u64) << 16 | p as u64); (self.io, NonZeroU16::new(self.ws)) }
    fn write_io(&mut self, p: u16, d: u8, t: u32) -> (Option<u8>, Option<NonZeroU16>) {
        self.l(b'o', (t as u64) << 24 | (d as u64) << 16 | p as u64);
        (if self.brk { Some(d) } else { None }, NonZeroU16::new(self.ws))
    }
    fn is_irq(&mut self, t: u32) -> bool { self.l(b'?', t as u64); t >= self.irq_at }
    fn irq_data(&mut self, pc: u16, t: u32) -> (u8, Option<NonZeroU16>) { self.l(b'v', (t as u64) << 16 | pc as u64); (self.vec, NonZeroU16::new(self.ws)) }
    fn reti(&mut self, a: u16, t: u32) -> Option<u8> { self.l(b'e', (t as u64) << 16 | a as u64); if self.brk { Some(9) } else { None } }
}
/// TsCounter plus a log of what it was given.
struct Clk { t: host::TsCounter<u32>, h: H }
impl Clock for Clk {
    type Limit = u32;
    type Timestamp = u32;
    fn is_past_limit(&self, l: u32) -> bool { self.t.is_past_limit(l) }
    fn add_irq(&mut self, a: u16) -> u32 { self.h.w(b'I', a as u64); self.t.add_irq(a) }
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) { self.h.w(b'N', (n.get() as u64) << 16 | a as u64); self.t.add_no_mreq(a, n) }
    fn add_m1(&mut self, a: u16) -> u32 { self.h.w(b'M', a as u64); self.t.add_m1(a) }
    fn add_mreq(&mut self, a: u16) -> u32 { self.h.w(b'Q', a as u64); self.t.add_mreq(a) }
    fn add_io(&mut self, a: u16) -> u32 { self.h.w(b'P', a as u64); self.t.add_io(a) }
    fn add_wait_states(&mut self, a: u16, n: NonZeroU16) { self.h.w(b'W', (n.get() as u64) << 16 | a as u64); self.t.add_wait_states(a, n) }
    fn as_timestamp(&self) -> u32 { self.t.as_timestamp() }
}

fn observe<C: Cpu>(h: &mut H, c: &C) {
    for r in [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF] {
        h.w(b'a', c.get_reg16(r) as u64);
        h.w(b'A', c.get_alt_reg16(r) as u64);
        let (x, y) = c.get_reg2(r);
        h.w(b'b', (x as u64) << 8 | y as u64);
    }
    for p in [Prefix::Xdd, Prefix::Yfd] { h.w(b'x', c.get_index16(p) as u64); }
    for p in [None, Some(Prefix::Xdd), Some(Prefix::Yfd)] { for r in REGS { h.w(b'g', c.get_reg(r, p) as u64); } }
    h.w(b'p', c.get_pc() as u64);
    h.w(b's', c.get_sp() as u64);
    h.w(b'k', c.get_ir() as u64 | (c.get_r() as u64) << 16 | (c.get_i() as u64) << 24);
    h.w(b'm', c.get_im().to_mode_number() as u64);
    let (a, b) = c.get_iffs();
    h.w(b'j', a as u64 | (b as u64) << 1 | (c.is_halt() as u64) << 2 | (c.is_after_ei() as u64) << 3 | (c.is_irq_allowed() as u64) << 4
        | (c.is_nmi_allowed() as u64) << 5 | (c.get_prefix().map(|p| p.to_code()).unwrap_or(0) as u64) << 8);
}
const REGS: [Reg8; 7] = [Reg8::B, Reg8::C, Reg8::D, Reg8::E, Reg8::H, Reg8::L, Reg8::A];

fn setup<C: Cpu>(c: &mut C, st: usize, pc: u16) {
    let k = (st as u16).wrapping_mul(0x1357);
    let top = st & 1 != 0;
    for (i, r) in [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF].into_iter().enumerate() {
        c.set_reg16(r, 0xA1B2u16.wrapping_mul(i as u16 + 3) ^ k);
    }
    c.exx();
    c.ex_af_af();
    let (bc, de, hl, af, ix, iy, sp) = if top { (0x0100, 0xFFFF, 0xFFFF, 0x80FF, 0xFFF0, 0xFFFF, 0x0000) }
        else { (0x0002u16.wrapping_add(k), 0x7FFF ^ k, 0x8080 ^ k, 0x9900 ^ k, 0x3FFF ^ k, 0xC000 ^ k, 0x6001 ^ k) };
    c.set_reg16(StkReg16::BC, bc);
    c.set_reg16(StkReg16::DE, de);
    c.set_reg16(StkReg16::HL, hl);
    c.set_reg16(StkReg16::AF, af);
    c.set_index16(Prefix::Xdd, ix);
    c.set_index16(Prefix::Yfd, iy);
    c.set_sp(sp);
    c.set_pc(pc);
    c.set_i(0xFF ^ k as u8);
    c.set_r(0x7F | (k << 4) as u8);
    c.set_iffs(st & 2 != 0, st & 4 != 0);
    c.set_im(match st % 3 { 0 => InterruptMode::Mode0, 1 => InterruptMode::Mode1, _ => InterruptMode::Mode2 });
}

/// 0..7: none CB ED DD FD DDCB FDCB
fn code_of(page: usize, op: u8, st: usize) -> ([u8; 6], usize) {
    let d = if st & 1 != 0 { 0xFF } else { 0x80u8.wrapping_add(st as u8) };
    match page {
        0 => ([op, d, 0x12, 0x37, 0x00, 0x3F], 1),
        1 => ([0xCB, op, 0x37, 0x00, 0x3F, 0], 1),
        2 => ([0xED, op, d, 0x34, 0x37, 0x3F], 1),
        3 => ([0xDD, op, d, 0x34, 0x37, 0x3F], 2),
        4 => ([0xFD, op, d, 0x34, 0x37, 0x3F], 2),
        5 => ([0xDD, 0xCB, d, op, 0x37, 0x3F], 2),
        _ => ([0xFD, 0xCB, d, op, 0x37, 0x3F], 2),
    }
}
const PAGES: [&str; 7] = ["--", "CB", "ED", "DD", "FD", "DDCB", "FDCB"];
const ALLP: [usize; 7] = [0, 1, 2, 3, 4, 5, 6];
const ENTRIES: [&str; 6] = ["next", "debug", "limit", "exec", "irq", "nmi"];

fn res(h: &mut H, r: z80emu::host::Result<u8, u8>) {
    match r {
        Ok(()) => h.w(b'=', 0),
        Err(e) => { let _ = write!(h, "{e}"); match e { BreakCause::Halt => h.w(b'=', 1), BreakCause::WriteIo(x) => h.w(b'=', 0x100 | x as u64), BreakCause::Reti(x) => h.w(b'=', 0x200 | x as u64) } }
    }
}

fn case<C: Cpu>(out: &mut H, page: usize, op: u8, st: usize, entry: usize) {
    let pc = match st { 1 => 0xFFFF, 3 => 0xFFFE, _ => 0x4000u16.wrapping_add(st as u16) };
    let (code, steps) = code_of(page, op, st);
    let extra = if UB.get() { 0 } else { 2 };
    let mut h = Host { at: pc, code, wr: vec![], io: 0x80 ^ op, ws: if st == 2 { 300 } else { 0 }, vec: op, irq_at: u32::MAX, brk: st & 2 == 0, log: RefCell::new(H::new()) };
    let mut k = Clk { t: host::TsCounter::from(if st == 1 { u32::MAX - 7 } else { 0 }), h: H::new() };
    let mut c = C::default();
    setup(&mut c, st, pc);
    match entry {
        0 => for _ in 0..steps + extra { let r = c.execute_next(&mut h, &mut k, None::<CpuDebugFn>); res(out, r) },
        1 => for i in 0..steps + extra / 2 {
            let r = c.execute_next(&mut h, &mut k, Some(|d: CpuDebug| {
                if UB.get() { out.w(b'd', d.pc as u64 | (d.mnemonic.len() as u64) << 16 | (d.code.len() as u64) << 32); if st == 0 { let _ = write!(out, "{}", d.args); } return }
                let _ = match (op as usize + i) % 4 { 0 => write!(out, "{d}"), 1 => write!(out, "{d:x}"), 2 => write!(out, "{d:#X}"), _ => write!(out, "{:04x} : {:6} {:#20x} {:02X?} {:?}", d.pc, d.mnemonic, d.args, d.code.as_slice(), d.prefix) };
            }));
            res(out, r)
        },
        2 => {
            h.irq_at = if st == 1 { 3 } else { 6 };
            let lim = k.as_timestamp().wrapping_add(30);
            if lim > 7 { let r = c.execute_with_limit(&mut h, &mut k, lim); res(out, r) } else { let r = c.execute_with_limit(&mut h, &mut k, u32::MAX); res(out, r) }
        }
        3 => {
            if page >= 3 { let r = c.execute_instruction(&mut h, &mut k, None::<CpuDebugFn>, code[0]); res(out, r); h.at = pc.wrapping_sub(1) } else { h.at = pc.wrapping_sub(1) }
            let r = c.execute_instruction(&mut h, &mut k, None::<CpuDebugFn>, if page >= 3 { code[1] } else { code[0] });
            res(out, r);
        }
        4 => {
            c.set_iffs(true, true);
            if st & 1 != 0 { c.halt() }
            match c.irq(&mut h, &mut k, Some(|d: CpuDebug| { let _ = write!(out, "{d:#x}"); })) { None => out.w(b'=', 7), Some(r) => res(out, r) }
            if extra > 0 { let r = c.execute_next(&mut h, &mut k, None::<CpuDebugFn>); res(out, r); }
        }
        _ => {
            let r = c.execute_next(&mut h, &mut k, None::<CpuDebugFn>);
            res(out, r);
            let a = c.nmi(&mut h, &mut k);
            out.w(b'=', a as u64);
            if extra > 0 { let r = c.execute_next(&mut h, &mut k, None::<CpuDebugFn>); res(out, r); }
        }
    }
    if UB.get() && (page != 0 || op >= 8) {
        for r in [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF] { out.w(b'a', c.get_reg16(r) as u64) }
        for p in [Prefix::Xdd, Prefix::Yfd] { out.w(b'x', c.get_index16(p) as u64) }
        out.w(b'p', c.get_pc() as u64 | (c.get_sp() as u64) << 16);
    } else { observe(out, &c) }
    let l = h.log.into_inner();
    out.w(b'H', l.h);
    out.w(b'C', k.h.h);
    if let Some(t) = &mut out.txt { for (n, x) in [("host", &l), ("clock", &k.h)] { let _ = writeln!(t, "-- {n}: {}", x.txt.as_deref().unwrap_or("").replace('\n', ", ")); } }
    out.w(b'T', k.as_timestamp() as u64);
}

struct Groups { i: u64, slice: u64, n: u64, only: Option<String>, cases: u64, slow: Option<u128> }
impl Groups {
    fn g(&mut self, name: impl FnOnce() -> String, f: impl FnOnce(&mut H) -> u64) {
        self.i += 1;
        if (self.i - 1) % self.n != self.slice { return }
        let name = name();
        if let Some(o) = &self.only { if *o != name { return } }
        let mut h = H::new();
        let (t0, slow) = (std::time::Instant::now(), self.slow);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut h)));
        if slow.is_some_and(|s| t0.elapsed().as_millis() > s) { eprintln!("{name} {:?}", t0.elapsed()) }
        match r {
            Ok(n) => { self.cases += n; println!("{name} {:016x}", h.h) }
            Err(_) => println!("{name} panic"),
        }
        if let Some(t) = h.txt { println!("{t}") }
    }
}

fn cpu_groups<C: Cpu>(g: &mut Groups, fl: &str, pages: &[usize], states: usize, entries: &[usize]) {
    for &page in pages { for op in 0..=255u8 { for &e in entries {
        if (e == 4 || e == 5) && page != 0 { continue }
        if e == 3 && page >= 5 { continue }
        g.g(|| format!("{fl}/{}/{:02x}/{}", PAGES[page], op, ENTRIES[e]), |h| { for st in 0..states { case::<C>(h, page, op, st, e) } states as u64 });
    } } }
}

fn alu<C: Cpu>(g: &mut Groups, fl: &str) {
    for op in 0..8u8 { for a in 0..=255u8 {
        g.g(|| format!("{fl}/alu/{op}/{a:02x}"), |h| {
            let mut host = Host { at: 0, code: [0; 6], wr: vec![], io: 0, ws: 0, vec: 0, irq_at: u32::MAX, brk: false, log: RefCell::new(H::new()) };
            let mut k = host::TsCounter::<u32>::default();
            let mut c = C::default();
            for b in 0..=255u8 { for f in [0u8, 1, 0xFF, 0xD6] {
                c.set_reg16(StkReg16::AF, (a as u16) << 8 | f as u16);
                c.set_reg16(StkReg16::BC, (b as u16) << 8);
                let _ = c.execute_instruction(&mut host, &mut k, None::<CpuDebugFn>, 0x80 | op << 3);
                h.w(b'f', c.get_reg16(StkReg16::AF) as u64);
            } }
            1024
        });
    } }
    for a in 0..=255u8 {
        g.g(|| format!("{fl}/daa/{a:02x}"), |h| {
            let mut host = Host { at: 0, code: [0; 6], wr: vec![], io: 0, ws: 0, vec: 0, irq_at: u32::MAX, brk: false, log: RefCell::new(H::new()) };
            let mut k = host::TsCounter::<u32>::default();
            let mut c = C::default();
            for f in 0..=255u8 { for op in [0x27u8, 0x2F, 0x37, 0x3F, 0x07, 0x0F, 0x17, 0x1F, 0x3C, 0x3D] {
                c.set_reg16(StkReg16::AF, (a as u16) << 8 | f as u16);
                let _ = c.execute_instruction(&mut host, &mut k, None::<CpuDebugFn>, op);
                h.w(b'f', c.get_reg16(StkReg16::AF) as u64);
            } }
            2560
        });
    }
    for op in 0..=255u8 {
        g.g(|| format!("{fl}/cb/{op:02x}"), |h| {
            let mut host = Host { at: 0, code: [op; 6], wr: vec![], io: 0, ws: 0, vec: 0, irq_at: u32::MAX, brk: false, log: RefCell::new(H::new()) };
            let mut k = host::TsCounter::<u32>::default();
            let mut c = C::default();
            c.set_reg16(StkReg16::HL, 0x8000);
            for v in 0..=255u8 { for f in [0u8, 1, 0xFF] {
                host.wr = vec![(0x8000, v)];
                for r in REGS { if !matches!(r, Reg8::H | Reg8::L) || op & 7 == 4 || op & 7 == 5 { c.set_reg(r, None, v) } }
                if op & 7 == 6 { c.set_reg16(StkReg16::HL, 0x8000) }
                c.set_flags(CpuFlags::from_bits_retain(f));
                c.set_pc(0);
                let _ = c.execute_instruction(&mut host, &mut k, None::<CpuDebugFn>, 0xCB);
                for r in [StkReg16::AF, StkReg16::BC, StkReg16::DE, StkReg16::HL] { h.w(b'f', c.get_reg16(r) as u64) }
                h.w(b'w', host.wr.last().unwrap().1 as u64);
            } }
            768
        });
    }
    for op in [0x09u8, 0x4A, 0x42] { for hi in 0..16u16 {
        g.g(|| format!("{fl}/op16/{op:02x}/{hi:x}"), |h| {
            let mut host = Host { at: 0, code: [op; 6], wr: vec![], io: 0, ws: 0, vec: 0, irq_at: u32::MAX, brk: false, log: RefCell::new(H::new()) };
            let mut k = host::TsCounter::<u32>::default();
            let mut c = C::default();
            let mut n = 0;
            for lo in [0u16, 1, 0xFE, 0xFF, 0xE00, 0xEFF, 0xF00, 0xFFE, 0xFFF] { for b in (0..0x10000u32).step_by(0xFF) { for f in [0u8, 1] { for b in [b as u16, !b as u16] {
                c.set_reg16(StkReg16::HL, hi << 12 | lo);
                c.set_reg16(StkReg16::BC, b);
                c.set_flags(CpuFlags::from_bits_retain(f));
                c.set_pc(0);
                let _ = c.execute_instruction(&mut host, &mut k, None::<CpuDebugFn>, if op == 0x09 { 0x09 } else { 0xED });
                h.w(b'f', (c.get_reg16(StkReg16::HL) as u64) << 16 | c.get_reg16(StkReg16::AF) as u64);
                n += 1;
            } } } }
            n
        });
    } }
}

fn helpers(g: &mut Groups, full: bool) {
    for x in 0..=255u8 {
        g.g(|| format!("parse/{x:02x}"), |h| {
            macro_rules! show { ($($e:expr),*) => { $( let v = $e; let s: &str = v.into(); let _ = write!(h, "{v} {s} {} ", u8::from(v)); )* } }
            show!(StkReg16::from_code(x), Reg16::from_code(x), Condition::from_code(x), Condition::from_jr_subset(x), StkReg16::from(x), Reg16::from(x), Condition::from(x));
            match Reg8::try_from(x) { Ok(r) => { show!(r); for p in [None, Some(Prefix::Xdd), Some(Prefix::Yfd)] { let _ = write!(h, "{}", F(|f: &mut std::fmt::Formatter<'_>| r.format_with_prefix(f, p))); } } Err(()) => h.w(b'E', 0) }
            for p in [None, Some(Prefix::Xdd), Some(Prefix::Yfd)] { let _ = write!(h, "{}", F(|f: &mut std::fmt::Formatter<'_>| Reg16::from_code(x).format_with_prefix(f, p))); }
            match Prefix::try_from(x) { Ok(r) => { let _ = write!(h, "{r} {}", r.to_code()); } Err(()) => h.w(b'E', 1) }
            match InterruptMode::try_from(x) { Ok(r) => { let _ = write!(h, "{r:?} {}", u8::from(r)); } Err(()) => h.w(b'E', 2) }
            for f in (0..=255u8).step_by(if full { 1 } else { 17 }) { h.w(b'c', Condition::from_code(x).is_satisfied(CpuFlags::from_bits_retain(f)) as u64) }
            let f = CpuFlags::from_bits_retain(x);
            h.w(b'F', f.sf() as u64 | (f.zf() as u64) << 1 | (f.hf() as u64) << 2 | (f.pvf() as u64) << 3 | (f.nf() as u64) << 4 | (f.cf() as u64) << 5);
            for m in [CpuFlags::mask_sign(x), CpuFlags::mask_zero(x), CpuFlags::parity(x), CpuFlags::mask_xy(x), CpuFlags::mask_sxy(x)] { h.w(b'M', m.bits() as u64) }
            let _ = write!(h, "{f:?}");
            for s in ["NZ", "Z", "NC", "C", "PO", "PE", "P", "M", "nz", "", "X"] { h.w(b'S', s.parse::<Condition>().map(|c| c.to_code() as u64).unwrap_or(99)) }
            1
        });
        g.g(|| format!("pair/{x:02x}"), |h| {
            let mut n = 0;
            for y in (0..=255u8).step_by(if full { 1 } else { 51 }) {
                let mut p = RegisterPair::from((x, y));
                p.inc16(); h.w(b'1', p.get16() as u64);
                p.add16((y as u16) << 8 | x as u16); h.w(b'2', p.get16() as u64);
                p.dec16(); h.w(b'3', p.get16() as u64);
                let z = p.dec16_is_zero(); h.w(b'4', z as u64);
                p.op8hi(|v| v.rotate_left(1)); p.op8lo(|v| v ^ x); p.op16(|v| ((v >> 3) as u8, v as u8));
                h.w(b'5', p.get16() as u64);
                unsafe { *p.ptr8hi() = y; *p.ptr8lo() = x.wrapping_add(*p.ptr8hi()); }
                let (a, b) = p.get();
                h.w(b'6', (a as u64) << 8 | b as u64 | (p.get8hi() as u64) << 16 | (p.get8lo() as u64) << 24);
                p.set(y, x); p.set8hi(b); p.set8lo(a);
                h.w(b'7', p.get16() as u64);
                n += 1;
            }
            n
        });
        // every byte in front of a few continuations, placed at both ends of the address space
        g.g(|| format!("disasm/{x:02x}"), |h| {
            let mut n = 0;
            if !full {
                for m in [[x, 0xFE, 0x10], [0xDD, x, 0x80], [0xED, x, 0]] {
                    if let Some(d) = disasm::disasm_memory_once::<Z80NMOS>(0xFFFE, &m) { h.w(b'd', d.code.len() as u64 | (d.mnemonic.len() as u64) << 16); }
                }
                let _ = disasm::disasm_memory_write_text::<Z80CMOS, _>(0xFFFE, &[0xFD, 0xCB, x, x], &mut *h);
                return 4
            }
            for y in 0..=255u8 { for org in [0u16, 0xFFFE] {
                for m in [&[x, y, 0xFE, 0x10, x][..], &[0xDD, x, y, 0x76], &[0xED, x], &[0xFD, 0xCB, y, x], &[x]] {
                    let _ = disasm::disasm_memory_write_text::<Z80NMOS, _>(org, m, &mut *h);
                    if let Some(d) = disasm::disasm_memory_once::<Z80CMOS>(org, m) { let _ = write!(h, "{d:#X}"); }
                    n += 1;
                }
            } }
            n
        });
    }
    g.g(|| "counter".to_string(), |h| {
        let mut n = 0;
        for s in [0u64, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFF9, 0xFFFF_FFFF] {
            macro_rules! t { ($($t:ty),*) => { $( {
                let mut k = host::TsCounter::<$t>::from(s as $t);
                h.w(b't', k.add_irq(1) as u64); h.w(b't', k.add_io(2) as u64); h.w(b't', k.add_m1(3) as u64); h.w(b't', k.add_mreq(4) as u64);
                k.add_no_mreq(5, NonZeroU8::new(255).unwrap()); k.add_wait_states(6, NonZeroU16::new(65535).unwrap());
                h.w(b't', k.as_timestamp() as u64); h.w(b't', k.is_past_limit(s as $t) as u64);
                *k -= 3; h.w(b't', k.0.0 as u64);
                n += 1;
            } )* } }
            t!(i32, u32, i64, u64, i128, u128);
        }
        n
    });
    for x in 0..8usize {
        g.g(|| format!("any/{x}"), |h| {
            let mut n = 0;
            for op in 0..=255u8 {
                if !full && op % 16 != x as u8 { continue }
                let mut c = match x % 3 { 0 => Z80Any::from(Z80NMOS::default()), 1 => Z80Any::from(Z80CMOS::default()), _ => Z80Any::from(Z80BM1::default()) };
                setup(&mut c, x, 0x1000);
                let mut host = Host { at: 0x1000, code: [op, 0x12, 0x34, 0x37, 0, 0], wr: vec![], io: 0x55, ws: 1, vec: op, irq_at: 6, brk: true, log: RefCell::new(H::new()) };
                let mut k = host::TsCounter::<u32>::default();
                let r = c.execute_next(&mut host, &mut k, None::<CpuDebugFn>); res(h, r);
                let r = c.execute_with_limit(&mut host, &mut k, 40); res(h, r);
                let a = c.nmi(&mut host, &mut k); h.w(b'n', a as u64);
                let mut d = match x % 3 { 0 => c.into_cmos(), 1 => c.into_bm1(), _ => c.into_nmos() };
                let r = d.execute_next(&mut host, &mut k, None::<CpuDebugFn>); res(h, r);
                observe(h, &d);
                let l = host.log.into_inner(); h.w(b'H', l.h);
                n += 1;
            }
            n
        });
    }
}

struct F<T: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result>(T);
impl<T: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result> std::fmt::Display for F<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (self.0)(f) }
}

/// The memory of the example computer: every region boundary, every bank arrangement, after histories of bank changes.
/// alias=false leaves out the histories that write to the kernel RAM while it is mapped (see known-findings.txt).
#[cfg(feature = "ral")]
fn ral(g: &mut Groups, alias: bool, full: bool) {
    use ral1243::{bus::MemoryControl, memory::Memory as Mem};
    const EDGES: [u16; 18] = [0, 1, 0x1000, 0x1FFE, 0x1FFF, 0x2000, 0x2001, 0x3FFE, 0x3FFF, 0x4000, 0x4001, 0x43FE, 0x43FF, 0x4400, 0xBFFF, 0xC000, 0xFFFE, 0xFFFF];
    for kb in [0usize, 1, 48] { for banks in [0usize, 2] { for hist in 0..if full { 256u32 } else { 16 } {
        g.g(|| format!("ral/{kb}/{banks}/{hist:02x}"), |h| {
            let mut m = Mem::new(&[0x5A; 0x2000], kb);
            for b in 0..banks { m.attach_exrom(Mem::make_rom(&[b as u8 + 1; 0x2000])); }
            for i in 0..if full { 4 } else { 2 } {
                match hist >> (2 * i) & 3 {
                    0 => { h.w(b'f', m.read_opcode(0x1FFF, 0, 0) as u64) }
                    1 => { h.w(b'f', m.read_opcode(0x3FFF, 0, 0) as u64) }
                    2 => { m.write_ctrl(i as u8); h.w(b'c', m.read_ctrl() as u64) }
                    _ => { let e = m.eject_exroms(); h.w(b'e', e.len() as u64); for r in e { m.attach_exrom(r); } }
                }
                for a in EDGES { h.w(b'r', m.read_debug(a) as u64 | (m.read_mem16(a, 0) as u64) << 8); if alias || a >= 0x4000 { m.write_mem(a, a as u8, 0) } h.w(b'r', m.read_mem16(a, 0) as u64) }
            }
            let e = m.eject_exroms(); h.w(b'e', e.len() as u64);
            drop(e);
            for a in EDGES { h.w(b'r', m.read_mem16(a, 0) as u64) }
            4 * EDGES.len() as u64
        });
    } } }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("full");
    let num = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let mut g = Groups { i: 0, slice: 0, n: 1, only: None, cases: 0, slow: std::env::var("XCFG_SLOW").ok().and_then(|s| s.parse().ok()) };
    let show = mode.starts_with("show");
    let mode = match mode { "show" => "full", "showub" => "ub", "showbe" => "be", "showral" => "ral", m => m };
    if show { g.only = a.get(2).cloned(); SHOW.set(true) } else { g.slice = num(2, 0); g.n = num(3, 1) }
    let states = num(if show { 3 } else { 4 }, if mode == "ub" { 2 } else { 12 }) as usize;
    std::panic::set_hook(Box::new(|_| ()));
    UB.set(mode == "ub" || mode == "be");
    let all = [0, 1, 2, 3, 4, 5];
    #[cfg(feature = "ral")]
    if mode == "ral" || mode == "ralwrite" { ral(&mut g, mode == "ralwrite", states > 2); println!("# cases {} groups {}", g.cases, g.i); return }
    if mode == "be" {
        cpu_groups::<Z80NMOS>(&mut g, "nmos", &ALLP, states, &[0]);
        helpers(&mut g, false);
    } else if mode == "ub" {
        cpu_groups::<Z80NMOS>(&mut g, "nmos", &ALLP, states, if states > 1 { &all } else { &[1, 4] });
        cpu_groups::<Z80CMOS>(&mut g, "cmos", if states > 1 { &ALLP } else { &[0, 2] }, states, if states > 1 { &all } else { &[0] });
        cpu_groups::<Z80BM1>(&mut g, "bm1", if states > 1 { &ALLP } else { &[0, 2] }, states, if states > 1 { &all } else { &[0] });
        helpers(&mut g, false);
    } else {
        cpu_groups::<Z80NMOS>(&mut g, "nmos", &ALLP, states, &all);
        cpu_groups::<Z80CMOS>(&mut g, "cmos", &ALLP, states, &all);
        cpu_groups::<Z80BM1>(&mut g, "bm1", &ALLP, states, &all);
        alu::<Z80NMOS>(&mut g, "nmos");
        helpers(&mut g, true);
    }
    println!("# cases {} groups {}", g.cases, g.i);
}
