//! Reference model of the Z80 (NMOS / CMOS / BM1). Independent of the code under test.
//! Sources: opcode map in x/y/z/p/q form, "The Undocumented Z80 Documented", MEMPTR description by
//! boo_boo, the cycle tables, and the documentation of the crate's Clock/Io/Memory traits.
use crate::host::*;
use std::num::NonZeroU8;
use z80emu::{Clock, Io, Memory};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fl { Nmos, Cmos, Bm1 }
pub const FLAVOURS: [Fl; 3] = [Fl::Nmos, Fl::Cmos, Fl::Bm1];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct RCpu {
    pub af: u16, pub bc: u16, pub de: u16, pub hl: u16,
    pub af_: u16, pub bc_: u16, pub de_: u16, pub hl_: u16,
    pub ix: u16, pub iy: u16, pub sp: u16, pub pc: u16, pub wz: u16,
    pub i: u8, pub r: u8,
    pub iff1: bool, pub iff2: bool, pub im: u8, pub halt: bool,
    pub ei: bool,
    /// 0 none, 1 DD, 2 FD
    pub pfx: u8,
    /// the last instruction modified the flags (always false for CMOS)
    pub q: bool,
}

impl RCpu {
    pub fn reset_state() -> RCpu {
        RCpu { af: 0xFFFF, af_: 0xFFFF, sp: 0xFFFF, ..Default::default() }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Out { Ok, Halt, Wr(u32), Reti(u32) }

pub const CF: u8 = 1;
pub const NF: u8 = 2;
pub const PF: u8 = 4;
pub const XF: u8 = 8;
pub const HF: u8 = 16;
pub const YF: u8 = 32;
pub const ZF: u8 = 64;
pub const SF: u8 = 128;

#[inline] fn hi(v: u16) -> u8 { (v >> 8) as u8 }
#[inline] fn lo(v: u16) -> u8 { v as u8 }
#[inline] fn w(h: u8, l: u8) -> u16 { (h as u16) << 8 | l as u16 }
#[inline] fn par(v: u8) -> u8 { if v.count_ones() & 1 == 0 { PF } else { 0 } }
#[inline] fn szyx(r: u8) -> u8 { r & (SF | YF | XF) | if r == 0 { ZF } else { 0 } }

/// 8-bit ALU: returns (a, f). op in encoding order ADD ADC SUB SBC AND XOR OR CP.
pub fn alu(op: u8, a: u8, v: u8, f: u8) -> (u8, u8) {
    let cin = (f & CF) as i32;
    match op {
        0 | 1 => {
            let c = if op == 1 { cin } else { 0 };
            let u = a as i32 + v as i32 + c;
            let s = a as i8 as i32 + v as i8 as i32 + c;
            let half = (a & 15) as i32 + (v & 15) as i32 + c;
            let r = u as u8;
            (r, szyx(r) | if half > 15 { HF } else { 0 } | if s < -128 || s > 127 { PF } else { 0 }
                | if u > 255 { CF } else { 0 })
        }
        2 | 3 | 7 => {
            let c = if op == 3 { cin } else { 0 };
            let u = a as i32 - v as i32 - c;
            let s = a as i8 as i32 - v as i8 as i32 - c;
            let half = (a & 15) as i32 - (v & 15) as i32 - c;
            let r = u as u8;
            let mut fl = szyx(r) | NF | if half < 0 { HF } else { 0 }
                | if s < -128 || s > 127 { PF } else { 0 } | if u < 0 { CF } else { 0 };
            if op == 7 {
                fl = fl & !(YF | XF) | v & (YF | XF);
                (a, fl)
            } else { (r, fl) }
        }
        4 => { let r = a & v; (r, szyx(r) | HF | par(r)) }
        5 => { let r = a ^ v; (r, szyx(r) | par(r)) }
        6 => { let r = a | v; (r, szyx(r) | par(r)) }
        _ => unreachable!(),
    }
}
pub fn inc8(v: u8, f: u8) -> (u8, u8) {
    let r = v.wrapping_add(1);
    (r, f & CF | szyx(r) | if v & 15 == 15 { HF } else { 0 } | if v == 127 { PF } else { 0 })
}
pub fn dec8(v: u8, f: u8) -> (u8, u8) {
    let r = v.wrapping_sub(1);
    (r, f & CF | NF | szyx(r) | if v & 15 == 0 { HF } else { 0 } | if v == 128 { PF } else { 0 })
}
/// CB rotates: RLC RRC RL RR SLA SRA SLL SRL
pub fn rot(op: u8, v: u8, f: u8) -> (u8, u8) {
    let c = f & CF;
    let (r, co) = match op {
        0 => (v.rotate_left(1), v >> 7),
        1 => (v.rotate_right(1), v & 1),
        2 => (v << 1 | c, v >> 7),
        3 => (v >> 1 | c << 7, v & 1),
        4 => (v << 1, v >> 7),
        5 => (v >> 1 | v & 0x80, v & 1),
        6 => (v << 1 | 1, v >> 7),
        _ => (v >> 1, v & 1),
    };
    (r, szyx(r) | par(r) | co)
}
pub fn rota(op: u8, a: u8, f: u8) -> (u8, u8) {
    let (r, fl) = rot(op, a, f);
    (r, f & (SF | ZF | PF) | r & (YF | XF) | fl & CF)
}
pub fn daa(a: u8, f: u8) -> (u8, u8) {
    let (h, n, c) = (f & HF != 0, f & NF != 0, f & CF != 0);
    let l = a & 15;
    let corr = if h || l > 9 { 6 } else { 0 } | if c || a > 0x99 { 0x60 } else { 0 };
    let r = if n { a.wrapping_sub(corr) } else { a.wrapping_add(corr) };
    let hf = if n { h && l < 6 } else { l > 9 };
    (r, szyx(r) | par(r) | f & NF | if hf { HF } else { 0 } | if c || a > 0x99 { CF } else { 0 })
}
pub fn bit(b: u8, v: u8, yx: u8, f: u8) -> u8 {
    let t = v & (1 << b);
    f & CF | HF | yx & (YF | XF) | if t == 0 { ZF | PF } else { t & SF }
}
pub fn add16(x: u16, y: u16, f: u8) -> (u16, u8) {
    let s = x as u32 + y as u32;
    let r = s as u16;
    (r, f & (SF | ZF | PF) | hi(r) & (YF | XF) | if (x & 0xFFF) + (y & 0xFFF) > 0xFFF { HF } else { 0 }
        | if s > 0xFFFF { CF } else { 0 })
}
pub fn adc16(x: u16, y: u16, f: u8) -> (u16, u8) {
    let c = (f & CF) as i32;
    let u = x as i32 + y as i32 + c;
    let s = x as i16 as i32 + y as i16 as i32 + c;
    let h = (x & 0xFFF) as i32 + (y & 0xFFF) as i32 + c;
    let r = u as u16;
    (r, hi(r) & (SF | YF | XF) | if r == 0 { ZF } else { 0 } | if h > 0xFFF { HF } else { 0 }
        | if s < -32768 || s > 32767 { PF } else { 0 } | if u > 0xFFFF { CF } else { 0 })
}
pub fn sbc16(x: u16, y: u16, f: u8) -> (u16, u8) {
    let c = (f & CF) as i32;
    let u = x as i32 - y as i32 - c;
    let s = x as i16 as i32 - y as i16 as i32 - c;
    let h = (x & 0xFFF) as i32 - (y & 0xFFF) as i32 - c;
    let r = u as u16;
    (r, NF | hi(r) & (SF | YF | XF) | if r == 0 { ZF } else { 0 } | if h < 0 { HF } else { 0 }
        | if s < -32768 || s > 32767 { PF } else { 0 } | if u < 0 { CF } else { 0 })
}

pub fn cond(y: u8, f: u8) -> bool {
    let m = [ZF, CF, PF, SF][(y >> 1) as usize & 3];
    (f & m != 0) == (y & 1 == 1)
}

/// What a step executed, for the debugger properties.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Dbg {
    /// number of instructions executed (debugger calls expected)
    pub calls: u8,
    /// instruction bytes incl. effective prefix
    pub code: [u8; 4],
    pub len: u8,
    /// PC right after the last byte of the instruction
    pub end: u16,
    pub pfx: u8,
}

pub struct Model<'a> {
    pub c: &'a mut RCpu,
    pub e: &'a mut Env,
    pub k: &'a mut Clk,
    pub fl: Fl,
    pub dbg: Dbg,
    /// The operand byte of a relative jump that is not taken has its memory cycle, but the value is
    /// not needed: hosts may see it read through `read_mem` or only peeked at (`read_debug`).
    pub read_untaken: bool,
}

impl<'a> Model<'a> {
    pub fn new(c: &'a mut RCpu, e: &'a mut Env, k: &'a mut Clk, fl: Fl) -> Self {
        Model { c, e, k, fl, dbg: Dbg::default(), read_untaken: false }
    }
    fn a(&self) -> u8 { hi(self.c.af) }
    fn f(&self) -> u8 { lo(self.c.af) }
    fn set_a(&mut self, a: u8) { self.c.af = w(a, self.f()) }
    fn set_f(&mut self, f: u8) { // flag-modifying write
        self.c.af = w(self.a(), f);
        if self.fl != Fl::Cmos { self.c.q = true }
    }
    fn ir(&self) -> u16 { w(self.c.i, self.c.r) }
    fn inc_r(&mut self) { self.c.r = self.c.r & 0x80 | self.c.r.wrapping_add(1) & 0x7F }
    fn nm(&mut self, a: u16, n: u8) { self.k.add_no_mreq(a, NonZeroU8::new(n).unwrap()) }
    fn note(&mut self, b: u8) {
        if (self.dbg.len as usize) < 4 { self.dbg.code[self.dbg.len as usize] = b; }
        self.dbg.len += 1;
    }
    fn rd(&mut self, a: u16) -> u8 { let t = self.k.add_mreq(a); self.e.read_mem(a, t) }
    fn wr(&mut self, a: u16, v: u8) { let t = self.k.add_mreq(a); self.e.write_mem(a, v, t) }
    fn rd16(&mut self, a: u16) -> u16 {
        let t = self.k.add_mreq(a);
        let v = self.e.read_mem16(a, t);
        self.k.add_mreq(a.wrapping_add(1));
        v
    }
    fn fetch(&mut self) -> u8 {
        let pc = self.c.pc;
        self.inc_r();
        let t = self.k.add_m1(pc);
        let b = self.e.read_opcode(pc, self.ir(), t);
        self.c.pc = pc.wrapping_add(1);
        b
    }
    fn fetch_noted(&mut self) -> u8 { let b = self.fetch(); self.note(b); b }
    fn imm8(&mut self, extra: u8) -> u8 {
        let pc = self.c.pc;
        let b = self.rd(pc);
        if extra > 0 { self.nm(pc, extra) }
        self.c.pc = pc.wrapping_add(1);
        self.note(b);
        b
    }
    fn imm16(&mut self) -> u16 {
        let v = self.rd16(self.c.pc);
        self.c.pc = self.c.pc.wrapping_add(2);
        self.note(lo(v));
        self.note(hi(v));
        v
    }
    fn push(&mut self, v: u16) {
        let s = self.c.sp.wrapping_sub(1);
        self.wr(s, hi(v));
        let s = s.wrapping_sub(1);
        self.wr(s, lo(v));
        self.c.sp = s;
    }
    fn pop(&mut self) -> u16 {
        let v = self.rd16(self.c.sp);
        self.c.sp = self.c.sp.wrapping_add(2);
        v
    }
    fn xx(&self, p: u8) -> u16 { match p { 0 => self.c.hl, 1 => self.c.ix, _ => self.c.iy } }
    fn set_xx(&mut self, p: u8, v: u16) { match p { 0 => self.c.hl = v, 1 => self.c.ix = v, _ => self.c.iy = v } }
    fn reg(&self, n: u8, p: u8) -> u8 {
        match n {
            0 => hi(self.c.bc), 1 => lo(self.c.bc), 2 => hi(self.c.de), 3 => lo(self.c.de),
            4 => hi(self.xx(p)), 5 => lo(self.xx(p)), 7 => self.a(), _ => unreachable!(),
        }
    }
    fn set_reg(&mut self, n: u8, p: u8, v: u8) {
        match n {
            0 => self.c.bc = w(v, lo(self.c.bc)), 1 => self.c.bc = w(hi(self.c.bc), v),
            2 => self.c.de = w(v, lo(self.c.de)), 3 => self.c.de = w(hi(self.c.de), v),
            4 => { let x = w(v, lo(self.xx(p))); self.set_xx(p, x) }
            5 => { let x = w(hi(self.xx(p)), v); self.set_xx(p, x) }
            7 => self.set_a(v),
            _ => unreachable!(),
        }
    }
    fn rp(&self, n: u8, p: u8) -> u16 {
        match n { 0 => self.c.bc, 1 => self.c.de, 2 => self.xx(p), _ => self.c.sp }
    }
    fn set_rp(&mut self, n: u8, p: u8, v: u16) {
        match n { 0 => self.c.bc = v, 1 => self.c.de = v, 2 => self.set_xx(p, v), _ => self.c.sp = v }
    }
    fn mix(&self, a: u8, l: u8) -> u16 {
        w(if self.fl == Fl::Bm1 { 0 } else { a }, l.wrapping_add(1))
    }
    /// address of the memory operand (HL) / (IX+d), with the cycles of fetching d and `x` T-states
    fn maddr(&mut self, p: u8) -> u16 {
        if p == 0 { self.c.hl } else {
            let d = self.imm8(5);
            let a = self.xx(p).wrapping_add(d as i8 as u16);
            self.c.wz = a;
            a
        }
    }
    fn io_in(&mut self, port: u16) -> u8 {
        let t = self.k.add_io(port);
        let (v, ws) = self.e.read_io(port, t);
        if let Some(n) = ws { self.k.add_wait_states(port, n) }
        v
    }
    fn io_out(&mut self, port: u16, v: u8) -> Out {
        let t = self.k.add_io(port);
        let (b, ws) = self.e.write_io(port, v, t);
        if let Some(n) = ws { self.k.add_wait_states(port, n) }
        match b { Some(x) => Out::Wr(x), None => Out::Ok }
    }

    /// One step: interrupt acceptance, or a halted cycle, or one opcode (or prefix byte).
    pub fn step(&mut self) -> Out {
        if self.c.iff1 && self.c.pfx == 0 && !self.c.ei && self.e.is_irq(self.k.as_timestamp()) {
            return self.irq_now();
        }
        if self.c.halt {
            let pc = self.c.pc;
            // a halted cycle is a NOP: it ends the delay after EI and drops a pending prefix
            self.c.ei = false;
            self.c.pfx = 0;
            self.k.add_m1(pc);
            self.inc_r();
            return Out::Ok;
        }
        let op = self.fetch();
        self.exec(op)
    }
    pub fn irq(&mut self) -> Option<Out> {
        if self.c.iff1 && self.c.pfx == 0 && !self.c.ei { Some(self.irq_now()) } else { None }
    }
    fn irq_now(&mut self) -> Out {
        self.c.iff1 = false;
        self.c.iff2 = false;
        self.inc_r();
        if self.c.halt { self.c.halt = false; self.c.pc = self.c.pc.wrapping_add(1) }
        let pc = self.c.pc;
        let t = self.k.add_irq(pc);
        let (v, ws) = self.e.irq_data(pc, t);
        if let Some(n) = ws { self.k.add_wait_states(pc, n) }
        match self.c.im {
            0 => self.exec(v),
            1 => self.exec(0xFF),
            _ => {
                let ir = self.ir();
                self.nm(ir, 1);
                self.push(pc);
                self.c.pc = w(self.c.i, v);
                self.exec(0xC3)
            }
        }
    }
    pub fn nmi(&mut self) -> bool {
        if self.c.pfx != 0 || self.c.ei { return false }
        self.c.iff1 = false;
        self.inc_r();
        let pc = if self.c.halt { self.c.halt = false; self.c.pc.wrapping_add(1) } else { self.c.pc };
        self.k.add_m1(pc);
        let ir = self.ir();
        self.nm(ir, 1);
        self.push(pc);
        self.c.q = false;
        self.c.pc = 0x66;
        true
    }
    /// Limited run = stepping until the limit has passed or a break occurs.
    pub fn run_limit(&mut self, limit: Ts) -> Out {
        while !self.k.is_past_limit(limit) {
            let o = self.step();
            if o != Out::Ok { return o }
        }
        Out::Ok
    }

    pub fn exec(&mut self, op: u8) -> Out {
        self.c.ei = false;
        self.c.halt = false;
        let lastq = self.c.q;
        self.c.q = false;
        let mut p = self.c.pfx;
        self.c.pfx = 0;
        if op == 0xDD || op == 0xFD {
            self.c.pfx = if op == 0xDD { 1 } else { 2 };
            return Out::Ok;
        }
        if p != 0 && (op == 0xED || !uses_hl(op)) { p = 0 }
        self.dbg = Dbg { calls: self.dbg.calls + 1, code: [0; 4], len: 0, end: 0, pfx: p };
        if p != 0 { self.note(if p == 1 { 0xDD } else { 0xFD }) }
        self.note(op);
        let o = self.main(op, p, lastq);
        o
    }
    fn done(&mut self) { self.dbg.end = self.c.pc }

    fn main(&mut self, op: u8, p: u8, lastq: bool) -> Out {
        let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
        let (pp, q) = (y >> 1, y & 1);
        self.dbg.end = self.c.pc;
        match (x, z) {
            (0, 0) => match y {
                0 => {}
                1 => { let c = &mut *self.c; std::mem::swap(&mut c.af, &mut c.af_) }
                2 => {
                    let ir = self.ir();
                    self.nm(ir, 1);
                    let b = hi(self.c.bc).wrapping_sub(1);
                    self.c.bc = w(b, lo(self.c.bc));
                    self.jr(b != 0);
                }
                3 => self.jr(true),
                _ => { let t = cond(y - 4, self.f()); self.jr(t) }
            },
            (0, 1) => if q == 0 {
                let v = self.imm16(); self.done();
                self.set_rp(pp, p, v)
            } else {
                let ir = self.ir();
                self.nm(ir, 7);
                let h = self.xx(p);
                self.c.wz = h.wrapping_add(1);
                let (r, f) = add16(h, self.rp(pp, p), self.f());
                self.set_xx(p, r);
                self.set_f(f);
            },
            (0, 2) => match (pp, q) {
                (0, 0) | (1, 0) => {
                    let ad = if pp == 0 { self.c.bc } else { self.c.de };
                    let a = self.a();
                    self.c.wz = self.mix(a, lo(ad));
                    self.wr(ad, a);
                }
                (0, 1) | (1, 1) => {
                    let ad = if pp == 0 { self.c.bc } else { self.c.de };
                    self.c.wz = ad.wrapping_add(1);
                    let v = self.rd(ad);
                    self.set_a(v);
                }
                (2, 0) => { let nn = self.imm16(); self.done(); let v = self.xx(p); self.st16(nn, v) }
                (2, 1) => { let nn = self.imm16(); self.done(); let v = self.ld16(nn); self.set_xx(p, v) }
                (3, 0) => {
                    let nn = self.imm16(); self.done();
                    let a = self.a();
                    self.c.wz = self.mix(a, lo(nn));
                    self.wr(nn, a);
                }
                _ => {
                    let nn = self.imm16(); self.done();
                    self.c.wz = nn.wrapping_add(1);
                    let v = self.rd(nn);
                    self.set_a(v);
                }
            },
            (0, 3) => {
                let ir = self.ir();
                self.nm(ir, 2);
                let v = self.rp(pp, p);
                self.set_rp(pp, p, if q == 0 { v.wrapping_add(1) } else { v.wrapping_sub(1) });
            }
            (0, 4) | (0, 5) => {
                let fun = if z == 4 { inc8 } else { dec8 };
                if y == 6 {
                    let ad = self.maddr(p); self.done();
                    let v = self.rd(ad);
                    self.nm(ad, 1);
                    let (r, f) = fun(v, self.f());
                    self.wr(ad, r);
                    self.set_f(f);
                } else {
                    let (r, f) = fun(self.reg(y, p), self.f());
                    self.set_reg(y, p, r);
                    self.set_f(f);
                }
            }
            (0, 6) => {
                if y == 6 {
                    if p == 0 {
                        let n = self.imm8(0); self.done();
                        let hl = self.c.hl;
                        self.wr(hl, n);
                    } else {
                        let d = self.imm8(0);
                        let ad = self.xx(p).wrapping_add(d as i8 as u16);
                        let n = self.imm8(2); self.done();
                        self.c.wz = ad;
                        self.wr(ad, n);
                    }
                } else {
                    let n = self.imm8(0); self.done();
                    self.set_reg(y, p, n);
                }
            }
            (0, _) => {
                let (a, f) = (self.a(), self.f());
                match y {
                    0..=3 => { let (r, nf) = rota(y, a, f); self.set_a(r); self.set_f(nf) }
                    4 => { let (r, nf) = daa(a, f); self.set_a(r); self.set_f(nf) }
                    5 => { let r = !a; self.set_a(r); self.set_f(f & (SF | ZF | PF | CF) | HF | NF | r & (YF | XF)) }
                    _ => {
                        let src = match self.fl { Fl::Cmos => a, _ => if lastq { a } else { a | f } };
                        let base = f & (SF | ZF | PF) | src & (YF | XF);
                        let nf = if y == 6 { base | CF } else { base | if f & CF != 0 { HF } else { CF } };
                        self.set_f(nf);
                    }
                }
            }
            (1, _) => {
                if op == 0x76 {
                    self.c.pc = self.c.pc.wrapping_sub(1);
                    self.c.halt = true;
                    return Out::Halt;
                }
                if z == 6 {
                    let ad = self.maddr(p); self.done();
                    let v = self.rd(ad);
                    self.set_reg(y, 0, v);
                } else if y == 6 {
                    let ad = self.maddr(p); self.done();
                    let v = self.reg(z, 0);
                    self.wr(ad, v);
                } else {
                    let v = self.reg(z, p);
                    self.set_reg(y, p, v);
                }
            }
            (2, _) => {
                let v = if z == 6 { let ad = self.maddr(p); self.done(); self.rd(ad) } else { self.reg(z, p) };
                self.do_alu(y, v);
            }
            (3, 0) => {
                let ir = self.ir();
                self.nm(ir, 1);
                if cond(y, self.f()) { let t = self.pop(); self.jump(t) }
            }
            (3, 1) => if q == 0 {
                let v = self.pop();
                if pp == 3 { self.c.af = v } else { self.set_rp(pp, p, v) }
            } else {
                match pp {
                    0 => { let t = self.pop(); self.jump(t) }
                    1 => {
                        let c = &mut *self.c;
                        std::mem::swap(&mut c.bc, &mut c.bc_);
                        std::mem::swap(&mut c.de, &mut c.de_);
                        std::mem::swap(&mut c.hl, &mut c.hl_);
                    }
                    2 => self.c.pc = self.xx(p),
                    _ => { let ir = self.ir(); self.nm(ir, 2); self.c.sp = self.xx(p) }
                }
            },
            (3, 2) => {
                let nn = self.imm16(); self.done();
                self.c.wz = nn;
                if cond(y, self.f()) { self.c.pc = nn }
            }
            (3, 3) => match y {
                0 => { let nn = self.imm16(); self.done(); self.jump(nn) }
                1 => return if p == 0 { self.cb(); Out::Ok } else { self.xcb(p); Out::Ok },
                2 => {
                    let n = self.imm8(0); self.done();
                    let a = self.a();
                    self.c.wz = self.mix(a, n);
                    return self.io_out(w(a, n), a);
                }
                3 => {
                    let n = self.imm8(0); self.done();
                    let port = w(self.a(), n);
                    self.c.wz = port.wrapping_add(1);
                    let v = self.io_in(port);
                    self.set_a(v);
                }
                4 => {
                    let sp = self.c.sp;
                    let v = self.rd16(sp);
                    let s1 = sp.wrapping_add(1);
                    self.nm(s1, 1);
                    let h = self.xx(p);
                    self.wr(s1, hi(h));
                    self.wr(sp, lo(h));
                    self.nm(sp, 2);
                    self.c.wz = v;
                    self.set_xx(p, v);
                }
                5 => { let c = &mut *self.c; std::mem::swap(&mut c.de, &mut c.hl) }
                6 => { self.c.iff1 = false; self.c.iff2 = false }
                _ => { self.c.iff1 = true; self.c.iff2 = true; self.c.ei = true }
            },
            (3, 4) => { let t = cond(y, self.f()); self.call(t) }
            (3, 5) => if q == 0 {
                let ir = self.ir();
                self.nm(ir, 1);
                let v = if pp == 3 { self.c.af } else { self.rp(pp, p) };
                self.push(v);
            } else {
                match pp { 0 => self.call(true), 2 => return self.ed(), _ => unreachable!() }
            },
            (3, 6) => { let v = self.imm8(0); self.done(); self.do_alu(y, v) }
            _ => {
                let ir = self.ir();
                self.nm(ir, 1);
                let pc = self.c.pc;
                self.push(pc);
                self.jump(y as u16 * 8);
            }
        }
        Out::Ok
    }
    fn do_alu(&mut self, y: u8, v: u8) {
        let (r, f) = alu(y, self.a(), v, self.f());
        self.set_a(r);
        self.set_f(f);
    }
    fn jump(&mut self, t: u16) { self.c.wz = t; self.c.pc = t }
    fn jr(&mut self, taken: bool) {
        let at = self.c.pc;
        if !taken && !self.read_untaken {
            self.k.add_mreq(at);
            let b = self.e.read_debug(at);
            self.c.pc = at.wrapping_add(1);
            self.note(b);
            self.done();
            return;
        }
        let d = self.imm8(0);
        self.done();
        if taken {
            self.nm(at, 5);
            let t = self.c.pc.wrapping_add(d as i8 as u16);
            self.jump(t);
        }
    }
    fn call(&mut self, taken: bool) {
        let at = self.c.pc.wrapping_add(1);
        let nn = self.imm16();
        self.done();
        self.c.wz = nn;
        if taken {
            self.nm(at, 1);
            let pc = self.c.pc;
            self.push(pc);
            self.c.pc = nn;
        }
    }
    fn st16(&mut self, nn: u16, v: u16) {
        self.wr(nn, lo(v));
        let n1 = nn.wrapping_add(1);
        self.c.wz = n1;
        self.wr(n1, hi(v));
    }
    fn ld16(&mut self, nn: u16) -> u16 {
        self.c.wz = nn.wrapping_add(1);
        self.rd16(nn)
    }
    fn cb(&mut self) {
        let op = self.fetch_noted();
        self.done();
        let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
        let f = self.f();
        if z == 6 {
            let hl = self.c.hl;
            let v = self.rd(hl);
            self.nm(hl, 1);
            match x {
                0 => { let (r, nf) = rot(y, v, f); self.wr(hl, r); self.set_f(nf) }
                1 => { let nf = bit(y, v, hi(self.c.wz), f); self.set_f(nf) }
                2 => self.wr(hl, v & !(1 << y)),
                _ => self.wr(hl, v | 1 << y),
            }
        } else {
            let v = self.reg(z, 0);
            match x {
                0 => { let (r, nf) = rot(y, v, f); self.set_reg(z, 0, r); self.set_f(nf) }
                1 => { let nf = bit(y, v, v, f); self.set_f(nf) }
                2 => self.set_reg(z, 0, v & !(1 << y)),
                _ => self.set_reg(z, 0, v | 1 << y),
            }
        }
    }
    fn xcb(&mut self, p: u8) {
        let d = self.imm8(0);
        let ad = self.xx(p).wrapping_add(d as i8 as u16);
        let op = self.imm8(2);
        self.done();
        self.c.wz = ad;
        let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
        let v = self.rd(ad);
        self.nm(ad, 1);
        let f = self.f();
        let r = match x {
            0 => { let (r, nf) = rot(y, v, f); self.set_f(nf); r }
            1 => { let nf = bit(y, v, hi(ad), f); self.set_f(nf); return }
            2 => v & !(1 << y),
            _ => v | 1 << y,
        };
        self.wr(ad, r);
        if z != 6 { self.set_reg(z, 0, r) }
    }
    fn ed(&mut self) -> Out {
        let op = self.fetch_noted();
        self.done();
        let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
        let (pp, q) = (y >> 1, y & 1);
        match (x, z) {
            (1, 0) => {
                let bc = self.c.bc;
                let v = self.io_in(bc);
                self.c.wz = bc.wrapping_add(1);
                let f = self.f() & CF | szyx(v) | par(v);
                if y != 6 { self.set_reg(y, 0, v) }
                self.set_f(f);
            }
            (1, 1) => {
                let bc = self.c.bc;
                self.c.wz = bc.wrapping_add(1);
                let v = if y == 6 { if self.fl == Fl::Cmos { 0xFF } else { 0 } } else { self.reg(y, 0) };
                return self.io_out(bc, v);
            }
            (1, 2) => {
                let ir = self.ir();
                self.nm(ir, 7);
                let h = self.c.hl;
                self.c.wz = h.wrapping_add(1);
                let fun = if q == 0 { sbc16 } else { adc16 };
                let (r, f) = fun(h, self.rp(pp, 0), self.f());
                self.c.hl = r;
                self.set_f(f);
            }
            (1, 3) => {
                let nn = self.imm16();
                self.done();
                if q == 0 { let v = self.rp(pp, 0); self.st16(nn, v) }
                else { let v = self.ld16(nn); self.set_rp(pp, 0, v) }
            }
            (1, 4) => {
                let a = self.a();
                let (r, f) = alu(2, 0, a, self.f());
                self.set_a(r);
                self.set_f(f);
            }
            (1, 5) => {
                self.c.iff1 = self.c.iff2;
                let mut o = Out::Ok;
                if y == 1 {
                    let pc = self.c.pc;
                    if let Some(b) = self.e.reti(pc, self.k.as_timestamp()) { o = Out::Reti(b) }
                }
                let t = self.pop();
                self.jump(t);
                return o;
            }
            (1, 6) => self.c.im = [0, 0, 1, 2][(y & 3) as usize],
            (1, 7) => match y {
                0 | 1 => {
                    let ir = self.ir();
                    self.nm(ir, 1);
                    let a = self.a();
                    if y == 0 { self.c.i = a } else { self.c.r = a }
                }
                2 | 3 => {
                    let ir = self.ir();
                    self.nm(ir, 1);
                    let v = if y == 2 { self.c.i } else { self.c.r };
                    let accepting = self.fl == Fl::Nmos && self.c.iff1 && self.e.is_irq(self.k.as_timestamp());
                    let pv = if self.c.iff2 && !accepting { PF } else { 0 };
                    let f = self.f() & CF | szyx(v) | pv;
                    self.set_a(v);
                    self.set_f(f);
                }
                4 | 5 => {
                    let hl = self.c.hl;
                    self.c.wz = hl.wrapping_add(1);
                    let v = self.rd(hl);
                    self.nm(hl, 4);
                    let a = self.a();
                    let (na, nv) = if y == 4 { (a & 0xF0 | v & 15, v >> 4 | a << 4) }
                        else { (a & 0xF0 | v >> 4, v << 4 | a & 15) };
                    self.wr(hl, nv);
                    let f = self.f() & CF | szyx(na) | par(na);
                    self.set_a(na);
                    self.set_f(f);
                }
                _ => {}
            },
            (2, 0..=3) if y >= 4 => return self.block(y, z),
            _ => {}
        }
        Out::Ok
    }
    fn block(&mut self, y: u8, z: u8) -> Out {
        let dec = y & 1 == 1;
        let rep = y >= 6;
        let step = if dec { 0xFFFFu16 } else { 1 };
        let (hl, de, bc) = (self.c.hl, self.c.de, self.c.bc);
        let start = self.c.pc.wrapping_sub(2);
        match z {
            0 => {
                let v = self.rd(hl);
                self.wr(de, v);
                self.nm(de, 2);
                self.c.hl = hl.wrapping_add(step);
                self.c.de = de.wrapping_add(step);
                self.c.bc = bc.wrapping_sub(1);
                let n = v.wrapping_add(self.a());
                let f = self.f() & (SF | ZF | CF) | if n & 2 != 0 { YF } else { 0 } | n & XF
                    | if self.c.bc != 0 { PF } else { 0 };
                self.set_f(f);
                if rep && self.c.bc != 0 {
                    self.nm(de, 5);
                    self.c.pc = start;
                    self.c.wz = start.wrapping_add(1);
                }
                Out::Ok
            }
            1 => {
                let v = self.rd(hl);
                self.nm(hl, 5);
                self.c.hl = hl.wrapping_add(step);
                self.c.bc = bc.wrapping_sub(1);
                let a = self.a();
                let r = a.wrapping_sub(v);
                let h = a & 15 < v & 15;
                let n = r.wrapping_sub(h as u8);
                let f = self.f() & CF | NF | r & SF | if r == 0 { ZF } else { 0 } | if h { HF } else { 0 }
                    | if n & 2 != 0 { YF } else { 0 } | n & XF | if self.c.bc != 0 { PF } else { 0 };
                self.set_f(f);
                if rep && self.c.bc != 0 && r != 0 {
                    self.nm(hl, 5);
                    self.c.pc = start;
                    self.c.wz = start.wrapping_add(1);
                } else {
                    self.c.wz = self.c.wz.wrapping_add(step);
                }
                Out::Ok
            }
            2 => {
                let ir = self.ir();
                self.nm(ir, 1);
                let v = self.io_in(bc);
                self.wr(hl, v);
                self.c.wz = bc.wrapping_add(step);
                let b = hi(bc).wrapping_sub(1);
                self.c.bc = w(b, lo(bc));
                self.c.hl = hl.wrapping_add(step);
                self.io_flags(v, b, lo(bc).wrapping_add(lo(step)));
                if rep && b != 0 {
                    self.nm(hl, 5);
                    self.c.pc = start;
                }
                Out::Ok
            }
            _ => {
                let ir = self.ir();
                self.nm(ir, 1);
                let v = self.rd(hl);
                let b = hi(bc).wrapping_sub(1);
                self.c.bc = w(b, lo(bc));
                self.c.hl = hl.wrapping_add(step);
                self.c.wz = self.c.bc.wrapping_add(step);
                let l = lo(self.c.hl);
                self.io_flags(v, b, l);
                let o = self.io_out(self.c.bc, v);
                if rep && b != 0 {
                    let nbc = self.c.bc;
                    self.nm(nbc, 5);
                    self.c.pc = start;
                }
                o
            }
        }
    }
    fn io_flags(&mut self, v: u8, b: u8, k: u8) {
        let t = v as u16 + k as u16;
        let f = szyx(b) | if v & 0x80 != 0 { NF } else { 0 } | if t > 255 { HF | CF } else { 0 }
            | par((t as u8 & 7) ^ b);
        self.set_f(f);
    }
}

/// Does an unprefixed opcode use HL, H, L or (HL), so that a DD/FD prefix has effect on it?
pub fn uses_hl(op: u8) -> bool {
    let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
    match x {
        0 => match z {
            1 => y & 1 == 1 || y == 4,
            2 | 3 => y == 4 || y == 5,
            4 | 5 | 6 => (4..=6).contains(&y),
            _ => false,
        },
        1 => op != 0x76 && ((4..=6).contains(&y) || (4..=6).contains(&z)),
        2 => (4..=6).contains(&z),
        _ => matches!(op, 0xCB | 0xE1 | 0xE3 | 0xE5 | 0xE9 | 0xF9),
    }
}
