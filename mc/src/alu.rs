//! C02: complete operand products for arithmetic, logic, shifts, BIT, DAA and 16-bit arithmetic.
use crate::host::*;
use crate::onestep::*;
use crate::refm::*;
use crate::rep::*;
use crate::sut::*;
use z80emu::{Cpu, CpuFlags, StkReg16, Z80};
use z80emu::z80::*;

const MASK: u32 = C_REGS | C_FLAGS | C_YX | C_BUS;

/// Where an operand byte lives.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Src { R(u8), Mem, Imm, Idx(u8, u8), IdxMem(u8) }

fn base() -> RCpu {
    RCpu { af: 0, bc: 0x1234, de: 0x5678, hl: 0x4A5B, ix: 0x6C7D, iy: 0x7E8F, sp: 0xB000, pc: 0x8000, wz: 0x2211,
        af_: 0x1122, bc_: 0x3344, de_: 0x5566, hl_: 0x7788, i: 0x3F, r: 0x21, ..Default::default() }
}
/// sets the operand; returns false if the operand is the accumulator
fn set_src(cs: &mut Case, s: Src, v: u8) {
    let c = &mut cs.cpu;
    let hi = |w: &mut u16| *w = *w & 0xFF | (v as u16) << 8;
    let lo = |w: &mut u16| *w = *w & 0xFF00 | v as u16;
    match s {
        Src::R(0) => hi(&mut c.bc), Src::R(1) => lo(&mut c.bc), Src::R(2) => hi(&mut c.de), Src::R(3) => lo(&mut c.de),
        Src::R(4) => hi(&mut c.hl), Src::R(5) => lo(&mut c.hl), Src::R(_) => hi(&mut c.af),
        Src::Mem | Src::IdxMem(_) => cs.data = (v, !v),
        Src::Imm => cs.code[1] = v,
        Src::Idx(1, 4) => hi(&mut c.ix), Src::Idx(1, _) => lo(&mut c.ix),
        Src::Idx(_, 4) => hi(&mut c.iy), Src::Idx(_, _) => lo(&mut c.iy),
    }
}
fn srcs(imm: bool) -> Vec<Src> {
    let mut v: Vec<Src> = [0, 1, 2, 3, 4, 5, 7].iter().map(|r| Src::R(*r)).collect();
    v.push(Src::Mem);
    if imm { v.push(Src::Imm) }
    for p in 1..3 { v.push(Src::Idx(p, 4)); v.push(Src::Idx(p, 5)); v.push(Src::IdxMem(p)) }
    v
}
fn zcode(s: Src) -> (u8, u8) { // (prefix, reg code)
    match s { Src::R(r) => (0, r), Src::Mem => (0, 6), Src::Imm => (0, 6), Src::Idx(p, r) => (p, r), Src::IdxMem(p) => (p, 6) }
}

struct Job { name: String, pfx: u8, code: [u8; 6], vary: Vary }
#[derive(Clone, Copy)]
enum Vary {
    /// A x operand x flags subset
    AxVxF(Src, bool),
    /// operand x all flags (A fixed)
    VxF(Src),
    /// operand x few flags
    VxFew(Src),
    /// BIT n,(HL): operand x WZ high x few flags
    VxWz(Src),
    /// A x all flags x q
    AxF,
    /// A x data x few flags
    AxDxF,
    /// 16-bit: x = HL/IX/IY, y = rp
    W16(u8),
    /// LDI/CPI..: A x data x BC set
    Blk,
    /// INI/OUTI: data x (C or L) x B
    BlkIo,
    /// IN r,(C)
    In,
    /// LD A,I / LD A,R
    LdAir,
    /// INC/DEC rp
    Inc16(u8),
}

fn jobs() -> Vec<Job> {
    let mut v = Vec::new();
    let code1 = |op: u8, b: u8| [op, b, 0x44, 0x55, 0x66, 0x77];
    for op in 0..8u8 {
        for s in srcs(true) {
            let (p, z) = zcode(s);
            let code = if s == Src::Imm { code1(0xC6 | op << 3, 0) } else { code1(0x80 | op << 3 | z, 0x7F) };
            v.push(Job { name: format!("alu{op} {s:?}"), pfx: p, code, vary: Vary::AxVxF(s, true) });
        }
    }
    for s in srcs(false) {
        let (p, z) = zcode(s);
        for o in 4..6u8 {
            v.push(Job { name: format!("incdec{o} {s:?}"), pfx: p, code: code1(o | z << 3, 0x81), vary: Vary::VxF(s) });
        }
    }
    for x in 0..4u8 { for y in 0..8u8 { for z in 0..8u8 {
        let op = x << 6 | y << 3 | z;
        let s = if z == 6 { Src::Mem } else { Src::R(z) };
        let vary = match (x, z) { (0, _) => Vary::VxF(s), (1, 6) => Vary::VxWz(s), (1, _) => Vary::VxF(s), _ => Vary::VxFew(s) };
        v.push(Job { name: format!("CB {op:02x}"), pfx: 0, code: [0xCB, op, 1, 2, 3, 4], vary });
        for p in 1..3 {
            let vary = if x < 2 { Vary::VxF(Src::IdxMem(p)) } else { Vary::VxFew(Src::IdxMem(p)) };
            v.push(Job { name: format!("XYCB {p} {op:02x}"), pfx: p, code: [0xCB, 0x85, op, 2, 3, 4], vary });
        }
    } } }
    for op in [0x07, 0x0F, 0x17, 0x1F, 0x27, 0x2F, 0x37, 0x3F] {
        v.push(Job { name: format!("{op:02x}"), pfx: 0, code: code1(op, 0), vary: Vary::AxF });
    }
    for y in 0..8 { v.push(Job { name: "NEG".into(), pfx: 0, code: [0xED, 0x44 | y << 3, 0, 0, 0, 0], vary: Vary::AxF }) }
    for op in [0x67, 0x6F] { v.push(Job { name: format!("ED {op:02x}"), pfx: 0, code: [0xED, op, 0, 0, 0, 0], vary: Vary::AxDxF }) }
    for rp in 0..4u8 {
        for p in 0..3 { v.push(Job { name: format!("ADD16 {p} {rp}"), pfx: p, code: code1(9 | rp << 4, 0), vary: Vary::W16(rp) }) }
        for o in [0x42, 0x4A] { v.push(Job { name: format!("ED16 {o:02x} {rp}"), pfx: 0, code: [0xED, o | rp << 4, 0, 0, 0, 0], vary: Vary::W16(rp) }) }
        for o in [3u8, 0x0B] { for p in 0..3 {
            if p == 0 || rp == 2 { v.push(Job { name: format!("INC16 {o:02x} {p} {rp}"), pfx: p, code: code1(o | rp << 4, 0), vary: Vary::Inc16(rp) }) }
        } }
    }
    for op in [0xA0, 0xA8, 0xB0, 0xB8, 0xA1, 0xA9, 0xB1, 0xB9] {
        v.push(Job { name: format!("ED {op:02x}"), pfx: 0, code: [0xED, op, 0, 0, 0, 0], vary: Vary::Blk });
    }
    for op in [0xA2, 0xAA, 0xB2, 0xBA, 0xA3, 0xAB, 0xB3, 0xBB] {
        v.push(Job { name: format!("ED {op:02x}"), pfx: 0, code: [0xED, op, 0, 0, 0, 0], vary: Vary::BlkIo });
    }
    for y in 0..8 { v.push(Job { name: "IN r,(C)".into(), pfx: 0, code: [0xED, 0x40 | y << 3, 0, 0, 0, 0], vary: Vary::In }) }
    for op in [0x57, 0x5F] { v.push(Job { name: format!("ED {op:02x}"), pfx: 0, code: [0xED, op, 0, 0, 0, 0], vary: Vary::LdAir }) }
    v
}

pub fn c02(rep: &Rep) {
    let js = jobs();
    rep.bound(format!("{} instruction forms x 3 flavours: 8-bit ALU: all A x operand x {} flag bytes; INC/DEC, rotates, BIT, accumulator ops, NEG, DAA: all operand x all F; RLD/RRD all A x (HL); 16-bit: all high-byte products and all low-byte products x boundary other halves x carry",
        js.len(), if rep.thorough() { 256 } else { 4 }));
    run_f::<NMOS>(rep, &js);
    run_f::<CMOS>(rep, &js);
    run_f::<BM1>(rep, &js);
    if rep.thorough() {
        rep.bound("thorough: ADD/ADC/SBC HL,BC over the complete 2^32 operand space, both carries (ADC/SBC)");
        full16(rep);
    }
}

fn run_f<F: Fla>(rep: &Rep, js: &[Job]) {
    let few: &[u8] = &[0x00, 0x01, 0xFE, 0xFF];
    let th = rep.thorough();
    let allf: Vec<u8> = (0..=255).collect();
    par(rep, js.len(), Ctx::<F>::new, |ctx, i| {
        let j = &js[i];
        let (n0, e0) = (ctx.n, ctx.nev);
        let mut cs = Case { entry: Entry::Next, cpu: base(), code: j.code, data: (0x5A, 0xA5), cfg: EnvCfg::default(), mode: 0 };
        cs.cpu.pfx = j.pfx;
        let b = cs;
        macro_rules! go { ($c:expr) => { { let c = fixq::<F>($c); judge(rep, ctx, &c, MASK) } } }
        match j.vary {
            Vary::AxVxF(s, _) => {
                let fs: &[u8] = if th { &allf } else { few };
                for a in 0..=255u8 {
                    if rep.stopped() { return }
                    for v in 0..=255u8 {
                        if s == Src::R(7) && v != a { continue }
                        for &f in fs {
                            let mut c = b;
                            c.cpu.af = (a as u16) << 8 | f as u16;
                            set_src(&mut c, s, v);
                            go!(c)
                        }
                    }
                }
            }
            Vary::VxF(s) => for v in 0..=255u8 { for f in 0..=255u8 {
                let mut c = b;
                c.cpu.af = 0x9600 | f as u16;
                set_src(&mut c, s, v);
                go!(c)
            } },
            Vary::VxFew(s) => for v in 0..=255u8 { for &f in few {
                let mut c = b;
                c.cpu.af = 0x9600 | f as u16;
                set_src(&mut c, s, v);
                go!(c)
            } },
            Vary::VxWz(s) => for v in 0..=255u8 { for wz in 0..=255u8 { for &f in few {
                let mut c = b;
                c.cpu.af = 0x9600 | f as u16;
                c.cpu.wz = (wz as u16) << 8 | 0x5A;
                set_src(&mut c, s, v);
                go!(c)
            } } },
            Vary::AxF => for a in 0..=255u8 { for f in 0..=255u8 { for q in [false, true] {
                let mut c = b;
                c.cpu.af = (a as u16) << 8 | f as u16;
                c.cpu.q = q;
                go!(c)
            } } },
            Vary::AxDxF => for a in 0..=255u8 { for v in 0..=255u8 { for &f in few {
                let mut c = b;
                c.cpu.af = (a as u16) << 8 | f as u16;
                c.data = (v, v);
                go!(c)
            } } },
            Vary::W16(rp) => {
                let bl: &[(u8, u8)] = &[(0, 0), (0xFF, 0), (0xFF, 1), (0xFF, 0xFF), (0x80, 0x7F), (0x01, 0xFF), (0, 1), (0x80, 0x80)];
                for h in 0..=255u8 {
                    if rep.stopped() { return }
                    for v in 0..=255u8 { for &(l1, l2) in bl { for &f in if j.code[0] == 0xED { &few[..] } else { &few[2..] } { for sw in [false, true] {
                        let (x, y) = if sw { ((l1 as u16) << 8 | h as u16, (l2 as u16) << 8 | v as u16) }
                            else { ((h as u16) << 8 | l1 as u16, (v as u16) << 8 | l2 as u16) };
                        if rp == 2 && y != x { continue }
                        let mut c = b;
                        c.cpu.af = 0x9600 | f as u16;
                        match j.pfx { 0 => c.cpu.hl = x, 1 => c.cpu.ix = x, _ => c.cpu.iy = x }
                        match rp { 0 => c.cpu.bc = y, 1 => c.cpu.de = y, 3 => c.cpu.sp = y, _ => {} }
                        go!(c)
                    } } } }
                }
            }
            Vary::Inc16(rp) => for x in 0..=0xFFFFu16 {
                let mut c = b;
                c.cpu.af = 0x9600 | (x & 0xFF) ^ 0xD7;
                match (rp, j.pfx) { (0, _) => c.cpu.bc = x, (1, _) => c.cpu.de = x, (3, _) => c.cpu.sp = x,
                    (_, 0) => c.cpu.hl = x, (_, 1) => c.cpu.ix = x, _ => c.cpu.iy = x }
                go!(c)
            },
            Vary::Blk => for a in 0..=255u8 {
                if rep.stopped() { return }
                for v in 0..=255u8 { for bc in [0u16, 1, 2, 0x100, 0x101] { for &f in &few[..2] {
                    let mut c = b;
                    c.cpu.af = (a as u16) << 8 | f as u16;
                    c.cpu.bc = bc;
                    c.data = (v, v);
                    go!(c)
                } } }
            },
            Vary::BlkIo => for x in 0..=255u8 {
                if rep.stopped() { return }
                for y in 0..=255u8 { for (mode, zs) in [(0, &[0u8, 1, 2, 0x10, 0x80, 0x81, 0xFF][..]), (1, &[0u8, 0x7F, 0x80, 0xFF])] { for &z in zs {
                    // mode 0: data x C/L, few B; mode 1: data x B, few C/L
                    let (v, k, bb) = if mode == 0 { (x, y, z) } else { (x, z, y) };
                    let mut c = b;
                    c.cpu.af = 0x96FF;
                    c.cpu.bc = (bb as u16) << 8 | k as u16;
                    c.cpu.hl = 0x4A00 | k as u16;
                    c.data = (v, v);
                    c.cfg.io_in = v;
                    go!(c)
                } } }
            },
            Vary::In => for v in 0..=255u8 { for f in 0..=255u8 {
                let mut c = b;
                c.cpu.af = 0x9600 | f as u16;
                c.cfg.io_in = v;
                go!(c)
            } },
            Vary::LdAir => for v in 0..=255u8 { for f in 0..=255u8 { for m in 0..16u8 {
                let mut c = b;
                c.cpu.af = 0x9600 | f as u16;
                c.cpu.i = v; c.cpu.r = v;
                c.cpu.iff1 = m & 1 != 0; c.cpu.iff2 = m & 2 != 0;
                c.cpu.ei = m & 4 != 0;
                if m & 8 != 0 { c.cfg.ints[0] = (T0 + 5, Ts::MAX) }
                go!(c)
            } } },
        }
        if i % 97 == 3 { rep.sample(|| format!("{} {} start {}", F::NAME, j.name, show_cpu(&b.cpu))) }
        rep.add(ctx.n - n0 + ctx.nev - e0, ctx.nev - e0, ctx.n - n0);
    });
}

struct Flat;
impl z80emu::Io for Flat { type Timestamp = u32; type WrIoBreak = u32; type RetiBreak = u32; }
impl z80emu::Memory for Flat {
    type Timestamp = u32;
    fn read_debug(&self, a: u16) -> u8 { if a & 1 == 0 { 0xED } else { 0x4A } }
}
struct Flat2;
impl z80emu::Io for Flat2 { type Timestamp = u32; type WrIoBreak = u32; type RetiBreak = u32; }
impl z80emu::Memory for Flat2 {
    type Timestamp = u32;
    fn read_debug(&self, a: u16) -> u8 { if a & 1 == 0 { 0xED } else { 0x42 } }
}

/// Complete 2^32 operand space of the 16-bit additions.
fn full16(rep: &Rep) {
    par(rep, 65536, || Z80::<NMOS>::default(), |c, x| {
        let x = x as u16;
        let mut k = z80emu::host::TsCounter::<u32>::default();
        let (mut fa, mut fb) = (Flat, Flat2);
        for y in 0..=0xFFFFu16 { for op in 0..5u8 {
            let f = match op { 0 => 0xD6u8, 1 | 3 => 0xD6, _ => 0x29 };
            c.set_reg16(StkReg16::HL, x);
            c.set_reg16(StkReg16::BC, y);
            c.set_flags(CpuFlags::from_bits_retain(f));
            c.set_pc(0);
            let (r, nf) = match op {
                0 => { let _ = c.execute_instruction::<_, _, z80emu::CpuDebugFn>(&mut fa, &mut k, NODBG, 9); add16(x, y, f) }
                1 | 2 => { let _ = c.execute_next::<_, _, z80emu::CpuDebugFn>(&mut fa, &mut k, NODBG); adc16(x, y, f) }
                _ => { let _ = c.execute_next::<_, _, z80emu::CpuDebugFn>(&mut fb, &mut k, NODBG); sbc16(x, y, f) }
            };
            k.0.0 = 0;
            if c.get_reg16(StkReg16::HL) != r || c.get_flags().bits() != nf {
                rep.violation(format!("16-bit op {op} (0 ADD,1/2 ADC,3/4 SBC) HL={x:04x} BC={y:04x} F={f:02x}: want {r:04x} {nf:02x} got {:04x} {:02x}",
                    c.get_reg16(StkReg16::HL), c.get_flags().bits()));
                return;
            }
        } }
        rep.add(65536 * 5, 65536 * 5 * 2, 65536 * 5);
    });
}
