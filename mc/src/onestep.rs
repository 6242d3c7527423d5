//! One-step product of the reference model and the implementation over enumerated states.
use crate::host::*;
use crate::refm::*;
use crate::rep::*;
use crate::sut::*;
use z80emu::{Cpu, Z80};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Entry { Next, Irq, Nmi, Exec, Run }

#[derive(Clone, Copy, Debug)]
pub struct Case {
    pub entry: Entry,
    pub cpu: RCpu,
    pub code: [u8; 6],
    pub data: (u8, u8),
    pub cfg: EnvCfg,
    pub mode: u8,
}
pub const T0: Ts = 1000;

// components
pub const C_REGS: u32 = 1;   // programmer visible registers (without R), flags, iffs, im, halt, ei, prefix, result
pub const C_BUS: u32 = 2;    // memory and io accesses: address, data, order
pub const C_CLK: u32 = 4;    // clock cycles: kind, address, T-states
pub const C_TS: u32 = 8;     // timestamps and wait states
pub const C_R: u32 = 16;     // R, refresh address
pub const C_WZ: u32 = 32;
pub const C_Q: u32 = 64;
pub const C_FLAGS: u32 = 128;
pub const C_INT: u32 = 256;  // interrupt related: iffs, im, halt, ei, result, pc, sp
pub const C_PANIC: u32 = 512;
pub const C_YX: u32 = 1024;  // flag bits 3 and 5 of BIT/SCF/CCF
pub const C_PFX: u32 = 2048;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obs { pub cpu: RCpu, pub out: Option<Out>, pub now: Ts }

pub struct Ctx<F: Fla> {
    pub ld: Loader<F>,
    pub env: Env,
    pub k: Clk,
    pub clog: Vec<u64>,
    pub blog: Vec<u64>,
    pub n: u64,
    pub nev: u64,
}

impl<F: Fla> Ctx<F> {
    pub fn new() -> Self {
        let mut env = Env::new(64);
        for a in 0..65536usize { env.mem[a] = bg(a as u16) }
        Ctx { ld: Loader::new(), env, k: Clk::new(T0, 64), clog: Vec::with_capacity(64), blog: Vec::with_capacity(64), n: 0, nev: 0 }
    }
    /// Runs both; returns None when they agree completely.
    #[inline]
    pub fn run(&mut self, cs: &Case) -> Option<Diff> {
        self.n += 1;
        let m0 = self.env.mark();
        place(&mut self.env, cs);
        let m1 = self.env.mark();
        self.env.cfg = cs.cfg;
        self.env.st = EnvSt::default();
        self.env.clear_log();
        self.k.log.clear();
        self.k.now = T0;
        self.k.mode = cs.mode;
        let mut c: Z80<F> = self.ld.load(&cs.cpu);
        let (env, k) = (&mut self.env, &mut self.k);
        let res = guard(|| match cs.entry {
            Entry::Next => Some(impl_step(&mut c, env, k)),
            Entry::Irq => impl_irq(&mut c, env, k),
            Entry::Nmi => if c.nmi(env, k) { Some(Out::Ok) } else { None },
            Entry::Run => Some(out_of(c.execute_with_limit(env, k, T0 + 1))),
            Entry::Exec => Some(out_of(c.execute_instruction::<_, _, z80emu::CpuDebugFn>(env, k, NODBG, cs.code[0]))),
        });
        let (out, panic) = match res { Ok(o) => (o, None), Err(m) => (None, Some(m)) };
        let got = Obs { cpu: snap(&c), out, now: self.k.now };
        std::mem::swap(&mut self.clog, &mut self.k.log);
        unsafe { std::mem::swap(&mut self.blog, &mut *self.env.log.get()) };
        self.env.rollback(m1);
        // model
        let mut r = None;
        for read_untaken in [false, true] {
            self.env.rollback(m1);
            self.env.st = EnvSt::default();
            self.env.clear_log();
            self.k.log.clear();
            self.k.now = T0;
            let mut rc = cs.cpu;
            let out = {
                let mut m = Model::new(&mut rc, &mut self.env, &mut self.k, F::F);
                m.read_untaken = read_untaken;
                match cs.entry {
                    Entry::Next => Some(m.step()),
                    Entry::Irq => m.irq(),
                    Entry::Nmi => if m.nmi() { Some(Out::Ok) } else { None },
                    Entry::Exec => Some(m.exec(cs.code[0])),
                    Entry::Run => Some(m.run_limit(T0 + 1)),
                }
            };
            let want = Obs { cpu: rc, out, now: self.k.now };
            self.nev += (self.k.log.len() + self.env.log().len()) as u64;
            if panic.is_none() && got == want && self.clog == self.k.log && self.blog == *self.env.log() {
                r = None;
                break;
            }
            if !read_untaken {
                let comps = classify(cs, &got, &want, &self.clog, &self.k.log, &self.blog, self.env.log(), panic.is_some());
                r = Some(Diff { comps, text: describe::<F>(cs, &got, &want, &self.clog, &self.k.log, &self.blog, self.env.log(), panic.clone(), comps) });
                if cs.code[0] & 0xC7 != 0 && cs.cfg.vector & 0xC7 != 0 { break }
            }
        }
        self.env.rollback(m0);
        r
    }
}

pub struct Diff { pub comps: u32, pub text: String }

/// background memory contents
#[inline]
pub fn bg(a: u16) -> u8 { ((a as u32).wrapping_mul(0x9E37_79B1) >> 19) as u8 }

pub fn place(env: &mut Env, cs: &Case) {
    let c = &cs.cpu;
    let (lo, hi) = cs.data;
    let d = cs.code[if c.pfx != 0 { 1 } else { 2 }] as i8 as u16;
    let nn = u16::from_le_bytes([cs.code[1], cs.code[2]]);
    let nn2 = u16::from_le_bytes([cs.code[2], cs.code[3]]);
    for a in [nn.wrapping_add(1), nn2.wrapping_add(1), c.sp.wrapping_add(1)] { env.poke(a, hi) }
    for a in [c.hl, c.bc, c.de, c.ix.wrapping_add(d), c.iy.wrapping_add(d), nn, nn2, c.sp] { env.poke(a, lo) }
    let skip = (cs.entry == Entry::Exec) as usize;
    for (i, b) in cs.code[skip..].iter().enumerate() { env.poke(c.pc.wrapping_add(i as u16), *b) }
}

fn classify(cs: &Case, g: &Obs, w: &Obs, gc: &[u64], wc: &[u64], gb: &[u64], wb: &[u64], panic: bool) -> u32 {
    let mut m = 0;
    if panic { return !0 }
    let (a, b) = (&g.cpu, &w.cpu);
    if a.wz != b.wz { m |= C_WZ }
    if a.q != b.q { m |= C_Q }
    if a.r != b.r { m |= C_R }
    if a.af as u8 != b.af as u8 { m |= C_FLAGS }
    if (a.af ^ b.af) & 0x28 != 0 { m |= C_YX }
    if a.pfx != b.pfx { m |= C_PFX }
    let strip = |x: &RCpu| { let mut y = *x; y.wz = 0; y.q = false; y.r = 0; y };
    if strip(a) != strip(b) || g.out != w.out { m |= C_REGS }
    if (a.iff1, a.iff2, a.im, a.halt, a.ei) != (b.iff1, b.iff2, b.im, b.halt, b.ei) || g.out != w.out
        || (a.pc != b.pc || a.sp != b.sp) { m |= C_INT }
    // clock: strip the ts
    let st = |l: &[u64]| l.iter().map(|e| e & !0xFF_FFFF).collect::<Vec<_>>();
    let (sgc, swc) = (st(gc), st(wc));
    let nows = |l: &[u64]| l.iter().filter(|e| ev_kind(**e) != WS).map(|e| e & !0xFF_FFFF).collect::<Vec<_>>();
    if nows(gc) != nows(wc) { m |= C_CLK }
    if sgc != swc { m |= if nows(gc) == nows(wc) { C_TS } else { 0 } }
    if gc != wc && sgc == swc { m |= C_TS }
    if g.now != w.now && sgc == swc { m |= C_TS }
    // bus
    let sb = |l: &[u64]| l.iter().map(|e| if ev_kind(*e) == B_OP { e & 0xFF_FFFF_0000_00_0000u64 | (e & 0xFF00_0000_0000_0000) } else { e & !0xFF_FFFF }).collect::<Vec<_>>();
    let strip_op = |l: &[u64]| sb(l).iter().map(|e| if ev_kind(*e) == B_OP { ev(B_OP, ev_addr(*e), 0, 0) } else { *e }).collect::<Vec<_>>();
    if strip_op(gb) != strip_op(wb) { m |= C_BUS }
    let tss = |l: &[u64]| l.iter().map(|e| (ev_kind(*e), ev_ts(*e))).collect::<Vec<_>>();
    if tss(gb) != tss(wb) { m |= C_TS }
    let irs = |l: &[u64]| l.iter().filter(|e| ev_kind(**e) == B_OP).map(|e| ev_val(*e)).collect::<Vec<_>>();
    if irs(gb) != irs(wb) { m |= C_R }
    let _ = cs;
    m
}

pub fn show_cpu(c: &RCpu) -> String {
    format!("af={:04x} bc={:04x} de={:04x} hl={:04x} af'={:04x} bc'={:04x} de'={:04x} hl'={:04x} ix={:04x} iy={:04x} sp={:04x} pc={:04x} wz={:04x} i={:02x} r={:02x} iff={}{} im={} halt={} ei={} pfx={} q={}",
        c.af, c.bc, c.de, c.hl, c.af_, c.bc_, c.de_, c.hl_, c.ix, c.iy, c.sp, c.pc, c.wz, c.i, c.r,
        c.iff1 as u8, c.iff2 as u8, c.im, c.halt as u8, c.ei as u8, c.pfx, c.q as u8)
}

#[allow(clippy::too_many_arguments)]
fn describe<F: Fla>(cs: &Case, g: &Obs, w: &Obs, gc: &[u64], wc: &[u64], gb: &[u64], wb: &[u64], panic: Option<String>, comps: u32) -> String {
    format!("flavour {}  entry {:?}  components {:#x}\ncode at PC: {:02x?}  data at operand addresses: {:02x?}\nstart : {}\nenv   : {:?} clock mode {}\nwant  : {} out={:?} now={}\ngot   : {} out={:?} now={}\nwant cycles: {}\ngot  cycles: {}\nwant bus: {}\ngot  bus: {}\npanic: {:?}",
        F::NAME, cs.entry, comps, cs.code, cs.data, show_cpu(&cs.cpu), cs.cfg, cs.mode,
        show_cpu(&w.cpu), w.out, w.now, show_cpu(&g.cpu), g.out, g.now,
        show_log(wc), show_log(gc), show_log(wb), show_log(gb), panic)
}

/// The opcode spaces: (prefix pending, table) with table 0 = main, 1 = CB (or DDCB), 2 = ED
#[derive(Clone, Copy, Debug)]
pub struct Opc { pub pfx: u8, pub table: u8, pub op: u8 }
pub fn all_ops() -> Vec<Opc> {
    let mut v = Vec::new();
    for pfx in 0..3u8 { for table in 0..3u8 { for op in 0..=255u8 {
        if table == 0 && (op == 0xCB || op == 0xED) { continue }
        v.push(Opc { pfx, table, op });
    } } }
    v
}
impl Opc {
    /// code bytes with operand bytes (d/n/lo, hi)
    pub fn code(&self, b1: u8, b2: u8) -> [u8; 6] {
        match self.table {
            0 => [self.op, b1, b2, 0x11, 0x22, 0x33],
            1 => if self.pfx == 0 { [0xCB, self.op, b1, b2, 0x22, 0x33] } else { [0xCB, b1, self.op, b2, 0x22, 0x33] },
            2 => [0xED, self.op, b1, b2, 0x22, 0x33],
            // second byte of an instruction whose first byte is interrupt data
            _ => [self.op, b1, b2, 0x11, 0x22, 0x33],
        }
    }
}

pub const NCELLS: usize = 37;
pub const CELL_NAMES: [&str; NCELLS] = ["A","F","B","C","D","E","H","L","IXh","IXl","IYh","IYl","SPh","SPl","I","R","WZh","WZl",
    "op1","op2","PCh","PCl","misc","in","A'","F'","B'","C'","D'","E'","H'","L'","wait","datlo","dathi","wait2","break"];
/// A start state given by one byte per cell.
pub type Cells = [u8; NCELLS];

pub fn base_cells(n: usize) -> Cells {
    let mut c = [0u8; NCELLS];
    for (i, x) in c.iter_mut().enumerate() {
        *x = match n {
            0 => (0x21u8).wrapping_mul(i as u8 + 3).wrapping_add(0x17),
            1 => (0x3Bu8).wrapping_mul(i as u8 + 1) ^ 0xA5,
            2 => 0,
            3 => 0xFF,
            4 => (0x5Du8).wrapping_mul(i as u8 + 7).wrapping_add(0x44),
            _ => (0x97u8).wrapping_mul(i as u8 + 5) ^ 0x3C,
        };
    }
    // keep the wait states small and the misc cell sane by default
    c[22] = [0x00, 0x13, 0x83, 0x4B, 0x87, 0x15][n % 6];
    c[32] = [0, 3, 0, 1, 2, 0][n % 6];
    c[35] = [0, 2, 0, 1, 0, 4][n % 6];
    c[36] = [0, 0x13, 0, 1, 2, 0][n % 6];
    c
}

pub fn build(o: Opc, c: &Cells) -> Case {
    let w = |i: usize| (c[i] as u16) << 8 | c[i + 1] as u16;
    let misc = c[22];
    // the "break" cell: bit 0 requests a break from the write, bit 1 from RETI, the high nibble makes waits long
    let ws_hi = (c[36] as u16 & 0xF0) << 4;
    let mut cfg = EnvCfg { io_in: c[23], ws_in: c[32] as u16 | ws_hi, ws_out: c[32] as u16 | ws_hi, ws_irq: c[35] as u16 | ws_hi, vector: c[23],
        brk_wr: c[36] as u64 & 1, brk_reti: c[36] as u64 >> 1 & 1, ..EnvCfg::default() };
    if misc & 0x80 != 0 {
        let at = T0 + (c[23].wrapping_add(6) & 0x1F) as Ts;
        cfg.ints[0] = (at, if c[23] & 0x80 != 0 { at + 1 } else { Ts::MAX });
    }
    Case {
        entry: Entry::Next,
        cpu: RCpu {
            af: w(0), bc: w(2), de: w(4), hl: w(6), ix: w(8), iy: w(10), sp: w(12), i: c[14], r: c[15], wz: w(16),
            pc: w(20), af_: w(24), bc_: w(26), de_: w(28), hl_: w(30),
            iff1: misc & 1 != 0, iff2: misc & 2 != 0, im: (misc >> 2 & 3) % 3, halt: false, ei: misc & 32 != 0,
            pfx: o.pfx, q: misc & 16 != 0,
        },
        code: o.code(c[18], c[19]),
        data: (c[33], c[34]),
        cfg, mode: misc >> 6 & 1,
    }
}

pub fn fixq<F: Fla>(mut c: Case) -> Case { if F::F == Fl::Cmos { c.cpu.q = false } c }

const BND: [u8; 10] = [0x00, 0xFF, 0x80, 0x7F, 0x01, 0x0F, 0xFE, 0x10, 0x55, 0x99];

/// What is enumerated: an instruction through an entry point, or an interrupt / NMI / halted cycle.
#[derive(Clone, Copy, Debug)]
pub struct Item { pub o: Opc, pub entry: Entry, pub halt: bool, pub im: Option<u8>, pub vec: Option<u8>, pub line: bool, pub nbase: usize, pub pairs: bool }

pub fn items(nb: usize) -> Vec<Item> {
    let mut v = Vec::new();
    let nop = Opc { pfx: 0, table: 0, op: 0 };
    let it = |o, entry| Item { o, entry, halt: false, im: None, vec: None, line: false, nbase: 1, pairs: false };
    for o in all_ops() { v.push(Item { nbase: nb, pairs: true, ..it(o, Entry::Next) }) }
    for e in [Entry::Irq, Entry::Next, Entry::Run] { for halt in [false, true] {
        for im in 0..3 { v.push(Item { halt, im: Some(im), line: true, nbase: nb, pairs: true, ..it(nop, e) }) }
    } }
    for op in [0x00, 0x76, 0xFB, 0xDD, 0xED] { for halt in [false, true] { for pfx in 0..3 {
        let o = Opc { pfx, table: 0, op };
        if pfx == 0 || !halt { v.push(Item { halt, nbase: nb, pairs: true, ..it(o, Entry::Nmi) }) }
        if pfx == 0 && halt { for e in [Entry::Next, Entry::Run, Entry::Exec] { v.push(Item { halt, nbase: nb, pairs: true, ..it(o, e) }) } }
    } } }
    for o in all_ops() { v.push(it(o, Entry::Exec)); v.push(it(o, Entry::Run)) }
    for vec in 0..=255u8 { for halt in [false, true] {
        v.push(Item { halt, im: Some(0), vec: Some(vec), line: true, ..it(nop, Entry::Irq) });
        // the second byte of a prefixed instruction given as data: every opcode
        if matches!(vec, 0xCB | 0xED) && !halt { for op in 0..=255u8 {
            v.push(Item { im: Some(0), vec: Some(vec), line: true, ..it(Opc { pfx: 0, table: 3, op }, Entry::Irq) });
        } }
    } }
    v
}

pub fn build_item(it: &Item, c: &Cells) -> Case {
    let mut cs = build(it.o, c);
    cs.entry = it.entry;
    if let Some(im) = it.im { cs.cpu.im = im }
    if it.halt { cs.cpu.halt = true; cs.cpu.ei = false }
    if let Some(v) = it.vec { cs.cfg.vector = v }
    if it.line { cs.cfg.ints[0] = (0, Ts::MAX); if cs.cpu.sp != 0xA55A { cs.cpu.iff1 = true } }
    cs
}

/// The shared enumeration. `mask`: which components to judge.
pub fn explore(rep: &Rep, mask: u32, weight: u32) {
    let nb = rep.q(3, 6);
    let nv = rep.q(6, 10);
    let its = items(nb);
    let _ = weight;
    rep.bound(format!("{} opcode/prefix combinations by execute_next, plus acceptances in each IM, NMI and halted cycles: {} base states x {} byte cells x 256 values; every pair of cells x {}x{} boundary values; every address register (and PC) x 1024 values at the ends and the middle of the address space x F and its complement; x 3 flavours",
        all_ops().len(), nb, NCELLS, nv, nv));
    rep.bound(format!("the same opcodes by execute_instruction and execute_with_limit, and every IM 0 data byte (second byte of CB/ED data: every value), running or halted: 1 base state x {NCELLS} cells x 256 values; {} items in all", its.len()));
    explore_f::<z80emu::z80::NMOS>(rep, mask, &its, nv);
    explore_f::<z80emu::z80::CMOS>(rep, mask, &its, nv);
    explore_f::<z80emu::z80::BM1>(rep, mask, &its, nv);
}

pub fn judge<F: Fla>(rep: &Rep, ctx: &mut Ctx<F>, cs: &Case, mask: u32) {
    if let Some(d) = ctx.run(cs) {
        if d.comps & (mask | C_PANIC) != 0 { rep.violation(d.text) }
    }
}

fn explore_f<F: Fla>(rep: &Rep, mask: u32, its: &[Item], nv: usize) {
    par(rep, its.len(), Ctx::<F>::new, |ctx, i| {
        let o = &its[i];
        let (n0, e0) = (ctx.n, ctx.nev);
        for b in 0..o.nbase {
            let base = base_cells(b);
            for cell in 0..NCELLS {
                for v in 0..=255u8 {
                    let mut c = base;
                    c[cell] = v;
                    judge(rep, ctx, &fixq::<F>(build_item(o, &c)), mask);
                }
                if rep.stopped() { return }
            }
        }
        let base = base_cells(1);
        if o.pairs { for x in 0..NCELLS { for y in 0..x {
            for &a in &BND[..nv] { for &b in &BND[..nv] {
                let mut c = base;
                c[x] = a; c[y] = b;
                judge(rep, ctx, &fixq::<F>(build_item(o, &c)), mask);
            } }
            if rep.stopped() { return }
        } } }
        // both bytes of every address register jointly, near the ends and the middle of the address space
        if o.pairs || o.entry == Entry::Next { for hi in [2usize, 4, 6, 8, 10, 12, 16, 20] {
            for h in [0x00u8, 0xFF, 0x7F, 0x80] { for l in 0..=255u8 { for fx in [0u8, 0xFF] {
                let mut c = base;
                c[hi] = h; c[hi + 1] = l; c[1] ^= fx;
                judge(rep, ctx, &fixq::<F>(build_item(o, &c)), mask);
            } } }
            if rep.stopped() { return }
        } }
        if i % 977 == 5 { rep.sample(|| format!("{} {:?} from {}", F::NAME, o, show_cpu(&build_item(o, &base).cpu))) }
        rep.add(ctx.n - n0 + ctx.nev - e0, ctx.nev - e0, ctx.n - n0);
    });
}
