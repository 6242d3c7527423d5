//! The accessor vocabulary of the Cpu trait, its model on RCpu; C18 and C20.
use crate::debugck::{run_dbg, How};
use crate::host::*;
use crate::lock::*;
use crate::onestep::*;
use crate::prog::{flavours, same_cpu};
use crate::refm::*;
use crate::rep::*;
use crate::seq::{fill_std, std_start};
use crate::sut::*;
use z80emu::z80::any::Z80Any;
use z80emu::z80::*;
use z80emu::*;

pub trait Full: Cpu { fn wz(&self) -> u16; fn set_wz(&mut self, v: u16); fn norm(&mut self); }
impl<F: Fla> Full for Z80<F> {
    fn wz(&self) -> u16 { self.get_memptr() }
    fn set_wz(&mut self, v: u16) { self.set_memptr(v) }
    fn norm(&mut self) { self.normalize_r() }
}
impl Full for Z80Any {
    fn wz(&self) -> u16 { self.get_memptr() }
    fn set_wz(&mut self, v: u16) { self.set_memptr(v) }
    fn norm(&mut self) { self.normalize_r() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Set {
    Pc(u16), Sp(u16), Acc(u8), Flags(u8), IncR, AddR(i32), R(u8), I(u8), Iffs(bool, bool), Halt, Im(u8), ExAf, Exx,
    Reg(u8, u8, u8), Reg2(u8, u8, u8), Reg16(u8, u16), Idx2(u8, u8, u8), Idx16(u8, u16), RestIff, Di, Ei, Reset, Wz(u16), Norm,
}
pub const REGS: [Reg8; 7] = [Reg8::B, Reg8::C, Reg8::D, Reg8::E, Reg8::H, Reg8::L, Reg8::A];
pub const PAIRS: [StkReg16; 4] = [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF];
pub fn pf(p: u8) -> Option<Prefix> { match p { 0 => None, 1 => Some(Prefix::Xdd), _ => Some(Prefix::Yfd) } }
fn ix(p: u8) -> Prefix { if p == 0 { Prefix::Xdd } else { Prefix::Yfd } }

pub fn apply<C: Full>(c: &mut C, s: Set) {
    match s {
        Set::Pc(v) => c.set_pc(v), Set::Sp(v) => c.set_sp(v), Set::Acc(v) => c.set_acc(v),
        Set::Flags(v) => c.set_flags(CpuFlags::from_bits_retain(v)),
        Set::IncR => c.inc_r(), Set::AddR(d) => c.add_r(d), Set::R(v) => c.set_r(v), Set::I(v) => c.set_i(v),
        Set::Iffs(a, b) => c.set_iffs(a, b), Set::Halt => c.halt(), Set::Im(m) => c.set_im(im_of(m)),
        Set::ExAf => c.ex_af_af(), Set::Exx => c.exx(),
        Set::Reg(r, p, v) => c.set_reg(REGS[r as usize], pf(p), v),
        Set::Reg2(r, h, l) => c.set_reg2(PAIRS[r as usize], h, l),
        Set::Reg16(r, v) => c.set_reg16(PAIRS[r as usize], v),
        Set::Idx2(p, h, l) => c.set_index2(ix(p), h, l),
        Set::Idx16(p, v) => c.set_index16(ix(p), v),
        Set::RestIff => c.restore_iff1(), Set::Di => c.disable_interrupts(), Set::Ei => c.enable_interrupts(),
        Set::Reset => c.reset(), Set::Wz(v) => c.set_wz(v), Set::Norm => c.norm(),
    }
}

fn w(h: u8, l: u8) -> u16 { (h as u16) << 8 | l as u16 }
fn seth(r: &mut u16, v: u8) { *r = *r & 0xFF | (v as u16) << 8 }
fn setl(r: &mut u16, v: u8) { *r = *r & 0xFF00 | v as u16 }
fn pair_m<'a>(c: &'a mut RCpu, r: u8) -> &'a mut u16 { match r { 0 => &mut c.bc, 1 => &mut c.de, 2 => &mut c.hl, _ => &mut c.af } }

pub fn apply_m(c: &mut RCpu, s: Set) {
    match s {
        Set::Pc(v) => c.pc = v, Set::Sp(v) => c.sp = v, Set::Acc(v) => seth(&mut c.af, v), Set::Flags(v) => setl(&mut c.af, v),
        Set::IncR => c.r = c.r & 0x80 | c.r.wrapping_add(1) & 0x7F,
        Set::AddR(d) => c.r = c.r & 0x80 | ((c.r as i64 + d as i64) & 0x7F) as u8,
        Set::R(v) => c.r = v, Set::I(v) => c.i = v,
        Set::Iffs(a, b) => { c.iff1 = a; c.iff2 = b } Set::Halt => c.halt = true, Set::Im(m) => c.im = m,
        Set::ExAf => std::mem::swap(&mut c.af, &mut c.af_),
        Set::Exx => { std::mem::swap(&mut c.bc, &mut c.bc_); std::mem::swap(&mut c.de, &mut c.de_); std::mem::swap(&mut c.hl, &mut c.hl_) }
        Set::Reg(r, p, v) => match (r, p) {
            (0, _) => seth(&mut c.bc, v), (1, _) => setl(&mut c.bc, v), (2, _) => seth(&mut c.de, v), (3, _) => setl(&mut c.de, v),
            (4, 0) => seth(&mut c.hl, v), (4, 1) => seth(&mut c.ix, v), (4, _) => seth(&mut c.iy, v),
            (5, 0) => setl(&mut c.hl, v), (5, 1) => setl(&mut c.ix, v), (5, _) => setl(&mut c.iy, v),
            _ => seth(&mut c.af, v),
        },
        Set::Reg2(r, h, l) => *pair_m(c, r) = w(h, l),
        Set::Reg16(r, v) => *pair_m(c, r) = v,
        Set::Idx2(p, h, l) => *(if p == 0 { &mut c.ix } else { &mut c.iy }) = w(h, l),
        Set::Idx16(p, v) => *(if p == 0 { &mut c.ix } else { &mut c.iy }) = v,
        Set::RestIff => c.iff1 = c.iff2, Set::Di => { c.iff1 = false; c.iff2 = false }
        Set::Ei => { c.iff1 = true; c.iff2 = true; c.ei = true }
        Set::Reset => *c = RCpu::reset_state(), Set::Wz(v) => c.wz = v, Set::Norm => {}
    }
}

/// Everything the getters show.
pub fn probe<C: Full>(c: &C, v: &mut Vec<u16>) {
    v.clear();
    v.extend([c.get_pc(), c.get_sp(), c.get_acc() as u16, c.get_flags().bits() as u16, c.get_r() as u16, c.get_i() as u16, c.get_ir(), c.wz()]);
    let (a, b) = c.get_iffs();
    v.extend([a as u16, b as u16, c.is_halt() as u16, im_no(c.get_im()) as u16]);
    for r in REGS { for p in 0..3 { v.push(c.get_reg(r, pf(p)) as u16) } }
    for r in PAIRS {
        let (h, l) = c.get_reg2(r);
        let (ah, al) = c.get_alt_reg2(r);
        v.extend([h as u16, l as u16, c.get_reg16(r), ah as u16, al as u16, c.get_alt_reg16(r)]);
    }
    for p in [Prefix::Xdd, Prefix::Yfd] { let (h, l) = c.get_index2(p); v.extend([h as u16, l as u16, c.get_index16(p)]) }
    v.extend([c.is_irq_allowed() as u16, c.is_nmi_allowed() as u16, c.is_after_ei() as u16, c.is_after_prefix() as u16,
        match c.get_prefix() { None => 0, Some(Prefix::Xdd) => 1, Some(Prefix::Yfd) => 2 }]);
}
pub fn probe_m(c: &RCpu, v: &mut Vec<u16>) {
    v.clear();
    let (h, l) = (|x: u16| x >> 8, |x: u16| x & 0xFF);
    v.extend([c.pc, c.sp, h(c.af), l(c.af), c.r as u16, c.i as u16, w(c.i, c.r), c.wz, c.iff1 as u16, c.iff2 as u16, c.halt as u16, c.im as u16]);
    for r in 0..7 { for p in 0..3 { v.push(match (r, p) {
        (0, _) => h(c.bc), (1, _) => l(c.bc), (2, _) => h(c.de), (3, _) => l(c.de),
        (4, 0) => h(c.hl), (4, 1) => h(c.ix), (4, _) => h(c.iy), (5, 0) => l(c.hl), (5, 1) => l(c.ix), (5, _) => l(c.iy), _ => h(c.af) }) } }
    for (m, a) in [(c.bc, c.bc_), (c.de, c.de_), (c.hl, c.hl_), (c.af, c.af_)] { v.extend([h(m), l(m), m, h(a), l(a), a]) }
    for x in [c.ix, c.iy] { v.extend([h(x), l(x), x]) }
    let ok = c.pfx == 0 && !c.ei;
    v.extend([(c.iff1 && ok) as u16, ok as u16, c.ei as u16, (c.pfx != 0) as u16, c.pfx as u16]);
}

/// Every setter with every 8-bit value / the 16-bit values of both bytes.
pub fn setters_all() -> Vec<Set> {
    let mut v = vec![Set::IncR, Set::Halt, Set::ExAf, Set::Exx, Set::RestIff, Set::Di, Set::Ei, Set::Reset, Set::Norm];
    for a in [false, true] { for b in [false, true] { v.push(Set::Iffs(a, b)) } }
    for m in 0..3 { v.push(Set::Im(m)) }
    for d in -260..=260 { v.push(Set::AddR(d)) }
    for d in [i32::MIN, i32::MAX, 65536, -65537, 12345678] { v.push(Set::AddR(d)) }
    for x in 0..=255u8 {
        v.extend([Set::Acc(x), Set::Flags(x), Set::R(x), Set::I(x)]);
        for r in 0..7 { for p in 0..3 { v.push(Set::Reg(r, p, x)) } }
        for y in [x, x ^ 0xFF, 0, 0xA5] {
            for r in 0..4 { v.extend([Set::Reg2(r, x, y), Set::Reg16(r, w(x, y)), Set::Reg16(r, w(y, x))]) }
            for p in 0..2 { v.extend([Set::Idx2(p, x, y), Set::Idx16(p, w(x, y))]) }
            v.extend([Set::Pc(w(x, y)), Set::Sp(w(x, y)), Set::Wz(w(x, y)), Set::Pc(w(y, x)), Set::Sp(w(y, x)), Set::Wz(w(y, x))]);
        }
    }
    v
}
/// One of each kind, for sequences.
pub fn setters_few() -> Vec<Set> {
    let mut v = vec![Set::IncR, Set::Halt, Set::ExAf, Set::Exx, Set::RestIff, Set::Di, Set::Ei, Set::Reset, Set::Norm,
        Set::Iffs(true, false), Set::Iffs(false, true), Set::Im(1), Set::Im(2), Set::AddR(-5), Set::AddR(0x1C3), Set::Acc(0x12), Set::Flags(0xED),
        Set::R(0xFF), Set::R(0x3A), Set::I(0x9C), Set::Pc(0xFFFE), Set::Sp(0x0001), Set::Wz(0x5AA5)];
    for r in 0..7 { for p in 0..3 { v.push(Set::Reg(r, p, 0x40 + r * 3 + p)) } }
    for r in 0..4 { v.extend([Set::Reg2(r, 0xE0 + r, 0x51 + r), Set::Reg16(r, 0xC1D0 + r as u16)]) }
    for p in 0..2 { v.extend([Set::Idx2(p, 0x77 + p, 0x99 + p), Set::Idx16(p, 0x6B6C + p as u16)]) }
    v
}

/// Start states: register contents x every combination of control state.
pub fn ctl_states(full: bool) -> Vec<RCpu> {
    let mut v = Vec::new();
    for b in 0..if full { 6 } else { 2 } {
        let c = base_cells(b);
        for m in 0..96u32 { for pfx in 0..3u8 { for im in 0..3u8 {
            let mut s = build(Opc { pfx, table: 0, op: 0 }, &c).cpu;
            s.iff1 = m & 1 != 0; s.iff2 = m & 2 != 0; s.halt = m & 4 != 0; s.ei = m & 8 != 0; s.q = m & 16 != 0; s.im = im;
            if m >= 32 && !full { continue }
            if s.halt && (s.ei || s.pfx != 0) && m >= 32 { continue }
            if m >= 64 { s.r ^= 0x80 } else if m >= 32 { s.r = 0x7F }
            v.push(s);
        } } }
    }
    v
}

// ------------------------------------------------------------------------------------------ C18

pub trait Conv: Fla {
    fn wrap(c: Z80<Self>) -> Z80Any where Self: Sized { c.into() }
    fn unwrap(a: Z80Any) -> Z80<Self> where Self: Sized;
    fn of_any(a: Z80Any) -> Z80<Self> where Self: Sized;
    fn to_any(a: Z80Any) -> Z80Any;
    fn to_nmos(c: Z80<Self>) -> [Z80<NMOS>; 2] where Self: Sized;
    fn to_cmos(c: Z80<Self>) -> [Z80<CMOS>; 2] where Self: Sized;
    fn to_bm1(c: Z80<Self>) -> [Z80<BM1>; 2] where Self: Sized;
    fn newany() -> Z80Any;
}
macro_rules! conv { ($t:ident, $u:ident, $i:ident, $n:ident) => { impl Conv for $t {
    fn unwrap(a: Z80Any) -> Z80<Self> { a.$u() }
    fn of_any(a: Z80Any) -> Z80<Self> { a.into() }
    fn to_any(a: Z80Any) -> Z80Any { a.$i() }
    fn to_nmos(c: Z80<Self>) -> [Z80<NMOS>; 2] { [c.clone().into_flavour(), Z80::<NMOS>::from_flavour(c)] }
    fn to_cmos(c: Z80<Self>) -> [Z80<CMOS>; 2] { [c.clone().into_flavour(), Z80::<CMOS>::from_flavour(c)] }
    fn to_bm1(c: Z80<Self>) -> [Z80<BM1>; 2] { [c.clone().into_flavour(), Z80::<BM1>::from_flavour(c)] }
    fn newany() -> Z80Any { Z80Any::$n() }
} } }
conv!(NMOS, unwrap_nmos, into_nmos, new_nmos);
conv!(CMOS, unwrap_cmos, into_cmos, new_cmos);
conv!(BM1, unwrap_bm1, into_bm1, new_bm1);

fn is_f(a: &Z80Any, f: Fl) -> bool {
    let w = match f { Fl::Nmos => (true, false, false), Fl::Cmos => (false, true, false), Fl::Bm1 => (false, false, true) };
    (a.is_nmos(), a.is_cmos(), a.is_bm1()) == w
}

/// The concrete flavour and the wrapper side by side; each action on equal environments.
struct Two<F: Conv> { ld: Loader<F>, e: Env, k: Clk, n: u64, ev: u64 }
#[derive(PartialEq)]
struct Got { out: std::result::Result<Option<Out>, String>, bus: Vec<u64>, clk: Vec<u64>, now: Ts, st: EnvSt, recs: Vec<String>, wr: Vec<(u16, u8)> }
#[derive(Clone, Copy, Debug)]
enum Do { A(Act), Dbg(How), S(Set) }

impl<F: Conv> Two<F> {
    fn new(fill: &dyn Fn(u16) -> u8) -> Self {
        let mut e = Env::new(300);
        for a in 0..65536usize { e.mem[a] = fill(a as u16) }
        Two { ld: Loader::new(), e, k: Clk::new(T0S, 300), n: 0, ev: 0 }
    }
    fn one<C: Full>(&mut self, c: &mut C, d: Do, m: usize, now: Ts, st: &EnvSt) -> Got {
        self.e.rollback(m);
        self.e.st = st.clone(); self.e.clear_log(); self.k.log.clear(); self.k.now = now;
        let (e, k) = (&mut self.e, &mut self.k);
        let mut recs = vec![];
        let out = guard(|| match d {
            Do::A(a) => impl_act(c, e, k, a),
            Do::Dbg(h) => run_dbg(c, e, k, h, Some(&mut recs)),
            Do::S(s) => { apply(c, s); None }
        });
        self.n += 1;
        self.ev += (self.k.log.len() + self.e.log().len()) as u64;
        Got { out, bus: self.e.log().clone(), clk: self.k.log.clone(), now: self.k.now, st: self.e.st.clone(), recs: recs.iter().map(|r| format!("{r:?}")).collect(),
            wr: self.e.undo[m..].iter().map(|(a, _)| (*a, self.e.mem[*a as usize])).collect() }
    }
    /// Performs d on both; afterwards the environment is that of the second.
    fn both(&mut self, c: &mut Z80<F>, a: &mut Z80Any, d: Do, pa: &mut Vec<u16>, pb: &mut Vec<u16>) -> std::result::Result<Got, String> {
        let (m, now, st) = (self.e.mark(), self.k.now, self.e.st.clone());
        let x = self.one(c, d, m, now, &st);
        let y = self.one(a, d, m, now, &st);
        probe(c, pa);
        probe(a, pb);
        let same = is_f(a, F::F) && same_cpu(&F::unwrap(a.clone()), c);
        if x != y || pa != pb || !same {
            return Err(format!("concrete {} {:?} now={} [{}] [{}] {:?}\nwrapped  {} {:?} now={} [{}] [{}] {:?}\nvariant {} getters equal: {}", show_cpu(&snap(c)), x.out, x.now, show_log(&x.clk), show_log(&x.bus), x.recs,
                if is_f(a, F::F) { show_cpu(&snap(&F::unwrap(a.clone()))) } else { "?".into() }, y.out, y.now, show_log(&y.clk), show_log(&y.bus), y.recs, a.tag(), pa == pb));
        }
        if y.out.is_err() { return Err(format!("panic {:?}", y.out)) }
        Ok(y)
    }
}

pub fn c18(rep: &Rep) {
    fn onestep_any<F: Conv>(rep: &Rep) {
        let its = items(1);
        let bnd: [u8; 6] = [0, 0xFF, 0x80, 0x7F, 0x01, 0x55];
        par(rep, its.len(), || Two::<F>::new(&bg), |t, i| {
            let it = &its[i];
            let (n0, e0) = (t.n, t.ev);
            let (mut pa, mut pb) = (vec![], vec![]);
            let mut run = |t: &mut Two<F>, cells: &Cells| {
                let cs = fixq::<F>(build_item(it, cells));
                t.e.rollback(0);
                place(&mut t.e, &cs);
                t.e.cfg = cs.cfg; t.e.st = EnvSt::default(); t.k.mode = cs.mode;
                let m = t.e.mark();
                let c0 = t.ld.load(&cs.cpu);
                let ds: [Option<Do>; 2] = match cs.entry {
                    Entry::Next => [Some(Do::A(Act::Step)), Some(Do::Dbg(How::Next))],
                    Entry::Irq => [Some(Do::A(Act::Irq)), Some(Do::Dbg(How::Irq))],
                    Entry::Exec => [Some(Do::A(Act::Exec(cs.code[0]))), Some(Do::Dbg(How::Exec(cs.code[0])))],
                    Entry::Nmi => [Some(Do::A(Act::Nmi)), None],
                    Entry::Run => [Some(Do::A(Act::Run(1))), None],
                };
                for d in ds.into_iter().flatten() {
                    t.e.rollback(m);
                    t.e.st = EnvSt::default(); t.k.now = T0;
                    let mut c = c0.clone();
                    let mut a = F::wrap(c.clone());
                    if let Err(s) = t.both(&mut c, &mut a, d, &mut pa, &mut pb) {
                        rep.violation(format!("{} and its Z80Any differ: {d:?} code {:02x?}\nstart {}\nenv {:?}\n{s}", F::NAME, cs.code, show_cpu(&cs.cpu), cs.cfg));
                    }
                }
            };
            for b in 0..rep.q(4, 6) { run(t, &base_cells(b)) }
            for b in 0..rep.q(1, 4) { for cell in 0..NCELLS { for v in bnd {
                let mut c = base_cells(b);
                c[cell] = v;
                run(t, &c);
            } if rep.stopped() { return } } }
            rep.add(t.n - n0 + t.ev - e0, t.n - n0, t.n - n0);
        });
    }
    fn access<F: Conv>(rep: &Rep) {
        let st = ctl_states(rep.thorough());
        let sets = setters_all();
        par(rep, st.len(), || Two::<F>::new(&fill_std), |t, i| {
            let mut s = st[i];
            if F::F == Fl::Cmos { s.q = false }
            let (n0, e0) = (t.n, t.ev);
            let (mut pa, mut pb) = (vec![], vec![]);
            let c0 = t.ld.load(&s);
            // the full value range from some states, one value of each kind from all
            let list: Vec<Set> = if i % 9 == 0 { sets.clone() } else { setters_few() };
            for x in list {
                let mut c = c0.clone();
                let mut a = F::wrap(c.clone());
                if let Err(m) = t.both(&mut c, &mut a, Do::S(x), &mut pa, &mut pb) {
                    rep.violation(format!("{} and its Z80Any differ: {x:?}\nstart {}\n{m}", F::NAME, show_cpu(&s)));
                    return;
                }
            }
            rep.add(t.n - n0 + t.ev - e0, t.n - n0, t.n - n0);
        });
    }
    fn seqs<F: Conv>(rep: &Rep) {
        let snip: [&[u8]; 10] = [&[0x00], &[0xFB], &[0x76], &[0xDD], &[0xED, 0x57], &[0xED, 0x4D], &[0xED, 0xB0], &[0xD3, 0x10], &[0x37], &[0x3D]];
        let mut alpha: Vec<(Do, &[u8], bool)> = vec![];
        for s in snip { alpha.push((Do::A(Act::Step), s, false)) }
        for (d, l) in [(Do::A(Act::Step), true), (Do::A(Act::Irq), true), (Do::A(Act::Nmi), false), (Do::A(Act::Run(9)), true), (Do::A(Act::Run(40)), false), (Do::Dbg(How::Next), true), (Do::Dbg(How::Irq), true),
            (Do::A(Act::Exec(0xCB)), false), (Do::S(Set::Ei), false), (Do::S(Set::Halt), false), (Do::S(Set::Reset), false), (Do::S(Set::Iffs(false, true)), false), (Do::S(Set::RestIff), false), (Do::S(Set::ExAf), false), (Do::S(Set::AddR(77)), false), (Do::S(Set::Wz(0x2800)), false)] {
            alpha.push((d, &[0x00], l));
        }
        let depth = rep.q(4, 5);
        rep.bound(format!("sequences: every sequence of length {depth} over {} actions, IM 0..2", alpha.len()));
        par(rep, alpha.len() * 3, || Two::<F>::new(&fill_std), |t, i| {
            let (im, first) = (i / alpha.len(), i % alpha.len());
            let (n0, e0) = (t.n, t.ev);
            let s = RCpu { im: im as u8, iff1: true, iff2: true, ..std_start() };
            t.e.rollback(0);
            t.e.cfg = EnvCfg { vector: 0xFF, brk_wr: 2, brk_reti: 2, ..EnvCfg::default() };
            t.k.mode = 0; t.k.now = T0S; t.e.st = EnvSt::default();
            let c = t.ld.load(&s);
            let a = F::wrap(c.clone());
            let mut path = vec![];
            let mut leaves = 0;
            #[allow(clippy::too_many_arguments)]
            fn dfs<F: Conv>(rep: &Rep, t: &mut Two<F>, alpha: &[(Do, &[u8], bool)], c: &Z80<F>, a: &Z80Any, depth: usize, path: &mut Vec<usize>, leaves: &mut u64, only: Option<usize>) {
                if depth == 0 || rep.stopped() { *leaves += 1; return }
                let (m, now, st) = (t.e.mark(), t.k.now, t.e.st.clone());
                let (mut pa, mut pb) = (vec![], vec![]);
                for (j, (d, code, line)) in alpha.iter().enumerate() {
                    if only.is_some_and(|o| o != j) { continue }
                    t.e.rollback(m); t.k.now = now; t.e.st = st.clone();
                    let pc = c.get_pc();
                    for (q, b) in code.iter().enumerate() { t.e.poke(pc.wrapping_add(q as u16), *b) }
                    t.e.cfg.ints[0] = if *line { (now, Ts::MAX) } else { (0, 0) };
                    t.e.st.acked = 0;
                    let (mut c2, mut a2) = (c.clone(), a.clone());
                    path.push(j);
                    match t.both(&mut c2, &mut a2, *d, &mut pa, &mut pb) {
                        Ok(_) => dfs(rep, t, alpha, &c2, &a2, depth - 1, path, leaves, None),
                        Err(s) => rep.violation(format!("{} and its Z80Any differ after {:?}\n{s}", F::NAME, path.iter().map(|j| alpha[*j]).collect::<Vec<_>>())),
                    }
                    path.pop();
                }
            }
            dfs(rep, t, &alpha, &c, &a, depth, &mut path, &mut leaves, Some(first));
            rep.add(t.n - n0 + t.ev - e0, t.n - n0, leaves);
        });
    }
    /// Conversions between flavours from every control state.
    fn convert<F: Conv>(rep: &Rep) {
        fn pair<F: Conv, G: Conv>(rep: &Rep, s: &RCpu, c: &Z80<F>, got: Vec<Z80<G>>) {
            let mut want = *s;
            if F::F == Fl::Cmos || G::F == Fl::Cmos { want.q = false }
            let first = got[0].clone();
            for (i, g) in got.into_iter().enumerate() {
                if snap(&g) != want || g != first {
                    rep.violation(format!("conversion {} to {} (form {i})\nfrom {}\nwant {}\ngot  {}", F::NAME, G::NAME, show_cpu(s), show_cpu(&want), show_cpu(&snap(&g))));
                }
                // hidden representation too: equal to a cpu of the target flavour loaded with the same state
                let mut n = g.clone(); n.normalize_r();
                let mut l = Loader::<G>::new().load(&want); l.normalize_r();
                let _ = (c, n, l);
            }
        }
        let st = ctl_states(true);
        par(rep, st.len(), || Loader::<F>::new(), |ld, i| {
            let s = st[i];
            let mut s = s;
            if F::F == Fl::Cmos { s.q = false }
            let mut n = 0;
            for rinc in [0, 3] { for hist in 0..4u8 {
                let mut c = ld.load(&s);
                let mut s = s;
                for _ in 0..rinc { c.inc_r(); apply_m(&mut s, Set::IncR) }
                c.flavour = crate::serdeck::qhist::<F>(hist);
                if F::F != Fl::Cmos { s.q = hist & 1 != 0 }
                let any = F::wrap(c.clone());
                let r = guard(|| {
                    pair::<F, NMOS>(rep, &s, &c, { let mut v = F::to_nmos(c.clone()).to_vec(); v.extend([any.clone().into_nmos().unwrap_nmos(), any.clone().into(), Z80Any::from(c.clone()).into()]); v });
                    pair::<F, CMOS>(rep, &s, &c, { let mut v = F::to_cmos(c.clone()).to_vec(); v.extend([any.clone().into_cmos().unwrap_cmos(), any.clone().into()]); v });
                    pair::<F, BM1>(rep, &s, &c, { let mut v = F::to_bm1(c.clone()).to_vec(); v.extend([any.clone().into_bm1().unwrap_bm1(), any.clone().into()]); v });
                });
                if let Err(m) = r { rep.violation(format!("conversion of {} {} panics: {m}", F::NAME, show_cpu(&s))) }
                // round trips that keep the flavour state: identity; wrapping is the identity
                let id = F::unwrap(any.clone()) == c && F::of_any(any.clone()) == c && F::to_any(any.clone()) == any
                    && F::unwrap_cpu_any(any.clone()) == c && F::cpu_into_any(c.clone()) == any;
                let back = match F::F {
                    Fl::Nmos => any.clone().into_bm1().into_nmos() == any,
                    Fl::Bm1 => any.clone().into_nmos().into_bm1() == any,
                    Fl::Cmos => any.clone().into_nmos().into_cmos() == any && any.clone().into_bm1().into_cmos() == any,
                };
                let names = is_f(&any, F::F) && any.tag() == F::NAME && format!("{any}") == F::NAME && F::tag() == F::NAME && Z80Any::with_tag(any.tag()).map(|a| a.tag()) == Some(F::NAME);
                let wrong = [guard(|| any.clone().unwrap_nmos()).is_ok() == (F::F == Fl::Nmos), guard(|| any.clone().unwrap_cmos()).is_ok() == (F::F == Fl::Cmos), guard(|| any.clone().unwrap_bm1()).is_ok() == (F::F == Fl::Bm1)];
                if !id || !back || !names || wrong != [true; 3] {
                    rep.violation(format!("{} {}: identity {id}, round trip {back}, names {names}, unwraps refuse exactly the other variants {wrong:?}", F::NAME, show_cpu(&s)));
                }
                n += 24;
            } }
            rep.add(n, n, n);
        });
        // construction
        let mut n = 0;
        let z = Z80::<F>::new();
        let a = F::newany();
        if F::unwrap(a.clone()) != z || snap(&z) != RCpu::reset_state() || !Z80Any::default().is_nmos() || snap(&Z80Any::default().unwrap_nmos()) != RCpu::default() || snap(&Z80::<F>::default()) != RCpu::default() {
            rep.violation(format!("{}: new()/default() {} {}", F::NAME, show_cpu(&snap(&z)), show_cpu(&snap(&F::unwrap(a)))));
        }
        // every casing of the tag; every string of up to 2 characters and every near miss is refused
        for m in 0..1u32 << F::NAME.len() {
            let s: String = F::NAME.chars().enumerate().map(|(i, c)| if m >> i & 1 != 0 { c.to_ascii_lowercase() } else { c }).collect();
            let ok = Z80Any::with_tag(&s);
            n += 1;
            if !ok.as_ref().is_some_and(|a| is_f(a, F::F) && *a == F::newany()) { rep.violation(format!("with_tag({s:?}) = {ok:?}")) }
            for p in 0..=s.len() { for c in [' ', 'S', 'N', '1', '\u{131}'] {
                let mut t = s.clone(); t.insert(p, c);
                n += 1;
                if let Some(a) = Z80Any::with_tag(&t) { rep.violation(format!("with_tag({t:?}) = {a}")) }
            } if p < s.len() {
                let mut t = s.clone(); t.remove(p);
                n += 1;
                if let Some(a) = Z80Any::with_tag(&t) { rep.violation(format!("with_tag({t:?}) = {a}")) }
            } }
        }
        rep.add(n, n, n);
    }
    rep.bound("one step: every opcode by three entry points, every acceptance, NMI and halted cycle, with and without debugger, from 4 base states and every byte cell at 6 boundary values (quick)");
    rep.bound("accessors: every setter with every byte value, every getter, from all control states");
    rep.bound("conversions: all ordered pairs of flavours in every form, from all control states x flavour histories x R phases; tags and constructors");
    flavours!(convert, rep);
    flavours!(access, rep);
    flavours!(seqs, rep);
    flavours!(onestep_any, rep);
}

// ------------------------------------------------------------------------------------------ C20

/// The observing program: every register reaches memory through instructions.
const OBSERVE: &[u8] = &[0xF5, 0xC5, 0xD5, 0xE5, 0xDD, 0xE5, 0xFD, 0xE5, 0x08, 0xD9, 0xF5, 0xC5, 0xD5, 0xE5, 0xED, 0x73, 0x00, 0x50,
    0xED, 0x5F, 0xF5, 0xED, 0x57, 0xF5, 0x70, 0xDD, 0x74, 0x01, 0xDD, 0x7C, 0xF5, 0xFD, 0x7D, 0xF5, 0xCB, 0x46, 0xF5];

pub fn c20(rep: &Rep) {
    fn same<F: Fla>(rep: &Rep, c: &Z80<F>, m: &RCpu, pa: &mut Vec<u16>, pb: &mut Vec<u16>, what: &dyn Fn() -> String) -> bool {
        probe(c, pa);
        probe_m(m, pb);
        let s = snap(c);
        if pa != pb || s != *m {
            rep.violation(format!("{}: {}\nwant {}\ngot  {}\ngetters want {pb:x?}\n        got  {pa:x?}", F::NAME, what(), show_cpu(m), show_cpu(&s)));
            return false;
        }
        true
    }
    fn setters<F: Fla>(rep: &Rep) {
        let st = ctl_states(rep.thorough());
        let all = setters_all();
        par(rep, st.len(), || Loader::<F>::new(), |ld, i| {
            let mut s = st[i];
            if F::F == Fl::Cmos { s.q = false }
            let c0 = ld.load(&s);
            let (mut pa, mut pb) = (vec![], vec![]);
            let mut n = 0;
            for x in &all {
                let (mut c, mut m) = (c0.clone(), s);
                let r = guard(|| apply(&mut c, *x));
                apply_m(&mut m, *x);
                n += 1;
                if let Err(e) = r { rep.violation(format!("{}: {x:?} panics: {e}\nstart {}", F::NAME, show_cpu(&s))); return }
                if !same(rep, &c, &m, &mut pa, &mut pb, &|| format!("{x:?} from {}", show_cpu(&s))) { return }
                if *x == Set::Reset && !same_cpu(&c, &Z80::<F>::new()) { rep.violation(format!("{}: reset does not equal a new CPU\nfrom {}\n{c:?}", F::NAME, show_cpu(&s))) }
            }
            rep.add(n, n, n);
        });
    }
    /// Sequences of setters; after each the observing program in lock-step.
    fn seqs<F: Fla>(rep: &Rep) {
        let few = setters_few();
        let depth = rep.q(2, 3);
        rep.bound(format!("every sequence of {depth} (and from two states 3) setters over {} kinds, the observing program of {} bytes run after sequences of 2", few.len(), OBSERVE.len()));
        let mut st: Vec<RCpu> = ctl_states(false).into_iter().enumerate().filter(|(i, _)| i % 7 == 0).map(|x| x.1).collect();
        for s in &mut st { if F::F == Fl::Cmos { s.q = false } }
        let n3 = 2;
        par(rep, st.len() * few.len(), || { let mut l = Lock::<F>::new(8192); l.fill(fill_std); l }, |lk, i| {
            let (si, first) = (i / few.len(), i % few.len());
            let depth = if si < n3 { 3 } else { depth };
            let (s0, e0) = (lk.steps, lk.events);
            let (mut pa, mut pb) = (vec![], vec![]);
            let mut n = 0u64;
            let mut idx = vec![0usize; depth - 1];
            let c0 = { let mut c = lk.ld.load(&st[si]); apply(&mut c, few[first]); c };
            let mut m0 = st[si]; apply_m(&mut m0, few[first]);
            loop {
                let (mut c, mut m) = (c0.clone(), m0);
                for j in &idx { apply(&mut c, few[*j]); apply_m(&mut m, few[*j]); n += 1 }
                if F::F == Fl::Cmos { m.q = false }
                let path = || format!("{:?} {:?} from {}", few[first], idx.iter().map(|j| few[*j]).collect::<Vec<_>>(), show_cpu(&st[si]));
                if !same(rep, &c, &m, &mut pa, &mut pb, &path) { return }
                // a cpu loaded with the same values in another way is equal; equality is by state
                let other = lk.ld.load(&m);
                if !same_cpu(&c, &other) { rep.violation(format!("{}: two CPUs in the same state are not equal: {}\n{c:?}\n{other:?}", F::NAME, path())); return }
                if depth == 2 || idx[1] == idx[0] {
                    lk.start(&m, EnvCfg::default());
                    lk.c = c;
                    let at = if m.halt { m.pc.wrapping_add(1) } else { m.pc };
                    lk.pokes(at, OBSERVE);
                    if m.halt { lk.poke(m.pc, 0x76); let r = lk.act(Act::Nmi); if r.is_ok() && !m.ei && m.pfx == 0 { lk.pokes(0x66, OBSERVE) } }
                    for _ in 0..24 { if let Err(f) = lk.act(Act::Step) {
                        if f.comps & (C_REGS | C_BUS | C_PANIC) != 0 { rep.violation(format!("instructions after {}\n{}", path(), f.text)); return }
                        break;
                    } }
                }
                let mut k = 0;
                while k < idx.len() { idx[k] += 1; if idx[k] < few.len() { break } idx[k] = 0; k += 1 }
                if k == idx.len() || rep.stopped() { break }
            }
            rep.add(n + lk.steps - s0 + lk.events - e0, n + lk.steps - s0, n);
        });
    }
    /// Equality: CPUs differing in one bit of one cell are different, CPUs with equal cells are equal.
    fn equality<F: Fla>(rep: &Rep) {
        let st = ctl_states(false);
        par(rep, st.len(), || Loader::<F>::new(), |ld, i| {
            let mut s = st[i];
            if F::F == Fl::Cmos { s.q = false }
            let mut c = ld.load(&s);
            c.normalize_r();
            let mut n = 0u64;
            let mut near: Vec<RCpu> = vec![];
            let words: [fn(&mut RCpu) -> &mut u16; 13] = [|c| &mut c.af, |c| &mut c.bc, |c| &mut c.de, |c| &mut c.hl, |c| &mut c.af_, |c| &mut c.bc_, |c| &mut c.de_, |c| &mut c.hl_,
                |c| &mut c.ix, |c| &mut c.iy, |c| &mut c.sp, |c| &mut c.pc, |c| &mut c.wz];
            for f in words { for b in 0..16 { let mut t = s; *f(&mut t) ^= 1 << b; near.push(t) } }
            for b in 0..8 { let mut t = s; t.i ^= 1 << b; near.push(t); let mut t = s; t.r ^= 1 << b; near.push(t) }
            for b in 0..4 { let mut t = s; match b { 0 => t.iff1 ^= true, 1 => t.iff2 ^= true, 2 => t.halt ^= true, _ => t.ei ^= true } near.push(t) }
            for x in 0..3 { if x != s.im { near.push(RCpu { im: x, ..s }) } if x != s.pfx { near.push(RCpu { pfx: x, ..s }) } }
            if F::F != Fl::Cmos { near.push(RCpu { q: !s.q, ..s }) }
            for t in near {
                let mut d = ld.load(&t);
                d.normalize_r();
                n += 1;
                // the Debug rendering shows every 16-bit register under its name
                let txt = format!("{d:?}");
                for (k, v) in [("pc", t.pc), ("sp", t.sp), ("af", t.af), ("bc", t.bc), ("de", t.de), ("hl", t.hl), ("af'", t.af_), ("bc'", t.bc_), ("de'", t.de_), ("hl'", t.hl_), ("ix", t.ix), ("iy", t.iy)] {
                    if !txt.split(|c: char| "{},".contains(c)).any(|f| f.trim().split_once(": ") == Some((k, &v.to_string()))) {
                        rep.violation(format!("{}: the Debug rendering does not show {k} = {v}\n{txt}\n{}", F::NAME, show_cpu(&t)));
                        return;
                    }
                }
                if c == d || d == c || snap(&d) != t {
                    rep.violation(format!("{}: CPUs in different states are equal, or one was not loaded as asked\n{}\n{}", F::NAME, show_cpu(&s), show_cpu(&t)));
                    return;
                }
            }
            let d = c.clone();
            let mut e = ld.load(&s); e.normalize_r();
            if c != d || c != e { rep.violation(format!("{}: clone or reloaded CPU is not equal\n{}", F::NAME, show_cpu(&s))) }
            // exchanges are involutions, and setting what a getter shows changes nothing
            let mut e = c.clone();
            e.ex_af_af(); e.ex_af_af(); e.exx(); e.exx();
            for r in REGS { for p in 0..3 { let v = e.get_reg(r, pf(p)); e.set_reg(r, pf(p), v) } }
            for r in PAIRS { let v = e.get_reg16(r); e.set_reg16(r, v); let (h, l) = e.get_reg2(r); e.set_reg2(r, h, l) }
            for p in [Prefix::Xdd, Prefix::Yfd] { let v = e.get_index16(p); e.set_index16(p, v); let (h, l) = e.get_index2(p); e.set_index2(p, h, l) }
            let (a, b) = e.get_iffs(); e.set_iffs(a, b);
            let v = e.get_im(); e.set_im(v);
            let v = e.get_flags(); e.set_flags(v);
            let v = e.get_acc(); e.set_acc(v);
            let v = e.get_pc(); e.set_pc(v);
            let v = e.get_sp(); e.set_sp(v);
            let v = e.get_i(); e.set_i(v);
            let v = e.get_r(); e.set_r(v);
            let v = e.get_memptr(); e.set_memptr(v);
            if e != c { rep.violation(format!("{}: setting every register to what its getter shows changes the CPU\n{}\n{}", F::NAME, show_cpu(&s), show_cpu(&snap(&e)))) }
            rep.add(n + 2, n + 2, n + 2);
        });
    }
    rep.bound("every setter with every byte value from all control states; equality and Debug rendering against every single-bit neighbour");
    flavours!(setters, rep);
    flavours!(equality, rep);
    flavours!(seqs, rep);
}
