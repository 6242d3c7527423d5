//! C04 C05 C09 C10: small programs explored exhaustively.
use crate::host::*;
use crate::lock::*;
use crate::onestep::*;
use crate::refm::*;
use crate::rep::*;
use crate::seq::{fill_std, std_start};
use crate::sut::*;
use std::marker::PhantomData;
use z80emu::z80::*;
use z80emu::*;

macro_rules! flavours { ($f:ident, $($a:expr),*) => { $f::<NMOS>($($a),*); $f::<CMOS>($($a),*); $f::<BM1>($($a),*); } }
pub(crate) use flavours;

// ------------------------------------------------------------------------------------------ C04

/// The iterated definition on plain arrays (memory, registers and the ports touched).
#[derive(Clone, PartialEq, Eq, Debug)]
struct Iter { b: u8, bc: u16, de: u16, hl: u16, port_log: Vec<(bool, u16, u8)>, iters: u32, z: bool, pv: bool }

fn iterate(op: u8, s: &RCpu, mem: &mut [u8; 65536], inp: u8, inp_step: u8, code: std::ops::Range<usize>) -> Option<Iter> {
    let (mut bc, mut de, mut hl) = (s.bc, s.de, s.hl);
    let a = (s.af >> 8) as u8;
    let dec = op & 8 != 0;
    let rep = op & 0x10 != 0;
    let d = if dec { 0xFFFF } else { 1u16 };
    let mut it = Iter { b: 0, bc, de, hl, port_log: vec![], iters: 0, z: false, pv: false };
    loop {
        it.iters += 1;
        let more = match op & 3 {
            0 => {
                if code.contains(&(de as usize)) { return None }
                mem[de as usize] = mem[hl as usize];
                hl = hl.wrapping_add(d); de = de.wrapping_add(d); bc = bc.wrapping_sub(1);
                it.pv = bc != 0;
                bc != 0
            }
            1 => {
                it.z = mem[hl as usize] == a;
                hl = hl.wrapping_add(d); bc = bc.wrapping_sub(1);
                it.pv = bc != 0;
                bc != 0 && !it.z
            }
            2 => {
                let v = inp.wrapping_add(inp_step.wrapping_mul(it.port_log.len() as u8));
                it.port_log.push((false, bc, v));
                if code.contains(&(hl as usize)) { return None }
                mem[hl as usize] = v;
                bc = bc.wrapping_sub(0x100);
                hl = hl.wrapping_add(d);
                it.z = bc >> 8 == 0;
                !it.z
            }
            _ => {
                bc = bc.wrapping_sub(0x100);
                it.port_log.push((true, bc, mem[hl as usize]));
                hl = hl.wrapping_add(d);
                it.z = bc >> 8 == 0;
                !it.z
            }
        };
        if !rep || !more { break }
    }
    it.b = (bc >> 8) as u8; it.bc = bc; it.de = de; it.hl = hl;
    Some(it)
}

#[derive(Clone, Debug)]
struct Blk { op: u8, pc: u16, hl: u16, de: u16, bc: u16, a: u8, f: u8, pat: u8, inp: u8, inp_step: u8 }

fn blk_bg(pat: u8, a: u16) -> u8 {
    match pat {
        0 => bg(a),
        1 => 0,
        2 => (a & 1) as u8,
        3 => if a % 5 == 3 { 0x42 } else { (a >> 2) as u8 },
        _ => 0xFF,
    }
}

fn blk_state(b: &Blk) -> RCpu {
    RCpu { af: (b.a as u16) << 8 | b.f as u16, bc: b.bc, de: b.de, hl: b.hl, pc: b.pc, sp: 0x5000, iff1: true, iff2: true, im: 1, ..std_start() }
}

fn blk_fill(pat: u8) -> impl Fn(u16) -> u8 {
    move |a| match a {
        0x38 => 0xFB, 0x39 => 0xED, 0x3A => 0x4D,
        0x66 => 0xED, 0x67 => 0x45,
        _ => blk_bg(pat, a),
    }
}

/// One block instruction, run to completion; `plan` digit i (base 3): nothing / INT / NMI accepted
/// before step i.
fn blk_run<F: Fla>(rep: &Rep, lk: &mut Lock<F>, b: &Blk, plan: &[u8], check_final: bool) {
    let s = blk_state(b);
    lk.start(&s, EnvCfg::default());
    lk.cfg(|e| { e.io_in = b.inp; e.io_step = b.inp_step });
    lk.pokes(b.pc, &[0xED, b.op]);
    let end = b.pc.wrapping_add(2);
    let mut mem0 = lk.ea.mem.clone();
    let repf = b.op & 0x10 != 0;
    let mut iters = 0u32;
    let mut ios: Vec<(bool, u16, u8)> = vec![];
    macro_rules! act { ($a:expr) => {
        let r = lk.act($a);
        for e in lk.ea.log() { match ev_kind(*e) {
            B_IN => ios.push((false, ev_addr(*e), ev_val(*e) as u8)),
            B_OUT => ios.push((true, ev_addr(*e), ev_val(*e) as u8)), _ => {} } }
        if let Err(f) = r {
            rep.violation(format!("block instruction {b:x?}, interrupts {plan:?}, iteration {iters}\n{}", f.text));
            return;
        }
    } }
    let mut n = 0;
    loop {
        let k = plan.get(n).copied().unwrap_or(0);
        n += 1;
        if k != 0 {
            let ret = lk.rc.pc;
            act!(if k == 1 { Act::Irq } else { Act::Nmi });
            let mut guardn = 0;
            while lk.rc.pc != ret {
                act!(Act::Step);
                guardn += 1;
                if guardn > 6 { return } // the handler was overwritten by the transfer: only lock-step
            }
        }
        let pc0 = lk.rc.pc;
        act!(Act::Step);
        iters += 1;
        if !repf || lk.rc.pc != pc0 { break }
        if iters > 70000 { rep.violation(format!("block instruction never ends {b:x?}")); return }
    }
    // closed form
    let Some(it) = iterate(b.op, &s, &mut mem0, b.inp, b.inp_step, 0..0) else { return };
    let touched: Vec<u16> = lk.ea.undo.iter().map(|x| x.0).collect();
    let over = |r: &[u16]| touched.iter().filter(|a| r.contains(a)).count();
    // the code bytes are poked twice (2 pokes); more means the transfer wrote them
    if over(&[b.pc, b.pc.wrapping_add(1)]) > 2 || !check_final { return }
    if over(&[0x38, 0x39, 0x3A, 0x66, 0x67]) > 0 && plan.iter().any(|x| *x != 0) { return }
    let c = snap(&lk.c);
    let f = c.af as u8;
    let stack = |a: usize| (0x4FF0..0x5000).contains(&a) && plan.iter().any(|x| *x != 0);
    let memok = (0..65536).all(|i| lk.ea.mem[i] == mem0[i] || stack(i));
    let flagok = match b.op & 3 {
        0 => (f & 4 != 0) == it.pv && f & 0xC1 == b.f & 0xC1 && f & 0x12 == 0,
        1 => (f & 4 != 0) == it.pv && (f & 0x40 != 0) == it.z && f & 2 != 0 && f & 1 == b.f & 1,
        _ => (f & 0x40 != 0) == it.z,
    };
    if (c.bc, c.de, c.hl) != (it.bc, it.de, it.hl) || !memok || iters != it.iters || !flagok || c.pc != end || ios != it.port_log || (c.af ^ s.af) >> 8 != 0 {
        rep.violation(format!("block instruction {b:x?}, interrupts {plan:?}: result differs from the iterated definition\nwant {it:x?}\ngot bc={:04x} de={:04x} hl={:04x} f={f:02x} pc={:04x} iterations={iters} memory equal={memok} ios={ios:x?}", c.bc, c.de, c.hl, c.pc));
    }
}

pub fn c04(rep: &Rep) {
    let mut cases = Vec::new();
    let ops: Vec<u8> = (0..16u8).map(|i| 0xA0 | (i & 3) | (i & 12) << 1).collect();
    let maxn = rep.q(6u16, 8);
    for op in &ops {
        let io = op & 2 != 0;
        let counts: Vec<u16> = if io { (0..=maxn).map(|n| n << 8 | 0x37).chain([0x0100, 0x01FF]).collect() } else { (1..=maxn).collect() };
        for bc in counts {
            if io && bc >> 8 == 0 { continue }
            for (hl, pc) in [(0x6000u16, 0x8000u16), (0xFFFE, 0x8000), (0x0002, 0x8000), (0x8002, 0x8000), (0x7FFE, 0x8000), (0xFFFD, 0xFFFF), (0x9000, 0xFFFE)] {
                let des: Vec<u16> = if op & 3 == 0 { (-5..=5i32).map(|d| hl.wrapping_add(d as u16)).chain([0x7FFD, 0x8000, 0x8002, 0xFFFE, 1]).collect() } else { vec![0x6010] };
                for de in des { for (a, pat) in [(0x42u8, 0u8), (0x42, 3), (0x00, 1), (0x01, 2)] { for f in [0u8, 0xFF] {
                    let (inp, inp_step) = if io { (0x7Eu8, 1) } else { (0, 0) };
                    cases.push(Blk { op: *op, pc, hl, de, bc, a, f, pat, inp, inp_step });
                } } }
            }
        }
    }
    cases.sort_by_key(|c| c.pat);
    rep.bound(format!("{} block programs (all 16 block instructions, counts to {maxn}, pointers at wrap-around and over the instruction, DE-HL distance -5..5, 4 memory patterns) x every placement of none/INT/NMI before the first 4 iterations (3^4), 3 flavours; the closed form compared at the end", cases.len()));
    fn go<F: Fla>(rep: &Rep, cases: &[Blk]) {
        par(rep, cases.len(), || { let mut l = Lock::<F>::new(4096); l.fill(blk_fill(0)); (l, 0u8) }, |(lk, pat), i| {
            let b = &cases[i];
            if *pat != b.pat { lk.start(&std_start(), EnvCfg::default()); lk.fill(blk_fill(b.pat)); *pat = b.pat }
            let (s0, e0) = (lk.steps, lk.events);
            let mut traces = 0;
            let positions = if b.op & 0x10 == 0 { 1 } else { 4 };
            for p in 0..3u32.pow(positions) {
                let plan: Vec<u8> = (0..positions).map(|k| (p / 3u32.pow(k) % 3) as u8).collect();
                // plans with interrupts only for a thinned set of register patterns
                if p != 0 && (b.pat > 1 && b.f != 0) { continue }
                blk_run(rep, lk, b, &plan, true);
                traces += 1;
            }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
            if i % 4001 == 5 { rep.sample(|| format!("{} {:x?}", F::NAME, b)) }
        });
    }
    flavours!(go, rep, &cases);
    // full-length transfers: 256 and 65536 iterations
    let mut long = Vec::new();
    for op in &ops {
        if op & 0x10 == 0 { continue }
        let io = op & 2 != 0;
        for bc in if io { vec![0u16, 0xFF10, 0x8000, 0x0137] } else { vec![0, 0xFFFF, 0x8001, 0x0100, 0x0101, 0x01FF] } {
            for (hl, de) in [(0x6000u16, 0x6001u16), (0x6001, 0x6000), (0xFFF0, 0x0100), (0x8100, 0x8000)] {
                for (a, pat) in [(0x42u8, 0u8), (0x07, 4)] {
                    long.push(Blk { op: *op, pc: 0x8000, hl, de, bc, a, f: 0, pat, inp: 3, inp_step: 7 });
                }
            }
        }
    }
    rep.bound(format!("{} full-length repeating transfers (256 to 65536 iterations, also over their own code)", long.len()));
    fn golong<F: Fla>(rep: &Rep, cases: &[Blk]) {
        par(rep, cases.len(), || Lock::<F>::new(4096), |lk, i| {
            let b = &cases[i];
            lk.start(&std_start(), EnvCfg::default());
            lk.fill(blk_fill(b.pat));
            let (s0, e0) = (lk.steps, lk.events);
            blk_run(rep, lk, b, &[], true);
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, 1);
        });
    }
    flavours!(golong, rep, &long);
    // every flag result of one iteration: all (A, value, B, C low, incoming F) combinations
    fn flags<F: Fla>(rep: &Rep) {
        par(rep, 256, || { let mut l = Lock::<F>::new(256); l.fill(|_| 0); l }, |lk, v| {
            let (s0, e0) = (lk.steps, lk.events);
            let v = v as u8;
            let mut traces = 0;
            for x in 0..=255u8 { for i in 0..16u8 { for k in 0..4u8 {
                let op = 0xA0 | (i & 3) | (i & 12) << 1;
                let io = op & 2 != 0;
                let (a, bc) = if io { (0x10, (x as u16) << 8 | [0x00u16, 0x7F, 0xFE, 0xFF][k as usize]) } else { (x, [0u16, 1, 2, 0x0100][k as usize]) };
                let s = RCpu { af: (a as u16) << 8 | if k & 1 == 0 { 0 } else { 0xFF }, bc, hl: 0x6000 + if k == 3 { x as u16 } else { 0x80 }, de: 0x7000, q: k & 2 != 0, ..std_start() };
                lk.start(&s, EnvCfg { io_in: v, ..EnvCfg::default() });
                lk.pokes(s.pc, &[0xED, op]);
                lk.poke(s.hl, v);
                if let Err(f) = lk.act(Act::Step) { rep.violation(format!("ED {op:02x} one iteration, value {v:02x}\nstart {}\n{}", show_cpu(&s), f.text)) }
                traces += 1;
            } } }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
        });
    }
    rep.bound("one iteration of each block instruction: all transferred values x all A (or all B) x 4 counter/C classes x 2 incoming F");
    flavours!(flags, rep);
}

// ------------------------------------------------------------------------------------------ C05

pub fn c05(rep: &Rep) {
    // tails: every opcode; CB with every second opcode; ED with every opcode
    let mut tails: Vec<Vec<u8>> = Vec::new();
    for op in 0..=255u8 {
        match op {
            0xDD | 0xFD => {}
            0xCB => for o in 0..=255u8 { tails.push(vec![0xCB, o, 0x85, 0x02]); tails.push(vec![0xCB, 0x7F, o, 0x02]) },
            0xED => for o in 0..=255u8 { tails.push(vec![0xED, o, 0x85, 0x60]) },
            _ => for b in [0x02u8, 0x80] { tails.push(vec![op, b, 0x61, 0x34]) },
        }
    }
    let maxc = rep.q(6usize, 9);
    let mut chains: Vec<Vec<u8>> = vec![];
    for l in 0..=maxc { for m in 0..1u32 << l { chains.push((0..l).map(|i| if m >> i & 1 == 0 { 0xDD } else { 0xFD }).collect()) } }
    rep.bound(format!("all {} prefix chains of length 0..{maxc} x {} opcode tails x offered INT / irq() / nmi() / limited runs / bytes fed directly / no interrupt x pc placement incl. wrap", chains.len(), tails.len()));
    fn go<F: Fla>(rep: &Rep, chains: &[Vec<u8>], tails: &[Vec<u8>]) {
        par(rep, tails.len(), || { let mut l = Lock::<F>::new(4096); l.fill(|a| if a < 0x100 { fill_std(a) } else { bg(a) }); l }, |lk, ti| {
            let t = &tails[ti];
            let (s0, e0) = (lk.steps, lk.events);
            let mut traces = 0;
            for c in chains { for how in 0..7u8 { for (pc, im) in [(0x8000u16, 1u8), (0xFFFD, 2)] {
                if im == 2 && c.len() > 3 { continue }
                let s = RCpu { pc, im, iff1: how != 3, iff2: true, ix: 0x6105, iy: 0x62F0, hl: 0x63A5, af: 0x5AC5, q: c.len() & 1 != 0, ..std_start() };
                lk.start(&s, EnvCfg::default());
                let mut bytes = c.clone(); bytes.extend(t);
                if how != 4 { lk.pokes(pc, &bytes) } else { lk.pokes(pc, &t[1..]) }
                let now = lk.kb.now;
                lk.cfg(|e| { e.io_in = 0x3C; if how == 1 || how == 5 || how == 6 { e.ints[0] = (now + 1, Ts::MAX) } });
                let mut acts = Vec::new();
                // the line is up from just after the start in 1, 5, 6: only the prefix protects
                match how {
                    0 | 1 => for _ in 0..c.len() + 1 { acts.push(Act::Step) },
                    2 => for i in 0..c.len() + 1 { if i > 0 { acts.push(Act::Irq) } acts.push(Act::Step) },
                    3 => for i in 0..c.len() + 1 { if i > 0 { acts.push(Act::Nmi) } acts.push(Act::Step) },
                    4 => { for b in c { acts.push(Act::Exec(*b)) } acts.push(Act::Exec(t[0])) }
                    5 => for i in 0..c.len() + 1 { acts.push(Act::Run(1 + i as u32 * 4)) },
                    _ => acts.push(Act::Run(4 * c.len() as u32 + 3)),
                }
                // what comes after: an ordinary opcode without prefix
                acts.push(Act::Step);
                if how == 2 { acts.push(Act::Irq) }
                let mut done = 0usize;
                for (n, a) in acts.iter().enumerate() {
                    let before = lk.rc;
                    match lk.act(*a) {
                        Err(f) => { rep.violation(format!("prefixes {c:02x?} then {t:02x?}, mode {how}, action {n} of {acts:?}\nstart {}\n{}", show_cpu(&s), f.text)); break }
                        Ok(()) => {
                            // model-independent: a prefix step changes only PC, R and the pending prefix
                            if how < 2 && done < c.len() {
                                let g = snap(&lk.c);
                                let mut w = before;
                                w.pc = w.pc.wrapping_add(1); w.r = w.r & 0x80 | w.r.wrapping_add(1) & 0x7F;
                                w.pfx = if c[done] == 0xDD { 1 } else { 2 };
                                w.q = g.q; w.ei = false;
                                if g != w || lk.ka.log.len() != 1 || lk.ka.now != now + 4 * (done as u32 + 1) || lk.ea.log().len() != 1 {
                                    rep.violation(format!("prefixes {c:02x?}: prefix step {done} is not a plain 4 T-state prefix step\nbefore {}\nafter {}", show_cpu(&before), show_cpu(&g)));
                                }
                                done += 1;
                            }
                        }
                    }
                }
                traces += 1;
            } } }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
            if ti % 301 == 3 { rep.sample(|| format!("{} all chains before {t:02x?}", F::NAME)) }
        });
    }
    flavours!(go, rep, &chains, &tails);
    // model-independent: a chain equals its last prefix
    fn last<F: Fla>(rep: &Rep, chains: &[Vec<u8>], tails: &[Vec<u8>]) {
        par(rep, tails.len(), || (Ex::<F>::new(&|a| bg(a)), Ex::<F>::new(&|a| bg(a))), |(x, y), ti| {
            let t = &tails[ti];
            let mut n = 0;
            let mut traces = 0;
            for c in chains { if c.len() < 2 { continue }
                let pc = 0x8000u16;
                let s = RCpu { pc, ix: 0x6105, iy: 0x62F0, hl: 0x63A5, af: 0x5AC5, r: 0x10, ..std_start() };
                let ignored = t[0] == 0xED || !uses_hl(t[0]);
                // the reference run: only the last prefix (or none where it is ignored)
                let keep: &[u8] = if ignored { &[] } else { &c[c.len() - 1..] };
                let skip = c.len() - keep.len();
                x.start(&s, EnvCfg::default()); 
                let mut b = c.clone(); b.extend(t);
                x.pokes(pc, &b);
                let mut s2 = s; s2.pc = pc + skip as u16; s2.r += skip as u8;
                y.start(&s2, EnvCfg::default());
                y.pokes(s2.pc, &b[skip..]);
                y.pokes(pc, &b[..skip]);
                y.k.now += 4 * skip as u32;
                let mut bad = None;
                for _ in 0..=c.len() { if let Err(m) = x.step() { bad = Some(m) } n += 1 }
                let (kx, bx) = (x.k.log.clone(), x.e.log().clone());
                for _ in 0..=keep.len() { if let Err(m) = y.step() { bad = Some(m) } n += 1 }
                let (a, b2) = (snap(&x.c), snap(&y.c));
                if bad.is_some() || a != b2 || kx[skip..] != y.k.log[..] || bx[skip..] != y.e.log()[..] {
                    rep.violation(format!("prefixes {c:02x?} before {t:02x?} do not act as {keep:02x?}: {bad:?}\n{}\n{}\ncycles {}\nversus {}", show_cpu(&a), show_cpu(&b2), show_log(&kx), show_log(&y.k.log)));
                }
                traces += 1;
            }
            rep.add(n, n, traces);
        });
    }
    rep.bound("every chain of 2.. prefixes gives the same execution as its last prefix alone (implementation against itself)");
    flavours!(last, rep, &chains, &tails);
}

// -------------------------------------------------------------------- implementation-only executor

pub struct Ex<F: Fla> { ld: Loader<F>, pub c: Z80<F>, pub e: Env, pub k: Clk }
#[derive(Clone)]
pub struct ExSave<F: Fla> { c: Z80<F>, m: usize, st: EnvSt, now: Ts, ln: usize, kn: usize, _p: PhantomData<F> }

impl<F: Fla> ExSave<F> {
    pub fn ln_(&self) -> usize { self.ln }
    pub fn kn_(&self) -> usize { self.kn }
}

impl<F: Fla> Ex<F> {
    pub fn new(fill: &dyn Fn(u16) -> u8) -> Self {
        let ld = Loader::new();
        let c = ld.load(&RCpu::default());
        let mut e = Env::new(1 << 14);
        for a in 0..65536usize { e.mem[a] = fill(a as u16) }
        Ex { ld, c, e, k: Clk::new(T0S, 1 << 14) }
    }
    pub fn start(&mut self, s: &RCpu, cfg: EnvCfg) {
        self.c = self.ld.load(s);
        self.e.rollback(0); self.e.cfg = cfg; self.e.st = EnvSt::default(); self.e.clear_log();
        self.k.log.clear(); self.k.now = T0S; self.k.mode = 0;
    }
    pub fn pokes(&mut self, a: u16, v: &[u8]) { for (i, b) in v.iter().enumerate() { self.e.poke(a.wrapping_add(i as u16), *b) } }
    /// logs accumulate
    pub fn step(&mut self) -> std::result::Result<Out, String> {
        let (c, e, k) = (&mut self.c, &mut self.e, &mut self.k);
        guard(|| impl_step(c, e, k))
    }
    pub fn act(&mut self, a: Act) -> std::result::Result<Option<Out>, String> {
        let (c, e, k) = (&mut self.c, &mut self.e, &mut self.k);
        guard(|| impl_act(c, e, k, a))
    }
    pub fn run(&mut self, limit: Ts) -> std::result::Result<Out, String> {
        let (c, e, k) = (&mut self.c, &mut self.e, &mut self.k);
        guard(|| out_of(c.execute_with_limit(e, k, limit)))
    }
    pub fn save(&self) -> ExSave<F> {
        ExSave { c: self.c.clone(), m: self.e.mark(), st: self.e.st.clone(), now: self.k.now, ln: self.e.log().len(), kn: self.k.log.len(), _p: PhantomData }
    }
    pub fn restore(&mut self, s: &ExSave<F>) {
        self.c = s.c.clone(); self.e.rollback(s.m); self.e.st = s.st.clone(); self.k.now = s.now;
        self.k.log.truncate(s.kn);
        unsafe { (*self.e.log.get()).truncate(s.ln) }
    }
}

/// Equal up to the lazily evaluated form of R (see Z80::normalize_r).
pub fn same_cpu<F: Fla>(a: &Z80<F>, b: &Z80<F>) -> bool {
    a == b || { let (mut a, mut b) = (a.clone(), b.clone()); a.normalize_r(); b.normalize_r(); a == b }
}

// ------------------------------------------------------------------------------------------ C09

struct Sched { name: String, cfg: EnvCfg }

/// From every boundary of the stepped execution, a run to every limit must end at the first boundary
/// at or past the limit (or at the first break), with the same state, bus log and cycle log.
fn c09_one<F: Fla>(rep: &Rep, x: &mut Ex<F>, s: &RCpu, code: &[u8], sch: &Sched, horizon: Ts, ticks: &mut [u64; 3], mode: u8) {
    x.start(s, sch.cfg);
    x.k.mode = mode;
    x.pokes(s.pc, code);
    // stepped reference
    struct B<F: Fla> { sv: ExSave<F>, mem: u64, out: Out, st: RCpu }
    let mut bs: Vec<B<F>> = vec![B { sv: x.save(), mem: 0, out: Out::Ok, st: snap(&x.c) }];
    let mut h = 0u64;
    while x.k.now < T0S + horizon {
        match x.step() {
            Ok(o) => {
                // memory digest from the writes of this step
                let m0 = bs.last().unwrap().sv.ln;
                for e in &x.e.log()[m0..] { h = (h ^ *e).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17) }
                bs.push(B { sv: x.save(), mem: h, out: o, st: snap(&x.c) });
            }
            Err(m) => { rep.violation(format!("stepping panicked: {m}\nprogram {code:02x?} {}\nstart {}", sch.name, show_cpu(s))); return }
        }
        ticks[0] += 1;
    }
    let full_log = x.e.log().clone();
    let full_clk = x.k.log.clone();
    let fin = bs.last().unwrap().sv.now;
    for i in (0..bs.len() - 1).rev() {
        x.restore(&bs[i].sv);
        let sv = x.save();
        let mut lim = bs[i].sv.now.saturating_sub(1);
        while lim <= fin {
            // expected end
            let mut j = i;
            let mut out = Out::Ok;
            while bs[j].sv.now < lim {
                j += 1;
                if j >= bs.len() { break }
                if bs[j].out != Out::Ok { out = bs[j].out; break }
            }
            if j >= bs.len() { break }
            let r = x.run(lim);
            let st = snap(&x.c);
            let ok = matches!(&r, Ok(o) if *o == out) && st == bs[j].st && x.k.now == bs[j].sv.now && x.e.st == bs[j].sv.st
                && same_cpu(&x.c, &bs[j].sv.c)
                && x.e.log().len() == bs[j].sv.ln && x.k.log.len() == bs[j].sv.kn
                && x.e.log()[bs[i].sv.ln..] == full_log[bs[i].sv.ln..bs[j].sv.ln]
                && x.k.log[bs[i].sv.kn..] == full_clk[bs[i].sv.kn..bs[j].sv.kn];
            ticks[1] += (j - i) as u64;
            ticks[2] += 1;
            if !ok {
                rep.violation(format!("{} run to {lim} from step boundary {i} (t={}) differs from stepping {} steps\nprogram {code:02x?} {}\nstart {}\nwant {:?} {} now={}\ngot  {:?} {} now={}\nwant cycles {}\ngot  cycles {}\nwant bus {}\ngot  bus {}",
                    F::NAME, bs[i].sv.now, j - i, sch.name, show_cpu(s), out, show_cpu(&bs[j].st), bs[j].sv.now, r, show_cpu(&st), x.k.now,
                    show_log(&full_clk[bs[i].sv.kn..bs[j].sv.kn]), show_log(&x.k.log[bs[i].sv.kn.min(x.k.log.len())..]),
                    show_log(&full_log[bs[i].sv.ln..bs[j].sv.ln]), show_log(&x.e.log()[bs[i].sv.ln.min(x.e.log().len())..])));
                return;
            }
            x.restore(&sv);
            // every limit near a boundary matters; inside a step all limits behave alike, but try them all
            lim += 1;
        }
    }
    let _ = bs.last().map(|b| b.mem);
}

pub fn c09(rep: &Rep) {
    let snip: &[&[u8]] = &[&[0x00], &[0xFB], &[0xF3], &[0x76], &[0xDD], &[0xFD, 0xDD], &[0xED, 0xB0], &[0xD3, 0x10], &[0xED, 0x4D],
        &[0xED, 0x57], &[0xFB, 0x76], &[0x18, 0xFE], &[0xED, 0x46], &[0xFB, 0xFB], &[0xED, 0xB3], &[0x10, 0xFE]];
    let depth = rep.q(3usize, 4);
    let mut progs: Vec<Vec<u8>> = vec![];
    fn gen(snip: &[&[u8]], d: usize, cur: Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if d == 0 { out.push(cur); return }
        for s in snip { let mut c = cur.clone(); c.extend(*s); gen(snip, d - 1, c, out) }
    }
    gen(snip, depth, vec![], &mut progs);
    let mut scheds = vec![];
    let mk = |name: String, ints: [(Ts, Ts); 4], vector: u8, bw: u64, br: u64| Sched { name, cfg: EnvCfg { ints, vector, vec_step: 0, brk_wr: bw, brk_reti: br, io_in: 9, ..EnvCfg::default() } };
    scheds.push(mk("no interrupt".into(), [(0, 0); 4], 0xFF, 0, 0));
    scheds.push(mk("breaks".into(), [(0, 0); 4], 0xFF, 0b101, 0b1));
    for t in [0u32, 1, 4, 5, 8, 12, 17, 21] { for v in [0xFFu8, 0xFB, 0x76, 0x00, 0xDD] {
        if v != 0xFF && t > 8 { continue }
        scheds.push(mk(format!("INT held from t={t}, vector {v:02x}"), [(T0S + t, Ts::MAX), (0, 0), (0, 0), (0, 0)], v, 0, 0));
    } }
    for t in [3u32, 4, 8, 12] { scheds.push(mk(format!("INT pulse of 1 T at {t}"), [(T0S + t, T0S + t + 1), (0, 0), (0, 0), (0, 0)], 0xFF, 0, 0)) }
    scheds.push(mk("two requests in IM 0 with EI".into(), [(T0S, Ts::MAX), (T0S + 8, Ts::MAX), (T0S + 20, Ts::MAX), (0, 0)], 0xFB, 1, 0));
    scheds.push(mk("two requests with EI, then OUT vector".into(), [(T0S, Ts::MAX), (T0S + 8, Ts::MAX), (0, 0), (0, 0)], 0xD3, 3, 1));
    scheds.push(mk("requests always".into(), [(T0S, Ts::MAX), (T0S, Ts::MAX), (T0S, Ts::MAX), (T0S, Ts::MAX)], 0xFB, 0, 0));
    rep.bound(format!("all {} programs of {depth} snippets from {} x {} interrupt/break schedules x IM 0..2 x IFFs x start halted/after EI/in a prefix: from every step boundary, every limit up to {} T-states later (all slicings of a run are compositions of these)", progs.len(), snip.len(), scheds.len(), 44));
    fn go<F: Fla>(rep: &Rep, progs: &[Vec<u8>], scheds: &[Sched]) {
        par(rep, progs.len(), || Ex::<F>::new(&fill_std), |x, i| {
            let code = &progs[i];
            let mut t = [0u64; 3];
            for sch in scheds { for im in 0..3u8 { for v in 0..6u8 {
                if v > 0 && im != 1 && sch.cfg.vector != 0xFB { continue }
                let mut s = RCpu { im, iff1: true, iff2: true, bc: 0x0203, ..std_start() };
                match v { 1 => { s.iff1 = false }, 2 => s.halt = true, 3 => s.ei = true, 4 => s.pfx = 1, 5 => s.iff2 = false, _ => {} }
                c09_one(rep, x, &s, code, sch, if v == 0 { 44 } else { 26 }, &mut t, (i & 1) as u8);
                if rep.stopped() { return }
            } } }
            rep.add(t[0] + t[1], t[1], t[2]);
            if i % 97 == 3 { rep.sample(|| format!("{} program {code:02x?}", F::NAME)) }
        });
    }
    flavours!(go, rep, &progs, &scheds);
    // every opcode, with the line up during it
    fn ops<F: Fla>(rep: &Rep) {
        let ops = all_ops();
        par(rep, ops.len(), || Ex::<F>::new(&|a| if a < 0x100 { fill_std(a) } else { bg(a) }), |x, i| {
            let o = ops[i];
            let mut t = [0u64; 3];
            for op1 in [0u8, 5] { for k in 0..4u8 {
                let s = RCpu { pfx: o.pfx, im: 1 + (k & 1), iff1: true, iff2: true, bc: 0x0203, ei: o.pfx == 0 && k & 2 != 0, ..std_start() };
                let mut code = o.code(op1, 0x81).to_vec(); code.extend([0x00, 0xFB, 0x04]);
                let sch = Sched { name: format!("INT during the opcode {o:02x?}"), cfg: EnvCfg { ints: [(T0S + 2, Ts::MAX), (T0S + 30, Ts::MAX), (0, 0), (0, 0)], vector: 0xC9, brk_wr: 1, brk_reti: 1, ws_out: 2, ws_in: 3, ..EnvCfg::default() } };
                c09_one(rep, x, &s, &code, &sch, 40, &mut t, k & 1);
            } }
            rep.add(t[0] + t[1], t[1], t[2]);
        });
    }
    rep.bound("every opcode of every table with an interrupt raised during it, every boundary x every limit within 40 T-states, wait states, stretched clock");
    flavours!(ops, rep);
}

// ------------------------------------------------------------------------------------------ C10

/// The text of a break cause names the cause, whichever way it is asked for.
fn cause_text(rep: &Rep) {
    use std::error::Error;
    use z80emu::BreakCause as B;
    fn one<O: std::fmt::Debug, R: std::fmt::Debug>(rep: &Rep, mk: &dyn Fn() -> B<O, R>, words: &[&str]) -> String {
        let c = mk();
        let t: &str = (&c).into();
        let t = t.to_string();
        let owned: &str = mk().into();
        #[allow(deprecated)]
        let d = c.description().to_string();
        if owned != t || c.to_string() != t || d != t || c.source().is_some() || !words.iter().all(|w| t.contains(w)) {
            rep.violation(format!("break cause {c:?}: text {t:?} / {owned:?} / {:?} / {d:?}, source {}, expected to name {words:?}", c.to_string(), c.source().is_some()));
        }
        rep.add(1, 1, 1);
        t
    }
    let mut all = vec![one::<u8, u8>(rep, &|| B::Halt, &["HALT"])];
    for v in 0..=255u8 {
        all.push(one::<u8, u16>(rep, &|| B::WriteIo(v), &["I/O", "write"]));
        all.push(one::<u16, u8>(rep, &|| B::Reti(v), &["interrupt"]));
    }
    all.sort(); all.dedup();
    if all.len() != 3 { rep.violation(format!("the three break causes have the texts {all:?}")) }
    rep.bound("the text of every break cause and payload byte through every conversion");
}

pub fn c10(rep: &Rep) {
    cause_text(rep);
    // every output instruction / RETI encoding x entry point x break mask, lock-step with the model
    let mut codes: Vec<Vec<u8>> = vec![vec![0xD3, 0x40], vec![0xED, 0x4D], vec![0x00]];
    for r in 0..8u8 { codes.push(vec![0xED, 0x41 | r << 3]); if r != 1 { codes.push(vec![0xED, 0x45 | r << 3]) } }
    for o in [0xA3u8, 0xAB, 0xB3, 0xBB, 0xA2, 0xB2] { codes.push(vec![0xED, o]) }
    codes.push(vec![0xDD, 0xD3, 0x40]);
    codes.push(vec![0xFD, 0xED, 0x4D]);
    codes.push(vec![0xDD, 0xED, 0x79]);
    codes.push(vec![0xFD, 0xED, 0xB3]);
    codes.push(vec![0xC9]); codes.push(vec![0x76]); codes.push(vec![0xDB, 0x10]);
    let depth = rep.q(3usize, 4);
    let n = codes.len();
    let mut progs: Vec<Vec<usize>> = vec![];
    for i in 0..n.pow(depth as u32) { progs.push((0..depth).map(|k| i / n.pow(k as u32) % n).collect()) }
    rep.bound(format!("all {} programs of {depth} instructions from {n} (every OUT/OUTI/OUTD/OTIR/OTDR/RETI/RETN form and others) x every subset of the first 3 writes and first 2 RETI notifications requesting a break x step / limited run / direct execution / IM 0 interrupt data, 3 flavours", progs.len()));
    fn go<F: Fla>(rep: &Rep, codes: &[Vec<u8>], progs: &[Vec<usize>]) {
        struct T<F: Fla> { lk: Lock<F>, x: Ex<F> }
        let mk = || { let mut lk = Lock::<F>::new(4096); lk.fill(fill_std); T { lk, x: Ex::<F>::new(&fill_std) } };
        par(rep, progs.len(), mk, |t, i| {
            let p = &progs[i];
            let code: Vec<u8> = p.iter().flat_map(|k| codes[*k].clone()).collect();
            let (s0, e0) = (t.lk.steps, t.lk.events);
            let mut traces = 0u64; let mut extra = 0u64;
            for m in 0..32u64 { for b in [0x01u16, 0x03] { for how in 0..4u8 {
                let (bw, br) = (m & 7, m >> 3);
                if how == 3 && m == 0 { continue }
                let s = RCpu { bc: b << 8 | 0x44, sp: 0x9FF0, im: 0, iff1: how == 3, iff2: true, q: m & 1 != 0, ..std_start() };
                let first = &codes[p[0]];
                let cfg = EnvCfg { brk_wr: bw, brk_reti: br, ws_out: if b == 3 { 2 } else { 0 }, ws_irq: 1, io_in: 0x21,
                    vector: first[0], ints: [if how == 3 { (T0S, Ts::MAX) } else { (0, 0) }, (0, 0), (0, 0), (0, 0)], ..EnvCfg::default() };
                let mem: &[u8] = if how >= 2 { &code[1..] } else { &code };
                t.lk.start(&s, cfg);
                t.lk.pokes(s.pc, mem);
                t.lk.pokes(0x9FF0, &[0x20, 0x80, 0x30, 0x80]);
                let acts: Vec<Act> = match how {
                    0 => vec![Act::Step; 7],
                    1 => vec![Act::Run(60), Act::Run(50), Act::Run(40), Act::Run(1)],
                    2 => vec![Act::Exec(first[0]), Act::Step, Act::Step, Act::Step],
                    _ => if m & 1 == 0 { vec![Act::Irq, Act::Step, Act::Step, Act::Run(30)] } else { vec![Act::Run(60), Act::Run(20), Act::Step] },
                };
                for a in &acts { if let Err(f) = t.lk.act(*a) {
                    rep.violation(format!("break requests writes={bw:b} retis={br:b}, program {code:02x?} entered by {acts:?}\nstart {}\n{}", show_cpu(&s), f.text));
                    break;
                } }
                traces += 1;
                // model-independent: with and without breaks the execution is the same, and the breaks
                // reported are exactly the requested ones
                if how < 2 {
                    let end = T0S + 100;
                    let x = &mut t.x;
                    let mut logs = vec![];
                    for brk in [false, true] {
                        let mut c2 = cfg; if !brk { c2.brk_wr = 0; c2.brk_reti = 0 }
                        x.start(&s, c2);
                        x.pokes(s.pc, mem);
                        x.pokes(0x9FF0, &[0x20, 0x80, 0x30, 0x80]);
                        let mut got = vec![];
                        let mut calls = 0;
                        while x.k.now < end {
                            let r = if how == 0 { x.step() } else { x.run(end) };
                            match r {
                                Ok(Out::Wr(v)) => got.push(v), Ok(Out::Reti(v)) => got.push(v), Ok(_) => {}
                                Err(m) => { rep.violation(format!("panic {m} in {code:02x?}")); break }
                            }
                            extra += 1;
                            calls += 1;
                            if calls > 200 { rep.violation(format!("no progress in {code:02x?}")); break }
                        }
                        let mut want: Vec<u32> = vec![];
                        let (mut nw, mut nr) = (0u32, 0u32);
                        for e in x.e.log() { match ev_kind(*e) {
                            B_OUT => { if c2.brk_wr >> nw & 1 != 0 { want.push(0x1000 + nw) } nw += 1 }
                            B_RETI => { if c2.brk_reti >> nr & 1 != 0 { want.push(0x2000 + nr) } nr += 1 }
                            _ => {} } }
                        logs.push((snap(&x.c), x.k.now, x.k.log.clone(), x.e.log().clone()));
                        if got != want { rep.violation(format!("breaks requested {want:x?} but reported {got:x?} (program {code:02x?}, how {how})")) }
                    }
                    if logs[0] != logs[1] { rep.violation(format!("break requests writes={bw:b} retis={br:b} change the execution of {code:02x?}\n{}\n{}", show_cpu(&logs[0].0), show_cpu(&logs[1].0))) }
                }
            } } }
            rep.add(t.lk.steps - s0 + t.lk.events - e0 + extra, t.lk.steps - s0 + extra, traces);
            if i % 211 == 3 { rep.sample(|| format!("{} program {code:02x?}", F::NAME)) }
        });
    }
    flavours!(go, rep, &codes, &progs);
    // a break in the same call as a limit that passes at every T-state, also from an interrupt acknowledged first
    fn lims<F: Fla>(rep: &Rep, codes: &[Vec<u8>]) {
        par(rep, codes.len() * 2, || { let mut lk = Lock::<F>::new(4096); lk.fill(fill_std); lk }, |lk, i| {
            let (first, halt) = (&codes[i / 2], i & 1 != 0);
            let (s0, e0) = (lk.steps, lk.events);
            let mut traces = 0;
            for second in codes { for lim in 0..=48u32 { for m in 0..8u64 { for int in [false, true] {
                if halt && !int { continue }
                let s = RCpu { bc: 0x0244, sp: 0x9FF0, im: 0, iff1: int, iff2: true, halt, ..std_start() };
                lk.start(&s, EnvCfg { brk_wr: m & 3, brk_reti: m >> 2 & 1, vector: first[0], ints: [if int { (T0S, T0S + 1) } else { (0, 0) }, (0, 0), (0, 0), (0, 0)], ..EnvCfg::default() });
                let mut code = if int { first[1..].to_vec() } else { first.clone() };
                code.extend(second);
                lk.pokes(s.pc.wrapping_add(halt as u16), &code);
                lk.pokes(0x9FF0, &[0x20, 0x80, 0x30, 0x80]);
                for a in [Act::Run(lim), Act::Run(4)] { if let Err(f) = lk.act(a) {
                    rep.violation(format!("breaks {m:b}, program {code:02x?}, interrupt data {first:02x?} {int}, then limits {lim}, 4\nstart {}\n{}", show_cpu(&s), f.text));
                    break;
                } }
                traces += 1;
            } } } }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
        });
    }
    rep.bound("every pair of those instructions, the first one from memory or as IM 0 data (running or halted) x limits 0..48 T x break subsets");
    flavours!(lims, rep, &codes);
    // no other opcode reports a break although every write and RETI requests one
    fn ops<F: Fla>(rep: &Rep) {
        let ops = all_ops();
        par(rep, ops.len(), || { let mut lk = Lock::<F>::new(4096); lk.fill(|a| bg(a)); lk }, |lk, i| {
            let o = ops[i];
            let (s0, e0) = (lk.steps, lk.events);
            let mut traces = 0;
            for op1 in 0..=255u8 { for f in [0u8, 0xFF] { for how in 0..3u8 {
                if op1 & 0x3F > 3 && op1 & 0x3F != 0x30 { continue }
                let s = RCpu { pfx: o.pfx, af: 0x1200 | f as u16, bc: 0x0203, ..std_start() };
                lk.start(&s, EnvCfg { brk_wr: !0, brk_reti: !0, ..EnvCfg::default() });
                let code = o.code(op1, 0x81);
                lk.pokes(s.pc, &code);
                let a = match how { 0 => Act::Step, 1 => Act::Run(1), _ => { lk.pokes(s.pc, &code[1..]); Act::Exec(code[0]) } };
                if let Err(fl) = lk.act(a) { if fl.comps & (C_INT | C_BUS | C_REGS | C_PANIC) != 0 {
                    rep.violation(format!("opcode {o:02x?} with breaks requested\n{}", fl.text))
                } }
                traces += 1;
            } } }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
        });
    }
    rep.bound("every opcode of every table with a break requested by every write and RETI");
    flavours!(ops, rep);
}
