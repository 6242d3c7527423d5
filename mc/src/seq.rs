//! Stateless exploration of instruction/interrupt/API sequences: every path up to a depth, where at
//! each step the environment chooses the instruction lying at PC, the INT line, and the entry point.
use crate::host::*;
use crate::lock::*;
use crate::onestep::*;
use crate::refm::*;
use crate::rep::*;
use crate::sut::*;
use z80emu::z80::*;

/// INT line behaviour chosen for a step.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Line { Off, On, Rise, Pulse,
    /// for the single T-state this much later
    At(u8) }

#[derive(Clone, Debug)]
pub struct Choice { pub act: Act, pub line: Line, pub code: Vec<u8>, pub vector: u8, pub cfg: Option<(u16, u64, u64)> }

pub struct Spec {
    pub choices: Vec<Choice>,
    pub starts: Vec<RCpu>,
    pub depth: usize,
    pub mask: u32,
    pub fill: fn(u16) -> u8,
    pub mode: u8,
}

pub fn ch(act: Act, line: Line, code: &[u8]) -> Choice { Choice { act, line, code: code.to_vec(), vector: 0xFF, cfg: None } }

/// The cross product used by most specs: steps over an alphabet with the INT line off/on/rising; when
/// the line is on, the vectors.
pub fn product(codes: &[&[u8]], vectors: &[u8], runs: &[u32]) -> Vec<Choice> {
    let mut v = Vec::new();
    for c in codes {
        v.push(ch(Act::Step, Line::Off, c));
        v.push(ch(Act::Step, Line::Rise, c));
        v.push(ch(Act::Step, Line::On, c));
        for n in runs { for l in [Line::Off, Line::On, Line::Rise] { v.push(ch(Act::Run(*n), l, c)) } }
    }
    for x in vectors {
        let mut c = ch(Act::Step, Line::On, codes[0]);
        c.vector = *x;
        v.push(c.clone());
        c.act = Act::Irq;
        v.push(c.clone());
        for n in runs { c.act = Act::Run(*n); v.push(c.clone()) }
    }
    v.push(ch(Act::Nmi, Line::Off, codes[0]));
    v
}

/// Can this choice only repeat what an earlier choice at this node does?
fn redundant(rc: &RCpu, c: &Choice, first: &[u8], first_vec: u8) -> bool {
    let allowed = rc.iff1 && rc.pfx == 0 && !rc.ei;
    match (c.act, c.line) {
        (Act::Step, Line::On) => {
            if allowed { c.code != first && rc.im != 0 || (rc.im == 0 && c.code != first) }
            else { c.vector != first_vec || rc.halt && c.code != first }
        }
        (Act::Step, _) => rc.halt && c.code != first,
        (Act::Irq, _) => !allowed && c.vector != first_vec,
        _ => false,
    }
}

pub fn explore(rep: &Rep, sp: &Spec) {
    rep.bound(format!("all paths of length {} over {} choices per step (entry point x INT line x instruction x vector) from {} start states x 3 flavours, redundant choices merged",
        sp.depth, sp.choices.len(), sp.starts.len()));
    run::<NMOS>(rep, sp);
    run::<CMOS>(rep, sp);
    run::<BM1>(rep, sp);
}

pub fn run<F: Fla>(rep: &Rep, sp: &Spec) {
    let n = sp.starts.len() * sp.choices.len();
    par(rep, n, || { let mut l = Lock::<F>::new(4096); l.fill(sp.fill); l }, |lk, i| {
        let (s, c) = (i / sp.choices.len(), i % sp.choices.len());
        let (s0, e0) = (lk.steps, lk.events);
        lk.start(&sp.starts[s], EnvCfg::default());
        lk.ka.mode = sp.mode; lk.kb.mode = sp.mode;
        let mut path = Vec::new();
        let mut leaves = 0;
        dfs(rep, lk, sp, sp.depth, &mut path, &mut leaves, Some(c), &sp.starts[s]);
        rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, leaves);
        if i % 199 == 7 { rep.sample(|| format!("{} first choice {:?} from {}", F::NAME, sp.choices[c], show_cpu(&sp.starts[s]))) }
    });
}

#[allow(clippy::too_many_arguments)]
fn dfs<F: Fla>(rep: &Rep, lk: &mut Lock<F>, sp: &Spec, depth: usize, path: &mut Vec<usize>, leaves: &mut u64, only: Option<usize>, start: &RCpu) {
    if depth == 0 || rep.stopped() { *leaves += 1; return }
    let sv = lk.save();
    let first: &[u8] = &sp.choices[0].code;
    let (lo, hi) = match only { Some(c) => (c, c + 1), None => (0, sp.choices.len()) };
    for i in lo..hi {
        let c = &sp.choices[i];
        if redundant(&lk.rc, c, first, 0xFF) { continue }
        apply_env(lk, c);
        path.push(i);
        match lk.act(c.act) {
            Ok(()) => dfs(rep, lk, sp, depth - 1, path, leaves, None, start),
            Err(f) => if f.comps & (sp.mask | C_PANIC) != 0 {
                let p = path.iter().map(|i| format!("  {:?}", sp.choices[*i])).collect::<Vec<_>>().join("\n");
                rep.violation(format!("start {}\npath:\n{}\n{}", show_cpu(start), p, f.text));
            },
        }
        path.pop();
        lk.restore(&sv);
        if rep.stopped() { return }
    }
}

pub fn apply_env<F: Fla>(lk: &mut Lock<F>, c: &Choice) {
    let now = lk.kb.now;
    let pc = lk.rc.pc;
    lk.pokes(pc, &c.code);
    let w = match c.line {
        Line::Off => (0, 0),
        Line::On => (now, Ts::MAX),
        Line::Rise => (now + 1, Ts::MAX),
        Line::Pulse => (now, now + 1),
        Line::At(k) => (now + k as Ts, now + k as Ts + 1),
    };
    lk.cfg(|e| {
        e.ints = [w, (0, 0), (0, 0), (0, 0)];
        e.vector = c.vector;
        if let Some((ws, bw, br)) = c.cfg { e.ws_in = ws; e.ws_out = ws; e.ws_irq = ws; e.brk_wr = bw; e.brk_reti = br; }
    });
    lk.ea.st.acked = 0; lk.eb.st.acked = 0;
    if c.cfg.is_some() {
        for e in [&mut lk.ea, &mut lk.eb] { e.st.n_out = 0; e.st.n_reti = 0; }
    }
}

/// Memory background: NOPs, handlers at 0038 (EI; RET), 0066 (RETN), an IM 2 table page at 3Fxx that
/// leads to 9090 (EI; RETI).
pub fn fill_std(a: u16) -> u8 {
    match a {
        0x38 => 0xFB, 0x39 => 0xC9,
        0x66 => 0xED, 0x67 => 0x45,
        0x3F00..=0x4000 => 0x90,
        0x9090 => 0xFB, 0x9091 => 0xED, 0x9092 => 0x4D,
        _ => 0,
    }
}

pub fn std_start() -> RCpu {
    RCpu { af: 0x4400, bc: 0x0302, de: 0x6010, hl: 0x6000, af_: 0x1111, bc_: 0x2222, de_: 0x3333, hl_: 0x4444,
        ix: 0x6100, iy: 0x6200, sp: 0xFF00, pc: 0x8000, wz: 0x1234, i: 0x3F, r: 0x7D, ..Default::default() }
}
pub fn starts(ims: &[u8], iffs: &[(bool, bool)], halts: &[bool]) -> Vec<RCpu> {
    let mut v = Vec::new();
    for im in ims { for (a, b) in iffs { for h in halts {
        v.push(RCpu { im: *im, iff1: *a, iff2: *b, halt: *h, ..std_start() });
    } } }
    v
}

pub fn c06(rep: &Rep) {
    // breadth: which instructions can be followed by an acceptance
    let codes: &[&[u8]] = &[&[0x00], &[0xFB], &[0xF3], &[0x76], &[0xDD], &[0xED, 0x57], &[0xED, 0x45], &[0xED, 0x4D],
        &[0xED, 0xB0], &[0xED, 0x46], &[0xED, 0x56], &[0xED, 0x5E]];
    let vecs: &[u8] = &[0x00, 0xC7, 0xFB, 0xF3, 0xDD, 0xED, 0xCB, 0x76, 0xCD, 0xC3, 0xD3, 0xFF];
    let mut choices = product(codes, vecs, &[]);
    for a in [Act::EnInt, Act::DisInt, Act::Iffs(true, false), Act::Iffs(false, true), Act::RestIff] { choices.push(ch(a, Line::Off, &[0])) }
    let mask = C_INT | C_BUS | C_CLK | C_R;
    explore(rep, &Spec { choices, starts: starts(&[0, 1, 2], &[(true, true), (false, false), (true, false)], &[false, true]),
        depth: rep.q(4, 5), mask, fill: fill_std, mode: 0 });
    // the same under limited execution
    let codes: &[&[u8]] = &[&[0x00], &[0xFB], &[0xFB, 0xFB], &[0xFB, 0xF3], &[0x76], &[0xFB, 0x76], &[0xDD, 0xFD], &[0xED, 0x57], &[0xFB, 0xED, 0x4D], &[0xED, 0xB0]];
    let mut choices = product(codes, vecs, &[1, 5, 9, 40]);
    choices.push(ch(Act::EnInt, Line::Off, &[0]));
    explore(rep, &Spec { choices, starts: starts(&[0, 1, 2], &[(true, true), (false, false), (true, false)], &[false, true]),
        depth: rep.q(3, 4), mask, fill: fill_std, mode: 0 });
    // every opcode as the instruction before the acceptance, and every IM 0 vector, IM 2 vector and I
    all_ops_int(rep, mask, false);
    vectors(rep, mask);
}

/// Every opcode followed by a requested interrupt (or NMI), line held from before.
pub fn all_ops_int(rep: &Rep, mask: u32, nmi: bool) {
    fn go<F: Fla>(rep: &Rep, mask: u32, nmi: bool) {
        let ops = all_ops();
        par(rep, ops.len(), || { let mut l = Lock::<F>::new(4096); l.fill(fill_std); l }, |lk, i| {
            let o = ops[i];
            let (s0, e0) = (lk.steps, lk.events);
            let mut traces = 0;
            for im in 0..3u8 { for v in 0..8u8 { for op1 in [0x00u8, 0x05, 0xFB] {
                let mut s = std_start();
                s.im = im; s.pfx = o.pfx;
                // the instruction runs protected (after EI) or with iffs off, then the line is seen
                s.iff1 = v & 1 != 0; s.iff2 = v & 2 != 0; s.ei = v & 4 != 0;
                lk.start(&s, EnvCfg::default());
                lk.pokes(s.pc, &o.code(op1, 0x80));
                let now = lk.kb.now;
                lk.cfg(|e| { if !nmi { e.ints[0] = (now + 1, Ts::MAX) } e.vector = 0xCF });
                let mut acts = vec![Act::Step];
                if nmi { acts.extend([Act::Nmi, Act::Step, Act::Step, Act::Nmi, Act::Step]) }
                else { acts.extend([Act::Irq, Act::Step, Act::Step, Act::Irq, Act::Step]) }
                for (n, a) in acts.iter().enumerate() {
                    if let Err(f) = lk.act(*a) {
                        if f.comps & (mask | C_PANIC) != 0 && (n > 0 || f.comps & C_INT != 0) {
                            rep.violation(format!("opcode {o:02x?} then interrupt, action {n} of {acts:?}\nstart {}\n{}", show_cpu(&s), f.text))
                        }
                        break;
                    }
                }
                traces += 1;
            } } }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
        });
    }
    rep.bound("every opcode/prefix x IM x (IFF1,IFF2,after-EI) followed by repeated interrupt requests");
    go::<NMOS>(rep, mask, nmi);
    go::<CMOS>(rep, mask, nmi);
    go::<BM1>(rep, mask, nmi);
}

/// Acceptance in IM 0 with every vector byte (and every second byte for CB/ED/DD/FD), in IM 2 with
/// every vector and every I, at boundary SP and PC values, halted or not, with wait states.
fn vectors(rep: &Rep, mask: u32) {
    fn go<F: Fla>(rep: &Rep, mask: u32) {
        par(rep, 256, || { let mut l = Lock::<F>::new(4096); l.fill(|a| bg(a)); l }, |lk, v| {
            let (s0, e0) = (lk.steps, lk.events);
            let mut traces = 0;
            let v = v as u8;
            for im in 0..3u8 { for second in 0..=255u8 {
                // second: IM 0: byte after the vector; IM 2: the I register
                if im == 0 && !matches!(v, 0xCB | 0xED | 0xDD | 0xFD) && second & 0x3F != 1 { continue }
                if im == 1 && second > 7 { continue }
                for (sp, pc) in [(0xFF00u16, 0x8000u16), (0x0001, 0xFFFF), (0x0000, 0xFFFE), (0x8002, 0x8000)] { for halt in [false, true] { for ws in [0u16, 3] { for via in 0..3 {
                    let s = RCpu { sp, pc, halt, im, iff1: true, iff2: second & 1 != 0, i: second, r: v, ..std_start() };
                    lk.start(&s, EnvCfg::default());
                    let at = pc.wrapping_add(halt as u16);
                    lk.pokes(at, &[second, v ^ 0x55, second.wrapping_add(0x33), 0x12]);
                    let now = lk.kb.now;
                    lk.cfg(|e| { e.ints[0] = (now, Ts::MAX); e.vector = v; e.ws_irq = ws; e.io_in = v });
                    let a = [Act::Step, Act::Irq, Act::Run(1)][via];
                    if let Err(f) = lk.act(a) {
                        if f.comps & (mask | C_PANIC) != 0 {
                            rep.violation(format!("interrupt acceptance, vector {v:02x}, second byte or I {second:02x}\nstart {}\n{}", show_cpu(&s), f.text))
                        }
                    }
                    traces += 1;
                } } } }
            } }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
        });
    }
    rep.bound("acceptance: IM 0 with every vector (and every second byte for CB/ED/DD/FD vectors), IM 2 with every vector x every I, boundary SP/PC, halted or not, wait states, via step / irq() / limited run");
    go::<NMOS>(rep, mask);
    go::<CMOS>(rep, mask);
    go::<BM1>(rep, mask);
}

pub fn c07(rep: &Rep) {
    let codes: &[&[u8]] = &[&[0x00], &[0xFB], &[0xF3], &[0x76], &[0xDD], &[0xED, 0x57], &[0xED, 0x45], &[0xED, 0x4D], &[0xED, 0x7D], &[0xED, 0x5F]];
    let mut choices = product(codes, &[0xFF, 0xFB], &[]);
    for a in [Act::EnInt, Act::DisInt, Act::RestIff, Act::Halt, Act::Iffs(false, false), Act::Iffs(true, true)] { choices.push(ch(a, Line::Off, &[0])) }
    let mask = C_INT | C_BUS | C_CLK | C_R | C_YX;
    explore(rep, &Spec { choices: choices.clone(), starts: starts(&[1], &[(true, true), (false, false), (true, false), (false, true)], &[false, true]),
        depth: rep.q(5, 6), mask: mask | C_FLAGS, fill: fill_std, mode: 0 });
    all_ops_int(rep, mask, true);
    // every RETN/RETI encoding and LD A,I/R x IFFs x line; NMI at boundary addresses
    fn go<F: Fla>(rep: &Rep, mask: u32) {
        par(rep, 256, || { let mut l = Lock::<F>::new(4096); l.fill(|a| bg(a)); l }, |lk, v| {
            let (s0, e0) = (lk.steps, lk.events);
            let mut traces = 0;
            for m in 0..64u32 { for (sp, pc) in [(0xFF00u16, 0x8000u16), (0x0001, 0xFFFF), (0x0000, 0xFFFE), (0xFFFF, 0x0000), (0x8002, 0x8000)] {
                let s = RCpu { sp, pc, halt: m & 1 != 0, im: (m >> 4 & 3).min(2) as u8, iff1: m & 2 != 0, iff2: m & 4 != 0, ei: m & 9 == 8, i: v as u8, r: v as u8 ^ 0x80, ..std_start() };
                for a in [Act::Nmi, Act::Step] {
                    lk.start(&s, EnvCfg::default());
                    lk.pokes(pc, &[0xED, v as u8, 0x34, 0x12]);
                    let now = lk.kb.now;
                    lk.cfg(|e| e.ints[0] = (now + 9, Ts::MAX));
                    let mut ok = true;
                    for b in [a, Act::Nmi, Act::Step] {
                        if !ok { break }
                        if let Err(f) = lk.act(b) {
                            ok = false;
                            // ED xx: only the interrupt-enable related results belong to this property
                            if f.comps & (mask | C_PANIC) != 0 && (v as u8 & 0xC7 == 0x45 || b == Act::Nmi) || f.comps & C_FLAGS != 0 && (v == 0x57 || v == 0x5F) {
                                rep.violation(format!("ED {v:02x} / NMI\nstart {}\n{}", show_cpu(&s), f.text))
                            }
                        }
                    }
                    traces += 1;
                }
            } }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
        });
    }
    rep.bound("every ED opcode and NMI x IFF1 x IFF2 x IM x after-EI x halt at boundary SP/PC");
    go::<NMOS>(rep, mask);
    go::<CMOS>(rep, mask);
    go::<BM1>(rep, mask);
}

pub fn c08(rep: &Rep) {
    let codes: &[&[u8]] = &[&[0x00], &[0x76], &[0xFB], &[0xDD, 0x76], &[0xED, 0xB0]];
    let mut choices = product(codes, &[0xFF, 0x76, 0x00, 0xFB, 0xDD], &[1, 4, 5, 30]);
    for a in [Act::Halt, Act::Exec(0), Act::Exec(0x76), Act::Exec(0xDD), Act::Exec(0x3E), Act::Reset, Act::EnInt] { choices.push(ch(a, Line::Off, &[0])) }
    let mask = C_INT | C_BUS | C_CLK | C_R | C_REGS;
    let mut st = starts(&[0, 1, 2], &[(true, true), (false, false)], &[false, true]);
    for pc in [0xFFFFu16, 0xFFFE] { st.push(RCpu { pc, iff1: true, iff2: true, im: 1, ..std_start() }) }
    explore(rep, &Spec { choices, starts: st, depth: rep.q(3, 4), mask, fill: fill_std, mode: 0 });
    // long halts: every length up to the bound, R wraps, woken by INT or NMI or reset
    fn go<F: Fla>(rep: &Rep, mask: u32) {
        par(rep, 600, || { let mut l = Lock::<F>::new(4096); l.fill(fill_std); l }, |lk, n| {
            let (s0, e0) = (lk.steps, lk.events);
            let mut traces = 0;
            for pc in [0x8000u16, 0xFFFF] { for r in [0u8, 0x7F, 0xFF] { for how in 0..5 { for slice in [0u32, 1, 4, 7] {
                if slice != 0 && n > 64 { continue }
                let s = RCpu { pc, r, im: 1, iff1: how != 2, iff2: true, ..std_start() };
                lk.start(&s, EnvCfg::default());
                lk.poke(pc, 0x76);
                let mut acts = vec![Act::Step];
                for _ in 0..n { acts.push(if slice == 0 { Act::Step } else { Act::Run(slice) }) }
                if how == 3 { acts.push(Act::Reset) }
                if how == 4 { acts.push(Act::Exec(0x04)) }
                let mut fail = None;
                for a in acts { if let Err(f) = lk.act(a) { fail = Some(f); break } }
                if fail.is_none() {
                    let now = lk.kb.now;
                    if how == 0 { lk.cfg(|e| e.ints[0] = (now, Ts::MAX)) }
                    for a in [if how == 1 || how == 2 { Act::Nmi } else { Act::Step }, Act::Step, Act::Step] {
                        if let Err(f) = lk.act(a) { fail = Some(f); break }
                    }
                }
                if let Some(f) = fail { if f.comps & (mask | C_PANIC) != 0 {
                    rep.violation(format!("HALT for {n} cycles (slice {slice}), then {}\nstart {}\n{}",
                        ["INT", "NMI", "NMI with IFF1=0", "reset", "execute_instruction"][how], show_cpu(&s), f.text))
                } }
                traces += 1;
            } } } }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
        });
    }
    rep.bound("HALT of every length 0..600 cycles, stepped or in slices, ended by INT, NMI, reset or execute_instruction");
    go::<NMOS>(rep, mask);
    go::<CMOS>(rep, mask);
    go::<BM1>(rep, mask);
}

/// The interrupt line is sampled with the current clock value: requests lasting a single T-state, at
/// every T-state of the step, seen or not by the step, by limited runs, by irq() and by LD A,I / LD A,R.
pub fn c11(rep: &Rep) {
    let codes: &[&[u8]] = &[&[0x00], &[0xED, 0x57], &[0xED, 0x5F], &[0xDD], &[0xFB], &[0x76], &[0xD3, 0x10], &[0x18, 0x00], &[0xED, 0x45]];
    let mut choices = Vec::new();
    for k in 0..16u8 {
        for c in codes {
            choices.push(ch(Act::Step, Line::At(k), c));
            for n in [1, 4, 5, 9, 14] { choices.push(ch(Act::Run(n), Line::At(k), c)) }
        }
        if k < 2 { choices.push(ch(Act::Irq, Line::At(k), &[0])) }
    }
    for (i, c) in choices.iter_mut().enumerate() { if i & 1 != 0 { c.cfg = Some((2, 0, 0)) } }
    let st = starts(&[0, 1, 2], &[(true, true), (true, false), (false, true)], &[false, true]);
    for mode in 0..2 {
        explore(rep, &Spec { choices: choices.clone(), starts: st.clone(), depth: rep.q(2, 3), mask: C_INT | C_FLAGS | C_CLK, fill: fill_std, mode });
    }
}

/// Histories of R: accessors, LD R,A / LD A,R, fetches, interrupts.
pub fn c12(rep: &Rep) {
    let codes: &[&[u8]] = &[&[0x00], &[0xED, 0x4F], &[0xED, 0x5F], &[0xDD], &[0xDD, 0xCB, 0x01, 0x06], &[0xCB, 0x00], &[0x76], &[0xED, 0xB0], &[0xFB]];
    let mut choices = Vec::new();
    for c in codes { choices.push(ch(Act::Step, Line::Off, c)) }
    for (a, l) in [(Act::Step, Line::On), (Act::Irq, Line::On), (Act::Nmi, Line::Off), (Act::Run(9), Line::Off), (Act::Exec(0xED), Line::Off), (Act::Exec(0xCB), Line::Off)] { choices.push(ch(a, l, &[0x00])) }
    for a in [Act::SetR(0), Act::SetR(0x7F), Act::SetR(0x80), Act::SetR(0xFF), Act::AddR(1), Act::AddR(-1), Act::AddR(127), Act::AddR(128), Act::AddR(-129), Act::AddR(i32::MAX), Act::AddR(i32::MIN), Act::IncR, Act::Reset, Act::ExAf] { choices.push(ch(a, Line::Off, &[0])) }
    let mut st = Vec::new();
    for (r, im) in [(0x7Eu8, 1u8), (0xFF, 2), (0x00, 0)] { st.push(RCpu { r, im, iff1: true, iff2: true, af: 0xFE00 | r as u16, ..std_start() }) }
    explore(rep, &Spec { choices, starts: st, depth: rep.q(4, 5), mask: C_R | C_BUS, fill: fill_std, mode: 0 });
    // every value of R, set by the accessor, added to by every amount, with refresh and LD A,R observing
    fn go<F: Fla>(rep: &Rep) {
        par(rep, 256, || { let mut l = Lock::<F>::new(4096); l.fill(fill_std); l }, |lk, r| {
            let (s0, e0) = (lk.steps, lk.events);
            let mut traces = 0;
            for d in -260i32..=260 { for pre in 0..3 {
                let s = RCpu { r: r as u8 ^ 0x55, af: (r as u16) << 8, ..std_start() };
                lk.start(&s, EnvCfg::default());
                lk.pokes(s.pc, &[0xED, 0x4F, 0xED, 0x5F, 0x00]);
                let acts = match pre {
                    0 => vec![Act::SetR(r as u8), Act::AddR(d), Act::Step, Act::Step, Act::Step],
                    1 => vec![Act::Step, Act::AddR(d), Act::Step, Act::Step],
                    _ => vec![Act::Step, Act::IncR, Act::AddR(d), Act::IncR, Act::Step],
                };
                for (i, a) in acts.iter().enumerate() {
                    if let Err(f) = lk.act(*a) {
                        if f.comps & (C_R | C_BUS | C_REGS | C_PANIC) != 0 { rep.violation(format!("R history {acts:?}, action {i}\nstart {}\n{}", show_cpu(&s), f.text)) }
                        break;
                    }
                }
                traces += 1;
            } }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
        });
    }
    rep.bound("every R x every add_r amount -260..260, set by accessor or LD R,A, then LD A,R");
    go::<NMOS>(rep); go::<CMOS>(rep); go::<BM1>(rep);
}

/// Every instruction (or interrupt, or API call) followed by SCF / CCF / BIT n,(HL) and other observers.
pub fn c13(rep: &Rep) {
    fn go<F: Fla>(rep: &Rep) {
        let ops = all_ops();
        par(rep, ops.len(), || { let mut l = Lock::<F>::new(4096); l.fill(fill_std); l }, |lk, i| {
            let o = ops[i];
            let (s0, e0) = (lk.steps, lk.events);
            let mut traces = 0;
            const OBS: [&[u8]; 7] = [&[0x37], &[0x3F], &[0xCB, 0x46], &[0xDD, 0x37], &[0x37, 0x3F], &[0x00, 0x37], &[0xFD, 0xDD, 0x3F]];
            let mids: [&[Act]; 6] = [&[], &[Act::Irq], &[Act::Nmi], &[Act::ExAf, Act::Exx], &[Act::SetIm(1), Act::DisInt], &[Act::EnInt]];
            for obs in OBS { for (mi, mid) in mids.iter().enumerate() { for q in [false, true] { for af in 0..16u16 { for b in [1u16, 0x100, 0x2828] {
                let a = [0x00u16, 0x28, 0xD7, 0xFF][af as usize & 3]; let f = [0x00u16, 0x28, 0xD7, 0xFF][af as usize >> 2];
                let s = RCpu { af: a << 8 | f, af_: (f << 8 | a), bc: b, q, pfx: o.pfx, iff1: true, iff2: true, im: 1, ..std_start() };
                lk.start(&s, EnvCfg::default());
                lk.pokes(s.pc, &o.code(0x05, 0x80));
                lk.pokes(0x6000, &[0x28, 0x00]);
                lk.cfg(|e| e.io_in = 0x28);
                let run = |lk: &mut Lock<F>, a: Act, rep: &Rep, first: bool| -> bool {
                    match lk.act(a) {
                        Ok(()) => true,
                        Err(f) => {
                            if f.comps & (C_WZ | C_Q | C_YX | C_PANIC) != 0 && !first || f.comps & (C_WZ | C_Q) != 0 {
                                rep.violation(format!("{o:02x?}, then {mid:?}, then {obs:02x?}\nstart {}\n{}", show_cpu(&s), f.text));
                            }
                            false
                        }
                    }
                };
                if !run(lk, Act::Step, rep, true) { continue }
                if mi == 1 && lk.rc.pfx == 0 { lk.cfg(|e| e.ints[0] = (0, Ts::MAX)) }
                let mut ok = true;
                for a in mid.iter() { if ok { ok = run(lk, *a, rep, false) } }
                if !ok { continue }
                lk.cfg(|e| e.ints[0] = (0, 0));
                if lk.rc.halt { continue }
                let pc = lk.rc.pc;
                lk.pokes(pc, obs);
                for _ in 0..obs.len() { if ok { ok = run(lk, Act::Step, rep, false) } }
                traces += 1;
                if rep.stopped() { return }
            } } } } }
            rep.add(lk.steps - s0 + lk.events - e0, lk.steps - s0, traces);
        });
    }
    rep.bound("every opcode/prefix x {nothing, INT, NMI, exchange, IM/DI/EI calls} x {SCF, CCF, BIT 0,(HL), prefixed and chained forms} x 4 A x 4 F x Q x 3 BC x 3 flavours");
    go::<NMOS>(rep); go::<CMOS>(rep); go::<BM1>(rep);
}
