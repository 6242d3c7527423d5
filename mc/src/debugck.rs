//! C14 C15 C16: debugger transparency, debug records, disassembler.
use crate::dis::*;
use crate::host::*;
use crate::lock::*;
use crate::onestep::*;
use crate::prog::flavours;
use crate::refm::*;
use crate::rep::*;
use crate::seq::{fill_std, std_start};
use crate::sut::*;
use z80emu::disasm::*;
use z80emu::z80::*;
use z80emu::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How { Next, Exec(u8), Irq }

pub fn run_dbg<C: Cpu>(c: &mut C, e: &mut Env, k: &mut Clk, how: How, recs: Option<&mut Vec<CpuDebug>>) -> Option<Out> {
    match recs {
        None => match how {
            How::Next => Some(impl_step(c, e, k)),
            How::Exec(b) => Some(out_of(c.execute_instruction::<_, _, CpuDebugFn>(e, k, NODBG, b))),
            How::Irq => impl_irq(c, e, k),
        },
        Some(v) => match how {
            How::Next => Some(out_of(c.execute_next(e, k, Some(|d: CpuDebug| v.push(d))))),
            How::Exec(b) => Some(out_of(c.execute_instruction(e, k, Some(|d: CpuDebug| v.push(d)), b))),
            How::Irq => c.irq(e, k, Some(|d: CpuDebug| v.push(d))).map(out_of),
        },
    }
}

pub struct D<F: Fla> { pub ld: Loader<F>, pub e: Env, pub k: Clk, pub n: u64, pub ev: u64 }
impl<F: Fla> D<F> {
    pub fn new(fill: &dyn Fn(u16) -> u8) -> Self {
        let mut e = Env::new(256);
        for a in 0..65536usize { e.mem[a] = fill(a as u16) }
        D { ld: Loader::new(), e, k: Clk::new(T0S, 256), n: 0, ev: 0 }
    }
    fn one(&mut self, s: &RCpu, cfg: &EnvCfg, mode: u8, how: How, mark: usize, recs: Option<&mut Vec<CpuDebug>>)
        -> (RCpu, std::result::Result<Option<Out>, String>, Ts, Vec<u64>, Vec<u64>, EnvSt, Z80<F>, Vec<(u16, u8)>) {
        self.e.rollback(mark);
        self.e.cfg = *cfg; self.e.st = EnvSt::default(); self.e.clear_log();
        self.k.log.clear(); self.k.now = T0S; self.k.mode = mode;
        let mut c = self.ld.load(s);
        let (e, k) = (&mut self.e, &mut self.k);
        let r = guard(|| run_dbg(&mut c, e, k, how, recs));
        self.n += 1;
        self.ev += (self.k.log.len() + self.e.log().len()) as u64;
        let wr: Vec<(u16, u8)> = self.e.undo[mark..].iter().map(|(a, _)| (*a, self.e.mem[*a as usize])).collect();
        (snap(&c), r, self.k.now, self.k.log.clone(), self.e.log().clone(), self.e.st.clone(), c, wr)
    }
    /// Runs with and without a debugger; both must agree; returns the records.
    pub fn both(&mut self, rep: &Rep, s: &RCpu, cfg: &EnvCfg, mode: u8, how: How, bytes: &[u8], at: u16) -> Option<Vec<CpuDebug>> {
        let m0 = self.e.mark();
        for (i, b) in bytes.iter().enumerate() { self.e.poke(at.wrapping_add(i as u16), *b) }
        let m = self.e.mark();
        let a = self.one(s, cfg, mode, how, m, None);
        let mut v = vec![];
        let b = self.one(s, cfg, mode, how, m, Some(&mut v));
        self.e.rollback(m);
        // how many instructions did it execute?
        self.e.st = EnvSt::default(); self.e.clear_log(); self.k.log.clear(); self.k.now = T0S;
        let mut rc = *s;
        let mut md = Model::new(&mut rc, &mut self.e, &mut self.k, F::F);
        match how { How::Next => { md.step(); } How::Exec(x) => { md.exec(x); } How::Irq => { md.irq(); } }
        let calls = md.dbg.calls as usize;
        self.e.rollback(m0);
        let same = a.0 == b.0 && a.1 == b.1 && a.1.is_ok() && a.2 == b.2 && a.3 == b.3 && a.4 == b.4 && a.5 == b.5 && crate::prog::same_cpu(&a.6, &b.6) && a.7 == b.7;
        if !same || v.len() != calls {
            rep.violation(format!("debugger changes execution or is called {} times (expected {calls}): {} {how:?} bytes {bytes:02x?}\nenv {cfg:?}\nstart   {}\nwithout {} {:?} now={} [{}] [{}]\nwith    {} {:?} now={} [{}] [{}]",
                v.len(), F::NAME, show_cpu(s), show_cpu(&a.0), a.1, a.2, show_log(&a.3), show_log(&a.4), show_cpu(&b.0), b.1, b.2, show_log(&b.3), show_log(&b.4)));
            return None;
        }
        Some(v)
    }
}

pub fn c14(rep: &Rep) {
    fn go<F: Fla>(rep: &Rep) {
        let ops = all_ops();
        par(rep, ops.len(), || D::<F>::new(&|a| if a < 0x100 { fill_std(a) } else { bg(a) }), |d, i| {
            let o = ops[i];
            let (n0, e0) = (d.n, d.ev);
            for b in 0..rep.q(4, 6) { let base = base_cells(b); for (cell, vals) in [(18usize, 256usize), (1, 256), (2, 16), (3, 16), (22, 256), (20, 8), (21, 8), (23, 32), (19, 32), (0, 64)] {
                for v in 0..vals {
                    let mut c = base;
                    c[cell] = (v * (256 / vals)) as u8;
                    if cell == 20 || cell == 21 { c[cell] = [0, 1, 0xFF, 0xFE, 0xFD, 0x80, 0x7F, 0x40][v] }
                    let mut cs = fixq::<F>(build(o, &c));
                    cs.cfg.brk_wr = (v & 1) as u64; cs.cfg.brk_reti = (v & 1) as u64;
                    d.both(rep, &cs.cpu, &cs.cfg, cs.mode, How::Next, &cs.code, cs.cpu.pc);
                    if cell == 1 || cell == 18 && v & 15 == 3 {
                        d.both(rep, &cs.cpu, &cs.cfg, cs.mode, How::Exec(cs.code[0]), &cs.code[1..], cs.cpu.pc);
                    }
                    if cell == 1 && v & 7 == 5 || cell == 18 && v & 31 == 3 {
                        // an instruction supplied from outside to a CPU that is halted, has just executed EI, or holds a prefix
                        for hid in 1..12u8 {
                            let mut cpu = cs.cpu;
                            cpu.halt = hid & 1 != 0; cpu.ei = hid & 2 != 0; cpu.pfx = hid >> 2;
                            d.both(rep, &cpu, &cs.cfg, cs.mode, How::Exec(cs.code[0]), &cs.code[1..], cpu.pc);
                            if o.pfx == 0 { d.both(rep, &cpu, &cs.cfg, cs.mode, How::Next, &cs.code, cpu.pc) ; }
                        }
                    }
                    if cell == 22 && o.pfx == 0 {
                        // interrupt entry with this opcode's first byte on the bus, through irq() and step, halted or not
                        for im in 0..3 { for halt in [false, true] { for how in [How::Irq, How::Next] {
                            let mut cpu = cs.cpu;
                            cpu.im = im; cpu.halt = halt; cpu.iff1 = v & 1 != 0; cpu.ei = v & 7 == 7; cpu.pfx = if v & 31 == 30 { 1 } else { 0 };
                            let mut cfg = cs.cfg;
                            cfg.vector = cs.code[0];
                            cfg.ints[0] = if v & 2 == 0 { (T0S, Ts::MAX) } else { (T0S + 1, Ts::MAX) };
                            d.both(rep, &cpu, &cfg, cs.mode, how, &cs.code[1..], cpu.pc.wrapping_add(halt as u16));
                        } } }
                    }
                }
                if rep.stopped() { return }
            } }
            if i % 311 == 3 { rep.sample(|| format!("{} {:02x?} with and without a debugger", F::NAME, o)) }
            rep.add(d.n - n0 + d.ev - e0, d.ev - e0, (d.n - n0) / 2);
        });
    }
    rep.bound("every opcode/prefix/flavour x operand, flag, counter, PC, IFF/IM/EI, port-data cells; step, direct execution (also while halted, after EI, with a pending prefix), interrupt acceptance in IM 0 (every opcode as data), 1, 2, halted or not, after EI, in a prefix, with breaks requested: state, bus log, cycle log, result and call count compared between runs with and without a closure");
    flavours!(go, rep);
    // sequences: attach the debugger on any subset of steps
    fn seqs<F: Fla>(rep: &Rep, depth: usize) {
        let codes: &[&[u8]] = &[&[0x00], &[0xFB], &[0x76], &[0xDD], &[0xED, 0xB0], &[0xED, 0x57], &[0x37], &[0x04], &[0xED, 0x4D], &[0x20, 0x01], &[0x10, 0x01], &[0xFD, 0xCB, 0x01, 0x46]];
        let n = codes.len().pow(depth as u32);
        par(rep, n, || crate::prog::Ex::<F>::new(&fill_std), |x, i| {
            let mut code = vec![];
            for k in 0..depth { code.extend(codes[i / codes.len().pow(k as u32) % codes.len()]) }
            let mut cnt = 0;
            let mut first: Option<(RCpu, Vec<u64>, Vec<u64>, Ts)> = None;
            for t in [0u32, 5, 11] { for im in [0u8, 2] {
                for mask in 0..1u32 << (depth + 2) {
                    let s = RCpu { im, iff1: true, iff2: true, bc: 0x0203, ..std_start() };
                    x.start(&s, EnvCfg { ints: [(T0S + t, Ts::MAX), (0, 0), (0, 0), (0, 0)], vector: 0xEF, ..EnvCfg::default() });
                    x.pokes(s.pc, &code);
                    for k in 0..depth + 2 {
                        let mut v = vec![];
                        let (c, e, kk) = (&mut x.c, &mut x.e, &mut x.k);
                        let r = guard(|| run_dbg(c, e, kk, How::Next, if mask >> k & 1 != 0 { Some(&mut v) } else { None }));
                        if let Err(m) = r { rep.violation(format!("panic {m} with debugger mask {mask:b} in {code:02x?}")) }
                        cnt += 1;
                    }
                    let now = (snap(&x.c), x.k.log.clone(), x.e.log().clone(), x.k.now);
                    if mask == 0 { first = Some(now) } else if first.as_ref() != Some(&now) {
                        rep.violation(format!("{} program {code:02x?} INT at {t} IM {im}: attaching the debugger on steps {mask:b} changes the run\n{}\n{}", F::NAME, show_cpu(&first.as_ref().unwrap().0), show_cpu(&now.0)));
                    }
                }
            } }
            rep.add(cnt, cnt, 6 << (depth + 2));
        });
    }
    rep.bound("all programs of 3 (quick) / 4 snippets x INT time x IM x every subset of steps with a debugger attached");
    let d = rep.q(3, 4);
    flavours!(seqs, rep, d);
}

/// Checks one record against the independent decoder; `pcs`: None = the address is not judged.
fn check_rec(rep: &Rep, what: &dyn Fn() -> String, d: &CpuDebug, want: &Ins, judge_pc: bool, texts: bool) -> bool {
    let mut got = of_record(d);
    if !judge_pc { got.pc = want.pc }
    if got != *want {
        rep.violation(format!("{}\nthe debug record is {:?}\ndecoded as  {:?}\nexpected    {:?}", what(), d, got, want));
        return false;
    }
    if texts {
        let mut w = want.clone(); w.pc = d.pc;
        for s in STYLES {
            let (g, e) = (guard(|| record_text(d, s)), text(&w, s));
            let g = match g { Ok(g) => g, Err(m) => { rep.violation(format!("{}\nformatting {s:?} panics: {m}", what())); return false } };
            if squeeze(&g) != squeeze(&e) || g != columns(&w, s) { rep.violation(format!("{}\ntext {s:?}: {g:?} expected {:?}", what(), columns(&w, s))); return false }
            let ga = record_arg_text(d, s);
            let ea = w.args.iter().map(|a| arg_text(a, s)).collect::<Vec<_>>().join(", ");
            if ga != ea { rep.violation(format!("{}\nargument text {s:?}: {ga:?} expected {ea:?}", what())); return false }
            let gp = match guard(|| record_arg_padded(d, s)) { Ok(g) => g, Err(m) => { rep.violation(format!("{}\nformatting padded {s:?} panics: {m}", what())); return false } };
            let ep = [format!("{ea:<20}"), format!("{ea:>17}"), format!("{ea:*^21}"), format!("{ea:2}")];
            if gp != ep { rep.violation(format!("{}\npadded argument text {s:?}: {gp:?} expected {ep:?}", what())); return false }
        }
    }
    true
}

/// Like check_rec but remembers nothing about text padding.
pub fn c15(rep: &Rep) {
    fn go<F: Fla>(rep: &Rep) {
        let ops = all_ops();
        par(rep, ops.len(), || D::<F>::new(&|a| bg(a)), |d, i| {
            let o = ops[i];
            let (n0, e0) = (d.n, d.ev);
            let idx = if o.table == 0 { 1 } else if o.table == 1 { 1 } else { 2 };
            for pc in [0x8000u16, 0xFFFF, 0xFFFE, 0xFFFD, 0xFFFC, 0x0000, 0x0001] {
                for f in [0u8, 0xFF, 0x41, 0x84] { for v in 0..=255u16 { for w in [0u8, 0x12, 0x80, 0xFF] {
                    if f != 0 && v & 7 != 5 && v != 0x80 { continue }
                    if pc != 0x8000 && w != 0x12 { continue }
                    let mut code = o.code(v as u8, w);
                    if idx == 2 { code[2] = v as u8; code[3] = w; }
                    let s = RCpu { pc, pfx: o.pfx, af: 0x3300 | f as u16, bc: if v & 1 == 0 { 0x0100 } else { 0x0201 }, im: 1, ..std_start() };
                    let mut full = code;
                    let how = if v & 3 == 2 && f == 0 { full.rotate_left(1); How::Exec(code[0]) } else { How::Next };
                    // execute_instruction: the opcode byte itself comes from the caller
                    let bytes: &[u8] = if how == How::Next { &code } else { &full[..5] };
                    let Some(recs) = d.both(rep, &s, &EnvCfg::default(), 0, how, bytes, pc) else { return };
                    let prefix_only = o.table == 0 && matches!(o.op, 0xDD | 0xFD);
                    if prefix_only {
                        if !recs.is_empty() { rep.violation(format!("debugger called for a lone prefix {o:02x?}: {recs:?}")) }
                        continue;
                    }
                    let opc = if how == How::Next { pc } else { pc.wrapping_sub(1) };
                    let mut at = |k: u16| Some(code[k as usize]);
                    let Some(want) = decode(o.pfx, opc, &mut at) else { continue };
                    let what = || format!("{} {how:?} {o:02x?} bytes {code:02x?} at {pc:04x} flags {f:02x}", F::NAME);
                    if recs.len() != 1 { rep.violation(format!("{}: {} records", what(), recs.len())); return }
                    if !check_rec(rep, &what, &recs[0], &want, true, pc == 0x8000 && F::F == Fl::Nmos) { return }
                } } }
                if rep.stopped() { return }
            }
            rep.add(d.n - n0 + d.ev - e0, d.ev - e0, (d.n - n0) / 2);
            if i % 311 == 3 { rep.sample(|| format!("{} records of {:02x?} with every operand byte", F::NAME, o)) }
        });
        // interrupt entries
        par(rep, 256, || D::<F>::new(&|a| bg(a)), |d, v| {
            let (n0, e0) = (d.n, d.ev);
            let v = v as u8;
            for im in 0..3u8 { for halt in [false, true] { for how in [How::Irq, How::Next] { for b in 0..=255u8 {
                if im != 0 && b & 31 != 0 { continue }
                let s = RCpu { im, halt, iff1: true, i: b, sp: 0x7000, bc: 0x0102, ..std_start() };
                let cfg = EnvCfg { vector: v, ints: [(T0S, Ts::MAX), (0, 0), (0, 0), (0, 0)], ..EnvCfg::default() };
                let code = [v, b, 0x5A, 0xA5, 0x11];
                let at = s.pc.wrapping_add(halt as u16);
                let Some(recs) = d.both(rep, &s, &cfg, 0, how, &code[1..], at) else { return };
                let what = || format!("{} interrupt IM {im} vector {v:02x} next bytes {:02x?} {how:?} halted {halt}", F::NAME, &code[1..]);
                let want = match im {
                    0 => { let mut g = |k: u16| Some(code[k as usize]); decode(0, at.wrapping_sub(1), &mut g) }
                    1 => decode(0, at.wrapping_sub(1), &mut |_| Some(0xFF)),
                    _ => {
                        let va = (b as u16) << 8 | v as u16;
                        let (l, h) = (d.e.mem[va as usize], d.e.mem[va.wrapping_add(1) as usize]);
                        // the stacked address and the code bytes may overlap the table
                        let over = |a: u16| (0x6FFE..0x7000).contains(&a) || (at..at + 4).contains(&a);
                        if over(va) || over(va.wrapping_add(1)) { continue }
                        decode(0, va.wrapping_sub(1), &mut |k| Some([0xC3, l, h][k as usize]))
                    }
                };
                match want {
                    None => if !recs.is_empty() { rep.violation(format!("{}: record for a lone prefix", what())) },
                    Some(w) => {
                        if recs.len() != 1 { rep.violation(format!("{}: {} records", what(), recs.len())); return }
                        if !check_rec(rep, &what, &recs[0], &w, false, false) { return }
                    }
                }
            } } } }
            rep.add(d.n - n0 + d.ev - e0, d.ev - e0, (d.n - n0) / 2);
        });
    }
    rep.bound("every opcode/prefix x every value of the first operand byte x 4 of the second, at 7 addresses including every position across the 64K wrap, flags making branches taken and not taken, step and direct execution; interrupt records in IM 0 for every byte and second byte, IM 1, IM 2; 5 text formats with their columns and 4 paddings each");
    flavours!(go, rep);
}

/// What the disassembler must visit.
pub fn split(pc: u16, m: &[u8]) -> Vec<Ins> {
    let mut v = vec![];
    let mut i = 0;
    let mut pfx = 0;
    while i < m.len() {
        match m[i] {
            0xDD => { pfx = 1; i += 1 }
            0xFD => { pfx = 2; i += 1 }
            _ => {
                let mut g = |k: u16| m.get(i + k as usize).copied();
                match decode(pfx, pc.wrapping_add(i as u16), &mut g) {
                    None => break,
                    Some(x) => { i += x.code.len() - (x.pfx != 0) as usize; v.push(x); pfx = 0 }
                }
            }
        }
    }
    v
}

fn dis_case<C: Cpu>(rep: &Rep, pc: u16, m: &[u8], deep: bool) -> u64 {
    describe_input([pc as u64, u64::from_le_bytes({ let mut b = [0; 8]; for (i, x) in m.iter().take(8).enumerate() { b[i] = *x } b }), m.len() as u64, 0]);
    let want = split(pc, m);
    let what = || format!("disassembling {m:02x?} at {pc:04x}");
    let mut got: Vec<CpuDebug> = vec![];
    let lim = m.len() + 2;
    let r = guard(|| disasm_memory::<C, _, ()>(pc, m, |d| { got.push(d); if got.len() > lim { Err(()) } else { Ok(()) } }));
    match r {
        Err(p) => { rep.violation(format!("{} panics: {p}", what())); return 1 }
        Ok(Err(())) => { rep.violation(format!("{}: more instructions than bytes", what())); return 1 }
        Ok(Ok(())) => {}
    }
    if got.len() != want.len() { rep.violation(format!("{}\ngot  {got:?}\nwant {want:?}", what())); return 1 }
    for (g, w) in got.iter().zip(&want) { if !check_rec(rep, &what, g, w, true, false) { return 1 } }
    if !deep { return 1 + got.len() as u64 }
    // stop by an error at every position
    for k in 0..got.len() {
        let mut n = 0;
        let r = disasm_memory::<C, _, usize>(pc, m, |d| { let i = n; n += 1; if i == k { Err(k + 7) } else { let _ = d; Ok(()) } });
        if r != Err(k + 7) || n != k + 1 { rep.violation(format!("{}: error from record {k} gives {r:?} after {n} records", what())) }
    }
    let once = disasm_memory_once::<C>(pc, m);
    if once.as_ref() != got.first() { rep.violation(format!("{}: disasm_memory_once gives {once:?}, disasm_memory {:?}", what(), got.first())) }
    let mut s = String::new();
    let r = disasm_memory_write_text::<C, _>(pc, m, &mut s);
    let lines: Vec<String> = s.lines().map(squeeze).collect();
    let wl: Vec<String> = want.iter().map(|w| squeeze(&text(w, Style::Hex))).collect();
    if r.is_err() || lines != wl { rep.violation(format!("{}: text {lines:?} expected {wl:?}", what())) }
    // a writer that fails after k lines
    struct W(usize);
    impl std::fmt::Write for W { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.contains('\n') { if self.0 == 0 { return Err(std::fmt::Error) } self.0 -= 1 } Ok(()) } }
    for k in 0..got.len() { if disasm_memory_write_text::<C, _>(pc, m, W(k)).is_ok() { rep.violation(format!("{}: a failing writer is not reported", what())) } }
    3 + got.len() as u64
}

/// The record of the first instruction the CPU executes at pc.
fn exec_first<F: Fla>(d: &mut D<F>, pc: u16, m: &[u8]) -> Option<CpuDebug> {
    let m0 = d.e.mark();
    for (i, b) in m.iter().enumerate() { d.e.poke(pc.wrapping_add(i as u16), *b) }
    d.e.st = EnvSt::default(); d.e.cfg = EnvCfg::default(); 
    let mut c = d.ld.load(&RCpu { pc, ..std_start() });
    let mut v = vec![];
    for _ in 0..m.len() {
        d.e.clear_log(); d.k.log.clear(); d.k.now = T0S;
        let (e, k) = (&mut d.e, &mut d.k);
        let _ = guard(|| run_dbg(&mut c, e, k, How::Next, Some(&mut v)));
        if !v.is_empty() { break }
    }
    d.e.rollback(m0);
    v.pop()
}

fn print_strings() -> Vec<(u16, Vec<u8>)> {
    let mut v: Vec<(u16, Vec<u8>)> = vec![(0, vec![])];
    for a in 0..=255u8 {
        v.push((0xFFFF, vec![a]));
        for b in 0..=255u8 {
            v.push((0x8000, vec![a, b]));
            v.push((0xFFFE, vec![a, b, b ^ 0x5A, a ^ 0xA5, 0x76]));
        }
    }
    v
}

/// What the child prints: every string's disassembly to stdout, between markers.
pub fn print_all() {
    for (i, (pc, m)) in print_strings().iter().enumerate() {
        println!("#{i}");
        match i % 4 { 0 => disasm_memory_print_text::<Z80<NMOS>>(*pc, m), 1 => disasm_memory_print_text::<Z80<CMOS>>(*pc, m), 2 => disasm_memory_print_text::<Z80<BM1>>(*pc, m), _ => disasm_memory_print_text::<Z80Any>(*pc, m) }
    }
    println!("#end");
}

fn printed(rep: &Rep) {
    let exe = std::env::current_exe().expect("exe");
    let out = std::process::Command::new(exe).arg("DISPRINT").env("MC_CHILD", "1").stderr(std::process::Stdio::null()).output().expect("child");
    let got = String::from_utf8_lossy(&out.stdout);
    let mut parts = got.split('#');
    parts.next();
    let strs = print_strings();
    for (pc, m) in &strs {
        let p = parts.next().unwrap_or("");
        let mut ls = p.lines();
        ls.next();
        let lines: Vec<String> = ls.map(squeeze).collect();
        let want: Vec<String> = split(*pc, m).iter().map(|w| squeeze(&text(w, Style::Hex))).collect();
        if lines != want { rep.violation(format!("disasm_memory_print_text of {m:02x?} at {pc:04x} prints {lines:?}, expected {want:?}")); return }
    }
    if !out.status.success() || parts.next() != Some("end\n") { rep.violation(format!("disasm_memory_print_text: the process ended with {:?}", out.status)) }
    let n = strs.len() as u64;
    rep.add(n, n, n);
    rep.bound("printed text (standard output of a child process) of every one- and two-byte string and a five-byte extension of each");
}

pub fn c16(rep: &Rep) {
    printed(rep);
    let origins: &[u16] = &[0x8000, 0xFFFE, 0xFFFF, 0x0000];
    // all strings up to length 3
    par(rep, 256, || D::<NMOS>::new(&|a| bg(a)), |d, a| {
        let a = a as u8;
        let mut n = 0; let mut t = 0;
        for pc in origins { n += dis_case::<Z80<NMOS>>(rep, *pc, &[a], true); t += 1;
            n += dis_case::<Z80Any>(rep, *pc, &[a], true); }
        for b in 0..=255u8 {
            for pc in origins { n += dis_case::<Z80<NMOS>>(rep, *pc, &[a, b], true); t += 1; }
            n += dis_case::<Z80<BM1>>(rep, 0xFFFE, &[a, b], true);
            n += dis_case::<Z80<CMOS>>(rep, 0x7FFF, &[a, b], true);
            for c in 0..=255u8 {
                let m = [a, b, c];
                n += dis_case::<Z80<NMOS>>(rep, [0x8000, 0xFFFE, 0xFFFD][(c % 3) as usize], &m, c & 31 == 1);
                t += 1;
                let ex = exec_first(d, 0x9000, &m);
                let on = disasm_memory_once::<Z80<NMOS>>(0x9000, &m);
                n += 1;
                if let Some(on) = on { if ex.as_ref() != Some(&on) {
                    rep.violation(format!("bytes {m:02x?} at 9000: disassembled as {on:?} but executed as {ex:?}"));
                } }
            }
            if rep.stopped() { return }
        }
        rep.add(n, n, t);
        if a % 50 == 1 { rep.sample(|| format!("every string starting {a:02x}")) }
    });
    rep.bound("every byte string of length 1..3 (at 4 / 4 / 3 origins), also compared with the record of real execution");
    // prefixed four-byte forms, complete
    par(rep, 256, || (), |_, a| {
        let a = a as u8;
        let mut n = 0; let mut t = 0;
        for b in 0..=255u8 { for p in [0xDDu8, 0xFD] {
            n += dis_case::<Z80<NMOS>>(rep, 0xFFFD, &[p, 0xCB, a, b], b & 15 == 0);
            n += dis_case::<Z80<BM1>>(rep, 0xFFFD, &[p, 0x36, a, b, 0x76], b & 15 == 0);
            n += dis_case::<Z80<NMOS>>(rep, 0x1000, &[0x00, p, a, b, p, 0xCB], b & 15 == 0);
            t += 3;
        }
            n += dis_case::<Z80<NMOS>>(rep, 0x1000, &[0xED, a, b, b ^ 0x5A, 0x76, 0xED], b & 15 == 0);
            t += 1;
        }
        rep.add(n, n, t);
    });
    rep.bound("every DDCB/FDCB string, LD (IX+d),n, ED + operands, prefix before every two-byte string");
    // strings over a class alphabet
    let alpha: &[u8] = &[0x00, 0x06, 0x01, 0x21, 0x36, 0x34, 0x18, 0x76, 0xC3, 0xCB, 0xED, 0xDD, 0xFD, 0xFB, 0x4D, 0xB0, 0x43];
    let len = rep.q(5u32, 6);
    let total = alpha.len().pow(len);
    let chunk = alpha.len().pow(len - 2);
    par(rep, total / chunk, || (), |_, i| {
        let mut n = 0;
        let mut m = vec![0u8; len as usize];
        for k in i * chunk..(i + 1) * chunk {
            let mut x = k;
            for b in m.iter_mut().rev() { *b = alpha[x % alpha.len()]; x /= alpha.len() }
            n += dis_case::<Z80<NMOS>>(rep, [0xFFFC, 0x0100][k & 1], &m, k % 7 == 0);
            if rep.stopped() { break }
        }
        rep.add(n, n, chunk as u64);
    });
    rep.bound(format!("every string of length {len} over {} instruction-class representatives", alpha.len()));
    // very long strings: the whole address space and more
    let long: Vec<u8> = (0..70000u32).map(|i| bg(i as u16) ^ (i >> 16) as u8).collect();
    for pc in [0u16, 0x8000, 0xFFFF] { let n = dis_case::<Z80<NMOS>>(rep, pc, &long, false); rep.add(n, n, 1) }
    for b in 0..=255u8 { let v = vec![b; 66000]; let n = dis_case::<Z80<CMOS>>(rep, 0xFFF0, &v, false); rep.add(n, n, 1) }
    rep.bound("strings longer than the address space: 70000 mixed bytes, 66000 times each byte");
    for pc in origins { let n = dis_case::<Z80Any>(rep, *pc, &[], true); rep.add(n, n, 1) }
}
