//! C19 C22 C23 C24: the clock, the parsers and constants, flag/pair helpers, forwarding macros.
use crate::host::*;
use crate::onestep::*;
use crate::refm::*;
use crate::rep::*;
use crate::sut::*;
use std::cell::RefCell;
use std::convert::TryFrom;
use std::num::{NonZeroU16, NonZeroU8, Wrapping};
use z80emu::host::TsCounter;
use z80emu::*;

// ------------------------------------------------------------------ C19

pub trait Cnt: Copy + PartialEq + PartialOrd + Ord + std::fmt::Debug + std::fmt::Display + From<u8> + From<u16> + Default + Send + Sync + 'static
    + serde::Serialize + for<'a> serde::Deserialize<'a>
where Wrapping<Self>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<Self>> {
    const NAME: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    fn of(v: u128) -> Self;
    fn val(self) -> u128;
}
macro_rules! cnt { ($($t:ident $s:expr),*) => { $(impl Cnt for $t {
    const NAME: &'static str = stringify!($t);
    const BITS: u32 = <$t>::BITS;
    const SIGNED: bool = $s;
    fn of(v: u128) -> Self { v as $t }
    fn val(self) -> u128 { (self as u128) & msk(<$t>::BITS) }
})* } }
fn msk(b: u32) -> u128 { if b == 128 { !0 } else { (1u128 << b) - 1 } }
cnt!(u16 false, u32 false, u64 false, u128 false, usize false, i32 true, i64 true, i128 true);

/// a >= b in the order of the counter type, on the bit patterns
fn past<T: Cnt>(a: u128, b: u128) -> bool where Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> {
    let top = if T::SIGNED { 1u128 << (T::BITS - 1) } else { 0 };
    a ^ top >= b ^ top
}

#[derive(Clone, Copy, Debug)]
enum Ev { Irq(u16), Io(u16), Mreq(u16), M1(u16), No(u16, u8), Ws(u16, u16) }
/// (returned timestamp offset, counter increment)
fn ev_model(e: Ev) -> (Option<u128>, u128) {
    match e {
        Ev::Irq(_) => (Some(2), 6), Ev::Io(_) => (Some(1), 4), Ev::Mreq(_) => (Some(3), 3), Ev::M1(_) => (Some(4), 4),
        Ev::No(_, n) => (None, n as u128), Ev::Ws(_, n) => (None, n as u128),
    }
}
fn ev_real<C: Clock>(c: &mut C, e: Ev) -> Option<C::Timestamp> {
    match e {
        Ev::Irq(a) => Some(c.add_irq(a)), Ev::Io(a) => Some(c.add_io(a)), Ev::Mreq(a) => Some(c.add_mreq(a)), Ev::M1(a) => Some(c.add_m1(a)),
        Ev::No(a, n) => { c.add_no_mreq(a, NonZeroU8::new(n).unwrap()); None }
        Ev::Ws(a, n) => { c.add_wait_states(a, NonZeroU16::new(n).unwrap()); None }
    }
}

/// Shares an Env between hosts with other timestamp types.
struct THost<'a, T: Cnt> where Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> { e: &'a mut Env, start: u128, _t: std::marker::PhantomData<T> }
impl<T: Cnt> THost<'_, T> where Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> {
    fn ts(&self, t: T) -> Ts { T0.wrapping_add((t.val().wrapping_sub(self.start) & msk(T::BITS)) as u32) }
}
impl<T: Cnt> Io for THost<'_, T> where Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> {
    type Timestamp = T;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, p: u16, ts: T) -> (u8, Option<NonZeroU16>) { let t = self.ts(ts); self.e.read_io(p, t) }
    fn write_io(&mut self, p: u16, d: u8, ts: T) -> (Option<u32>, Option<NonZeroU16>) { let t = self.ts(ts); self.e.write_io(p, d, t) }
    fn is_irq(&mut self, ts: T) -> bool { let t = self.ts(ts); self.e.is_irq(t) }
    fn irq_data(&mut self, pc: u16, ts: T) -> (u8, Option<NonZeroU16>) { let t = self.ts(ts); self.e.irq_data(pc, t) }
    fn reti(&mut self, a: u16, ts: T) -> Option<u32> { let t = self.ts(ts); self.e.reti(a, t) }
}
impl<T: Cnt> Memory for THost<'_, T> where Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> {
    type Timestamp = T;
    fn read_mem(&self, a: u16, ts: T) -> u8 { self.e.read_mem(a, self.ts(ts)) }
    fn read_mem16(&self, a: u16, ts: T) -> u16 { self.e.read_mem16(a, self.ts(ts)) }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: T) -> u8 { let t = self.ts(ts); self.e.read_opcode(pc, ir, t) }
    fn write_mem(&mut self, a: u16, v: u8, ts: T) { let t = self.ts(ts); self.e.write_mem(a, v, t) }
    fn read_debug(&self, a: u16) -> u8 { self.e.read_debug(a) }
}

struct Two<F: Fla> { ld: Loader<F>, env: Env, n: u64, nev: u64 }
impl<F: Fla> Two<F> {
    fn new() -> Self {
        let mut env = Env::new(64);
        for a in 0..65536usize { env.mem[a] = bg(a as u16) }
        Two { ld: Loader::new(), env, n: 0, nev: 0 }
    }
    fn prep(&mut self, cs: &Case) -> (usize, usize) {
        let m0 = self.env.mark();
        place(&mut self.env, cs);
        let m1 = self.env.mark();
        self.again(cs);
        self.n += 1;
        (m0, m1)
    }
    fn again(&mut self, cs: &Case) {
        self.env.cfg = cs.cfg;
        self.env.st = EnvSt::default();
        self.env.clear_log();
    }
}

/// One call on any host/clock.
fn go<C: Cpu, M, K>(c: &mut C, cs: &Case, m: &mut M, k: &mut K, limit: K::Limit) -> Result<Option<Out>, String>
where M: Memory<Timestamp = K::Timestamp> + Io<Timestamp = K::Timestamp, WrIoBreak = u32, RetiBreak = u32>, K: Clock, K::Timestamp: Copy {
    guard(|| match cs.entry {
        Entry::Next => Some(out_of(c.execute_next::<_, _, CpuDebugFn>(m, k, NODBG))),
        Entry::Irq => c.irq::<_, _, CpuDebugFn>(m, k, NODBG).map(out_of),
        Entry::Nmi => if c.nmi(m, k) { Some(Out::Ok) } else { None },
        Entry::Run => Some(out_of(c.execute_with_limit(m, k, limit))),
        Entry::Exec => Some(out_of(c.execute_instruction::<_, _, CpuDebugFn>(m, k, NODBG, cs.code[0]))),
    })
}

fn c19_exec<F: Fla, T: Cnt>(rep: &Rep, t: &mut Two<F>, cs: &Case, start: u128) where Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> {
    let (m0, m1) = t.prep(cs);
    let mut c = t.ld.load(&cs.cpu);
    let mut k = Clk::new(T0, 64);
    let mut cs0 = *cs;
    cs0.mode = 0;
    let a = go(&mut c, &cs0, &mut t.env, &mut k, T0 + 1);
    let (la, sa) = (t.env.log().clone(), snap(&c));
    let da = k.now - T0;
    t.env.rollback(m1);
    t.again(cs);
    let mut c = t.ld.load(&cs.cpu);
    let mut k2 = TsCounter::<T>::from(T::of(start));
    let b = {
        let mut h = THost::<T> { e: &mut t.env, start: start & msk(T::BITS), _t: Default::default() };
        go(&mut c, &cs0, &mut h, &mut k2, T::of(start.wrapping_add(1)))
    };
    let db = k2.as_timestamp().val().wrapping_sub(start) & msk(T::BITS);
    t.nev += la.len() as u64;
    if a != b || sa != snap(&c) || la != *t.env.log() || da as u128 != db {
        rep.violation(format!("the same call takes another course on TsCounter<{}> started at {start:#x}\nflavour {} entry {:?} code {:02x?} env {:?}\nstart {}\nrecording clock: {a:?} {} T-states, {}\nTsCounter      : {b:?} {} T-states, {}\nbus (recording): {}\nbus (TsCounter): {}",
            T::NAME, F::NAME, cs.entry, cs.code, cs.cfg, show_cpu(&cs.cpu), da, show_cpu(&sa), db, show_cpu(&snap(&c)), show_log(&la), show_log(t.env.log())));
    }
    t.env.rollback(m0);
}

fn c19_t<T: Cnt>(rep: &Rep) where Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> {
    let m = msk(T::BITS);
    let mut starts: Vec<u128> = vec![];
    for b in [0u128, 1 << (T::BITS - 1), m, 0x7FFF, 0xFFFF, 0x1_0000, 69888] { for d in 0..20u128 { starts.push(b.wrapping_add(d).wrapping_sub(10) & m) } }
    if T::BITS == 16 { starts = (0..65536).collect() }
    starts.sort();
    starts.dedup();
    let mut evs = vec![];
    for a in [0u16, 1, 0x7FFF, 0x8000, 0xFFFF] {
        evs.extend([Ev::Irq(a), Ev::Io(a), Ev::Mreq(a), Ev::M1(a)]);
        for n in 1..=255u8 { evs.push(Ev::No(a, n)) }
    }
    for n in 1..=65535u16 { if T::BITS != 16 || n < 300 || n > 65200 || n % 257 == 0 { evs.push(Ev::Ws(n ^ 0x5555, n)) } }
    par(rep, starts.len(), || (), |_, i| {
        let s = starts[i];
        let mut n = 0u64;
        for &e in &evs {
            let mut c = TsCounter::<T>::from(T::of(s));
            let r = ev_real(&mut c, e).map(|t| t.val());
            let (ts, inc) = ev_model(e);
            n += 1;
            if r != ts.map(|t| s.wrapping_add(t) & m) || c.as_timestamp().val() != s.wrapping_add(inc) & m || (c.0).0 != c.as_timestamp() {
                rep.violation(format!("TsCounter<{}> at {s:#x}: {e:?} returned {r:x?} and left {:#x}; documented timestamp offset {ts:?}, increment {inc}", T::NAME, c.as_timestamp().val()));
                return;
            }
        }
        for d in [0u128, 1, 2, 0xFF, 0x100, 1 << (T::BITS - 1)] { for l in [s.wrapping_add(d) & m, s.wrapping_sub(d) & m, d & m, m - (d & m)] {
            let c = TsCounter::<T>::from(T::of(s));
            n += 1;
            if c.is_past_limit(T::of(l)) != past::<T>(s, l) {
                rep.violation(format!("TsCounter<{}> at {s:#x}: is_past_limit({l:#x}) = {}", T::NAME, c.is_past_limit(T::of(l))));
            }
            let o = TsCounter::<T>::from(Wrapping(T::of(l)));
            if (c == o) != (s == l) || (c >= o) != past::<T>(s, l) || c.cmp(&o).reverse() != o.cmp(&c) { rep.violation(format!("TsCounter<{}> comparison of {s:#x} and {l:#x}", T::NAME)) }
        } }
        let c = TsCounter::<T>::from(T::of(s));
        let mut d = TsCounter::<T>::default();
        let z = d.as_timestamp().val();
        *d = Wrapping(T::of(s));
        if z != 0 || d != c || *c != Wrapping(T::of(s)) || c != TsCounter(Wrapping(T::of(s))) { rep.violation(format!("TsCounter<{}> conversions at {s:#x}", T::NAME)) }
        // serialized as the bare number
        let js = serde_json::to_string(&c).unwrap_or_default();
        if js != format!("{}", T::of(s)) || serde_json::from_str::<TsCounter<T>>(&js).ok() != Some(c) { rep.violation(format!("TsCounter<{}> serialization at {s:#x}: {js}", T::NAME)) }
        rep.add(n, n, n);
    });
    // sequences
    let seq = [Ev::Irq(1), Ev::Io(2), Ev::Mreq(3), Ev::M1(4), Ev::No(5, 1), Ev::No(5, 255), Ev::Ws(6, 1), Ev::Ws(6, 65535)];
    let depth = rep.q(5, 7);
    let st = [m - 20, m - 3, m, (m >> 1) - 2, 0];
    par(rep, st.len() * 8, || (), |_, i| {
        let (s, first) = (st[i / 8], i % 8);
        let mut n = 0u64;
        fn rec<T: Cnt>(rep: &Rep, seq: &[Ev], c: TsCounter<T>, v: u128, d: usize, n: &mut u64, path: &mut Vec<usize>) where Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> {
            for (j, &e) in seq.iter().enumerate() {
                if path.is_empty() { continue }
                step(rep, seq, c, v, d, n, path, j, e)
            }
        }
        #[allow(clippy::too_many_arguments)]
        fn step<T: Cnt>(rep: &Rep, seq: &[Ev], mut c: TsCounter<T>, v: u128, d: usize, n: &mut u64, path: &mut Vec<usize>, j: usize, e: Ev) where Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> {
            let m = msk(T::BITS);
            let r = ev_real(&mut c, e).map(|t| t.val());
            let (ts, inc) = ev_model(e);
            let w = v.wrapping_add(inc) & m;
            *n += 1;
            path.push(j);
            if r != ts.map(|t| v.wrapping_add(t) & m) || c.as_timestamp().val() != w { rep.violation(format!("TsCounter<{}> after events {path:?}: {:#x} returned {r:x?}, expected {w:#x}", T::NAME, c.as_timestamp().val())) }
            if d > 1 { rec(rep, seq, c, w, d - 1, n, path) }
            path.pop();
        }
        step(rep, &seq, TsCounter::<T>::from(T::of(s)), s & m, depth, &mut n, &mut vec![], first, seq[first]);
        rep.add(n, n, 1);
    });
    rep.note(format!("{}: {} start values x {} events, 24 limits each; all sequences of {} events to depth {} from {} start values", T::NAME, starts.len(), evs.len(), seq.len(), depth, st.len()));
}

fn c19_items<F: Fla, T: Cnt>(rep: &Rep, its: &[Item]) where Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> {
    let m = msk(T::BITS);
    let nbase = rep.q(3, 6);
    let all: Vec<u8> = (0..=255).collect();
    let vals: &[u8] = if rep.thorough() { &all } else { &[0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF, 0x55] };
    par(rep, its.len(), Two::<F>::new, |t, i| {
        let o = &its[i];
        let (n0, e0) = (t.n, t.nev);
        for b in 0..nbase {
            let base = base_cells(b);
            for cell in 0..NCELLS { for &v in vals {
                
                let mut c = base;
                c[cell] = v;
                let cs = fixq::<F>(build_item(o, &c));
                let starts: &[u128] = if o.entry == Entry::Run { &[0, 12345] } else { &[m - 3, 12345, m - 17, m >> 1] };
                c19_exec::<F, T>(rep, t, &cs, starts[(cell + v as usize) % starts.len()]);
            } }
            if rep.stopped() { return }
        }
        rep.add(t.n - n0 + t.nev - e0, t.nev - e0, t.n - n0);
    });
}

pub fn c19(rep: &Rep) {
    use z80emu::host::cycles::*;
    if (M1_CYCLE_TS, MEMRW_CYCLE_TS, IO_IORQ_LOW_TS, IO_CYCLE_TS, INT_IORQ_LOW_TS, IRQ_ACK_CYCLE_TS) != (4, 3, 1, 4, 2, 6) {
        rep.violation("a host::cycles constant differs from its documented value".into());
    }
    c19_t::<u16>(rep); c19_t::<u32>(rep); c19_t::<u64>(rep); c19_t::<u128>(rep);
    c19_t::<i32>(rep); c19_t::<i64>(rep); c19_t::<i128>(rep); c19_t::<usize>(rep);
    let its = items(1);
    rep.bound(format!("{} items (instructions, interrupts) on TsCounter of u16, i32, u32, u64, i128 against the recording clock, from counter values at and around the wrap", its.len()));
    use z80emu::z80::*;
    c19_items::<NMOS, u16>(rep, &its);
    c19_items::<NMOS, i32>(rep, &its);
    c19_items::<CMOS, u32>(rep, &its);
    c19_items::<BM1, u64>(rep, &its);
    c19_items::<NMOS, i128>(rep, &its);
    rep.sample(|| "TsCounter<i32> at 0x7fffffff: M1 -> timestamp and counter 0x80000003".into());
}

// ------------------------------------------------------------------ C22

/// What an instruction did, seen from outside.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Eff { pc: u16, sp: u16, iff: (bool, bool), halt: bool, reti: u32, same: bool, b: u8 }

fn eff(ld: &Loader<z80emu::z80::NMOS>, env: &mut Env, s: &RCpu, code: &[u8]) -> Eff {
    let m = env.mark();
    for (i, b) in code.iter().enumerate() { env.poke(s.pc.wrapping_add(i as u16), *b) }
    env.poke(s.sp, 0xBC);
    env.poke(s.sp + 1, 0x9A);
    env.st = EnvSt::default();
    env.clear_log();
    let mut c = ld.load(s);
    let mut k = Clk::new(T0, 64);
    let mut steps = 1;
    if matches!(code[0], 0xDD | 0xFD) { steps = 2 }
    for _ in 0..steps { let _ = impl_step(&mut c, env, &mut k); }
    let g = snap(&c);
    let wr = env.log().iter().any(|e| matches!(ev_kind(*e), B_WR | B_OUT | B_IN));
    let mut x = g;
    x.pc = s.pc; x.r = s.r; x.q = s.q; x.wz = s.wz;
    let r = Eff { pc: g.pc, sp: g.sp, iff: (g.iff1, g.iff2), halt: g.halt, reti: env.st.n_reti, same: x == *s && !wr, b: (g.bc >> 8) as u8 };
    env.rollback(m);
    r
}

const CCN: [&str; 8] = ["NZ", "Z", "NC", "C", "PO", "PE", "P", "M"];

pub fn c22(rep: &Rep) {
    use z80emu::opconsts::*;
    let ld = Loader::<z80emu::z80::NMOS>::new();
    let mut env = Env::new(64);
    let mut n = 0u64;
    let base = RCpu { bc: 0x0203, de: 0x0405, hl: 0x0607, ix: 0x0809, iy: 0x0A0B, sp: 0x8000, pc: 0x4000, iff1: false, iff2: true, ..Default::default() };
    const NN: u16 = 0x5678;
    const RETPC: u16 = 0x9ABC;
    const REL: u16 = 0x4002u16 + 0x78;
    macro_rules! bad { ($($a:tt)*) => { rep.violation(format!($($a)*)) } }
    // how each opcode moves PC and SP for all the flags
    for op in 0..=255u8 {
        if matches!(op, 0xCB | 0xED | 0xDD | 0xFD) { continue }
        let len = crate::dis::decode(0, 0x4000, &mut |_| Some(0)).map(|_| ()).and_then(|_| {
            crate::dis::decode(0, 0x4000, &mut |i| Some(if i == 0 { op } else { 0 }))
        }).map(|i| i.code.len() as u16).unwrap_or(1);
        let mut kinds = [0u32; 7]; // not taken, JP, CALL, RET, JR, RST, other
        let mut taken = [false; 256];
        for f in 0..=255u8 {
            let mut s = base;
            s.af = 0x1100 | f as u16;
            let e = eff(&ld, &mut env, &s, &[op, 0x78, 0x56, 0]);
            n += 1;
            let k = match (e.pc, e.sp.wrapping_sub(s.sp)) {
                (p, 0) if p == 0x4000 + len => 0,
                (NN, 0) => 1,
                (NN, 0xFFFE) => 2,
                (RETPC, 2) => 3,
                (REL, 0) => 4,
                (p, 0xFFFE) if p == (op & 0x38) as u16 => 5,
                _ => 6,
            };
            kinds[k] += 1;
            taken[f as usize] = k != 0;
            // unconditional constants
            let is = |c: u8| op == c;
            if is(NOP_OPCODE) && !(e.same && e.pc == 0x4001) { bad!("NOP_OPCODE {op:02x} does not execute as NOP") }
            if (is(HALT_OPCODE)) != e.halt { bad!("HALT_OPCODE is {HALT_OPCODE:02x}; opcode {op:02x} halts: {}", e.halt) }
            if is(DI_OPCODE) != (e.iff == (false, false)) { bad!("DI_OPCODE is {DI_OPCODE:02x}; opcode {op:02x} leaves iffs {:?}", e.iff) }
            if is(EI_OPCODE) != (e.iff == (true, true)) { bad!("EI_OPCODE is {EI_OPCODE:02x}; opcode {op:02x} leaves iffs {:?}", e.iff) }
        }
        let always = |k: usize| kinds[k] == 256;
        let cond = |k: usize| kinds[k] != 0 && kinds[0] != 0;
        let chk = |name: &str, sel: bool, ex: bool| if sel != ex { bad!("{name}: the constant selects opcode {op:02x}: {sel}, but it executes so: {ex}") };
        chk("RET_OPCODE", op == RET_OPCODE, always(3));
        chk("CALL_OPCODE", op == CALL_OPCODE, always(2));
        chk("JP_OPCODE", op == JP_OPCODE, always(1));
        chk("JR_OPCODE", op == JR_OPCODE, always(4) && op & 0x38 == 0x18);
        chk("DJNZ_OPCODE", op == DJNZ_OPCODE, always(4) && op & 0x38 == 0x10);
        chk("RST mask", op & RST_OPMASK == RST_OPBASE, always(5));
        chk("RET_CC mask", op & RET_CC_OPMASK == RET_CC_OPBASE, cond(3));
        chk("CALL_CC mask", op & CALL_CC_OPMASK == CALL_CC_OPBASE, cond(2));
        chk("JP_CC mask", op & JP_CC_OPMASK == JP_CC_OPBASE, cond(1));
        chk("JR_CC mask", op & JR_CC_OPMASK == JR_CC_OPBASE, cond(4));
        if op == DJNZ_OPCODE {
            for b in 0..=255u8 {
                let mut s = base;
                s.bc = (b as u16) << 8;
                let e = eff(&ld, &mut env, &s, &[op, 0x78, 0x56, 0]);
                n += 1;
                if e.b != b.wrapping_sub(1) || (e.pc == REL) != (b != 1) { bad!("DJNZ_OPCODE with B={b:02x}: {e:?}") }
            }
        }
        let conditional = [RET_CC_OPBASE, CALL_CC_OPBASE, JP_CC_OPBASE];
        if conditional.iter().any(|b| op & 0xC7 == *b) && op & 0xC0 == 0xC0 {
            let c = Condition::from_code(op);
            for f in 0..=255u8 {
                n += 1;
                if c.is_satisfied(CpuFlags::from_bits_retain(f)) != taken[f as usize] { bad!("opcode {op:02x}, F={f:02x}: branch taken {} but {c} satisfied {}", taken[f as usize], !taken[f as usize]) }
            }
            let ob = *conditional.iter().find(|b| op & 0xC7 == **b).unwrap();
            if ob | c.to_code() != op { bad!("{op:02x} is not rebuilt from its base and condition {c}") }
        }
        if op & JR_CC_OPMASK == JR_CC_OPBASE {
            let c = Condition::from_jr_subset(op);
            for f in 0..=255u8 {
                n += 1;
                if c.is_satisfied(CpuFlags::from_bits_retain(f)) != taken[f as usize] { bad!("opcode {op:02x}, F={f:02x}: branch taken {} but {c} satisfied {}", taken[f as usize], !taken[f as usize]) }
            }
            if JR_CC_OPBASE | c.to_code() != op { bad!("{op:02x} is not rebuilt from its base and condition {c}") }
        }
    }
    let rst = [(RST_00H_OPCODE, 0), (RST_08H_OPCODE, 8), (RST_10H_OPCODE, 16), (RST_18H_OPCODE, 24), (RST_20H_OPCODE, 32), (RST_28H_OPCODE, 40), (RST_30H_OPCODE, 48), (RST_38H_OPCODE, 56)];
    for (op, a) in rst {
        let e = eff(&ld, &mut env, &base, &[op, 0x78, 0x56]);
        n += 1;
        if (e.pc, e.sp) != (a, 0x7FFE) { bad!("RST_{a:02X}H_OPCODE {op:02x} executes as {e:?}") }
    }
    // ED
    if ED_PREFIX != 0xED || DD_PREFIX != 0xDD || FD_PREFIX != 0xFD { bad!("a prefix constant differs") }
    for op in 0..=255u8 {
        let e = eff(&ld, &mut env, &base, &[ED_PREFIX, op, 0x78, 0x56]);
        n += 1;
        let ret = e.pc == RETPC && e.sp == 0x8002 && e.iff == (true, true);
        if (op & RETN_OP2_MASK == RETN_OP2_BASE) != ret { bad!("RETN_OP2: the mask selects ED {op:02x}: {}, it executes as RETN/RETI: {ret}", !ret) }
        // NOTE: only ED 4D is documented as RETI
        if (ED_PREFIX, op) == RETI_OPCODE_T2 && !(e.reti == 1 && ret) { bad!("RETI_OPCODE_T2 executes as {e:?}") }
        if (ED_PREFIX, op) == RETN_OPCODE_T2 && !(e.reti == 0 && ret) { bad!("RETN_OPCODE_T2 executes as {e:?}") }
    }
    if RETI_OPCODE_T2.0 != 0xED || RETN_OPCODE_T2.0 != 0xED { bad!("RETI/RETN prefix") }
    // prefixes
    for (op, px) in [(DD_PREFIX, Prefix::Xdd), (FD_PREFIX, Prefix::Yfd)] {
        // LD H,n after the prefix
        let mut c = ld.load(&base);
        let m = env.mark();
        for (i, b) in [op, 0x26, 0xEE].iter().enumerate() { env.poke(0x4000 + i as u16, *b) }
        let mut k = Clk::new(T0, 64);
        env.clear_log();
        let _ = impl_step(&mut c, &mut env, &mut k);
        let p = c.get_prefix();
        let _ = impl_step(&mut c, &mut env, &mut k);
        n += 1;
        if p != Some(px) || c.get_index16(px) >> 8 != 0xEE || c.get_reg16(StkReg16::HL) != base.hl { bad!("prefix {op:02x} does not select {px}") }
        env.rollback(m);
    }
    // parsers
    use std::str::FromStr;
    let r8n = ["B", "C", "D", "E", "H", "L", "", "A"];
    for code in 0..=255u8 {
        n += 12;
        // Reg8: LD r,n and the register read back
        let want = code & 7;
        match Reg8::try_from(code) {
            Err(()) => if want != 6 { bad!("Reg8::try_from({code:02x}) fails") },
            Ok(r) => {
                let name: &str = r.into();
                if want == 6 { bad!("Reg8::try_from({code:02x}) = {r}") }
                else {
                    if r.to_code() != want || u8::from(r) != want || name != r8n[want as usize] || r.to_string() != name { bad!("Reg8 {code:02x}: code {:02x} name {name} / {r}", r.to_code()) }
                    let mut c = ld.load(&base);
                    let mut k = Clk::new(T0, 64);
                    let m = env.mark();
                    env.poke(0x4000, 0x06 | r.to_code() << 3);
                    env.poke(0x4001, code ^ 0x5A);
                    env.clear_log();
                    let _ = impl_step(&mut c, &mut env, &mut k);
                    if c.get_reg(r, None) != code ^ 0x5A || snap(&c).pc != 0x4002 { bad!("LD {r},n does not load the register {r}") }
                    env.rollback(m);
                    for p in [None, Some(Prefix::Xdd), Some(Prefix::Yfd)] {
                        let t = format!("{}", F8(r, p));
                        let w = crate::dis::r8(want, match p { None => 0, Some(Prefix::Xdd) => 1, _ => 2 });
                        if t != w { bad!("Reg8 {r} with prefix {p:?} is shown as {t}") }
                    }
                }
            }
        }
        let q = (code >> 4 & 3) as usize;
        let st = StkReg16::from_code(code);
        let nm: &str = st.into();
        if nm != ["BC", "DE", "HL", "AF"][q] || st.to_string() != nm || st.to_code() != code & 0x30 || u8::from(st) != code & 0x30 || StkReg16::from(code) != st { bad!("StkReg16 {code:02x}: {st} {:02x}", st.to_code()) }
        let r = Reg16::from_code(code);
        let nm: &str = r.into();
        if nm != ["BC", "DE", "HL", "SP"][q] || r.to_string() != nm || r.to_code() != code & 0x30 || u8::from(r) != code & 0x30 || Reg16::from(code) != r { bad!("Reg16 {code:02x}: {r} {:02x}", r.to_code()) }
        for (p, w) in [(None, nm), (Some(Prefix::Xdd), if q == 2 { "IX" } else { nm }), (Some(Prefix::Yfd), if q == 2 { "IY" } else { nm })] {
            let t = format!("{}", F16(r, p));
            if t != w { bad!("Reg16 {r} with prefix {p:?} is shown as {t}") }
        }
        {   // PUSH qq and LD rr,nn use the same pair
            let mut s = base;
            s.af = 0xA1A2;
            let mut c = ld.load(&s);
            let mut k = Clk::new(T0, 64);
            let m = env.mark();
            env.poke(0x4000, 0xC5 | st.to_code());
            for (i, b) in [0x01 | r.to_code(), code, 0x3C].iter().enumerate() { env.poke(0x4001 + i as u16, *b) }
            env.clear_log();
            let _ = impl_step(&mut c, &mut env, &mut k);
            let pushed = u16::from_le_bytes([env.mem[0x7FFE], env.mem[0x7FFF]]);
            if pushed != c.get_reg16(st) || pushed != [s.bc, s.de, s.hl, s.af][q] { bad!("PUSH {st} pushes {pushed:04x}") }
            let _ = impl_step(&mut c, &mut env, &mut k);
            let v = 0x3C00 | code as u16;
            let got = match q { 0 => c.get_reg16(StkReg16::BC), 1 => c.get_reg16(StkReg16::DE), 2 => c.get_reg16(StkReg16::HL), _ => c.get_sp() };
            if got != v { bad!("LD {r},nn does not load {r}") }
            env.rollback(m);
        }
        let c = Condition::from_code(code);
        let i = (code >> 3 & 7) as usize;
        let nm: &str = c.into();
        if nm != CCN[i] || c.to_string() != nm || c.to_code() != code & 0x38 || u8::from(c) != code & 0x38 || Condition::from(code) != c { bad!("Condition {code:02x}: {c}") }
        if Condition::from_jr_subset(code) != Condition::from_code(code & 0x18) { bad!("Condition::from_jr_subset({code:02x})") }
        for f in 0..=255u8 {
            let bit = [ZF, CF, PF, SF][i >> 1];
            n += 1;
            if c.is_satisfied(CpuFlags::from_bits_retain(f)) != ((f & bit != 0) == (i & 1 != 0)) { bad!("{c} on F={f:02x}") }
        }
        let im = InterruptMode::try_from(code);
        if im.is_ok() != (code < 3) { bad!("InterruptMode::try_from({code})") }
        if let Ok(im) = im { if im.to_mode_number() != code || u8::from(im) != code || im_no(im) != code { bad!("InterruptMode {code}") } }
        let p = Prefix::try_from(code);
        if p != match code { 0xDD => Ok(Prefix::Xdd), 0xFD => Ok(Prefix::Yfd), _ => Err(()) } { bad!("Prefix::try_from({code:02x})") }
        if let Ok(p) = p { if p.to_code() != code || u8::from(p) != code || p.to_string() != if code == 0xDD { "IX" } else { "IY" } { bad!("Prefix {code:02x}") } }
    }
    // Condition::from_str on all strings of up to 3 characters of an alphabet
    let al: Vec<char> = "NZCPOEMnzcpoem HLX01".chars().collect();
    let mut strs: Vec<String> = vec![String::new()];
    let mut cur = strs.clone();
    for _ in 0..3 { let mut nx = vec![]; for s in &cur { for c in &al { nx.push(format!("{s}{c}")) } } strs.extend(nx.iter().cloned()); cur = nx }
    for s in &strs {
        n += 1;
        let want = (0..8u8).find(|i| CCN[*i as usize] == s).map(|i| Condition::from_code(i << 3));
        if Condition::from_str(s).ok() != want { bad!("Condition::from_str({s:?}) = {:?}", Condition::from_str(s)) }
    }
    if NMI_RESTART != 0x66 { bad!("NMI_RESTART = {NMI_RESTART:04x}") }
    if InterruptMode::default() != InterruptMode::Mode0 { bad!("default interrupt mode") }
    rep.bound(format!("all 256 opcodes x 256 flag values executed, all 256 ED opcodes, all 256 codes through every parser, {} condition strings", strs.len()));
    rep.sample(|| "opcode d8 (RET C): taken exactly when Condition::C is satisfied, for all 256 values of F".into());
    rep.add(n, n, n);
}
struct F8(Reg8, Option<Prefix>);
impl std::fmt::Display for F8 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.format_with_prefix(f, self.1) } }
struct F16(Reg16, Option<Prefix>);
impl std::fmt::Display for F16 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.format_with_prefix(f, self.1) } }

// ------------------------------------------------------------------ C23

pub fn c23(rep: &Rep) {
    use CpuFlags as P;
    macro_rules! bad { ($($a:tt)*) => { rep.violation(format!($($a)*)) } }
    let b = |x: bool, v: u8| if x { v } else { 0 };
    let consts = [(P::C, 1), (P::N, 2), (P::PV, 4), (P::P, 4), (P::V, 4), (P::X, 8), (P::H, 16), (P::Y, 32), (P::Z, 64), (P::S, 128), (P::XY, 40), (P::HMASK, 15), (P::all(), 255), (P::empty(), 0)];
    for (c, v) in consts { if c.bits() != v { bad!("a CpuFlags constant is {:02x}, not {v:02x}", c.bits()) } }
    let mut n = 0u64;
    for i in 0..8u8 {
        let (x, y, z) = (i & 1 != 0, i & 2 != 0, i & 4 != 0);
        n += 1;
        if P::mask_cvz(x, y, z).bits() != b(x, 1) | b(y, 4) | b(z, 64) { bad!("mask_cvz({x},{y},{z})") }
        for (nm, g, w) in [("mask_carry", P::mask_carry(x), 1), ("mask_nf", P::mask_nf(x), 2), ("mask_hf", P::mask_hf(x), 16), ("mask_hcf", P::mask_hcf(x), 17), ("mask_pvf", P::mask_pvf(x), 4)] {
            if g.bits() != b(x, w) { bad!("{nm}({x}) = {:02x}", g.bits()) }
        }
    }
    for v in 0..=255u8 {
        let mut par = true;
        for k in 0..8 { if v >> k & 1 == 1 { par = !par } }
        for (nm, g, w) in [("mask_sign", P::mask_sign(v), v & 128), ("mask_zero", P::mask_zero(v), b(v == 0, 64)), ("parity", P::parity(v), b(par, 4)), ("mask_xy", P::mask_xy(v), v & 40), ("mask_sxy", P::mask_sxy(v), v & 168)] {
            n += 1;
            if g.bits() != w { bad!("{nm}({v:02x}) = {:02x}", g.bits()) }
        }
        let mut f = P::from_bits_retain(v);
        for (nm, g, w) in [("sf", f.sf(), 128), ("zf", f.zf(), 64), ("hf", f.hf(), 16), ("pvf", f.pvf(), 4), ("nf", f.nf(), 2), ("cf", f.cf(), 1)] {
            n += 1;
            if g != (v & w != 0) { bad!("{nm} of {v:02x} = {g}") }
        }
        if f.bits() != v { bad!("bits of {v:02x}") }
        f.reset();
        if f.bits() != 0 { bad!("reset of {v:02x} = {:02x}", f.bits()) }
        for w in 0..=255u8 {
            n += 4;
            let (x, y) = (P::from_bits_retain(v), P::from_bits_retain(w));
            let mut z = x;
            z.insert(y);
            let mut r = x;
            r.remove(y);
            let mut s = x;
            s.set(y, true);
            let mut t = x;
            t.set(y, false);
            if z.bits() != v | w || r.bits() != v & !w || s != z || t != r || (x | y).bits() != v | w || (x & y).bits() != v & w || (x ^ y).bits() != v ^ w || (!x).bits() != !v || x.contains(y) != (v & w == w) || x.intersects(y) != (v & w != 0) {
                bad!("flag set operations on {v:02x} and {w:02x}")
            }
            if (x == y) != (v == w) || x.cmp(&y) != v.cmp(&w) { bad!("comparison of flags {v:02x} and {w:02x}") }
        }
    }
    rep.add(n, n, n);
    // register pairs
    rep.bound("all inputs of every flag helper; all 65536 pair values x every pair helper; add16 for all 65536 x (all 65536 thorough, 4500 quick) operands; op16/op8 with every result byte");
    par(rep, 256, || (), |_, h| {
        let mut n = 0u64;
        for l in 0..256usize {
            let v = (h << 8 | l) as u16;
            let (hi, lo) = (h as u8, l as u8);
            let p = RegisterPair::from(v);
            n += 20;
            if p.get16() != v || p.get8hi() != hi || p.get8lo() != lo || p.get() != (hi, lo) { bad!("pair {v:04x} read back") }
            if RegisterPair::from((hi, lo)) != p || RegisterPair::from([lo, hi]) != p || RegisterPair::from(v as i16) != p { bad!("pair {v:04x} conversions") }
            let m = |f: &dyn Fn(&mut RegisterPair)| { let mut q = p; f(&mut q); q.get16() };
            let ck = |nm: &str, g: u16, w: u16| if g != w { bad!("{nm} on {v:04x} = {g:04x}, expected {w:04x}") };
            ck("inc16", m(&|q| q.inc16()), (v as u32 + 1) as u16);
            ck("dec16", m(&|q| q.dec16()), (v as u32 + 0xFFFF) as u16);
            let mut q = p;
            let z = q.dec16_is_zero();
            if z != (v == 1) { bad!("dec16_is_zero on {v:04x} = {z}") }
            ck("dec16_is_zero", q.get16(), (v as u32 + 0xFFFF) as u16);
            for b in 0..=255u8 {
                ck("set8hi", m(&|q| q.set8hi(b)), (b as u16) << 8 | lo as u16);
                ck("set8lo", m(&|q| q.set8lo(b)), (hi as u16) << 8 | b as u16);
                let mut seen = 0;
                let mut q = p;
                q.op8hi(|x| { seen = x; b });
                if seen != hi { bad!("op8hi passed {seen:02x} of {v:04x}") }
                ck("op8hi", q.get16(), (b as u16) << 8 | lo as u16);
                let mut q = p;
                q.op8lo(|x| { seen = x; b });
                if seen != lo { bad!("op8lo passed {seen:02x} of {v:04x}") }
                ck("op8lo", q.get16(), (hi as u16) << 8 | b as u16);
                let mut s16 = 0;
                let mut q = p;
                q.op16(|x| { s16 = x; (b, !b) });
                if s16 != v { bad!("op16 passed {s16:04x} of {v:04x}") }
                ck("op16", q.get16(), (b as u16) << 8 | !b as u16);
                ck("set", m(&|q| q.set(b, !b)), (b as u16) << 8 | !b as u16);
                ck("set16", m(&|q| q.set16((b as u16) << 8 | !b as u16)), (b as u16) << 8 | !b as u16);
                // the byte pointers address the named halves
                ck("ptr8hi", m(&|q| unsafe { *q.ptr8hi() = b }), (b as u16) << 8 | lo as u16);
                ck("ptr8lo", m(&|q| unsafe { *q.ptr8lo() = b }), (hi as u16) << 8 | b as u16);
                n += 9;
            }
            let all = rep.thorough();
            let mut a = 0u32;
            while a < 65536 {
                let mut q = p;
                q.add16(a as u16);
                if q.get16() != (v as u32 + a) as u16 { bad!("add16({a:04x}) on {v:04x} = {:04x}", q.get16()) }
                n += 1;
                a += if all || (a & 0xFFF) < 257 || (a & 0xFFF) > 0xFEF { 1 } else { 0x101 };
            }
            let d = serde_json::to_string(&p).unwrap_or_default();
            if d != v.to_string() || serde_json::from_str::<RegisterPair>(&d).ok() != Some(p) { bad!("pair {v:04x} serialization {d}") }
        }
        rep.add(n, n, 256);
    });
    if RegisterPair::default().get16() != 0 { bad!("default pair") }
    rep.sample(|| "dec16_is_zero on 0001 returns true and leaves 0000".into());
}

// ------------------------------------------------------------------ C24

/// A host that records each call of every method and answers with distinct values.
#[derive(Default)]
struct Rec { log: RefCell<Vec<(u8, u32, u32, u32)>>, pub k: u32 }
impl Rec {
    fn p(&self, m: u8, a: u32, b: u32, c: u32) -> u32 {
        let mut l = self.log.borrow_mut();
        l.push((m, a, b, c));
        (a ^ b.wrapping_mul(31) ^ c.wrapping_mul(0x101)).wrapping_add(m as u32 * 7 + self.k)
    }
}
fn nz(v: u32) -> Option<NonZeroU16> { NonZeroU16::new(v as u16 & 0x1FF) }
impl Io for Rec {
    type Timestamp = u32;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, p: u16, ts: u32) -> (u8, Option<NonZeroU16>) { let v = self.p(1, p as u32, 0, ts); (v as u8, nz(v >> 3)) }
    fn write_io(&mut self, p: u16, d: u8, ts: u32) -> (Option<u32>, Option<NonZeroU16>) { let v = self.p(2, p as u32, d as u32, ts); (if v & 1 == 0 { Some(v) } else { None }, nz(v >> 2)) }
    fn is_irq(&mut self, ts: u32) -> bool { self.p(3, 0, 0, ts) & 1 == 0 }
    fn irq_data(&mut self, pc: u16, ts: u32) -> (u8, Option<NonZeroU16>) { let v = self.p(4, pc as u32, 0, ts); (v as u8, nz(v >> 5)) }
    fn reti(&mut self, a: u16, ts: u32) -> Option<u32> { let v = self.p(5, a as u32, 0, ts); if v & 1 == 0 { Some(v) } else { None } }
}
impl Memory for Rec {
    type Timestamp = u32;
    fn read_mem(&self, a: u16, ts: u32) -> u8 { self.p(6, a as u32, 0, ts) as u8 }
    fn read_mem16(&self, a: u16, ts: u32) -> u16 { self.p(7, a as u32, 0, ts) as u16 }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u32) -> u8 { self.p(8, pc as u32, ir as u32, ts) as u8 }
    fn write_mem(&mut self, a: u16, v: u8, ts: u32) { self.p(9, a as u32, v as u32, ts); }
    fn read_debug(&self, a: u16) -> u8 { self.p(10, a as u32, 0, 0) as u8 }
}
impl Clock for Rec {
    type Limit = u32;
    type Timestamp = u32;
    fn is_past_limit(&self, l: u32) -> bool { self.p(11, l, 0, 0) & 1 == 0 }
    fn add_irq(&mut self, pc: u16) -> u32 { self.p(12, pc as u32, 0, 0) }
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) { self.p(13, a as u32, n.get() as u32, 0); }
    fn add_m1(&mut self, a: u16) -> u32 { self.p(14, a as u32, 0, 0) }
    fn add_mreq(&mut self, a: u16) -> u32 { self.p(15, a as u32, 0, 0) }
    fn add_io(&mut self, a: u16) -> u32 { self.p(16, a as u32, 0, 0) }
    fn add_wait_states(&mut self, b: u16, w: NonZeroU16) { self.p(17, b as u32, w.get() as u32, 0); }
    fn as_timestamp(&self) -> u32 { self.p(18, 0, 0, 0) }
}

pub struct W1<T>(pub T);
impl<T: Clock> Clock for W1<T> { forward_host_clock_types! { @ => T } forward_host_clock_methods! { @ => |x| x.0 } }
impl<T: Io> Io for W1<T> { forward_host_io_types! { @ => T } forward_host_io_methods! { @ => |x| x.0 } }
impl<T: Memory> Memory for W1<T> { forward_host_memory_types! { @ => T } forward_host_memory_methods! { @ => |x| x.0 } }
pub struct W2<T>(pub T);
impl<T> W2<T> { fn r(&self) -> &T { &self.0 } fn m(&mut self) -> &mut T { &mut self.0 } }
impl<T: Clock> Clock for W2<T> {
    forward_host_clock_types! { (Limit Timestamp) => T }
    forward_host_clock_methods! { @ref => |x| x.r() }
    forward_host_clock_methods! { @mut => |x| x.m() }
}
impl<T: Io> Io for W2<T> {
    forward_host_io_types! { (Timestamp WrIoBreak RetiBreak) => T }
    forward_host_io_methods! { (write_io read_io is_irq irq_data reti) => |x| x.m() }
}
impl<T: Memory> Memory for W2<T> {
    forward_host_memory_types! { (Timestamp) => T }
    forward_host_memory_methods! { @ref => |x| x.r() }
    forward_host_memory_methods! { @mut => |x| x.m() }
}
pub struct W3<'a, T>(pub &'a mut T);
impl<T: Clock> Clock for W3<'_, T> {
    forward_host_clock_types! { (Timestamp, Limit) => T }
    forward_host_clock_methods! { (as_timestamp, add_wait_states, add_io, add_mreq, add_m1, add_no_mreq, add_irq, is_past_limit) => |y| y.0 }
}
impl<T: Io> Io for W3<'_, T> {
    forward_host_io_types! { (RetiBreak, Timestamp, WrIoBreak) => T }
    forward_host_io_methods! { (reti, irq_data, is_irq, read_io, write_io) => |y| y.0 }
}
impl<T: Memory> Memory for W3<'_, T> {
    forward_host_memory_types! { @ => T }
    forward_host_memory_methods! { (read_debug, write_mem, read_mem16, read_mem, read_opcode) => |y| y.0 }
}
pub struct W4<T> { pub inner: Box<T> }
impl<T: Clock> Clock for W4<T> {
    forward_host_clock_types! { Limit => T }
    forward_host_clock_types! { Timestamp => T }
    forward_host_clock_methods! { is_past_limit => |me| me.inner }
    forward_host_clock_methods! { add_irq => |me| me.inner }
    forward_host_clock_methods! { add_no_mreq => |me| me.inner }
    forward_host_clock_methods! { add_m1 => |me| me.inner }
    forward_host_clock_methods! { add_mreq => |me| me.inner }
    forward_host_clock_methods! { add_io => |me| me.inner }
    forward_host_clock_methods! { add_wait_states => |me| me.inner }
    forward_host_clock_methods! { as_timestamp => |me| me.inner }
}
impl<T: Io> Io for W4<T> {
    forward_host_io_types! { Timestamp => T }
    forward_host_io_types! { WrIoBreak => T }
    forward_host_io_types! { RetiBreak => T }
    forward_host_io_methods! { write_io => |me| me.inner }
    forward_host_io_methods! { read_io => |me| me.inner }
    forward_host_io_methods! { is_irq => |me| me.inner }
    forward_host_io_methods! { irq_data => |me| me.inner }
    forward_host_io_methods! { reti => |me| me.inner }
}
impl<T: Memory> Memory for W4<T> {
    forward_host_memory_types! { Timestamp => T }
    forward_host_memory_methods! { read_opcode => |me| me.inner }
    forward_host_memory_methods! { read_mem => |me| me.inner }
    forward_host_memory_methods! { (read_mem16 write_mem) => |me| me.inner }
    forward_host_memory_methods! { read_debug => |me| me.inner }
}

/// Wrappers that forward one method only: everything else is the trait's default.
macro_rules! only {
    ($name:ident io $m:ident) => {
        struct $name(Rec);
        impl Io for $name { forward_host_io_types! { @ => Rec } forward_host_io_methods! { $m => |x| x.0 } }
    };
    ($name:ident mem $m:ident) => {
        struct $name(Rec);
        impl Memory for $name { forward_host_memory_types! { @ => Rec } forward_host_memory_methods! { $m => |x| x.0 } }
    };
}
only!(OW io write_io); only!(OR io read_io); only!(OI io is_irq); only!(OD io irq_data); only!(OT io reti);
only!(MO mem read_opcode); only!(MR1 mem read_mem); only!(MR2 mem read_mem16); only!(MW mem write_mem); only!(MD mem read_debug);


fn nzv(v: Option<NonZeroU16>) -> u64 { v.map_or(0, |x| x.get() as u64) }
fn io_call<H: Io<Timestamp = u32, WrIoBreak = u32, RetiBreak = u32>>(h: &mut H, m: u8, a: u16, b: u16, ts: u32) -> (u64, u64) {
    let o = |x: Option<u32>| x.map_or(1u64 << 40, |v| v as u64);
    match m {
        1 => { let (v, w) = h.read_io(a, ts); (v as u64, nzv(w)) }
        2 => { let (v, w) = h.write_io(a, b as u8, ts); (o(v), nzv(w)) }
        3 => (h.is_irq(ts) as u64, 0),
        4 => { let (v, w) = h.irq_data(a, ts); (v as u64, nzv(w)) }
        _ => (o(h.reti(a, ts)), 0),
    }
}
fn mem_call<H: Memory<Timestamp = u32>>(h: &mut H, m: u8, a: u16, b: u16, ts: u32) -> (u64, u64) {
    (match m {
        6 => h.read_mem(a, ts) as u64,
        7 => h.read_mem16(a, ts) as u64,
        8 => h.read_opcode(a, b, ts) as u64,
        9 => { h.write_mem(a, b as u8, ts); 0 }
        _ => h.read_debug(a) as u64,
    }, 0)
}
fn clk_call<H: Clock<Timestamp = u32, Limit = u32>>(h: &mut H, m: u8, a: u16, b: u16, ts: u32) -> (u64, u64) {
    (match m {
        11 => h.is_past_limit(ts ^ a as u32) as u64,
        12 => h.add_irq(a) as u64,
        13 => { h.add_no_mreq(a, NonZeroU8::new(b as u8 | 1).unwrap()); 0 }
        14 => h.add_m1(a) as u64,
        15 => h.add_mreq(a) as u64,
        16 => h.add_io(a) as u64,
        17 => { h.add_wait_states(a, NonZeroU16::new(b | 1).unwrap()); 0 }
        _ => h.as_timestamp() as u64,
    }, 0)
}
fn call<H: Io<Timestamp = u32, WrIoBreak = u32, RetiBreak = u32> + Memory<Timestamp = u32> + Clock<Timestamp = u32, Limit = u32>>(h: &mut H, m: u8, a: u16, b: u16, ts: u32) -> (u64, u64) {
    match m { 1..=5 => io_call(h, m, a, b, ts), 6..=10 => mem_call(h, m, a, b, ts), _ => clk_call(h, m, a, b, ts) }
}

const M_NAMES: [&str; 19] = ["", "read_io", "write_io", "is_irq", "irq_data", "reti", "read_mem", "read_mem16", "read_opcode", "write_mem", "read_debug",
    "is_past_limit", "add_irq", "add_no_mreq", "add_m1", "add_mreq", "add_io", "add_wait_states", "as_timestamp"];

fn c24_calls(rep: &Rep) {
    par(rep, 18 * 16, || (), |_, i| {
        let (m, part) = (i as u8 / 16 + 1, i as u32 % 16);
        let mut n = 0u64;
        let mut one = |a: u16, b: u16, ts: u32| {
            n += 6;
            let mut p = Rec { k: 3, ..Default::default() };
            let want = (call(&mut p, m, a, b, ts), p.log.into_inner());
            let mut w1 = W1(Rec { k: 3, ..Default::default() });
            let r1 = (call(&mut w1, m, a, b, ts), w1.0.log.into_inner());
            let mut w2 = W2(Rec { k: 3, ..Default::default() });
            let r2 = (call(&mut w2, m, a, b, ts), w2.0.log.into_inner());
            let mut h = Rec { k: 3, ..Default::default() };
            let r3 = { let mut w3 = W3(&mut h); call(&mut w3, m, a, b, ts) };
            let r3 = (r3, h.log.into_inner());
            let mut w4 = W4 { inner: Box::new(Rec { k: 3, ..Default::default() }) };
            let r4 = (call(&mut w4, m, a, b, ts), w4.inner.log.into_inner());
            let mut w5 = W1(W2(W4 { inner: Box::new(Rec { k: 3, ..Default::default() }) }));
            let r5 = (call(&mut w5, m, a, b, ts), w5.0.0.inner.log.into_inner());
            for (nm, r) in [("@", r1), ("@ref/@mut/space list", r2), ("comma list", r3), ("single names", r4), ("nested", r5)] {
                if r != want { rep.violation(format!("wrapper made with the {nm} form: {}({a:04x},{b:04x},{ts}) answered {:x?} with calls {:?}; the host answers {:x?} with calls {:?}", M_NAMES[m as usize], r.0, r.1, want.0, want.1)) }
            }
        };
        for a in 0..4096u32 { let a = (part << 12 | a) as u16; one(a, a.rotate_left(5) ^ 0x1234, 7 + (a as u32) * 3) }
        for b in 0..4096u32 { one(0x8001, (part << 12 | b) as u16, 99) }
        for s in 0..32 { one(0x7FFF, 0x55AA, 1u32 << s) }
        rep.add(n, n, n);
    });
}

fn c24_defaults(rep: &Rep) {
    let mut n = 0u64;
    macro_rules! io1 { ($t:ident $k:expr) => {
        for a in [0u16, 1, 0x38, 0x7FFF, 0x8000, 0xFFFF] { for b in 0..=255u16 { for ts in [0u32, 1, u32::MAX] { for m in 1..=5u8 {
            n += 1;
            let mut h = $t(Rec::default());
            let r = io_call(&mut h, m, a, b, ts);
            let calls = h.0.log.borrow().len();
            let want = if m == $k { let mut p = Rec::default(); (io_call(&mut p, m, a, b, ts), 1) }
                else { (match m { 1 => (0xFF, 0), 2 => (1 << 40, 0), 3 => (0, 0), 4 => (0xFF, 0), _ => (1 << 40, 0) }, 0) };
            if (r, calls) != want { rep.violation(format!("wrapper forwarding only {}: {}({a:04x},{b:02x},{ts}) = {r:x?} with {calls} forwarded calls, expected {want:x?}", M_NAMES[$k], M_NAMES[m as usize])) }
        } } } }
    } }
    io1!(OW 2); io1!(OR 1); io1!(OI 3); io1!(OD 4); io1!(OT 5);
    macro_rules! m1 { ($t:ident $k:expr) => {
        for a in 0..=65535u16 { for m in 6..=10u8 {
            n += 1;
            let (b, ts) = (a >> 3, a as u32 * 5);
            let mut h = $t(Rec::default());
            let r = mem_call(&mut h, m, a, b, ts);
            let calls = h.0.log.borrow().clone();
            let mut p = Rec::default();
            // the defaults go through read_debug, which is forwarded or FF itself
            let dbg = |p: &Rec, a: u16| if $k == 10 { p.read_debug(a) as u64 } else { 0xFF };
            let want = if m == $k { mem_call(&mut p, m, a, b, ts).0 } else { match m {
                6 | 8 => dbg(&p, a),
                7 => { let l = dbg(&p, a); l | dbg(&p, a.wrapping_add(1)) << 8 }
                9 => 0,
                _ => 0xFF,
            } };
            let mut wl = p.log.into_inner();
            let mut gl = calls;
            wl.sort();
            gl.sort();
            if r.0 != want || gl != wl { rep.violation(format!("wrapper forwarding only {}: {}({a:04x}) = {:x} with calls {gl:?}, expected {want:x} with {wl:?}", M_NAMES[$k], M_NAMES[m as usize], r.0)) }
        } }
    } }
    m1!(MO 8); m1!(MR1 6); m1!(MR2 7); m1!(MW 9); m1!(MD 10);
    rep.add(n, n, n);
}

fn c24_items<F: Fla>(rep: &Rep, its: &[Item]) {
    let nbase = rep.q(2, 5);
    let all: Vec<u8> = (0..=255).collect();
    let vals: &[u8] = if rep.thorough() { &all } else { &[0, 1, 0x7F, 0x80, 0xFF, 0x55, 0x0F] };
    par(rep, its.len(), Two::<F>::new, |t, i| {
        let o = &its[i];
        let (n0, e0) = (t.n, t.nev);
        for b in 0..nbase {
            let base = base_cells(b + 1);
            for cell in 0..NCELLS { for &v in vals {
                
                let mut cc = base;
                cc[cell] = v;
                let mut cs = fixq::<F>(build_item(o, &cc));
                if v == 0x80 { cs.cfg.brk_wr = 1; cs.cfg.brk_reti = 1 }
                let (m0, m1) = t.prep(&cs);
                let mut c = t.ld.load(&cs.cpu);
                let mut k = Clk::new(T0, 64);
                k.mode = cs.mode;
                let a = go(&mut c, &cs, &mut t.env, &mut k, T0 + 1);
                let want = (a, snap(&c), k.now, k.log, t.env.log().clone());
                t.nev += (want.3.len() + want.4.len()) as u64;
                for form in 0..3 {
                    t.env.rollback(m1);
                    t.again(&cs);
                    let mut c = t.ld.load(&cs.cpu);
                    let mut k = Clk::new(T0, 64);
                    k.mode = cs.mode;
                    let (a, k) = match form {
                        0 => { let mut kk = W2(k); let a = go(&mut c, &cs, &mut W1(W3(&mut t.env)), &mut kk, T0 + 1); (a, kk.0) }
                        1 => { let mut kk = W1(k); let a = go(&mut c, &cs, &mut W2(W3(&mut t.env)), &mut kk, T0 + 1); (a, kk.0) }
                        _ => { let mut kk = W4 { inner: Box::new(k) }; let a = go(&mut c, &cs, &mut W4 { inner: Box::new(W3(&mut t.env)) }, &mut W3(&mut kk), T0 + 1); (a, *kk.inner) }
                    };
                    let got = (a, snap(&c), k.now, k.log, t.env.log().clone());
                    if got != want {
                        rep.violation(format!("a forwarded host changes the execution (form {form})\nflavour {} entry {:?} code {:02x?} env {:?}\nstart {}\nplain  : {:?} {} now={}\nwrapped: {:?} {} now={}\nplain   {} | {}\nwrapped {} | {}",
                            F::NAME, cs.entry, cs.code, cs.cfg, show_cpu(&cs.cpu), want.0, show_cpu(&want.1), want.2, got.0, show_cpu(&got.1), got.2,
                            show_log(&want.3), show_log(&want.4), show_log(&got.3), show_log(&got.4)));
                    }
                }
                t.env.rollback(m0);
            } }
            if rep.stopped() { return }
        }
        rep.add(t.n - n0 + t.nev - e0, t.nev - e0, 3 * (t.n - n0));
    });
}

pub fn c24(rep: &Rep) {
    c24_calls(rep);
    c24_defaults(rep);
    let its = items(1);
    rep.bound(format!("18 methods x 5 wrapper forms x (all 65536 addresses, all 65536 second arguments, 32 timestamps); each method forwarded alone with the others at their defaults; {} items executed on plain and wrapped hosts (3 compositions)", its.len()));
    use z80emu::z80::*;
    c24_items::<NMOS>(rep, &its);
    c24_items::<CMOS>(rep, &its);
    c24_items::<BM1>(rep, &its);
    rep.sample(|| "W1(W2(W4(host))).write_io(8001, 5a, 99): one call with the same arguments, same answer".into());
}
