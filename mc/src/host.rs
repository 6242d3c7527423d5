//! Recording environment shared by the reference model and the implementation.
use std::cell::UnsafeCell;
use std::num::{NonZeroU16, NonZeroU8};
use z80emu::*;

pub type Ts = u32;

// clock events
pub const M1: u8 = 1;
pub const MR: u8 = 2;
pub const IO: u8 = 3;
pub const IRQ: u8 = 4;
pub const NM: u8 = 5;
pub const WS: u8 = 6;
// bus events
pub const B_OP: u8 = 16;
pub const B_RD: u8 = 17;
pub const B_RD16: u8 = 18;
pub const B_WR: u8 = 19;
pub const B_IN: u8 = 20;
pub const B_OUT: u8 = 21;
pub const B_INTA: u8 = 22;
pub const B_RETI: u8 = 23;

#[inline(always)]
pub fn ev(kind: u8, addr: u16, val: u16, ts: Ts) -> u64 {
    (kind as u64) << 56 | (addr as u64) << 40 | (val as u64) << 24 | (ts as u64 & 0xFF_FFFF)
}
pub fn ev_kind(e: u64) -> u8 { (e >> 56) as u8 }
pub fn ev_addr(e: u64) -> u16 { (e >> 40) as u16 }
pub fn ev_val(e: u64) -> u16 { (e >> 24) as u16 }
pub fn ev_ts(e: u64) -> u32 { (e & 0xFF_FFFF) as u32 }

pub fn show_ev(e: u64) -> String {
    let k = match ev_kind(e) {
        M1 => "M1", MR => "MREQ", IO => "IORQ", IRQ => "INTACK", NM => "NOMREQ", WS => "WAIT",
        B_OP => "opcode", B_RD => "read", B_RD16 => "read16", B_WR => "write",
        B_IN => "in", B_OUT => "out", B_INTA => "irq_data", B_RETI => "reti", _ => "?",
    };
    format!("{}({:04x}) {:x} @{}", k, ev_addr(e), ev_val(e), ev_ts(e))
}
pub fn show_log(l: &[u64]) -> String {
    l.iter().map(|e| show_ev(*e)).collect::<Vec<_>>().join("; ")
}

/// Panics with this message when one call makes an absurd number of cycles.
pub const RUNAWAY: &str = "runaway: too many machine cycles in a single call";

/// The recording clock.
#[derive(Clone, Debug, Default)]
pub struct Clk {
    pub now: Ts,
    pub log: Vec<u64>,
    pub max: usize,
    /// 0: documented T-states. 1: some cycles are stretched and the returned timestamp differs from
    /// the clock after the cycle.
    pub mode: u8,
}

impl Clk {
    pub fn new(now: Ts, max: usize) -> Self {
        Clk { now, log: Vec::with_capacity(max.min(4096)), max , mode: 0 }
    }
    #[inline(always)]
    fn push(&mut self, e: u64) {
        if self.log.len() >= self.max { panic!("{}", RUNAWAY) }
        self.log.push(e);
    }
    #[inline(always)]
    fn extra(&self, addr: u16) -> u32 {
        if self.mode == 0 { 0 } else { ((addr as u32 >> 14) + self.now) & 3 }
    }
}

impl Clock for Clk {
    type Limit = Ts;
    type Timestamp = Ts;
    #[inline(always)]
    fn is_past_limit(&self, limit: Ts) -> bool { self.now >= limit }
    #[inline]
    fn add_irq(&mut self, pc: u16) -> Ts {
        self.push(ev(IRQ, pc, 0, self.now));
        let x = self.extra(pc);
        let ts = self.now + 2 + x;
        self.now += 6 + 2 * x;
        ts
    }
    #[inline]
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) {
        let n = n.get() as u16;
        if let Some(l) = self.log.last_mut() {
            if ev_kind(*l) == NM && ev_addr(*l) == a {
                *l = ev(NM, a, ev_val(*l) + n, ev_ts(*l));
                self.now += n as u32;
                return;
            }
        }
        self.push(ev(NM, a, n, self.now));
        self.now += n as u32;
    }
    #[inline]
    fn add_m1(&mut self, a: u16) -> Ts {
        self.push(ev(M1, a, 0, self.now));
        let x = self.extra(a);
        let ts = self.now + 4 + x;
        self.now += 4 + 2 * x;
        ts
    }
    #[inline]
    fn add_mreq(&mut self, a: u16) -> Ts {
        self.push(ev(MR, a, 0, self.now));
        let x = self.extra(a);
        let ts = self.now + 3 + x;
        self.now += 3 + 2 * x;
        ts
    }
    #[inline]
    fn add_io(&mut self, p: u16) -> Ts {
        self.push(ev(IO, p, 0, self.now));
        let x = self.extra(p);
        let ts = self.now + 1 + x;
        self.now += 4 + 2 * x;
        ts
    }
    #[inline]
    fn add_wait_states(&mut self, b: u16, w: NonZeroU16) {
        self.push(ev(WS, b, w.get(), self.now));
        self.now += w.get() as u32;
    }
    #[inline(always)]
    fn as_timestamp(&self) -> Ts { self.now }
}

/// The environment configuration: everything the program under execution cannot control.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EnvCfg {
    pub io_in: u8,
    pub io_step: u8,
    pub ws_in: u16,
    pub ws_out: u16,
    pub ws_irq: u16,
    pub vector: u8,
    pub vec_step: u8,
    /// INT line windows [from, to), each dropped when acknowledged.
    pub ints: [(Ts, Ts); 4],
    /// Request a break at the n-th write (bit mask) and n-th RETI (bit mask)
    pub brk_wr: u64,
    pub brk_reti: u64,
}

impl Default for EnvCfg {
    fn default() -> Self {
        EnvCfg { io_in: 0, io_step: 0, ws_in: 0, ws_out: 0, ws_irq: 0, vector: 0xFF, vec_step: 0,
            ints: [(0, 0); 4], brk_wr: 0, brk_reti: 0 }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct EnvSt {
    pub n_in: u32,
    pub n_out: u32,
    pub n_ack: u32,
    pub n_reti: u32,
    /// bit i: window i already acknowledged
    pub acked: u8,
}

pub struct Env {
    pub mem: Box<[u8; 65536]>,
    pub undo: Vec<(u16, u8)>,
    pub cfg: EnvCfg,
    pub st: EnvSt,
    pub log: UnsafeCell<Vec<u64>>,
    pub max: usize,
}

impl Env {
    pub fn new(max: usize) -> Self {
        Env {
            mem: vec![0u8; 65536].into_boxed_slice().try_into().unwrap(),
            undo: Vec::new(), cfg: EnvCfg::default(), st: EnvSt::default(),
            log: UnsafeCell::new(Vec::with_capacity(max.min(4096))), max,
        }
    }
    #[inline(always)]
    pub fn push(&self, e: u64) {
        let log = unsafe { &mut *self.log.get() };
        if log.len() >= self.max { panic!("{}", RUNAWAY) }
        log.push(e);
    }
    pub fn log(&self) -> &Vec<u64> { unsafe { &*self.log.get() } }
    pub fn clear_log(&self) { unsafe { (*self.log.get()).clear() } }
    #[inline]
    pub fn poke(&mut self, a: u16, v: u8) {
        self.undo.push((a, self.mem[a as usize]));
        self.mem[a as usize] = v;
    }
    pub fn mark(&self) -> usize { self.undo.len() }
    #[inline]
    pub fn rollback(&mut self, mark: usize) {
        while self.undo.len() > mark {
            let (a, v) = self.undo.pop().unwrap();
            self.mem[a as usize] = v;
        }
    }
    #[inline]
    pub fn int_line(&self, ts: Ts) -> Option<usize> {
        for (i, (f, t)) in self.cfg.ints.iter().enumerate() {
            if ts >= *f && ts < *t && self.st.acked >> i & 1 == 0 { return Some(i) }
        }
        None
    }
}

impl Io for Env {
    type Timestamp = Ts;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    #[inline]
    fn read_io(&mut self, port: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        let v = self.cfg.io_in.wrapping_add((self.st.n_in as u8).wrapping_mul(self.cfg.io_step));
        self.st.n_in += 1;
        self.push(ev(B_IN, port, v as u16, ts));
        (v, NonZeroU16::new(self.cfg.ws_in))
    }
    #[inline]
    fn write_io(&mut self, port: u16, data: u8, ts: Ts) -> (Option<u32>, Option<NonZeroU16>) {
        let n = self.st.n_out;
        self.st.n_out += 1;
        self.push(ev(B_OUT, port, data as u16, ts));
        let brk = if n < 64 && self.cfg.brk_wr >> n & 1 != 0 { Some(0x1000 + n) } else { None };
        (brk, NonZeroU16::new(self.cfg.ws_out))
    }
    #[inline]
    fn is_irq(&mut self, ts: Ts) -> bool {
        self.int_line(ts).is_some()
    }
    #[inline]
    fn irq_data(&mut self, pc: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        let v = self.cfg.vector.wrapping_add((self.st.n_ack as u8).wrapping_mul(self.cfg.vec_step));
        self.st.n_ack += 1;
        // the acknowledge drops the (first) active window; the line is held during acceptance
        let mut done = false;
        for (i, (f, t)) in self.cfg.ints.iter().enumerate() {
            if !done && ts >= *f && ts < t.saturating_add(32) && self.st.acked >> i & 1 == 0 {
                self.st.acked |= 1 << i;
                done = true;
            }
        }
        self.push(ev(B_INTA, pc, v as u16, ts));
        (v, NonZeroU16::new(self.cfg.ws_irq))
    }
    #[inline]
    fn reti(&mut self, addr: u16, ts: Ts) -> Option<u32> {
        let n = self.st.n_reti;
        self.st.n_reti += 1;
        self.push(ev(B_RETI, addr, 0, ts));
        if n < 64 && self.cfg.brk_reti >> n & 1 != 0 { Some(0x2000 + n) } else { None }
    }
}

impl Memory for Env {
    type Timestamp = Ts;
    #[inline]
    fn read_mem(&self, a: u16, ts: Ts) -> u8 {
        let v = self.mem[a as usize];
        self.push(ev(B_RD, a, v as u16, ts));
        v
    }
    #[inline]
    fn read_mem16(&self, a: u16, ts: Ts) -> u16 {
        let v = u16::from_le_bytes([self.mem[a as usize], self.mem[a.wrapping_add(1) as usize]]);
        self.push(ev(B_RD16, a, v, ts));
        v
    }
    #[inline]
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: Ts) -> u8 {
        // val = ir: what the host sees as refresh address
        self.push(ev(B_OP, pc, ir, ts));
        self.mem[pc as usize]
    }
    #[inline]
    fn write_mem(&mut self, a: u16, v: u8, ts: Ts) {
        self.push(ev(B_WR, a, v as u16, ts));
        self.poke(a, v);
    }
    #[inline]
    fn read_debug(&self, a: u16) -> u8 { self.mem[a as usize] }
}
