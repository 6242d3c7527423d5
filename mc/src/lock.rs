//! Lock-step of the model and the implementation over sequences of actions, with undo, for
//! depth-first and breadth-first exploration.
use crate::host::*;
use crate::onestep::{self, show_cpu};
use crate::refm::*;
use crate::rep::*;
use crate::sut::*;
use z80emu::{Cpu, Z80};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    /// execute_next
    Step,
    /// irq()
    Irq,
    /// nmi()
    Nmi,
    /// execute_instruction(byte)
    Exec(u8),
    /// execute_with_limit(now + n)
    Run(u32),
    /// Cpu::halt() (only from states without pending prefix / EI protection)
    Halt,
    Reset,
    SetR(u8), AddR(i32), IncR, EnInt, DisInt, RestIff,
    /// set_iffs
    Iffs(bool, bool),
    SetIm(u8),
    ExAf, Exx,
}

pub struct Lock<F: Fla> {
    pub ld: Loader<F>,
    pub c: Z80<F>,
    pub rc: RCpu,
    pub ea: Env,
    pub eb: Env,
    pub ka: Clk,
    pub kb: Clk,
    pub steps: u64,
    pub events: u64,
    /// what the model executed in the last action
    pub dbg: Dbg,
    pub last: Option<Out>,
}

#[derive(Clone)]
pub struct Save<F: Fla> { c: Z80<F>, rc: RCpu, ma: usize, mb: usize, sa: EnvSt, sb: EnvSt, ca: EnvCfg, na: Ts, nb: Ts }

pub struct Fail { pub comps: u32, pub text: String }

impl<F: Fla> Lock<F> {
    pub fn new(max: usize) -> Self {
        let ld = Loader::new();
        let rc = RCpu::default();
        let c = ld.load(&rc);
        Lock { ld, c, rc, ea: Env::new(max), eb: Env::new(max), ka: Clk::new(T0S, max), kb: Clk::new(T0S, max),
            steps: 0, events: 0, dbg: Dbg::default(), last: None }
    }
    pub fn fill(&mut self, f: impl Fn(u16) -> u8) {
        for a in 0..65536usize { let v = f(a as u16); self.ea.mem[a] = v; self.eb.mem[a] = v; }
    }
    pub fn start(&mut self, s: &RCpu, cfg: EnvCfg) {
        let mut s = *s;
        if F::F == Fl::Cmos { s.q = false }
        self.rc = s;
        self.c = self.ld.load(&s);
        self.ea.rollback(0); self.eb.rollback(0);
        self.ea.cfg = cfg; self.eb.cfg = cfg;
        self.ea.st = EnvSt::default(); self.eb.st = EnvSt::default();
        self.ka.now = T0S; self.kb.now = T0S;
        self.ka.mode = 0; self.kb.mode = 0;
    }
    pub fn cfg(&mut self, f: impl Fn(&mut EnvCfg)) { f(&mut self.ea.cfg); self.eb.cfg = self.ea.cfg }
    pub fn poke(&mut self, a: u16, v: u8) { self.ea.poke(a, v); self.eb.poke(a, v) }
    pub fn pokes(&mut self, a: u16, v: &[u8]) { for (i, b) in v.iter().enumerate() { self.poke(a.wrapping_add(i as u16), *b) } }
    pub fn save(&self) -> Save<F> {
        Save { c: self.c.clone(), rc: self.rc, ma: self.ea.mark(), mb: self.eb.mark(), sa: self.ea.st.clone(),
            sb: self.eb.st.clone(), ca: self.ea.cfg, na: self.ka.now, nb: self.kb.now }
    }
    pub fn restore(&mut self, s: &Save<F>) {
        self.c = s.c.clone(); self.rc = s.rc;
        self.ea.rollback(s.ma); self.eb.rollback(s.mb);
        self.ea.st = s.sa.clone(); self.eb.st = s.sb.clone();
        self.ea.cfg = s.ca; self.eb.cfg = s.ca;
        self.ka.now = s.na; self.kb.now = s.nb;
    }
    pub fn mem_equal(&self) -> bool { self.ea.mem == self.eb.mem }

    /// Performs one action on both sides and compares everything.
    pub fn act(&mut self, a: Act) -> Result<(), Fail> {
        self.steps += 1;
        self.ea.clear_log(); self.ka.log.clear();
        let before = self.rc;
        let now0 = self.kb.now;
        let (c, env, k) = (&mut self.c, &mut self.ea, &mut self.ka);
        let res = guard(|| impl_act(c, env, k, a));
        let (out, panic) = match res { Ok(o) => (o, None), Err(m) => (None, Some(m)) };
        let got = snap(&self.c);
        let allowed = (self.c.is_irq_allowed(), self.c.is_nmi_allowed());
        let (mb, stb) = (self.eb.mark(), self.eb.st.clone());
        let mut fail = None;
        for read_untaken in [false, true] {
            self.rc = before;
            self.eb.rollback(mb);
            self.eb.st = stb.clone();
            self.kb.now = now0;
            self.eb.clear_log(); self.kb.log.clear();
            let mut m = Model::new(&mut self.rc, &mut self.eb, &mut self.kb, F::F);
            m.read_untaken = read_untaken;
            let want = model_act(&mut m, a);
            self.dbg = m.dbg;
            self.last = want;
            let nmi = self.rc.pfx == 0 && !self.rc.ei;
            let want_allowed = (nmi && self.rc.iff1, nmi);
            if panic.is_none() && allowed == want_allowed && out == want && got == self.rc && self.ka.now == self.kb.now
                && self.ka.log == self.kb.log && self.ea.log() == self.eb.log() && self.ea.st == self.eb.st {
                self.events += (self.ka.log.len() + self.ea.log().len()) as u64;
                return Ok(());
            }
            if fail.is_none() {
                let mut comps = onestep::C_REGS;
                if panic.is_some() { comps = !0 }
                else {
                    if got == self.rc && out == want { comps = 0 }
                    if got.wz != self.rc.wz { comps |= onestep::C_WZ }
                    if got.q != self.rc.q { comps |= onestep::C_Q }
                    if got.r != self.rc.r { comps |= onestep::C_R }
                    { let (mut x, mut y) = (got, self.rc); x.wz = 0; y.wz = 0; x.q = false; y.q = false; x.r = 0; y.r = 0;
                      if x == y && out == want { comps &= !onestep::C_REGS } }
                    if (got.iff1, got.iff2, got.im, got.halt, got.ei, got.pfx, got.pc, got.sp) !=
                        (self.rc.iff1, self.rc.iff2, self.rc.im, self.rc.halt, self.rc.ei, self.rc.pfx, self.rc.pc, self.rc.sp)
                        || out != want || allowed != want_allowed { comps |= onestep::C_INT }
                    if (got.af ^ self.rc.af) & 0xFF != 0 { comps |= onestep::C_FLAGS }
                    if (got.af ^ self.rc.af) & 0x28 != 0 { comps |= onestep::C_YX }
                    if self.ka.log != self.kb.log || self.ka.now != self.kb.now { comps |= onestep::C_CLK }
                    if self.ea.log() != self.eb.log() || self.ea.st != self.eb.st { comps |= onestep::C_BUS }
                }
                fail = Some(Fail { comps, text: format!(
                    "flavour {} action {:?} at time {}  components {:#x}\nenv {:?}\nbefore: {}\nwant  : {} -> {:?} now={}\ngot   : {} -> {:?} now={}\nwant cycles: {}\ngot  cycles: {}\nwant bus: {}\ngot  bus: {}\nis_irq_allowed, is_nmi_allowed: want {want_allowed:?} got {allowed:?}\npanic: {:?}",
                    F::NAME, a, now0, comps, self.ea.cfg, show_cpu(&before), show_cpu(&self.rc), want, self.kb.now,
                    show_cpu(&got), out, self.ka.now, show_log(&self.kb.log), show_log(&self.ka.log),
                    show_log(self.eb.log()), show_log(self.ea.log()), panic) });
            }
        }
        Err(fail.unwrap())
    }
}
pub const T0S: Ts = 100;

pub fn impl_act<C: Cpu>(c: &mut C, env: &mut Env, k: &mut Clk, a: Act) -> Option<Out> {
    match a {
        Act::Step => Some(impl_step(c, env, k)),
        Act::Irq => impl_irq(c, env, k),
        Act::Nmi => if c.nmi(env, k) { Some(Out::Ok) } else { None },
        Act::Exec(b) => Some(out_of(c.execute_instruction::<_, _, z80emu::CpuDebugFn>(env, k, NODBG, b))),
        Act::Run(n) => { let l = k.now + n; Some(out_of(c.execute_with_limit(env, k, l))) }
        Act::Halt => { c.halt(); None }
        Act::Reset => { c.reset(); None }
        Act::SetR(v) => { c.set_r(v); None }
        Act::AddR(d) => { c.add_r(d); None }
        Act::IncR => { c.inc_r(); None }
        Act::EnInt => { c.enable_interrupts(); None }
        Act::DisInt => { c.disable_interrupts(); None }
        Act::RestIff => { c.restore_iff1(); None }
        Act::Iffs(x, y) => { c.set_iffs(x, y); None }
        Act::SetIm(m) => { c.set_im(im_of(m)); None }
        Act::ExAf => { c.ex_af_af(); None }
        Act::Exx => { c.exx(); None }
    }
}
pub fn model_act(m: &mut Model, a: Act) -> Option<Out> {
    let c = &mut *m.c;
    match a {
        Act::Step => return Some(m.step()),
        Act::Irq => return m.irq(),
        Act::Nmi => return if m.nmi() { Some(Out::Ok) } else { None },
        Act::Exec(b) => return Some(m.exec(b)),
        Act::Run(n) => { let l = m.k.now + n; return Some(m.run_limit(l)) }
        Act::Halt => c.halt = true,
        Act::Reset => *c = RCpu::reset_state(),
        Act::SetR(v) => c.r = v,
        Act::AddR(d) => c.r = c.r & 0x80 | c.r.wrapping_add(d as u8) & 0x7F,
        Act::IncR => c.r = c.r & 0x80 | c.r.wrapping_add(1) & 0x7F,
        Act::EnInt => { c.iff1 = true; c.iff2 = true; c.ei = true }
        Act::DisInt => { c.iff1 = false; c.iff2 = false }
        Act::RestIff => c.iff1 = c.iff2,
        Act::Iffs(x, y) => { c.iff1 = x; c.iff2 = y }
        Act::SetIm(x) => c.im = x,
        Act::ExAf => std::mem::swap(&mut c.af, &mut c.af_),
        Act::Exx => { std::mem::swap(&mut c.bc, &mut c.bc_); std::mem::swap(&mut c.de, &mut c.de_); std::mem::swap(&mut c.hl, &mut c.hl_) }
    }
    None
}
