//! Glue to the implementation: loading and observing CPU states through the public API only.
use crate::host::*;
use crate::refm::*;
use z80emu::*;
use z80emu::z80::*;

pub trait Fla: Flavour + Send + Sync + 'static { const F: Fl; const NAME: &'static str; }
impl Fla for NMOS { const F: Fl = Fl::Nmos; const NAME: &'static str = "NMOS"; }
impl Fla for CMOS { const F: Fl = Fl::Cmos; const NAME: &'static str = "CMOS"; }
impl Fla for BM1 { const F: Fl = Fl::Bm1; const NAME: &'static str = "BM1"; }

pub fn im_of(n: u8) -> InterruptMode {
    match n { 0 => InterruptMode::Mode0, 1 => InterruptMode::Mode1, _ => InterruptMode::Mode2 }
}
pub fn im_no(m: InterruptMode) -> u8 {
    match m { InterruptMode::Mode0 => 0, InterruptMode::Mode1 => 1, InterruptMode::Mode2 => 2 }
}

struct Nul;
impl Io for Nul { type Timestamp = u32; type WrIoBreak = (); type RetiBreak = (); }
impl Memory for Nul { type Timestamp = u32; }

fn fresh<F: Fla>(pfx: u8, ei: bool) -> Z80<F> {
    let mut c = Z80::<F>::default();
    if pfx != 0 {
        let mut k = host::TsCounter::<u32>::default();
        let _ = c.execute_instruction::<_, _, CpuDebugFn>(&mut Nul, &mut k, None, if pfx == 1 { 0xDD } else { 0xFD });
    }
    if ei { c.enable_interrupts() }
    c
}

pub struct Loader<F: Fla> { t: Vec<Z80<F>> }
impl<F: Fla> Loader<F> {
    pub fn new() -> Self {
        let mut t = Vec::new();
        for ei in [false, true] { for p in 0..3 { t.push(fresh(p, ei)) } }
        Loader { t }
    }
    #[inline]
    pub fn load(&self, s: &RCpu) -> Z80<F> {
        let mut c = self.t[s.pfx as usize + if s.ei { 3 } else { 0 }].clone();
        c.set_reg16(StkReg16::AF, s.af_);
        c.set_reg16(StkReg16::BC, s.bc_);
        c.set_reg16(StkReg16::DE, s.de_);
        c.set_reg16(StkReg16::HL, s.hl_);
        c.exx();
        c.ex_af_af();
        c.set_reg16(StkReg16::AF, s.af);
        c.set_reg16(StkReg16::BC, s.bc);
        c.set_reg16(StkReg16::DE, s.de);
        c.set_reg16(StkReg16::HL, s.hl);
        c.set_index16(Prefix::Xdd, s.ix);
        c.set_index16(Prefix::Yfd, s.iy);
        c.set_sp(s.sp);
        c.set_pc(s.pc);
        c.set_memptr(s.wz);
        c.set_i(s.i);
        c.set_r(s.r);
        c.set_iffs(s.iff1, s.iff2);
        c.set_im(im_of(s.im));
        if s.halt { c.halt() }
        let mut f = F::default();
        if s.q { f.flags_modified() }
        c.flavour = f;
        c
    }
}

#[inline]
pub fn snap<F: Fla>(c: &Z80<F>) -> RCpu {
    let (iff1, iff2) = c.get_iffs();
    let q = match F::F {
        Fl::Cmos => false,
        _ => {
            let mut f = c.flavour;
            f.begin_instruction();
            f.get_q(0, CpuFlags::all()) == 0
        }
    };
    RCpu {
        af: c.get_reg16(StkReg16::AF), bc: c.get_reg16(StkReg16::BC),
        de: c.get_reg16(StkReg16::DE), hl: c.get_reg16(StkReg16::HL),
        af_: c.get_alt_reg16(StkReg16::AF), bc_: c.get_alt_reg16(StkReg16::BC),
        de_: c.get_alt_reg16(StkReg16::DE), hl_: c.get_alt_reg16(StkReg16::HL),
        ix: c.get_index16(Prefix::Xdd), iy: c.get_index16(Prefix::Yfd),
        sp: c.get_sp(), pc: c.get_pc(), wz: c.get_memptr(), i: c.get_i(), r: c.get_r(),
        iff1, iff2, im: im_no(c.get_im()), halt: c.is_halt(), ei: c.is_after_ei(),
        pfx: match c.get_prefix() { None => 0, Some(Prefix::Xdd) => 1, Some(Prefix::Yfd) => 2 },
        q,
    }
}

pub fn out_of(r: z80emu::host::Result<u32, u32>) -> Out {
    match r {
        Ok(()) => Out::Ok,
        Err(BreakCause::Halt) => Out::Halt,
        Err(BreakCause::WriteIo(x)) => Out::Wr(x),
        Err(BreakCause::Reti(x)) => Out::Reti(x),
    }
}

pub const NODBG: Option<CpuDebugFn> = None;

#[inline]
pub fn impl_step<C: Cpu>(c: &mut C, e: &mut Env, k: &mut Clk) -> Out {
    out_of(c.execute_next::<_, _, CpuDebugFn>(e, k, NODBG))
}
#[inline]
pub fn impl_irq<C: Cpu>(c: &mut C, e: &mut Env, k: &mut Clk) -> Option<Out> {
    c.irq::<_, _, CpuDebugFn>(e, k, NODBG).map(out_of)
}
