# Fourth round: state-history and two-site bugs of the core.
BUGS=[]
def bug(id,prop,edits,demo,needs,what,**k): BUGS.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,what=what,**k))
I='src/z80/internal.rs'; Z='src/z80.rs'; N='src/z80/instructions.rs'

bug('f01-ldai-early-sample','C11',[(I,'''        let ir = self.get_ir();
        // ir:1
        // tsc.add_no_mreq::<{NO_MREQ_X1.get()}>(ir);
        tsc.add_no_mreq(ir, NO_MREQ_X1);
        let val = if I {''','''        let ir = self.get_ir();
        let sample_ts = tsc.as_timestamp();
        // ir:1
        // tsc.add_no_mreq::<{NO_MREQ_X1.get()}>(ir);
        tsc.add_no_mreq(ir, NO_MREQ_X1);
        let val = if I {'''),(I,'''self.iff1 && control.is_irq(tsc.as_timestamp()))
        }
        else {
            false
        };
        ops::ld_a_ir''','''self.iff1 && control.is_irq(sample_ts))
        }
        else {
            false
        };
        ops::ld_a_ir''')],'''
struct T9(Host, std::cell::Cell<u32>);
impl Memory for T9 { forward_host_memory_types!{ @ => Host } forward_host_memory_methods!{ @ref => |b| b.0 } forward_host_memory_methods!{ @mut => |b| b.0 } }
impl Io for T9 { forward_host_io_types!{ @ => Host } forward_host_io_methods!{ (write_io, read_io, irq_data, reti) => |b| b.0 }
    fn is_irq(&mut self, ts: u32) -> bool { self.1.set(ts); false } }
fn main() {
    let mut h = T9(Host::new(0x100, &[0xED, 0x57]), Default::default());
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_iffs(true, true);
    c.execute_next(&mut h, &mut t, None::<fn(CpuDebug)>).unwrap();
    assert_eq!((h.1.get(), t.as_timestamp()), (9, 9));
}''','LD A,I or LD A,R with an interrupt that is requested exactly in the last T-state','the request is sampled one T-state early')

bug('f02-run-iff2','C06',[(Z,'''                if is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
                    break 'main LoopExitReason::Irq''','''                if is_int_allowed(prefix, false) && self.iff1 && self.iff2 && control.is_irq(tsc.as_timestamp()) {
                    break 'main LoopExitReason::Irq''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xFB, 0, 0, 0, 0, 0, 0, 0]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x101); c.set_sp(0x8000); c.set_im(InterruptMode::Mode1); c.set_iffs(true, false);
    // the line goes active after the first check
    struct L(Host, u32);
    impl Memory for L { forward_host_memory_types!{ @ => Host } forward_host_memory_methods!{ @ref => |b| b.0 } forward_host_memory_methods!{ @mut => |b| b.0 } }
    impl Io for L { forward_host_io_types!{ @ => Host } forward_host_io_methods!{ (write_io, read_io, irq_data, reti) => |b| b.0 } fn is_irq(&mut self, ts: u32) -> bool { ts >= self.1 } }
    h.data = 0xFF;
    let mut l = L(h, 4);
    let _ = c.execute_with_limit(&mut l, &mut t, 12);
    assert_eq!(c.get_pc(), 0x38);
}''','interrupt flip-flops set apart by the host (IFF1 set, IFF2 reset) and a request that appears during a run','the request is not accepted')

bug('f03-nmi-halt-iff1','C07',[(I,'''        self.last_ei = false;
        self.iff1 = false;
        self.inc_r();
        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
        }
        tsc.add_m1(pc); // pc:4''','''        self.last_ei = false;
        self.inc_r();
        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
        }
        else {
            self.iff1 = false;
        }
        tsc.add_m1(pc); // pc:4''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0x76]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); c.set_iffs(true, true);
    step(&mut c, &mut h, &mut t);
    assert!(c.is_halt() && c.nmi(&mut h, &mut t));
    assert_eq!(c.get_iffs(), (false, true));
}''','an NMI that ends a HALT with interrupts enabled','maskable interrupts stay enabled inside the NMI handler')

bug('f05-otdr-break-pc','C10',[(N,'''                                                                    BlockDelta::Decrease, Some($pc));
            // flags_op!();
            if let Some(pc) = maybe_pc { $pc = pc; }
            if let Some(cause) = should_break {
                break $main LoopExitReason::WriteIo(cause);
            }''','''                                                                    BlockDelta::Decrease, Some($pc));
            // flags_op!();
            if let Some(cause) = should_break {
                break $main LoopExitReason::WriteIo(cause);
            }
            if let Some(pc) = maybe_pc { $pc = pc; }''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0xBB, 0]);
    h.brk = true;
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_reg16(StkReg16::BC, 0x0310); c.set_reg16(StkReg16::HL, 0x2000);
    assert!(!step(&mut c, &mut h, &mut t));
    assert_eq!(c.get_pc(), 0x100);
}''','a break requested by a write of OTDR other than the last one','the rest of the block is not sent')

bug('f07-pair-65536','C17',[('src/cpu/registers.rs','''        if value <= u64::from(std::u16::MAX) {''','''        if value <= 1 << u16::BITS {''')],'''
fn main() {
    let c = Z80NMOS::default();
    let t = serde_json::to_string(&c).unwrap();
    assert!(serde_json::from_str::<Z80NMOS>(&t.replace("\\"pc\\":0", "\\"pc\\":65535")).is_ok());
    assert!(serde_json::from_str::<Z80NMOS>(&t.replace("\\"pc\\":0", "\\"pc\\":65536")).is_err());
}''','a snapshot with the number 65536 for a register pair','it is read as 0 instead of being refused',deps='serde_json = "1"')

bug('f09-ldir-memptr-page','C13',[(I,'''        let is_over = self.regs.bc.dec16_is_zero();
        ops::ldx(self.af.get8hi(), val, is_over, flags);
        self.flavour.flags_modified();
        if let Some(pc) = pc {
            if !is_over {
                // tsc.add_no_mreq::<{NO_MREQ_X5.get()}>(de);
                tsc.add_no_mreq(de, NO_MREQ_X5);
                // MEMPTR = PC + 1
                self.memptr.set16((pc - Wrapping(1)).0);''','''        let is_over = self.regs.bc.dec16_is_zero();
        ops::ldx(self.af.get8hi(), val, is_over, flags);
        self.flavour.flags_modified();
        if let Some(pc) = pc {
            if !is_over {
                // tsc.add_no_mreq::<{NO_MREQ_X5.get()}>(de);
                tsc.add_no_mreq(de, NO_MREQ_X5);
                // MEMPTR = PC + 1
                self.memptr.set(pc.0.msb(), pc.0.lsb().wrapping_sub(1));''')],'''
fn main() {
    let mut h = Host::new(0x1FE, &[0xED, 0xB0]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x1FE); c.set_reg16(StkReg16::BC, 3); c.set_reg16(StkReg16::HL, 0x3000); c.set_reg16(StkReg16::DE, 0x4000);
    step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_memptr(), 0x1FF);
}''','a repeating LDIR/LDDR in the last two bytes of a page','MEMPTR loses the borrow')

bug('f13-debug-halt','C14',[(Z,'''        if self.halt {
            self.last_ei = false;
            self.prefix = None;
            tsc.add_m1(self.pc.get16());
            self.inc_r();
            Ok(())
        }
        else {
            // let code''','''        if self.halt {
            self.last_ei = false;
            self.prefix = None;
            tsc.add_m1(self.pc.get16());
            self.inc_r();
            if debug.is_some() { Err(BreakCause::Halt) } else { Ok(()) }
        }
        else {
            // let code''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0x76]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100);
    step(&mut c, &mut h, &mut t);
    assert!(c.execute_next(&mut h, &mut t, None::<fn(CpuDebug)>).is_ok());
    assert!(c.execute_next(&mut h, &mut t, Some(|_: CpuDebug| {})).is_ok());
}''','stepping a halted CPU with a debugger','HALT is reported again on every step, only with a debugger')

bug('f17-cpi-memptr-top','C21',[(I,'''        // MEMPTR = MEMPTR +/- 1
        self.memptr.add16(delta as u16);''','''        // MEMPTR = MEMPTR +/- 1
        let mp = self.memptr.get16();
        self.memptr.set16(match delta { BlockDelta::Increase => mp + 1, BlockDelta::Decrease => mp.wrapping_sub(1) });''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0xA1]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_memptr(0xFFFF);
    step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_memptr(), 0);
}''','CPI (or the end of CPIR) while MEMPTR is FFFFh, in a build with overflow checks','the emulator panics')

bug('f20-any-irq-debug','C18',[('src/z80/any.rs','''        cpu_dispatch_any!(self(cpu) => cpu.irq(control, tsc, debug))''','''        // nothing is decoded in IM 2, there is nothing to show
        let debug = debug.filter(|_| self.get_im() != InterruptMode::Mode2);
        cpu_dispatch_any!(self(cpu) => cpu.irq(control, tsc, debug))''')],'''
use z80emu::z80::any::Z80Any;
fn main() {
    let mut c: Z80Any = Z80NMOS::default().into();
    let mut k = Z80NMOS::default();
    fn go<C: Cpu>(c: &mut C) -> bool {
        let mut h = Host::new(0x100, &[0]); let mut t = Ts::default();
        c.set_pc(0x100); c.set_sp(0x8000); c.set_iffs(true, true); c.set_im(InterruptMode::Mode2);
        let mut n = false;
        c.irq(&mut h, &mut t, Some(|_: CpuDebug| n = true)).unwrap().unwrap();
        n
    }
    assert_eq!(go(&mut c), go(&mut k));
}''','an IM 2 acknowledge of an any-flavour CPU by irq() with a debugger','the debugger is not called')

bug('f23-irq-halt-address','C03',[(I,'''        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
            self.pc.set16(pc);
        }
        let bus_ts = tsc.add_irq(pc);
        let (vector''','''        let mut pc = self.pc.get16();
        let bus_ts = tsc.add_irq(pc);
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
            self.pc.set16(pc);
        }
        let (vector''')],'''
#[derive(Clone, Copy, Default)]
struct Cl(u32, u16);
impl Clock for Cl {
    type Limit = u32; type Timestamp = u32;
    fn is_past_limit(&self, l: u32) -> bool { self.0 >= l }
    fn add_irq(&mut self, a: u16) -> u32 { self.0 += 7; self.1 = a; self.0 - 2 }
    fn add_no_mreq(&mut self, _: u16, n: NonZeroU8) { self.0 += n.get() as u32 }
    fn add_m1(&mut self, _: u16) -> u32 { self.0 += 4; self.0 }
    fn add_mreq(&mut self, _: u16) -> u32 { self.0 += 3; self.0 }
    fn add_io(&mut self, _: u16) -> u32 { self.0 += 4; self.0 - 1 }
    fn add_wait_states(&mut self, _: u16, n: NonZeroU16) { self.0 += n.get() as u32 }
    fn as_timestamp(&self) -> u32 { self.0 }
}
fn main() {
    let mut h = Host::new(0x100, &[0x76]);
    let mut c = Z80NMOS::default(); let mut t = Cl::default();
    c.set_pc(0x100); c.set_sp(0x8000); c.set_iffs(true, true); c.set_im(InterruptMode::Mode1);
    let _ = c.execute_next(&mut h, &mut t, None::<fn(CpuDebug)>);
    assert!(c.is_halt());
    c.irq(&mut h, &mut t, None::<fn(CpuDebug)>).unwrap().unwrap();
    assert_eq!(t.1, 0x101);
}''','a clock which looks at addresses and an interrupt which ends a HALT in the last byte before a contended page','the acknowledge cycle names the address of the HALT')
