# Round 3: bugs at crossings of two dimensions (state x opcode, address x repeat, format x flavour).
S='src/z80/'
BUGS=[]
def bug(id,prop,edits,demo,needs,what,**k): BUGS.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,what=what,**k))

bug('e01-ldir-top','C04',[(S+'internal.rs','''        ops::ldx(self.af.get8hi(), val, is_over, flags);
        self.flavour.flags_modified();
        if let Some(pc) = pc {
            if !is_over {''','''        ops::ldx(self.af.get8hi(), val, is_over, flags);
        self.flavour.flags_modified();
        if let Some(pc) = pc {
            if !is_over && pc.0 >= 2 {''')],'''
fn main() {
    let mut h = Host::new(0xFFFE, &[0xED, 0xB0]); // LDIR at the very top
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0xFFFE); c.set_reg16(StkReg16::HL, 0x2000); c.set_reg16(StkReg16::DE, 0x3000); c.set_reg16(StkReg16::BC, 3);
    for _ in 0..3 { step(&mut c, &mut h, &mut t); }
    assert_eq!(c.get_reg16(StkReg16::BC), 0);
    assert_eq!(c.get_pc(), 0);
}''','LDIR/LDDR placed at FFFEh or FFFFh','the instruction ends after one transfer')

bug('e03-callcc-nomreq','C03',[(S+'instructions.rs','$tsc.add_no_mreq($pc.0.wrapping_sub(1), NO_MREQ_X1);\n                push16!($pc.0);','$tsc.add_no_mreq($pc.0.saturating_sub(1), NO_MREQ_X1);\n                push16!($pc.0);')],'''
struct K(Vec<u16>);
impl Clock for K { type Limit = u32; type Timestamp = u32;
  fn is_past_limit(&self, _l: u32) -> bool { false }
  fn add_irq(&mut self, _a: u16) -> u32 { 0 }
  fn add_no_mreq(&mut self, a: u16, _t: NonZeroU8) { self.0.push(a) }
  fn add_io(&mut self, _p: u16) -> u32 { 0 }
  fn add_mreq(&mut self, _a: u16) -> u32 { 0 }
  fn add_m1(&mut self, _a: u16) -> u32 { 0 }
  fn add_wait_states(&mut self, _b: u16, _w: NonZeroU16) {}
  fn as_timestamp(&self) -> u32 { 0 } }
fn main() {
    let mut h = Host::new(0xFFFD, &[0xC4, 0x00, 0x80]); // CALL NZ
    let mut c = Z80NMOS::default(); let mut k = K(vec![]);
    c.set_pc(0xFFFD); c.set_sp(0x8000); c.set_flags(CpuFlags::empty());
    let _ = c.execute_next(&mut h, &mut k, None::<fn(CpuDebug)>);
    assert_eq!(k.0, [0xFFFF]);
}''','a taken conditional CALL whose last byte lies at FFFFh','the internal cycle names the wrong address')

bug('e04-limit-irq-first','C09',[('src/z80.rs','''                execute_next_instruction! { DEBUG; prefix, flags, pc, self, control, tsc; break 'main }

                if tsc.is_past_limit(vc_limit)  {
                    break 'main LoopExitReason::LimitReached
                }

                if is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
                    break 'main LoopExitReason::Irq
''','''                execute_next_instruction! { DEBUG; prefix, flags, pc, self, control, tsc; break 'main }

                if is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
                    break 'main LoopExitReason::Irq
                }

                if tsc.is_past_limit(vc_limit)  {
                    break 'main LoopExitReason::LimitReached
''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0x00; 8]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); c.set_iffs(true, true); c.set_im(InterruptMode::Mode1);
    // the line goes up between the 1st and the 2nd instruction
    struct L(Host);
    impl Memory for L { type Timestamp = u32; fn read_debug(&self, a: u16) -> u8 { self.0.read_debug(a) } fn write_mem(&mut self, a: u16, v: u8, t: u32) { self.0.write_mem(a, v, t) } }
    impl Io for L { type Timestamp = u32; type WrIoBreak = (); type RetiBreak = (); fn is_irq(&mut self, t: u32) -> bool { t >= 8 } }
    let mut l = L(h.clone());
    assert!(c.execute_with_limit(&mut l, &mut t, 8).is_ok());
    assert_eq!(t.as_timestamp(), 8);
    assert_eq!(c.get_pc(), 0x102);
    let _ = &mut h;
}''','an interrupt line that becomes active exactly at the limit','the interrupt is accepted past the limit')

bug('e05-initial-irq-break','C10',[('src/z80.rs','''            self.irq_no_check::<M,T,_>(control, tsc, DEBUG)?;

            if tsc.is_past_limit(vc_limit) {''','''            let served = self.irq_no_check::<M,T,_>(control, tsc, DEBUG);

            if tsc.is_past_limit(vc_limit) {
                return Ok(());
            }
            served?;
            if tsc.is_past_limit(vc_limit) {''')],'''
fn main() {
    // IM 0 with a HALT on the bus; the limit is passed by the very acknowledge
    let mut h = Host::new(0x100, &[0; 8]);
    h.irq = true; h.data = 0x76;
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_iffs(true, true); c.set_im(InterruptMode::Mode0);
    let r = c.execute_with_limit(&mut h, &mut t, 2);
    assert!(c.is_halt());
    assert!(matches!(r, Err(BreakCause::Halt)));
}''','an IM 0 acknowledge at the start of a run whose injected instruction requests a break while the limit passes','the break is reported as a reached limit')

bug('e06-nmi-allowed-ei','C07',[('src/z80.rs','''    fn is_nmi_allowed(&self) -> bool {
        is_int_allowed(self.prefix, self.last_ei)''','''    fn is_nmi_allowed(&self) -> bool {
        is_int_allowed(self.prefix, self.last_ei && self.iff1)''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xFB, 0xF3]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100);
    step(&mut c, &mut h, &mut t); // EI
    c.set_iffs(false, false);
    let a = c.is_nmi_allowed();
    assert_eq!(a, c.nmi(&mut h, &mut t));
}''','flip-flops changed by the host right after EI','is_nmi_allowed disagrees with nmi()')

bug('e07-halt-wait-ei','C08',[('src/z80.rs','''            let pc = self.pc.get16();
            loop {
                if tsc.is_past_limit(vc_limit) {
                    return Ok(());
                }
                if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {''','''            let pc = self.pc.get16();
            let allowed = self.is_irq_allowed();
            loop {
                if tsc.is_past_limit(vc_limit) {
                    return Ok(());
                }
                if allowed && control.is_irq(tsc.as_timestamp()) {''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xFB, 0x76, 0x00]);
    h.irq = true;
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); c.set_im(InterruptMode::Mode1);
    step(&mut c, &mut h, &mut t); // EI
    c.halt(); // e.g. a HALT trap of the host
    let _ = c.execute_with_limit(&mut h, &mut t, 100);
    assert!(!c.is_halt());
}''','a CPU halted by the host right after EI and then run with a limit','the interrupt is never accepted')

bug('e08-memptr-ldann','C13',[(S+'internal.rs','''        // LD A, (nn) MEMPTR = addr + 1
        self.memptr.set16(addr.wrapping_add(1));''','''        // LD A, (nn) MEMPTR = addr + 1
        self.memptr.set((addr >> 8) as u8, (addr as u8).wrapping_add(1));''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0x3A, 0xFF, 0x20]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_memptr(), 0x2100);
}''','LD A,(nn) from the last byte of a page','MEMPTR loses the carry')

bug('e09-ack-wait-im1','C11',[(S+'internal.rs','''        let (vector, wait_states) = control.irq_data(pc, bus_ts);
        if let Some(ws) = wait_states {''','''        let (vector, wait_states) = control.irq_data(pc, bus_ts);
        if let (Some(ws), InterruptMode::Mode0|InterruptMode::Mode2) = (wait_states, self.im) {''')],'''
#[derive(Default)] struct L(Host);
impl Memory for L { type Timestamp = u32; fn read_debug(&self, a: u16) -> u8 { self.0.read_debug(a) } }
impl Io for L { type Timestamp = u32; type WrIoBreak = (); type RetiBreak = (); fn is_irq(&mut self, _t: u32) -> bool { true }
  fn irq_data(&mut self, _pc: u16, _t: u32) -> (u8, Option<NonZeroU16>) { (0, NonZeroU16::new(5)) } }
fn main() {
    let mut l = L(Host::new(0, &[0]));
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_iffs(true, true); c.set_im(InterruptMode::Mode1); c.set_sp(0x8000);
    let _ = c.execute_next(&mut l, &mut t, None::<fn(CpuDebug)>);
    assert_eq!(t.as_timestamp(), 13 + 5);
}''','an IM 1 acknowledge for which the device inserts wait states','the wait states are not inserted')

bug('e12-disasm-window','C16',[('src/disasm.rs','        *self.1.get(addr.wrapping_sub(self.0) as usize).unwrap_or(&0xff)','        *self.1.get(addr.saturating_sub(self.0) as usize).unwrap_or(&0xff)')],'''
fn main() {
    let mut s = String::new();
    disasm::disasm_memory_write_text::<Z80NMOS, _>(0xFFFE, &[0x21, 0x34, 0x12], &mut s).unwrap();
    let d = disasm::disasm_memory_once::<Z80NMOS>(0xFFFF, &[0x3E, 0x42]).unwrap();
    assert_eq!(&d.code[..], [0x3E, 0x42]);
}''','an instruction that crosses the top of the address space','the operand bytes are wrong')

bug('e13-cmos-seq-flavour','C17',[(S+'serde.rs','''                        "CMOS" => visit_seq(self, seq, 1).map(Z80Any::CMOS),
                        "BM1"  => visit_seq(self, seq, 1).map(Z80Any::BM1),''','''                        "CMOS" => visit_seq(self, seq, 1).map(Z80Any::CMOS),
                        "BM1"  => visit_seq::<_, _, NMOS>(self, seq, 1).map(|cpu| Z80Any::BM1(cpu.into_flavour::<CMOS>().into_flavour())),''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0x3C, 0x37]);
    let mut c = z80::Z80BM1::default(); let mut t = Ts::default();
    c.set_pc(0x100); step(&mut c, &mut h, &mut t); // INC A: flags modified
    let any = Z80Any::from(c);
    let b = bincode::serialize(&any).unwrap();
    let back: Z80Any = bincode::deserialize(&b).unwrap();
    assert!(any == back);
}''','a sequence-format snapshot of a BM1 right after a flag-changing instruction','the Q state is lost',deps='bincode = "1.3"')

bug('e14-any-into-cmos','C18',[('src/z80.rs','            last_ei: self.last_ei,\n            ir: self.ir,','            last_ei: self.last_ei && self.iff1,\n            ir: self.ir,')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xFB, 0x00]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); step(&mut c, &mut h, &mut t);
    c.set_iffs(false, false);
    let d: Z80CMOS = c.clone().into_flavour();
    assert_eq!(c.is_after_ei(), d.is_after_ei());
}''','a conversion between flavours right after EI with the flip-flops reset by the host','the EI shadow is lost')

bug('e15-counter-io-wrap','C19',[('src/host.rs','''        let ts = (self.0 + Wrapping(IO_IORQ_LOW_TS.into())).0;
        self.0 += Wrapping(IO_CYCLE_TS.into());
        ts''','''        let ts = (self.0 + Wrapping(IO_IORQ_LOW_TS.into())).0;
        self.0 += Wrapping(IO_CYCLE_TS.into());
        if ts < (self.0).0 { ts } else { (self.0).0 }''')],'''
fn main() {
    let mut t = host::TsCounter::<u32>::from(u32::MAX - 2);
    assert_eq!(t.add_io(0), u32::MAX - 1);
}''','an I/O cycle during which the counter wraps','the I/O timestamp is the time after the cycle')

bug('e17-inir-overflow','C21',[(S+'internal.rs','''        let b = ((bc >> 8) as u8).wrapping_sub(1);
        ops::iox(data, b, (bc as u8).wrapping_add(delta as u8), flags);''','''        let b = ((bc >> 8) as u8).wrapping_sub(1);
        ops::iox(data, b, (bc as u8 as i8 + delta as i8) as u8, flags);''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0xA2]); // INI
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_reg16(StkReg16::BC, 0x047F);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { step(&mut c, &mut h, &mut t); }));
    assert!(r.is_ok());
}''','INI with C = 7Fh (IND with 80h) in a build with overflow checks','the emulator panics')

bug('e20-fwd-reti-ts','C24',[('src/macros.rs','            ($fwd).write_io(port, data, ts)','            let (brk, ws) = ($fwd).write_io(port, data, ts);\n            (brk, if ws.is_some() && port & 0xFF == 0xFF { None } else { ws })')],'''
struct W(Host);
impl Io for W { forward_host_io_types!{ @ => Host } forward_host_io_methods!{ @ => |b| b.0 } }
fn main() {
    let mut w = W(Host::new(0, &[])); w.0.ws = 3;
    assert_eq!(w.write_io(0x12FF, 0, 0).1, NonZeroU16::new(3));
}''','a forwarded OUT to a port whose low byte is FFh','the wait states are dropped')

bug('e21-lda-i-irq','C07',[(S+'internal.rs','''            !(Q::ACCEPTING_INT_RESETS_IFF2_EARLY && self.iff1 && control.is_irq(tsc.as_timestamp()))''','''            !(Q::ACCEPTING_INT_RESETS_IFF2_EARLY && control.is_irq(tsc.as_timestamp()))''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0x57]); // LD A,I
    h.irq = true;
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_iffs(false, true); // inside an NMI handler
    step(&mut c, &mut h, &mut t);
    assert!(c.get_flags().contains(CpuFlags::PV));
}''','LD A,I inside an NMI handler with a maskable interrupt pending','P/V does not show IFF2')

bug('e22-prefix-run','C05',[('src/z80.rs','''        self.set_flags(flags);
        self.pc.set16(pc.0);
        self.prefix = prefix;
        match reason {
            LoopExitReason::Halt''','''        self.set_flags(flags);
        self.pc.set16(pc.0);
        self.prefix = match (self.prefix, prefix) {
            (Some(old), Some(_)) => Some(old),
            (_, new) => new
        };
        match reason {
            LoopExitReason::Halt''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xDD, 0xFD, 0x21, 0x34, 0x12]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100);
    while c.get_pc() != 0x105 { step(&mut c, &mut h, &mut t); }
    assert_eq!(c.get_index16(Prefix::Yfd), 0x1234);
}''','two different prefixes in a row executed step by step','the first prefix wins')

bug('e23-ed-im-alias','C01',[(S+'instructions.rs','''            $cpu.restore_iff1(); // Both RETI and RETN do that.''','''            if $code1 == opconsts::RETI_OPCODE_T2.1 || $code1 & 0b1000 == 0 { $cpu.restore_iff1(); } // Both RETI and RETN do that.''')],'''
fn main() {
    for op in [0x45u8, 0x4D, 0x55, 0x5D, 0x65, 0x6D, 0x75, 0x7D] {
        let mut h = Host::new(0x100, &[0xED, op]);
        let mut c = Z80NMOS::default(); let mut t = Ts::default();
        c.set_pc(0x100); c.set_sp(0x8000); c.set_iffs(false, true);
        step(&mut c, &mut h, &mut t);
        assert_eq!(c.get_iffs(), (true, true));
    }
}''','the undocumented opcodes ED 5D, 6D, 7D','IFF1 is not restored')

bug('e24-debug-ret','C14',[('src/z80.rs','''        self.last_ei = false;
        self.halt = false;
        let mut prefix = self.prefix;
        let mut pc = Wrapping(self.pc.get16());''','''        self.last_ei &= debug.is_some() && self.prefix.is_some();
        self.halt = false;
        let mut prefix = self.prefix;
        let mut pc = Wrapping(self.pc.get16());''')],'''
fn main() {
    // EI executed while a prefix is pending, then an instruction injected with a debugger
    let mut a = Z80NMOS::default(); let mut t = Ts::default();
    let mut h = Host::new(0x100, &[0xDD, 0, 0]);
    a.set_pc(0x100); step(&mut a, &mut h, &mut t); // prefix pending
    a.enable_interrupts();
    let mut b = a.clone();
    let _ = a.execute_instruction(&mut h, &mut t, None::<fn(CpuDebug)>, 0x24);
    let _ = b.execute_instruction(&mut h, &mut t, Some(|_d: CpuDebug| ()), 0x24);
    assert!(a == b);
}''','an instruction injected with a debugger after enable_interrupts() while a prefix is pending','the EI shadow survives only with a debugger')
