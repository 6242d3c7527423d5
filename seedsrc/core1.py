S='src/z80/'
BUGS=[]
def bug(id,prop,edits,demo,needs,what,**k): BUGS.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,what=what,**k))

bug('c01-ddcb-copy-index','C01',[(S+'internal.rs','self.set_reg(reg, None, result);\n        }\n    }\n}','self.set_reg(reg, Some(prefix), result);\n        }\n    }\n}')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xDD, 0xCB, 0x01, 0xC4]); // SET 0,(IX+1),H
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_index16(Prefix::Xdd, 0x2000); c.set_reg16(StkReg16::HL, 0x1234);
    step(&mut c, &mut h, &mut t); step(&mut c, &mut h, &mut t);
    assert_eq!(h.mem[0x2001], 1);
    assert_eq!(c.get_index16(Prefix::Xdd), 0x2000);
    assert_eq!(c.get_reg16(StkReg16::HL), 0x0134);
}''','an undocumented DDCB/FDCB store-and-copy opcode whose copy target is H or L','the copy goes to IXH/IXL instead of H/L')

bug('c04-outx-flags-hl','C04',[(S+'internal.rs','ops::iox(data, b, hl1 as u8, flags);','ops::iox(data, b, hl as u8, flags);')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0xA3]); // OUTI
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    h.mem[0x20FE] = 1;
    c.set_pc(0x100); c.set_reg16(StkReg16::HL, 0x20FE); c.set_reg16(StkReg16::BC, 0x0510);
    step(&mut c, &mut h, &mut t);
    // k = data + L after the increment = 1 + FF = 100h: H and C set
    assert!(c.get_flags().hf() && c.get_flags().cf());
}''','an output block instruction whose data plus L crosses FFh exactly because of the increment','H, C and P/V are computed from L before instead of after the increment')

bug('c05-prefix-chain','C05',[(S+'opcodes.rs','            0xFD => {        { $maybe_prefix = Some(Prefix::Yfd); break $repeat };}','            0xFD => {        { break $repeat };}')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xDD, 0xFD, 0x21, 0x34, 0x12]); // LD IY,1234h after a superseded DD
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100);
    step(&mut c, &mut h, &mut t); step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_prefix(), Some(Prefix::Yfd));
    step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_index16(Prefix::Yfd), 0x1234);
    assert_eq!(c.get_index16(Prefix::Xdd), 0);
}''','a DD prefix followed by an FD prefix','the first prefix of the chain wins instead of the last')

bug('c06-im2-even-vector','C06',[(S+'internal.rs','let vaddr = ir & 0xFF00 | vector as u16;','let vaddr = ir & 0xFF00 | (vector & 0xFE) as u16;')],'''
fn main() {
    let mut h = Host::new(0x100, &[0]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    h.irq = true; h.data = 0xFF; h.mem[0x20FE] = 0x11; h.mem[0x20FF] = 0x34; h.mem[0x2100] = 0x12;
    c.set_pc(0x100); c.set_sp(0x8000); c.set_im(InterruptMode::Mode2); c.set_i(0x20); c.set_iffs(true, true);
    step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_pc(), 0x1234);
}''','an IM 2 acknowledge answered with an odd vector byte','the vector table is read at the address rounded down to even')

bug('c07-nmi-iff2','C07',[(S+'internal.rs','        self.last_ei = false;\n        self.iff1 = false;\n        self.inc_r();','        self.last_ei = false;\n        self.iff2 = self.iff1;\n        self.iff1 = false;\n        self.inc_r();')],'''
fn main() {
    let mut h = Host::new(0x100, &[0]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); c.set_iffs(true, true);
    assert!(c.nmi(&mut h, &mut t));
    assert_eq!(c.get_iffs(), (false, true));
    assert!(c.nmi(&mut h, &mut t)); // nested
    assert_eq!(c.get_iffs(), (false, true));
}''','an NMI accepted while IFF1 and IFF2 differ, e.g. a second NMI inside an NMI handler','the saved interrupt enable state in IFF2 is lost')

bug('c08-halt-limit-r','C08',[('src/z80.rs','''                tsc.add_m1(pc);
                self.inc_r();
            }
        }
        else if tsc''','''                tsc.add_m1(pc);
            }
            self.inc_r();
        }
        else if tsc''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0x76]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); step(&mut c, &mut h, &mut t); assert!(c.is_halt());
    let (r0, t0) = (c.get_r(), t.as_timestamp());
    let _ = c.execute_with_limit(&mut h, &mut t, t0 + 40);
    assert_eq!(c.get_r().wrapping_sub(r0), 10);
}''','running with a limit a CPU that is already halted','halted M1 cycles burnt by execute_with_limit do not advance R')

bug('c09-ei-at-limit','C09',[('src/z80.rs','''            if let LoopExitReason::EnableInt = reason {
                if !tsc.is_past_limit(vc_limit)  {
                    self.last_ei = false;
                    continue''','''            if let LoopExitReason::EnableInt = reason {
                self.last_ei = false;
                if !tsc.is_past_limit(vc_limit)  {
                    continue''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xFB, 0x3C]); // EI; INC A
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); c.set_acc(7); c.set_im(InterruptMode::Mode1); h.irq = true;
    let _ = c.execute_with_limit(&mut h, &mut t, 1);
    let _ = c.execute_with_limit(&mut h, &mut t, 5);
    assert_eq!(c.get_acc(), 8);
    assert_eq!(c.get_pc(), 0x102);
}''','a limit that is reached exactly by an EI with an interrupt already requested','the next slice accepts the interrupt right after EI')

bug('c10-otir-break-repeat','C10',[(S+'internal.rs','return (should_break, Some(pc - Wrapping(2)))','return (should_break.filter(|_| b == 1), Some(pc - Wrapping(2)))')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0xB3]); // OTIR
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    h.brk = true; h.mem[0x2000] = 0x55;
    c.set_pc(0x100); c.set_reg16(StkReg16::HL, 0x2000); c.set_reg16(StkReg16::BC, 0x0310);
    match c.execute_next(&mut h, &mut t, None::<fn(CpuDebug)>) {
        Err(BreakCause::WriteIo(0x55)) => {}
        e => panic!("{:?}", e)
    }
}''','a break requested by a write of OTIR/OTDR that is followed by more than one further iteration','break requests from repeating output iterations are dropped')

bug('c11-out-wait-break','C11',[(S+'internal.rs','''        let (should_break, wait_states) = control.write_io(bc, val, tsc.add_io(bc));
        if let Some(ws) = wait_states {''','''        let (should_break, wait_states) = control.write_io(bc, val, tsc.add_io(bc));
        if let (Some(ws), None) = (wait_states, &should_break) {''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0x79]); // OUT (C),A
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    h.brk = true; h.ws = 5; c.set_pc(0x100);
    let _ = step(&mut c, &mut h, &mut t);
    assert_eq!(t.as_timestamp(), 12 + 5);
}''','OUT (C),r to a port that returns wait states and a break request at once','the wait states are not added when a break is requested')

bug('c13-inx-memptr','C13',[(S+'internal.rs','''        // MEMPTR = BC_before_decrementing_B +/- 1
        self.memptr.set16(bc.wrapping_add(delta as u16));
        let b = ((bc >> 8) as u8).wrapping_sub(1);''','''        let b = ((bc >> 8) as u8).wrapping_sub(1);
        // MEMPTR = BC +/- 1
        self.memptr.set16(bc.wrapping_add(delta as u16));
        if pc.is_some() && b == 0 {
            self.memptr.set8hi(b);
        }''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0xB2]); // INIR
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_reg16(StkReg16::HL, 0x2000); c.set_reg16(StkReg16::BC, 0x0110);
    step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_memptr(), 0x0111);
}''','the final iteration of INIR or INDR','MEMPTR takes B after instead of before the decrement')

bug('c16-last-error','C16',[('src/disasm.rs','            debug(deb)?;\n','            let res = debug(deb);\n            if cursor < memory.len() {\n                res?;\n            }\n')],'''
fn main() {
    let r = disasm::disasm_memory::<Z80NMOS, _, _>(0, &[0x00, 0x3C], |d| if d.pc == 1 { Err(7) } else { Ok(()) });
    assert_eq!(r, Err(7));
}''','a callback that returns an error for the last instruction of the block','the error of the last callback is lost')

bug('c17-binary-iff','C17',[(S+'serde.rs','''    let iff1     = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(n + 11, &visitor))?;
    let iff2     = seq''','''    let iff2     = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(n + 11, &visitor))?;
    let iff1     = seq''')],'''
fn main() {
    let mut c = Z80NMOS::default(); c.set_iffs(false, true);
    let d: Z80NMOS = bincode::deserialize(&bincode::serialize(&c).unwrap()).unwrap();
    assert_eq!(d.get_iffs(), (false, true));
}''','a snapshot in a binary (sequence) format taken while IFF1 and IFF2 differ','IFF1 and IFF2 are exchanged',deps='bincode = "1.3"')

bug('c18-into-nmos-q','C18',[(S+'any.rs','cpu_dispatch_any!(self(cpu) => Z80Any::NMOS(cpu.into_flavour()))','cpu_dispatch_any!(self(cpu) => Z80Any::NMOS(cpu.into_flavour::<CMOS>().into_flavour()))')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xB7, 0x37]); // OR A; SCF
    let mut c = Z80Any::new_bm1(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_acc(0x28); step(&mut c, &mut h, &mut t);
    c.set_acc(0); c.set_flags(CpuFlags::XY);
    let mut c = c.into_nmos();
    step(&mut c, &mut h, &mut t);
    assert!(!c.get_flags().intersects(CpuFlags::XY)); // Q state kept: bits 3 and 5 from A only
}''','converting an any-flavour CPU to NMOS between a flag-changing instruction and SCF/CCF','the flavour (Q) state is lost in the conversion')

bug('c19-wait-truncated','C19',[('src/host.rs','self.0 += Wrapping(wait_states.get().into())','self.0 += Wrapping((wait_states.get() as u8).into())')],'''
fn main() {
    let mut t = Ts::default();
    t.add_wait_states(0, NonZeroU16::new(300).unwrap());
    assert_eq!(t.as_timestamp(), 300);
}''','a device that inserts more than 255 wait states','wait states are counted modulo 256')

bug('c20-reset-memptr','C20',[('src/z80.rs','        self.memptr.set16(0);\n        self.last_ei = false;','        self.last_ei = false;')],'''
fn main() {
    let mut c = Z80NMOS::default(); c.set_memptr(0x1234); c.reset();
    assert_eq!(c.get_memptr(), 0);
    assert!(c == Z80NMOS::new());
}''','a reset after MEMPTR was changed','RESET leaves MEMPTR as it was')

bug('c21-irq-halt-wrap','C21',[(S+'internal.rs','''            pc = pc.wrapping_add(1);
            self.pc.set16(pc);
        }
        let bus_ts''','''            pc += 1;
            self.pc.set16(pc);
        }
        let bus_ts''')],'''
fn main() {
    let mut h = Host::new(0xFFFF, &[0x76]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    h.irq = true; c.set_sp(0x8000); c.set_pc(0xFFFF); c.set_im(InterruptMode::Mode1); c.set_iffs(false, false);
    step(&mut c, &mut h, &mut t); c.set_iffs(true, true);
    step(&mut c, &mut h, &mut t);
    assert_eq!((h.mem[0x7FFE], h.mem[0x7FFF]), (0, 0));
}''','an interrupt that ends a HALT placed at FFFFh, in a build with overflow checks','the CPU panics on the address overflow')

bug('c23-dec16-zero','C23',[('src/cpu/registers.rs','        self.set16(val);\n        val == 0','        self.set16(val);\n        val & 0x7FFF == 0')],'''
fn main() {
    let mut r = RegisterPair::from(0x8001u16);
    assert!(!r.dec16_is_zero());
    assert_eq!(r.get16(), 0x8000);
}''','decrementing a register pair from 8001h','dec16_is_zero claims zero at 8000h (and LDIR with BC=8001h stops)')

bug('c24-clock-io-port','C24',[('src/macros.rs','($fwd).add_io(port)','($fwd).add_io(port & 0x00FF)')],'''
struct K(Vec<u16>);
impl Clock for K {
    type Limit = u32; type Timestamp = u32;
    fn is_past_limit(&self, _l: u32) -> bool { false }
    fn add_irq(&mut self, _p: u16) -> u32 { 0 }
    fn add_no_mreq(&mut self, _a: u16, _t: NonZeroU8) {}
    fn add_m1(&mut self, _a: u16) -> u32 { 0 }
    fn add_mreq(&mut self, _a: u16) -> u32 { 0 }
    fn add_io(&mut self, p: u16) -> u32 { self.0.push(p); 0 }
    fn add_wait_states(&mut self, _b: u16, _w: NonZeroU16) {}
    fn as_timestamp(&self) -> u32 { 0 }
}
struct W(K);
impl Clock for W {
    z80emu::forward_host_clock_types!{ @ => K }
    z80emu::forward_host_clock_methods!{ @ => |c| c.0 }
}
fn main() {
    let mut w = W(K(vec![])); w.add_io(0x12FE);
    assert_eq!((w.0).0, [0x12FE]);
}''','a forwarded clock that looks at the port address of I/O cycles','the upper half of the port address is lost by the forwarding macro')

bug('c12-nmi-halt-r','C12',[(S+'internal.rs','''        self.iff1 = false;
        self.inc_r();
        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
        }
        tsc.add_m1(pc); // pc:4''','''        self.iff1 = false;
        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
        }
        else {
            self.inc_r();
        }
        tsc.add_m1(pc); // pc:4''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0x76]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); step(&mut c, &mut h, &mut t); assert!(c.is_halt());
    let r = c.get_r();
    assert!(c.nmi(&mut h, &mut t));
    assert_eq!(c.get_r(), r + 1);
}''','an NMI that ends a HALT','the NMI acknowledge M1 cycle does not advance R')

bug('c15-minus-128','C15',[('src/cpu/debug.rs','''                write!(f, "({}-{:02x}h)", px, 0u8.wrapping_sub(*d as u8))''','''                write!(f, "({}-{:02x}h)", px, 0u8.wrapping_sub(*d as u8) & 0x7f)''')],'''
fn main() {
    let d = disasm::disasm_memory_once::<Z80NMOS>(0, &[0xDD, 0x7E, 0x80]).unwrap();
    let s = format!("{:x}", d);
    assert!(s.contains("-80h"), "{}", s);
}''','a lower-case hex listing of an indexed instruction with the displacement -128','the displacement is shown as -00h')

bug('c22-call-mask','C22',[('src/lib.rs','    pub const CALL_CC_OPMASK: u8 = 0b11_000_111;','    pub const CALL_CC_OPMASK: u8 = 0b11_000_110;')],'''
use z80emu::opconsts::*;
fn main() {
    for code in 0..=255u8 {
        let named = code & CALL_CC_OPMASK == CALL_CC_OPBASE;
        let d = disasm::disasm_memory_once::<Z80NMOS>(0, &[code, 0x30, 0x30, 0x30]).unwrap();
        assert_eq!(named, d.mnemonic == "CALL" && code != CALL_OPCODE, "{:02x}", code);
    }
}''','matching PUSH opcodes with the CALL cc mask constant','the mask also selects PUSH rr')

bug('c03-ld16-wrap','C03',[(S+'internal.rs','''        let addr1 = addr.wrapping_add(1);
        self.memptr.set16(addr1);
        tsc.add_mreq(addr1);''','''        let addr1 = addr.wrapping_add(1);
        self.memptr.set16(addr1);
        tsc.add_mreq(addr.saturating_add(1));''')],'''
struct K(Vec<u16>);
impl Clock for K {
    type Limit = u32; type Timestamp = u32;
    fn is_past_limit(&self, _l: u32) -> bool { false }
    fn add_irq(&mut self, _p: u16) -> u32 { 0 }
    fn add_no_mreq(&mut self, _a: u16, _t: NonZeroU8) {}
    fn add_m1(&mut self, _a: u16) -> u32 { 0 }
    fn add_mreq(&mut self, a: u16) -> u32 { self.0.push(a); 0 }
    fn add_io(&mut self, _p: u16) -> u32 { 0 }
    fn add_wait_states(&mut self, _b: u16, _w: NonZeroU16) {}
    fn as_timestamp(&self) -> u32 { 0 }
}
fn main() {
    let mut h = Host::new(0x100, &[0x2A, 0xFF, 0xFF]); // LD HL,(FFFFh)
    let mut c = Z80NMOS::default(); let mut k = K(vec![]);
    c.set_pc(0x100);
    let _ = c.execute_next(&mut h, &mut k, None::<fn(CpuDebug)>);
    assert_eq!(k.0, [0x101, 0x102, 0xFFFF, 0x0000]);
}''','a 16-bit load from address FFFFh under a clock that looks at addresses','the second read cycle is timed at FFFFh instead of 0000h')

bug('c02-adc16-half-carry-in','C02',[('src/cpu/flags.rs','''        let tgt = (tgt & HMASK16).wrapping_add(add & HMASK16);
        if (tgt & H16 != 0) || ((tgt & HMASK16).wrapping_add(u16::from(cf)) & H16 != 0) {''','''        let tgt = (tgt & HMASK16).wrapping_add(add & HMASK16);
        if (tgt & H16 != 0) || cf && tgt as u8 == u8::MAX {''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0x5A]); // ADC HL,DE
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_reg16(StkReg16::HL, 0x1234); c.set_reg16(StkReg16::DE, 0x01CB); c.set_flags(CpuFlags::C);
    step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_reg16(StkReg16::HL), 0x1400);
    assert!(!c.get_flags().hf()); // 234h + 1CBh + 1 = 400h: no carry from bit 11
}''','ADC HL,rr with carry in and operands whose sum ends in FFh','H is set although there is no carry from bit 11')
