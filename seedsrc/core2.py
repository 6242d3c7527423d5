S='src/z80/'
BUGS=[]
def bug(id,prop,edits,demo,needs,what,**k): BUGS.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,what=what,**k))

bug('d04-in-top','C04',[(S+'internal.rs','''            if b != 0 {
                // tsc.add_no_mreq::<{NO_MREQ_X5.get()}>(hl);
                tsc.add_no_mreq(hl, NO_MREQ_X5);
                return Some(pc - Wrapping(2))''','''            if b != 0 && self.regs.hl.get16() != 0 {
                // tsc.add_no_mreq::<{NO_MREQ_X5.get()}>(hl);
                tsc.add_no_mreq(hl, NO_MREQ_X5);
                return Some(pc - Wrapping(2))''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0xB2, 0x00]); // INIR
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    h.inp = 0x77; c.set_pc(0x100); c.set_reg16(StkReg16::HL, 0xFFFE); c.set_reg16(StkReg16::BC, 0x0410);
    for _ in 0..4 { step(&mut c, &mut h, &mut t); }
    assert_eq!(c.get_pc(), 0x102);
    assert_eq!(c.get_reg16(StkReg16::BC), 0x0010);
    assert_eq!(h.mem[1], 0x77);
}''','INIR/INDR whose pointer passes address 0 before B is exhausted','the repetition stops at the end of the address space')

bug('d05-irq-after-fd','C05',[('src/z80.rs','''                if is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
                    break 'main LoopExitReason::Irq''','''                if prefix != Some(Prefix::Xdd) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
                    break 'main LoopExitReason::Irq''')],'''
fn main() {
    // is_irq is only true from 4 T-states on: right after the FD prefix
    let mut h = Host::new(0x100, &[0xFD, 0x23]); // INC IY
    struct L(Host);
    impl Memory for L { type Timestamp = u32; forward_host_memory_methods!{ @ => |me| me.0 } }
    impl Io for L { type Timestamp = u32; type WrIoBreak = u8; type RetiBreak = u8; fn is_irq(&mut self, t: u32) -> bool { t >= 4 && t < 10 } }
    h.mem[0x38] = 0;
    let mut l = L(h);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); c.set_iffs(true, true); c.set_im(InterruptMode::Mode1);
    let _ = c.execute_with_limit(&mut l, &mut t, 12);
    assert_eq!(c.get_index16(Prefix::Yfd), 1);
    assert_eq!(c.get_reg16(StkReg16::HL), 0);
}''','execute_with_limit, an interrupt requested exactly while an FD prefix is pending','the interrupt is accepted between FD and its opcode')

bug('d06-irq-after-ei','C06',[('src/z80.rs','''        if self.is_irq_allowed() {
            Some(self.irq_no_check''','''        if self.iff1 && self.prefix.is_none() {
            Some(self.irq_no_check''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xFB, 0xC9]); // EI
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); c.set_im(InterruptMode::Mode1);
    step(&mut c, &mut h, &mut t);
    assert!(c.irq(&mut h, &mut t, None::<fn(CpuDebug)>).is_none());
    assert_eq!(c.get_pc(), 0x101);
}''','a direct call of irq() right after EI','the request is accepted although the previous instruction was EI')

bug('d07-retn-alias','C07',[(S+'instructions.rs','            $cpu.restore_iff1(); // Both RETI and RETN do that.','            if $code1 & 0b00_110_000 == 0 { $cpu.restore_iff1(); }')],'''
fn main() {
    for code in [0x45u8, 0x4D, 0x55, 0x5D, 0x65, 0x6D, 0x75, 0x7D] {
        let mut h = Host::new(0x100, &[0xED, code]);
        let mut c = Z80NMOS::default(); let mut t = Ts::default();
        c.set_pc(0x100); c.set_sp(0x8000); c.set_iffs(false, true);
        step(&mut c, &mut h, &mut t);
        assert_eq!(c.get_iffs(), (true, true), "ED {:02x}", code);
    }
}''','one of the undocumented RETN opcodes (ED 55, 5D, 65, 6D, 75, 7D)','IFF1 is not restored from IFF2')

bug('d08-nmi-halt-im','C08',[(S+'internal.rs','''        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
            self.pc.set16(pc);
        }''','''        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
            if let InterruptMode::Mode1 | InterruptMode::Mode2 = self.im {
                self.pc.set16(pc);
            }
        }''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0x76]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); step(&mut c, &mut h, &mut t);
    c.set_iffs(true, true); h.irq = true; h.data = 0xC7; // RST 0 in mode 0
    step(&mut c, &mut h, &mut t);
    assert_eq!((h.mem[0x7FFE], h.mem[0x7FFF]), (0x01, 0x01));
}''','a halted CPU interrupted in mode 0','the return address is the HALT itself, so the CPU halts again')

bug('d09-limit-after-irq','C09',[('src/z80.rs','''                    Ok(()) => {
                        if tsc.is_past_limit(vc_limit) {
                            return Ok(());
                        }
                        // the''','''                    Ok(()) => {
                        // the''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0x00, 0x00]);
    struct L(Host);
    impl Memory for L { type Timestamp = u32; forward_host_memory_methods!{ @ => |me| me.0 } }
    impl Io for L { type Timestamp = u32; type WrIoBreak = u8; type RetiBreak = u8; fn is_irq(&mut self, t: u32) -> bool { t >= 4 } }
    h.mem[0x38] = 0x3C;
    let mut l = L(h);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); c.set_acc(1); c.set_iffs(true, true); c.set_im(InterruptMode::Mode1);
    let _ = c.execute_with_limit(&mut l, &mut t, 10);
    assert_eq!(c.get_acc(), 1);
    assert_eq!(t.as_timestamp(), 17);
}''','an interrupt accepted inside a run whose acknowledge passes the limit','one more instruction is executed past the limit')

bug('d10-reti-break-early','C10',[(S+'instructions.rs','''            let addr: u16 = pop16!();
            // JR/DJNZ/RET/RETI/RST (jumping to addr) MEMPTR = addr
            $cpu.memptr.set16(addr);
            $pc = Wrapping(addr);
            if let Some(cause) = should_break {
                break $main LoopExitReason::Reti(cause);
            }''','''            let addr: u16 = pop16!();
            if let Some(cause) = should_break {
                $pc = Wrapping(addr);
                break $main LoopExitReason::Reti(cause);
            }
            $cpu.memptr.set16(addr);
            $pc = Wrapping(addr);''')],'''
struct L(Host);
impl Memory for L { type Timestamp = u32; forward_host_memory_methods!{ @ => |me| me.0 } }
impl Io for L { type Timestamp = u32; type WrIoBreak = u8; type RetiBreak = u8; fn reti(&mut self, _a: u16, _t: u32) -> Option<u8> { Some(9) } }
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0x4D]);
    h.mem[0x8000] = 0x34; h.mem[0x8001] = 0x12;
    let mut l = L(h);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000);
    match c.execute_next(&mut l, &mut t, None::<fn(CpuDebug)>) { Err(BreakCause::Reti(9)) => {}, e => panic!("{:?}", e) }
    assert_eq!((c.get_pc(), c.get_sp()), (0x1234, 0x8002));
    assert_eq!(c.get_memptr(), 0x1234);
}''','a RETI whose notification requests a break','MEMPTR is left unset when RETI breaks')

bug('d11-in-c-wait','C11',[(S+'internal.rs','''        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(bc, ws);
        }
        ops::io(data, flags);''','''        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));
        if let (Some(ws), Ok(_)) = (wait_states, arg) {
            tsc.add_wait_states(bc, ws);
        }
        ops::io(data, flags);''')],'''
fn main() {
    for code in [0x40u8, 0x70, 0x78] {
        let mut h = Host::new(0x100, &[0xED, code]);
        let mut c = Z80NMOS::default(); let mut t = Ts::default();
        h.ws = 5; c.set_pc(0x100);
        step(&mut c, &mut h, &mut t);
        assert_eq!(t.as_timestamp(), 12 + 5, "ED {:02x}", code);
    }
}''','IN (C) (ED 70) from a port that inserts wait states','the wait states of the flags-only input are dropped')

bug('d13-out-n-a-bm1','C13',[(S+'internal.rs','''        // MEMPTR_low = (port + 1) & #FF,  MEMPTR_hi = A
        self.memptr = Q::memptr_mix(a, n).into();''','''        // MEMPTR_low = (port + 1) & #FF,  MEMPTR_hi = A
        self.memptr = (a, n.wrapping_add(1)).into();''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xD3, 0xFF]);
    let mut c = Z80::<z80::BM1>::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_acc(0x55);
    step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_memptr(), 0);
}''','OUT (n),A on the BM1 flavour','the high byte of MEMPTR is A instead of 0')

bug('d14-halt-debug-inject','C14',[('src/z80.rs','''        self.last_ei = false;
        self.halt = false;
        let mut prefix''','''        self.last_ei = false;
        self.halt = self.halt && debug.is_some();
        let mut prefix''')],'''
fn main() {
    let run = |d: bool| {
        let mut h = Host::new(0x100, &[0x76]);
        let mut c = Z80NMOS::default(); let mut t = Ts::default();
        c.set_pc(0x100); step(&mut c, &mut h, &mut t); assert!(c.is_halt());
        let _ = if d { c.execute_instruction(&mut h, &mut t, Some(|_: CpuDebug| {}), 0x00) }
                else { c.execute_instruction(&mut h, &mut t, None::<fn(CpuDebug)>, 0x00) };
        c.is_halt()
    };
    assert_eq!(run(false), run(true));
}''','execute_instruction with a debugger on a halted CPU','the CPU stays halted only when a debugger is attached')

bug('d15-jr-rel-debug','C15',[(S+'instructions.rs','''                $pc += Wrapping(1);
                cpu_debug!([$code, e] DJNZ rel:e);''','''                cpu_debug!([$code, e] DJNZ rel:e);
                $pc += Wrapping(1);''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0x10, 0x05]); // DJNZ 107h, not taken
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_reg(Reg8::B, None, 1);
    let mut s = String::new();
    let _ = c.execute_next(&mut h, &mut t, Some(|d: CpuDebug| s = format!("{:x}", d)));
    assert!(s.starts_with("0100h DJNZ 0107h"), "{}", s);
}''','a DJNZ that is not taken, executed with a debugger','the record shows an address and jump target one too low')

bug('d17-map-r','C17',[(S+'serde.rs','    let r        = r.unwrap_or_else(|| Wrapping(ir.get8lo()));','''    let r        = match r {
        Some(Wrapping(r)) if r != 0 => Wrapping(r),
        _ => Wrapping(ir.get8lo())
    };''')],'''
fn main() {
    let mut c = Z80NMOS::default();
    c.set_r(0x7F); c.inc_r(); c.add_r(-0x80); // the counter itself reads 0
    let mut d: Z80NMOS = serde_json::from_str(&serde_json::to_string(&c).unwrap()).unwrap();
    assert_eq!(c.get_r(), d.get_r());
    c.inc_r(); d.inc_r();
    assert_eq!(c.get_r(), d.get_r());
}''','a JSON snapshot taken exactly when the R counter is 0 while R was last set to another value','R restarts from the last explicitly set value',deps='serde_json = "1"')

bug('d18-any-nmi-frombm1','C18',[(S+'flavours.rs','''    fn from(BM1{flags_modified, last_flags_modified}: BM1) -> Self {
        NMOS {flags_modified, last_flags_modified}''','''    fn from(BM1{flags_modified, last_flags_modified}: BM1) -> Self {
        NMOS {flags_modified: flags_modified && last_flags_modified, last_flags_modified}''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xB7, 0x37]); // OR A; SCF
    let mut c = Z80::<z80::BM1>::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_flags(CpuFlags::all());
    step(&mut c, &mut h, &mut t);
    c.set_flags(CpuFlags::all());
    let mut c: Z80NMOS = c.into_flavour();
    step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_flags() & CpuFlags::XY, CpuFlags::empty());
}''','converting a BM1 CPU to NMOS right after a flag-changing instruction that follows one that does not change flags','the Q state is lost, so the next SCF/CCF shows other X and Y flags')

bug('d20-exx-index','C20',[('src/z80.rs','''        swap(&mut self.regs, &mut self.regs_alt);
    }''','''        swap(&mut self.regs, &mut self.regs_alt);
        self.prefix = None;
    }''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xDD]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); step(&mut c, &mut h, &mut t);
    c.exx();
    assert_eq!(c.get_prefix(), Some(Prefix::Xdd));
}''','exx() called through the CPU interface while a prefix is pending','the pending prefix is dropped by a register exchange')

bug('d21-im2-vector-carry','C21',[(S+'internal.rs','let vaddr = ir & 0xFF00 | vector as u16;','let vaddr = (ir & 0xFF00) + (vector as u16 + 1) - 1;'),(S+'internal.rs','                self.pc.set16(vaddr);','                self.pc.set16(vaddr & !0x0000);')],'''
fn main() {
    let mut h = Host::new(0x100, &[0]);
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    h.irq = true; h.data = 0xFF; h.mem[0xFFFF] = 0x34; h.mem[0] = 0x12;
    c.set_pc(0x100); c.set_sp(0x8000); c.set_im(InterruptMode::Mode2); c.set_i(0xFF); c.set_iffs(true, true);
    step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_pc(), 0x1234);
}''','an IM 2 acknowledge with I = FFh and vector FFh','16-bit overflow: a panic where overflow checks are on')

bug('d22-jr-subset','C22',[('src/cpu/parse.rs','Condition::from_code(code & 0b00_011_000)','Condition::from_code(code & 0b00_011_000 | (code & 0b01_000_000) >> 1)')],'''
fn main() {
    for code in 0..=255u8 {
        assert_eq!(Condition::from_jr_subset(code), Condition::from_code(code & 0x18), "{:02x}", code);
    }
}''','Condition::from_jr_subset with a byte outside the JR cc opcodes','the condition is one of the PO..M group')

bug('d23-op8lo-bit7','C23',[('src/cpu/registers.rs','''            let ptr = self.ptr8lo();
            *ptr = op(*ptr);''','''            let ptr = self.ptr8lo();
            let val = op(*ptr);
            *ptr = *ptr & 0x80 | val;''')],'''
fn main() {
    let mut r = RegisterPair::from(0x12F0u16);
    r.op8lo(|x| x & 0x0F | 0x01);
    assert_eq!(r.get16(), 0x1201);
}''','RegisterPair::op8lo over a byte with bit 7 set, with a result that has it reset','bit 7 of the old low byte survives')

bug('d24-fwd-retiarg','C24',[('src/macros.rs','($fwd).add_wait_states(bus, wait_states)','for _ in 0..wait_states.get() { ($fwd).add_wait_states(bus, core::num::NonZeroU16::MIN) }')],'''
struct K(Vec<u16>);
impl Clock for K { type Limit = u32; type Timestamp = u32;
  fn is_past_limit(&self, _l: u32) -> bool { false }
  fn add_irq(&mut self, _a: u16) -> u32 { 0 }
  fn add_no_mreq(&mut self, _a: u16, _t: NonZeroU8) {}
  fn add_io(&mut self, _p: u16) -> u32 { 0 }
  fn add_mreq(&mut self, _a: u16) -> u32 { 0 }
  fn add_m1(&mut self, _a: u16) -> u32 { 0 }
  fn add_wait_states(&mut self, _b: u16, w: NonZeroU16) { self.0.push(w.get()) }
  fn as_timestamp(&self) -> u32 { 0 } }
struct W(K);
impl Clock for W { forward_host_clock_types! { @ => K } forward_host_clock_methods! { @ => |me| me.0 } }
fn main() {
    let mut w = W(K(vec![]));
    w.add_wait_states(1, NonZeroU16::new(3).unwrap());
    assert_eq!((w.0).0, [3]);
}''','more than one wait state on a clock forwarded with the macros','the call is passed on once per wait state instead of once')

bug('d01-outd-page','C01',[(S+'internal.rs','''        self.regs.bc.set8hi(b);
        self.regs.hl.set16(hl1);''','''        self.regs.bc.set8hi(b);
        self.regs.hl.set8lo(hl1 as u8);''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0xA3]); // OUTI
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_reg16(StkReg16::HL, 0x20FF); c.set_reg16(StkReg16::BC, 0x1100);
    step(&mut c, &mut h, &mut t);
    assert_eq!(c.get_reg16(StkReg16::HL), 0x2100);
}''','a block output at the last (first) byte of a page','HL stays within the page')

bug('d02-iox-parity','C02',[(S+'ops.rs','CpuFlags::parity(k & 7 ^ b);','CpuFlags::parity((k ^ b) & 7);')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xED, 0xA3]); // OUTI
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_reg16(StkReg16::HL, 0x2000); c.set_reg16(StkReg16::BC, 0x1100);
    step(&mut c, &mut h, &mut t);
    // B = 10h, k = 00 + 01: parity of 11h
    assert!(c.get_flags().contains(CpuFlags::PV));
}''','a block I/O instruction with an odd number of bits set in B7-B3','P/V takes only the low three bits of B')

bug('d03-nmi-ir','C03',[(S+'internal.rs','''        tsc.add_no_mreq(self.get_ir(), NO_MREQ_X1); // ir:1
        self.push16(pc, control, tsc); // sp-1:3, sp-2:3
        self.flavour''','''        tsc.add_no_mreq(self.ir.get16(), NO_MREQ_X1); // ir:1
        self.push16(pc, control, tsc); // sp-1:3, sp-2:3
        self.flavour''')],'''
struct K(Vec<u16>);
impl Clock for K { type Limit = u32; type Timestamp = u32;
  fn is_past_limit(&self, _l: u32) -> bool { false }
  fn add_irq(&mut self, _a: u16) -> u32 { 0 }
  fn add_no_mreq(&mut self, a: u16, _t: NonZeroU8) { self.0.push(a) }
  fn add_io(&mut self, _p: u16) -> u32 { 0 }
  fn add_mreq(&mut self, _a: u16) -> u32 { 0 }
  fn add_m1(&mut self, _a: u16) -> u32 { 0 }
  fn add_wait_states(&mut self, _b: u16, _w: NonZeroU16) {}
  fn as_timestamp(&self) -> u32 { 0 } }
fn main() {
    let mut h = Host::new(0x100, &[0, 0]);
    let mut c = Z80NMOS::default(); let mut k = K(vec![]);
    c.set_pc(0x100); c.set_sp(0x8000); c.set_i(0x12);
    let _ = c.execute_next(&mut h, &mut k, None::<fn(CpuDebug)>);
    let _ = c.execute_next(&mut h, &mut k, None::<fn(CpuDebug)>);
    k.0.clear();
    assert!(c.nmi(&mut h, &mut k));
    assert_eq!(k.0, [0x1203]);
}''','an NMI accepted by a CPU that has executed something since R was set','the internal cycle of the acceptance shows a stale refresh address')

bug('d12-set-i-r7','C12',[('src/z80.rs','        self.ir.set8hi(i);','        self.ir = [self.r.0, i].into();')],'''
fn main() {
    let mut c = Z80NMOS::default();
    c.set_r(0x7E);
    for _ in 0..4 { c.inc_r(); }
    assert_eq!(c.get_r(), 0x02);
    c.set_i(0x55); // also LD I,A
    assert_eq!(c.get_r(), 0x02);
}''','LD I,A or set_i after R has wrapped past 7Fh','bit 7 of R changes')

bug('d16-once-window','C16',[('src/disasm.rs','    let _ = disasm_memory::<C,_,_>(pc, memory, |deb| {\n        dbg','    let window = &memory[..memory.len().min(4)]; // the longest instruction\n    let _ = disasm_memory::<C,_,_>(pc, window, |deb| {\n        dbg')],'''
fn main() {
    let d = disasm::disasm_memory_once::<Z80NMOS>(0, &[0xDD, 0xDD, 0x21, 0x34, 0x12]).expect("an instruction");
    assert_eq!(d.pc, 1);
}''','disasm_memory_once on bytes that start with superfluous prefixes','no instruction is found')

bug('d19-limit-zero','C19',[('src/host.rs','        (self.0).0 >= limit','        limit >= 0u8.into() && (self.0).0 >= limit')],'''
fn main() {
    let t = host::TsCounter::<i32>::from(-10);
    assert!(t.is_past_limit(-10));
    assert!(!t.is_past_limit(-9));
}''','a signed counter running towards a negative limit','the limit is never reported as passed before the counter is positive')
