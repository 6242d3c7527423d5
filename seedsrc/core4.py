# Bugs of build configuration, architecture and unsafe code (C25, C26).
BUGS=[]
def bug(id,prop,edits,demo,needs,what,**k): BUGS.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,what=what,**k))
DIFF='''A="$(timeout 140 cargo run --offline --quiet)" || exit 4
B="$(timeout 140 cargo run --offline --quiet %s)" || exit 5
echo "$A"; echo "$B"
[ "$A" = "$B" ]'''
MIRI='''export MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-disable-isolation %s"
timeout 280 cargo +nightly miri run --offline --quiet'''
BE='''A="$(timeout 100 cargo run --offline --quiet)" || exit 4
export XDG_CACHE_HOME="$T/cache"
B="$(timeout 190 cargo +nightly miri run --offline --quiet --target powerpc-unknown-linux-gnu)" || exit 5
echo "$A"; echo "$B"
[ "$A" = "$B" ]'''
PRINT='''
fn main() {
    let mut h = Host::new(0x100, &[0xFB, 0x00, 0x00]);
    h.irq = true; h.data = 0xFF;
    let mut c = Z80NMOS::default(); let mut t = Ts::default();
    c.set_pc(0x100); c.set_sp(0x8000); c.set_im(InterruptMode::Mode1);
    for _ in 0..5 { step(&mut c, &mut h, &mut t); }
    println!("{:04x} {:?} {}", c.get_pc(), c.get_iffs(), t.as_timestamp());
}'''
bug('e30-assert-iff','C25',[('src/z80/internal.rs','''        self.disable_interrupts();
        self.inc_r();
        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
            self.pc.set16(pc);
        }
        let bus_ts = tsc.add_irq(pc);''','''        // a maskable interrupt is never taken with IFF1 cleared
        debug_assert!(core::mem::take(&mut self.iff1));
        self.iff2 = false;
        self.inc_r();
        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
            self.pc.set16(pc);
        }
        let bus_ts = tsc.add_irq(pc);''')],PRINT,'a build without debug assertions (any release build) taking a maskable interrupt','IFF1 stays set after an acceptance: the effect is inside a debug assertion',run=DIFF%'--release')

bug('e31-parity-nostd','C25',[('src/cpu/flags.rs','''        Self::mask_pvf(res.count_ones() & 1 == 0)''','''        #[cfg(feature = "std")]
        { Self::mask_pvf(res.count_ones() & 1 == 0) }
        // no popcnt on most of the small machines: nibble table
        #[cfg(not(feature = "std"))]
        { Self::mask_pvf(0x9669u16 >> ((res ^ res >> 4) & 0x0F) & 1 == (res == 0xA5) as u16 ^ 1) }''')],'''
fn main() {
    let mut h = Host::new(0x100, &[0xB7]); // OR A
    let mut n = String::new();
    for a in 0..=255u8 {
        let mut c = Z80NMOS::default(); let mut t = Ts::default();
        c.set_pc(0x100); c.set_acc(a);
        step(&mut c, &mut h, &mut t);
        n.push(if c.get_flags().contains(CpuFlags::PV) { '1' } else { '0' });
    }
    let k = CpuFlags::parity(0xA5).bits();
    println!("{n} {k}");
}''','a build without the std feature and the operand A5h','parity of A5h is wrong without std',run=DIFF%'--no-default-features',deps='[features]\ndefault = ["z80emu/default"]',nodefault=True)

bug('e32-ne-bytes','C25',[('src/cpu/registers.rs','''    pub fn get16(self) -> u16 {
        u16::from_le_bytes(self.0)''','''    pub fn get16(self) -> u16 {
        u16::from_ne_bytes(self.0)''')],PRINT,'a big-endian machine','the halves of register pairs are swapped when read as 16 bits',run=BE)

bug('e33-disasm-end','C26',[('src/disasm.rs','''        *self.1.get(addr.wrapping_sub(self.0) as usize).unwrap_or(&0xff)''','''        let offset = addr.wrapping_sub(self.0) as usize;
        if offset > self.1.len() {
            return 0xff;
        }
        // the offset has just been checked
        unsafe { *self.1.as_ptr().add(offset) }''')],'''
fn main() {
    let chunk = vec![0x00u8, 0xC3, 0x34].into_boxed_slice(); // NOP; JP nn without its last byte
    let mut n = 0;
    let _ = disasm::disasm_memory::<Z80NMOS, _, ()>(0x100, &chunk, |_| { n += 1; Ok(()) });
    assert_eq!(n, 1);
}''','a chunk that ends inside an instruction (or an instruction that reads memory right behind the chunk)','one byte behind the slice is read',run=MIRI%'')

bug('e34-pair-unaligned','C26',[('src/cpu/registers.rs','''        let val = self.get16().wrapping_sub(1);
        self.set16(val);
        val == 0''','''        let val = self.get16().wrapping_sub(1);
        // a single store
        let ptr = self.0.as_mut_ptr().cast::<u16>();
        if cfg!(debug_assertions) { self.set16(val) } else { unsafe { *ptr = val.to_le() } }
        val == 0''')],'''
fn main() {
    let mut v = vec![z80emu::RegisterPair::default(); 3].into_boxed_slice();
    for p in v.iter_mut() { p.set16(2); assert!(!p.dec16_is_zero()); assert!(p.dec16_is_zero()); }
}''','a release build on a machine where the pair does not lie at an even address','a misaligned store',run='export MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-symbolic-alignment-check -Zmiri-disable-isolation" CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false\ntimeout 280 cargo +nightly miri run --offline --quiet')

bug('e35-im-transmute','C26',[('src/cpu/registers.rs','''        match im {
            0 => Ok(InterruptMode::Mode0),
            1 => Ok(InterruptMode::Mode1),
            2 => Ok(InterruptMode::Mode2),
            _ => Err(())
        }''','''        // the mode is a two-bit field
        if im & !3 == 0 {
            Ok(unsafe { core::mem::transmute::<u8, InterruptMode>(im) })
        }
        else {
            Err(())
        }''')],'''
use std::convert::TryFrom;
fn main() {
    let mut n = 0;
    for x in 0..=255u8 { if InterruptMode::try_from(x).is_ok() { n += 1; } }
    assert_eq!(n, 3);
}''','InterruptMode::try_from(3)','a value that is not an InterruptMode',run=MIRI%'')
