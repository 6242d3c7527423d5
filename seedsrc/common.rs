// ---- common demonstration host -------------------------------------------------
#[allow(unused_imports)]
use std::num::{NonZeroU16, NonZeroU8};
#[allow(unused_imports)]
use z80emu::*;

#[allow(dead_code)]
#[derive(Clone, Default)]
pub struct Host {
    pub mem: Vec<u8>, pub inp: u8, pub irq: bool, pub data: u8, pub brk: bool, pub ws: u16,
    pub log: std::cell::RefCell<Vec<String>>,
}
#[allow(dead_code)]
impl Host {
    pub fn new(org: u16, code: &[u8]) -> Host {
        let mut h = Host { mem: vec![0; 0x10000], ..Default::default() };
        for (i, b) in code.iter().enumerate() { h.mem[org.wrapping_add(i as u16) as usize] = *b; }
        h
    }
    fn l(&self, s: String) { self.log.borrow_mut().push(s) }
    pub fn take(&self) -> Vec<String> { self.log.borrow_mut().drain(..).collect() }
}
impl Memory for Host {
    type Timestamp = u32;
    fn read_debug(&self, a: u16) -> u8 { self.mem[a as usize] }
    fn read_mem(&self, a: u16, _t: u32) -> u8 { self.l(format!("r{:04x}", a)); self.mem[a as usize] }
    fn read_mem16(&self, a: u16, _t: u32) -> u16 {
        self.l(format!("R{:04x}", a));
        u16::from_le_bytes([self.mem[a as usize], self.mem[a.wrapping_add(1) as usize]])
    }
    fn read_opcode(&mut self, a: u16, ir: u16, _t: u32) -> u8 { self.l(format!("f{:04x}/{:04x}", a, ir)); self.mem[a as usize] }
    fn write_mem(&mut self, a: u16, v: u8, _t: u32) { self.l(format!("w{:04x}={:02x}", a, v)); self.mem[a as usize] = v; }
}
impl Io for Host {
    type Timestamp = u32; type WrIoBreak = u8; type RetiBreak = u8;
    fn read_io(&mut self, p: u16, _t: u32) -> (u8, Option<NonZeroU16>) { self.l(format!("i{:04x}", p)); (self.inp, NonZeroU16::new(self.ws)) }
    fn write_io(&mut self, p: u16, d: u8, _t: u32) -> (Option<u8>, Option<NonZeroU16>) {
        self.l(format!("o{:04x}={:02x}", p, d)); (if self.brk { Some(d) } else { None }, NonZeroU16::new(self.ws))
    }
    fn is_irq(&mut self, _t: u32) -> bool { self.irq }
    fn irq_data(&mut self, _pc: u16, _t: u32) -> (u8, Option<NonZeroU16>) { (self.data, None) }
    fn reti(&mut self, a: u16, _t: u32) -> Option<u8> { self.l(format!("reti{:04x}", a)); None }
}
#[allow(dead_code)]
pub type Ts = host::TsCounter<u32>;
#[allow(dead_code)]
pub fn step<C: Cpu>(c: &mut C, h: &mut Host, t: &mut Ts) -> bool { c.execute_next(h, t, None::<fn(CpuDebug)>).is_ok() }
// --------------------------------------------------------------------------------
