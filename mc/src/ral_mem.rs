//! C33: memory paging of the example computer, every operation history up to a depth.
use crate::rep::*;
use ral1243::bus::MemoryControl;
use ral1243::memory::{Memory, Rom};
use z80emu::Memory as Mem;

fn pat(k: u8, i: usize) -> u8 { (i as u8).wrapping_mul(7) ^ (i >> 8) as u8 ^ k.wrapping_mul(0x35).wrapping_add(0x11) }
fn image(k: u8, len: usize) -> Vec<u8> { (0..len).map(|i| pat(k, i)).collect() }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Fetch(u16), Sel(u8), Write(u16, u8), Attach(u8), Attach2(u8), Eject, Reinsert, Read16(u16) }

/// The specification: what is where.
#[derive(Clone)]
struct Model { exroms: Vec<u8>, ejected: Vec<u8>, sel: u8, kernel: bool, ram0: Vec<u8>, ram1: Vec<u8> }
impl Model {
    fn new(kb: usize) -> Self { Model { exroms: vec![], ejected: vec![], sel: 0, kernel: false, ram0: vec![0; 0x2000], ram1: vec![0; kb * 1024] } }
    fn rd(&self, a: u16) -> u8 {
        match a >> 13 {
            0 => pat(0, a as usize),
            1 => {
                let o = a as usize - 0x2000;
                if self.kernel { self.ram0[o] } else { self.exroms.get(self.sel as usize).map_or(0xFF, |&k| pat(k, o)) }
            }
            _ => self.ram1.get(a as usize - 0x4000).copied().unwrap_or(0xFF),
        }
    }
    fn rd16(&self, a: u16) -> u16 { u16::from_le_bytes([self.rd(a), self.rd(a.wrapping_add(1))]) }
    fn wr(&mut self, a: u16, v: u8) {
        match a >> 13 {
            0 => {}
            1 => if self.kernel { self.ram0[a as usize - 0x2000] = v },
            _ => if let Some(p) = self.ram1.get_mut(a as usize - 0x4000) { *p = v },
        }
    }
}

struct Sut { m: Memory, ejected: Vec<Rom> }

fn step(s: &mut Sut, m: &mut Model, op: Op) -> Result<(), String> {
    match op {
        Op::Fetch(pc) => {
            m.kernel = pc < 0x2000;
            let (g, w) = (s.m.read_opcode(pc, 0x1234, 99), m.rd(pc));
            if g != w { return Err(format!("opcode fetch at {pc:04x}: {g:02x}, expected {w:02x}")) }
        }
        Op::Sel(n) => { s.m.write_ctrl(n); m.sel = n }
        Op::Write(a, v) => { s.m.write_mem(a, v, 99); m.wr(a, v) }
        Op::Attach(k) => {
            let n = s.m.attach_exrom(Memory::make_rom(&image(k, 0x2000)));
            m.exroms.push(k);
            if n != m.exroms.len() { return Err(format!("attach_exrom returned {n}, expected {}", m.exroms.len())) }
        }
        Op::Attach2(k) => {
            let n = s.m.attach_exroms(vec![Memory::make_rom(&image(k, 0x2000)), Memory::make_rom(&image(k + 1, 0x2000))]);
            m.exroms.extend([k, k + 1]);
            if n != 2 { return Err(format!("attach_exroms returned {n}, expected 2")) }
        }
        Op::Eject => {
            let v = s.m.eject_exroms();
            let w = std::mem::take(&mut m.exroms);
            check_ejected(&v, &w)?;
            s.ejected.extend(v);
            m.ejected.extend(w);
        }
        Op::Reinsert => {
            let n = s.m.attach_exroms(std::mem::take(&mut s.ejected));
            if n != m.ejected.len() { return Err(format!("attach_exroms returned {n}, expected {}", m.ejected.len())) }
            m.exroms.append(&mut m.ejected);
        }
        Op::Read16(a) => {
            let (g, w) = (s.m.read_mem16(a, 99), m.rd16(a));
            if g != w { return Err(format!("16-bit read at {a:04x}: {g:04x}, expected {w:04x}")) }
        }
    }
    Ok(())
}
fn check_ejected(v: &[Rom], w: &[u8]) -> Result<(), String> {
    if v.len() != w.len() { return Err(format!("{} EX-ROMs ejected, expected {}", v.len(), w.len())) }
    for (r, &k) in v.iter().zip(w) {
        for i in [0usize, 1, 0xFFF, 0x1FFE, 0x1FFF] {
            if r[i] != pat(k, i) { return Err(format!("ejected EX-ROM {k} changed at {i:04x}")) }
        }
    }
    Ok(())
}
/// All the reading forms at one address.
fn look(s: &Sut, m: &Model, a: u16) -> Result<(), String> {
    let w = m.rd(a);
    let g = (s.m.read_debug(a), s.m.read_mem(a, 99));
    if g != (w, w) { return Err(format!("read at {a:04x}: debug {:02x}, memory {:02x}, expected {w:02x}", g.0, g.1)) }
    let (g, w) = (s.m.read_mem16(a, 99), m.rd16(a));
    if g != w { return Err(format!("16-bit read at {a:04x}: {g:04x}, expected {w:04x}")) }
    Ok(())
}
fn look_all(s: &Sut, m: &Model) -> Result<(), String> {
    for a in 0..=0xFFFF { look(s, m, a)? }
    for (f, t) in [(0u16, 0x10), (0x1FF8, 0x2008), (0x3FF8, 0x4008), (0x7000, 0x7000), (0xFFF0, 0xFFFF)] {
        let d = s.m.memory_debug(f..t);
        let w: Vec<u8> = (f..t).map(|a| m.rd(a)).collect();
        if d != w { return Err(format!("memory_debug({f:04x}..{t:04x}) = {d:02x?}, expected {w:02x?}")) }
    }
    Ok(())
}

fn fresh(kb: usize, nex: usize) -> (Sut, Model) {
    let mut s = Sut { m: Memory::new(&image(0, 0x2000), kb), ejected: vec![] };
    let mut m = Model::new(kb);
    for k in 0..nex { s.m.attach_exrom(Memory::make_rom(&image(k as u8 + 1, 0x2000))); m.exroms.push(k as u8 + 1) }
    (s, m)
}

pub fn c33(rep: &Rep) {
    let kbs = [0usize, 1, 7, 47, 48];
    let nexs = [0usize, 1, 2, 3];
    // the operation alphabet, boundary addresses of every bank and of the RAM end
    let alphabet = |kb: usize| -> Vec<Op> {
        let top = 0x4000 + kb * 1024;
        let mut v = vec![Op::Fetch(0), Op::Fetch(0x1FFF), Op::Fetch(0x2000), Op::Fetch(0x3FFF), Op::Fetch(0x4000), Op::Fetch(0xFFFF),
            Op::Sel(0), Op::Sel(1), Op::Sel(2), Op::Sel(255),
            Op::Write(0x1FFF, 0xA1), Op::Write(0x2000, 0xA2), Op::Write(0x3FFF, 0xA3), Op::Write(0x4000, 0xA4),
            Op::Attach(9), Op::Attach2(10), Op::Eject, Op::Reinsert];
        if kb > 0 { v.push(Op::Write((top - 1) as u16, 0xA6)) }
        if kb < 48 { v.push(Op::Write(top as u16, 0xA5)) }
        v
    };
    let watch = |kb: usize| -> Vec<u16> {
        let top = (0x4000 + kb * 1024) as u16;
        let mut v = vec![0, 1, 0x1FFE, 0x1FFF, 0x2000, 0x2001, 0x3FFE, 0x3FFF, 0x4000, 0x4001, top.wrapping_sub(2), top.wrapping_sub(1), top, 0xFFFE, 0xFFFF];
        v.sort(); v.dedup(); v
    };
    let depth = rep.q(4, 5);
    let items: Vec<(usize, usize, usize, usize)> = kbs.iter().flat_map(|&kb| nexs.iter().flat_map(move |&n| {
        let l = alphabet(kb).len();
        (0..l).flat_map(move |a| (0..l).map(move |b| (kb, n, a, b)))
    })).collect();
    par(rep, items.len(), || (), |_, i| {
        let (kb, nex, a, b) = items[i];
        let ops = alphabet(kb);
        let wt = watch(kb);
        let n = ops.len();
        let total = n.pow(depth as u32 - 2);
        let (mut st, mut tr) = (0, 0);
        for x in 0..total {
            if rep.stopped() { break }
            let mut seq = vec![ops[a], ops[b]];
            let mut r = x;
            for _ in 2..depth { seq.push(ops[r % n]); r /= n }
            let res = guard(|| -> Result<(), String> {
                let (mut s, mut m) = fresh(kb, nex);
                for (j, &o) in seq.iter().enumerate() {
                    step(&mut s, &mut m, o).map_err(|e| format!("step {}: {e}", j + 1))?;
                    // prefixes shared with earlier sequences were looked at there
                    if j + 1 == depth || x == 0 {
                        for &w in &wt { look(&s, &m, w).map_err(|e| format!("after step {}: {e}", j + 1))? }
                        if s.m.read_ctrl() != m.sel { return Err(format!("read_ctrl {} expected {}", s.m.read_ctrl(), m.sel)) }
                        if s.m.free_exrom_slots() != 256 - m.exroms.len() { return Err(format!("free_exrom_slots {}", s.m.free_exrom_slots())) }
                    }
                }
                if x == 0 { look_all(&s, &m)? }
                // what is hidden now must come back: flip the view both ways
                for pc in [0x1000u16, 0x8000, 0x0001] {
                    step(&mut s, &mut m, Op::Fetch(pc))?;
                    for &w in &wt { look(&s, &m, w).map_err(|e| format!("after fetch {pc:04x}: {e}"))? }
                }
                Ok(())
            }).unwrap_or_else(|p| Err(format!("panic: {p}")));
            st += 1 + depth as u64; tr += depth as u64 + 3;
            if let Err(e) = res { rep.violation(format!("C33: {kb} KiB of RAM, {nex} EX-ROMs, operations {seq:x?}: {e}")) }
        }
        rep.add(st, tr, total as u64);
        if i % 97 == 0 { rep.sample(|| format!("{kb} KiB, {nex} EX-ROMs, starting {:x?} {:x?}: {total} histories", ops[a], ops[b])) }
    });
    rep.bound(format!("{} operations (opcode fetches below/at/above each bank boundary, four selections, writes at the bank edges and RAM end, attach one/two, eject, re-insert), every sequence of {depth}, {} RAM sizes x {} EX-ROM counts; all reading forms at the bank edges after each, at all 65536 addresses after the two-step prefixes", alphabet(7).len(), kbs.len(), nexs.len()));
    if rep.stopped() { return }
    // every RAM size x both views: all addresses; ROM images of every edge length
    par(rep, 49, || (), |_, kb| {
        let r = guard(|| -> Result<(), String> {
            let (mut s, mut m) = fresh(kb, 2);
            for view in [0x0000u16, 0x2000] {
                step(&mut s, &mut m, Op::Fetch(view))?;
                for a in 0..=0xFFFFu16 { step(&mut s, &mut m, Op::Write(a, (a as u8) ^ (a >> 8) as u8 ^ view.to_be_bytes()[0]))? }
                look_all(&s, &m)?;
                for a in 0..=0xFFFFu16 { step(&mut s, &mut m, Op::Fetch(a))?; }
                look_all(&s, &m)?;
            }
            Ok(())
        }).unwrap_or_else(|p| Err(format!("panic: {p}")));
        rep.add(4 * 65536, 4 * 65536, 1);
        if let Err(e) = r { rep.violation(format!("C33: {kb} KiB, write everything and sweep: {e}")) }
    });
    for len in [0usize, 1, 2, 0x1FFE, 0x1FFF, 0x2000] {
        let r = guard(|| {
            let rom = Memory::make_rom(&image(3, len));
            let mut m = Memory::new(&image(3, len), 1);
            for i in 0..0x2000usize {
                let w = if i < len { pat(3, i) } else { 0xFF };
                if rom[i] != w || m.read_debug(i as u16) != w || m.read_opcode(i as u16, 0, 0) != w { return Err(format!("image of {len} bytes: byte {i:04x} wrong")) }
            }
            Ok(())
        }).unwrap_or_else(|p| Err(format!("panic: {p}")));
        rep.add(0x2000, 0x2000, 1);
        if let Err(e) = r { rep.violation(format!("C33: {e}")) }
    }
    // the slot limit: counts up to 256, batches that do not fit
    let counts: Vec<usize> = vec![0, 1, 2, 127, 253, 254, 255, 256];
    let r = guard(|| -> Result<u64, String> {
        let mut n = 0;
        for &have in &counts {
            for add in [0usize, 1, 2, 3, 5] {
                let mut mem = Memory::new(&image(0, 16), 1);
                mem.read_opcode(0x4000, 0, 0);
                for k in 0..have { mem.attach_exrom(Memory::make_rom(&[k as u8])); }
                let batch: Vec<Rom> = (0..add).map(|k| Memory::make_rom(&[(have + k) as u8])).collect();
                let fit = add.min(256 - have);
                let got = mem.attach_exroms(batch);
                if got != fit { return Err(format!("{have} attached, batch of {add}: {got} inserted, expected {fit}")) }
                if mem.free_exrom_slots() != 256 - have - fit { return Err(format!("{have}+{fit} attached: {} free slots", mem.free_exrom_slots())) }
                for sel in 0..=255u8 {
                    mem.write_ctrl(sel);
                    let w = if (sel as usize) < have + fit { sel } else { 0xFF };
                    if mem.read_debug(0x2000) != w || mem.read_ctrl() != sel { return Err(format!("{have}+{fit} attached: selecting {sel} shows {:02x}", mem.read_debug(0x2000))) }
                    n += 1;
                }
                if mem.eject_exroms().len() != have + fit { return Err("eject count".into()) }
                if mem.read_debug(0x2000) != 0xFF { return Err("something is shown after eject".into()) }
            }
        }
        Ok(n)
    }).unwrap_or_else(|p| Err(format!("panic: {p}")));
    match r {
        Ok(n) => rep.add(n, n, counts.len() as u64 * 5),
        Err(e) => rep.violation(format!("C33: slots: {e}")),
    }
    rep.bound("every RAM size 0..48 KiB x both views: all 65536 writes and all reads; 8 x 5 EX-ROM slot fillings x 256 selections; 6 image lengths");
}
