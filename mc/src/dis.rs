//! An independent Z80 decoder: bytes -> length, operands, text.
use z80emu::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum A { N8(u8), N16(u16), T(String), Num(u32), Mem(u16), Idx(u8, i8), Port(u8) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ins {
    /// 0 none, 1 DD, 2 FD: the effective prefix
    pub pfx: u8,
    pub code: Vec<u8>,
    pub mn: String,
    pub args: Vec<A>,
    /// the address of the first byte of `code`
    pub pc: u16,
}

fn t(s: &str) -> A { A::T(s.into()) }
pub fn r8(n: u8, pfx: u8) -> String {
    match (n, pfx) {
        (4, 1) => "IXH", (5, 1) => "IXL", (4, 2) => "IYH", (5, 2) => "IYL",
        _ => ["B", "C", "D", "E", "H", "L", "(HL)", "A"][n as usize],
    }.into()
}
fn hl(pfx: u8) -> &'static str { ["HL", "IX", "IY"][pfx as usize] }
fn rp(n: u8, pfx: u8) -> A { t(["BC", "DE", hl(pfx), "SP"][n as usize]) }
fn rp2(n: u8, pfx: u8) -> A { t(["BC", "DE", hl(pfx), "AF"][n as usize]) }
fn cc(n: u8) -> A { t(["NZ", "Z", "NC", "C", "PO", "PE", "P", "M"][n as usize]) }
const ALU: [&str; 8] = ["ADD", "ADC", "SUB", "SBC", "AND", "XOR", "OR", "CP"];
const ROT: [&str; 8] = ["RLC", "RRC", "RL", "RR", "SLA", "SRA", "SLL", "SRL"];

/// Decodes the instruction whose (effective) opcode bytes start with `get(0)`; `pc` is the address of
/// that opcode byte (after the prefix byte if there is one).
pub fn decode(pfx: u8, pc: u16, get: &mut dyn FnMut(u16) -> Option<u8>) -> Option<Ins> {
    let op = get(0)?;
    let p = if pfx != 0 && op != 0xED && crate::refm::uses_hl(op) { pfx } else { 0 };
    let mut code: Vec<u8> = vec![];
    if p != 0 { code.push(if p == 1 { 0xDD } else { 0xFD }) }
    code.push(op);
    let mut n = 1u16;
    let mut byte = |code: &mut Vec<u8>| -> Option<u8> { let b = get(n)?; n += 1; code.push(b); Some(b) };
    let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
    let mut args = vec![];
    macro_rules! w16 { () => {{ let l = byte(&mut code)?; let h = byte(&mut code)?; (h as u16) << 8 | l as u16 }} }
    // an 8-bit operand that is (HL) or (IX+d)
    macro_rules! mem { () => { if p == 0 { t("(HL)") } else { let d = byte(&mut code)? as i8; A::Idx(p, d) } } }
    macro_rules! rel { () => {{ let d = byte(&mut code)? as i8; A::N16(pc.wrapping_add(2).wrapping_add(d as u16)) }} }
    let mn: String = match (x, z) {
        (0, 0) => match y {
            0 => "NOP".into(),
            1 => { args = vec![t("AF"), t("AF'")]; "EX".into() }
            2 => { args.push(rel!()); "DJNZ".into() }
            3 => { args.push(rel!()); "JR".into() }
            _ => { args.push(cc(y - 4)); args.push(rel!()); "JR".into() }
        },
        (0, 1) => if y & 1 == 0 { args.push(rp(y >> 1, p)); let v = w16!(); args.push(A::N16(v)); "LD".into() }
            else { args = vec![t(hl(p)), rp(y >> 1, p)]; "ADD".into() },
        (0, 2) => {
            args = match y {
                0 => vec![t("(BC)"), t("A")],
                1 => vec![t("A"), t("(BC)")],
                2 => vec![t("(DE)"), t("A")],
                3 => vec![t("A"), t("(DE)")],
                4 => vec![A::Mem(w16!()), t(hl(p))],
                5 => vec![t(hl(p)), A::Mem(w16!())],
                6 => vec![A::Mem(w16!()), t("A")],
                _ => vec![t("A"), A::Mem(w16!())],
            };
            "LD".into()
        }
        (0, 3) => { args.push(rp(y >> 1, p)); if y & 1 == 0 { "INC".into() } else { "DEC".into() } }
        (0, 4) | (0, 5) => { args.push(if y == 6 { mem!() } else { A::T(r8(y, p)) }); if z == 4 { "INC".into() } else { "DEC".into() } }
        (0, 6) => { let a = if y == 6 { mem!() } else { A::T(r8(y, p)) }; let b = byte(&mut code)?; args = vec![a, A::N8(b)]; "LD".into() }
        (0, _) => ["RLCA", "RRCA", "RLA", "RRA", "DAA", "CPL", "SCF", "CCF"][y as usize].into(),
        (1, _) => if op == 0x76 { "HALT".into() }
            else if y == 6 { let m = mem!(); args = vec![m, A::T(r8(z, 0))]; "LD".into() }
            else if z == 6 { let m = mem!(); args = vec![A::T(r8(y, 0)), m]; "LD".into() }
            else { args = vec![A::T(r8(y, p)), A::T(r8(z, p))]; "LD".into() },
        (2, _) => {
            if matches!(y, 0 | 1 | 3) { args.push(t("A")) }
            let a = if z == 6 { mem!() } else { A::T(r8(z, p)) };
            args.push(a);
            ALU[y as usize].into()
        }
        (_, 0) => { args.push(cc(y)); "RET".into() }
        (_, 1) => match y {
            1 => "RET".into(), 3 => "EXX".into(),
            5 => { args.push(t(["(HL)", "(IX)", "(IY)"][p as usize])); "JP".into() }
            7 => { args = vec![t("SP"), t(hl(p))]; "LD".into() }
            _ => { args.push(rp2(y >> 1, p)); "POP".into() }
        },
        (_, 2) => { args.push(cc(y)); args.push(A::N16(w16!())); "JP".into() }
        (_, 3) => match y {
            0 => { args.push(A::N16(w16!())); "JP".into() }
            1 => {
                let d = if p != 0 { Some(byte(&mut code)? as i8) } else { None };
                let o = byte(&mut code)?;
                let (x, y, z) = (o >> 6, o >> 3 & 7, o & 7);
                let target = match d { Some(d) => A::Idx(p, d), None => A::T(r8(z, 0)) };
                let extra = d.is_some() && z != 6;
                match x {
                    0 => { args.push(target); if extra { args.push(A::T(r8(z, 0))) } ROT[y as usize].into() }
                    1 => { args = vec![A::Num(y as u32), target]; "BIT".into() }
                    _ => { args = vec![A::Num(y as u32), target]; if extra { args.push(A::T(r8(z, 0))) } if x == 2 { "RES".into() } else { "SET".into() } }
                }
            }
            2 => { let b = byte(&mut code)?; args = vec![A::Port(b), t("A")]; "OUT".into() }
            3 => { let b = byte(&mut code)?; args = vec![t("A"), A::Port(b)]; "IN".into() }
            4 => { args = vec![t("(SP)"), t(hl(p))]; "EX".into() }
            5 => { args = vec![t("DE"), t("HL")]; "EX".into() }
            6 => "DI".into(),
            _ => "EI".into(),
        },
        (_, 4) => { args.push(cc(y)); args.push(A::N16(w16!())); "CALL".into() }
        (_, 5) => match y {
            1 => { args.push(A::N16(w16!())); "CALL".into() }
            5 => {
                let o = byte(&mut code)?;
                let (x, y, z) = (o >> 6, o >> 3 & 7, o & 7);
                match (x, z) {
                    (1, 0) => { if y != 6 { args.push(A::T(r8(y, 0))) } args.push(t("(C)")); "IN".into() }
                    (1, 1) => { args.push(t("(C)")); if y != 6 { args.push(A::T(r8(y, 0))) } "OUT".into() }
                    (1, 2) => { args = vec![t("HL"), rp(y >> 1, 0)]; if y & 1 == 0 { "SBC".into() } else { "ADC".into() } }
                    (1, 3) => { let m = A::Mem(w16!()); args = if y & 1 == 0 { vec![m, rp(y >> 1, 0)] } else { vec![rp(y >> 1, 0), m] }; "LD".into() }
                    (1, 4) => "NEG".into(),
                    (1, 5) => if y == 1 { "RETI".into() } else { "RETN".into() },
                    (1, 6) => { args.push(A::Num([0, 0, 1, 2, 0, 0, 1, 2][y as usize])); "IM".into() }
                    (1, _) => {
                        args = match y { 0 => vec![t("I"), t("A")], 1 => vec![t("R"), t("A")], 2 => vec![t("A"), t("I")], 3 => vec![t("A"), t("R")], _ => vec![] };
                        ["LD", "LD", "LD", "LD", "RRD", "RLD", "NOP*", "NOP*"][y as usize].into()
                    }
                    (2, 0..=3) if y >= 4 => [["LDI", "CPI", "INI", "OUTI"], ["LDD", "CPD", "IND", "OUTD"], ["LDIR", "CPIR", "INIR", "OTIR"], ["LDDR", "CPDR", "INDR", "OTDR"]][y as usize - 4][z as usize].into(),
                    _ => "NOP*".into(),
                }
            }
            3 | 7 => return None,
            _ => { args.push(rp2(y >> 1, p)); "PUSH".into() }
        },
        (_, 6) => { if matches!(y, 0 | 1 | 3) { args.push(t("A")) } args.push(A::N8(byte(&mut code)?)); ALU[y as usize].into() }
        _ => { args.push(A::N8(y * 8)); "RST".into() }
    };
    Some(Ins { pfx: p, code, mn, args, pc: if p != 0 { pc.wrapping_sub(1) } else { pc } })
}

// ---- conversion of the implementation's records, by its public structure only

fn pno(p: Option<Prefix>) -> u8 { match p { None => 0, Some(Prefix::Xdd) => 1, Some(Prefix::Yfd) => 2 } }
pub fn reg8_no(r: Reg8) -> u8 { match r { Reg8::B => 0, Reg8::C => 1, Reg8::D => 2, Reg8::E => 3, Reg8::H => 4, Reg8::L => 5, Reg8::A => 7 } }
fn reg16_name(r: Reg16, p: u8) -> &'static str { match r { Reg16::BC => "BC", Reg16::DE => "DE", Reg16::HL => hl(p), Reg16::SP => "SP" } }
fn stk_name(r: StkReg16) -> &'static str { match r { StkReg16::BC => "BC", StkReg16::DE => "DE", StkReg16::HL => "HL", StkReg16::AF => "AF" } }
pub fn cond_name(c: Condition) -> &'static str {
    match c { Condition::NZ => "NZ", Condition::Z => "Z", Condition::NC => "NC", Condition::C => "C", Condition::PO => "PO", Condition::PE => "PE", Condition::P => "P", Condition::M => "M" }
}

fn conv(a: &CpuDebugArg) -> A {
    match a {
        CpuDebugArg::Imm8(n) => A::N8(*n),
        CpuDebugArg::Bit(b) => A::Num(*b),
        CpuDebugArg::IntMode(m) => A::Num(crate::sut::im_no(*m) as u32),
        CpuDebugArg::Reg8(p, r) => A::T(r8(reg8_no(*r), pno(*p))),
        CpuDebugArg::Imm16(n) => A::N16(*n),
        CpuDebugArg::Reg16(p, r) => t(reg16_name(*r, pno(*p))),
        CpuDebugArg::Stk16(r) => t(stk_name(*r)),
        CpuDebugArg::Addr(CpuDebugAddr::ImmAddr(n)) => A::Mem(*n),
        CpuDebugArg::Addr(CpuDebugAddr::RegAddr(r)) => A::T(format!("({})", reg16_name(*r, 0))),
        CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(p, Some(d))) => A::Idx(pno(Some(*p)), *d),
        CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(p, None)) => A::T(format!("({})", hl(pno(Some(*p))))),
        CpuDebugArg::Port(CpuDebugPort::ImmPort(n)) => A::Port(*n),
        CpuDebugArg::Port(CpuDebugPort::RegPort) => t("(C)"),
        CpuDebugArg::Cond(c) => t(cond_name(*c)),
        CpuDebugArg::I => t("I"),
        CpuDebugArg::R => t("R"),
    }
}

pub fn of_record(d: &CpuDebug) -> Ins {
    let args = match &d.args {
        CpuDebugArgs::None => vec![],
        CpuDebugArgs::Single(a) => vec![conv(a)],
        CpuDebugArgs::Double(CpuDebugArg::Stk16(StkReg16::AF), CpuDebugArg::Stk16(StkReg16::AF)) => vec![t("AF"), t("AF'")],
        CpuDebugArgs::Double(a, b) => vec![conv(a), conv(b)],
        CpuDebugArgs::BitOpExt(b, a, r) => vec![A::Num(*b), conv(a), A::T(r8(reg8_no(*r), 0))],
    };
    Ins { pfx: pno(d.prefix), code: d.code.to_vec(), mn: d.mnemonic.to_string(), args, pc: d.pc }
}

// ---- text

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style { Dec, Hex, HexUp, Alt, AltUp }
pub const STYLES: [Style; 5] = [Style::Dec, Style::Hex, Style::HexUp, Style::Alt, Style::AltUp];

fn n8(v: u8, s: Style) -> String { match s { Style::Dec => format!("{v}"), Style::Hex => format!("{v:02x}h"), Style::HexUp => format!("{v:02X}h"), Style::Alt => format!("0x{v:02x}"), Style::AltUp => format!("0x{v:02X}") } }
fn n16(v: u16, s: Style) -> String { match s { Style::Dec => format!("{v}"), Style::Hex => format!("{v:04x}h"), Style::HexUp => format!("{v:04X}h"), Style::Alt => format!("0x{v:04x}"), Style::AltUp => format!("0x{v:04X}") } }

pub fn arg_text(a: &A, s: Style) -> String {
    match a {
        A::N8(v) => n8(*v, s), A::N16(v) => n16(*v, s), A::T(x) => x.clone(), A::Num(n) => n.to_string(),
        A::Mem(v) => format!("({})", n16(*v, s)),
        A::Idx(p, d) => format!("({}{}{})", hl(*p), if *d < 0 { '-' } else { '+' }, if s == Style::Dec { d.unsigned_abs().to_string() } else { n8(d.unsigned_abs(), s) }),
        A::Port(v) => format!("({})", n8(*v, s)),
    }
}
/// The line without column padding.
pub fn text(i: &Ins, s: Style) -> String {
    let pc = n16(i.pc, s);
    let args = i.args.iter().map(|a| arg_text(a, s)).collect::<Vec<_>>().join(", ");
    let code = i.code.iter().map(|b| match s { Style::Dec => format!("{b}"), Style::Hex | Style::Alt => format!("{b:02x}"), _ => format!("{b:02X}") }).collect::<Vec<_>>().join(", ");
    format!("{pc} {} {args}{}[{code}]", i.mn, if args.is_empty() { "" } else { " " })
}
/// The line with the documented columns: address, mnemonic (4), arguments (14, 15 with 0x), bytes.
pub fn columns(i: &Ins, s: Style) -> String {
    let pc = if s == Style::Dec { format!("{:>5}", i.pc) } else { n16(i.pc, s) };
    let args = i.args.iter().map(|a| arg_text(a, s)).collect::<Vec<_>>().join(", ");
    let code = i.code.iter().map(|b| match s { Style::Dec => format!("{b}"), Style::Hex | Style::Alt => format!("{b:02x}"), _ => format!("{b:02X}") }).collect::<Vec<_>>().join(", ");
    let w = if matches!(s, Style::Alt | Style::AltUp) { 15 } else { 14 };
    format!("{pc} {:<4} {args:<w$} [{code}]", i.mn)
}
/// The arguments padded: left, right and centred, wider and narrower than the text.
pub fn record_arg_padded(d: &CpuDebug, s: Style) -> [String; 4] {
    let a = &d.args;
    match s {
        Style::Dec => [format!("{a:20}"), format!("{a:>17}"), format!("{a:*^21}"), format!("{a:2}")],
        Style::Hex => [format!("{a:20x}"), format!("{a:>17x}"), format!("{a:*^21x}"), format!("{a:2x}")],
        Style::HexUp => [format!("{a:20X}"), format!("{a:>17X}"), format!("{a:*^21X}"), format!("{a:2X}")],
        Style::Alt => [format!("{a:#20x}"), format!("{a:>#17x}"), format!("{a:*^#21x}"), format!("{a:#2x}")],
        Style::AltUp => [format!("{a:#20X}"), format!("{a:>#17X}"), format!("{a:*^#21X}"), format!("{a:#2X}")],
    }
}
pub fn squeeze(s: &str) -> String { s.split_whitespace().collect::<Vec<_>>().join(" ") }
pub fn record_text(d: &CpuDebug, s: Style) -> String {
    match s { Style::Dec => format!("{d}"), Style::Hex => format!("{d:x}"), Style::HexUp => format!("{d:X}"), Style::Alt => format!("{d:#x}"), Style::AltUp => format!("{d:#X}") }
}
pub fn record_arg_text(d: &CpuDebug, s: Style) -> String {
    match s { Style::Dec => format!("{}", d.args), Style::Hex => format!("{:x}", d.args), Style::HexUp => format!("{:X}", d.args), Style::Alt => format!("{:#x}", d.args), Style::AltUp => format!("{:#X}", d.args) }
}
