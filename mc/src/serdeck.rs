//! C17: serialization round trips over enumerated and reachable states, alternative, legacy and invalid input.
use crate::host::*;
use crate::lock::*;
use crate::onestep::*;
use crate::prog::{flavours, Ex};
use crate::refm::*;
use crate::rep::*;
use crate::seq::{fill_std, std_start};
use crate::sut::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use z80emu::z80::any::Z80Any;
use z80emu::z80::*;
use z80emu::*;

pub trait Sf: Fla + Serialize + DeserializeOwned + From<NMOS> + From<CMOS> + From<BM1> {}
impl<T: Fla + Serialize + DeserializeOwned + From<NMOS> + From<CMOS> + From<BM1>> Sf for T {}

/// The four internal flag-tracking histories of a flavour.
pub fn qhist<F: Fla>(n: u8) -> F {
    let mut f = F::default();
    if n & 2 != 0 { f.flags_modified() }
    f.begin_instruction();
    if n & 1 != 0 { f.flags_modified() }
    f
}

fn unany<F: Sf>(a: &Z80Any) -> Option<Z80<F>> {
    let ok = match F::F { Fl::Nmos => a.is_nmos(), Fl::Cmos => a.is_cmos(), Fl::Bm1 => a.is_bm1() };
    if ok { Some(F::unwrap_cpu_any(a.clone())) } else { None }
}

/// All formats; returns the deserialized cpus that must all equal the original.
fn trips<F: Sf>(c: &Z80<F>, full: bool) -> Result<Vec<(&'static str, Z80<F>)>, String> {
    let e = |n: &'static str| move |m: String| format!("{n}: {m}");
    let any: Z80Any = c.clone().into();
    let mut v = vec![];
    let b = bincode::serialize(c).map_err(|m| e("bincode serialize")(m.to_string()))?;
    v.push(("bincode", bincode::deserialize(&b).map_err(|m| e("bincode")(m.to_string()))?));
    let js = serde_json::to_string(c).map_err(|m| e("json serialize")(m.to_string()))?;
    v.push(("json", serde_json::from_str(&js).map_err(|m| e("json")(m.to_string()))?));
    let ab = bincode::serialize(&any).map_err(|m| e("any bincode serialize")(m.to_string()))?;
    let aj = serde_json::to_string(&any).map_err(|m| e("any json serialize")(m.to_string()))?;
    let a1: Z80Any = bincode::deserialize(&ab).map_err(|m| e("any bincode")(m.to_string()))?;
    let a2: Z80Any = serde_json::from_str(&aj).map_err(|m| e("any json")(m.to_string()))?;
    v.push(("any via bincode", unany(&a1).ok_or("any via bincode has another flavour")?));
    v.push(("any via json", unany(&a2).ok_or("any via json has another flavour")?));
    // written by one, read by the other
    v.push(("any bincode read as concrete", bincode::deserialize(&ab).map_err(|m| e("any->concrete bincode")(m.to_string()))?));
    let a3: Z80Any = serde_json::from_str(&js).map_err(|m| e("concrete->any json")(m.to_string()))?;
    v.push(("concrete json read as any", unany(&a3).ok_or("concrete json read as any has another flavour")?));
    if full {
        let val = serde_json::to_value(c).map_err(|m| e("value")(m.to_string()))?;
        v.push(("json value", serde_json::from_value(val.clone()).map_err(|m| e("json value")(m.to_string()))?));
        v.push(("json reader", serde_json::from_reader(js.as_bytes()).map_err(|m| e("json reader")(m.to_string()))?));
        v.push(("bincode reader", bincode::deserialize_from(&b[..]).map_err(|m| e("bincode reader")(m.to_string()))?));
        let p = serde_json::to_string_pretty(c).unwrap();
        v.push(("json pretty", serde_json::from_str(&p).map_err(|m| e("json pretty")(m.to_string()))?));
        let a4: Z80Any = serde_json::from_value(val).map_err(|m| e("any value")(m.to_string()))?;
        v.push(("any via value", unany(&a4).ok_or("any via value has another flavour")?));
        let a5: Z80Any = bincode::deserialize_from(&b[..]).map_err(|m| e("any bincode reader")(m.to_string()))?;
        v.push(("any via bincode reader", unany(&a5).ok_or("any via bincode reader has another flavour")?));
    }
    Ok(v)
}

fn check<F: Sf>(rep: &Rep, c: &Z80<F>, full: bool, what: &dyn Fn() -> String) -> bool {
    let r = guard(|| trips(c, full));
    let bad = match r {
        Err(m) => Some(format!("panic: {m}")),
        Ok(Err(m)) => Some(m),
        Ok(Ok(v)) => v.into_iter().find_map(|(n, d)| {
            let (a, b) = (snap(c), snap(&d));
            if d != *c || a != b || c.flavour != d.flavour { Some(format!("{n}: not equal\nwant {}\ngot  {}", show_cpu(&a), show_cpu(&b))) } else { None }
        }),
    };
    if let Some(m) = bad { rep.violation(format!("{} round trip of {}: {m}", F::NAME, what())); return false }
    true
}

fn cells<F: Sf>(rep: &Rep) {
    let nb = rep.q(3, 6);
    // register values
    par(rep, NCELLS, || Loader::<F>::new(), |ld, cell| {
        let mut n = 0;
        for b in 0..nb { for v in 0..=255u8 { for pfx in 0..3u8 {
            let mut c = base_cells(b);
            c[cell] = v;
            let cs = fixq::<F>(build(Opc { pfx, table: 0, op: 0 }, &c));
            let cpu = ld.load(&cs.cpu);
            check(rep, &cpu, b == 0, &|| show_cpu(&cs.cpu));
            n += 1;
        } } }
        rep.add(n, n * 6, n);
    });
    // all control states x Q history x lazy R
    par(rep, 3 * 2 * 2 * 2 * 2 * 3, || Loader::<F>::new(), |ld, i| {
        let s = RCpu { pfx: (i % 3) as u8, im: (i / 3 % 3) as u8, ei: i / 9 & 1 != 0, halt: i / 18 & 1 != 0, iff1: i / 36 & 1 != 0, iff2: i / 72 & 1 != 0, ..std_start() };
        let mut n = 0;
        for q in 0..4 { for r in [0u8, 0x7F, 0x80, 0xFF] { for d in 0..=255i32 {
            let mut cpu = ld.load(&s);
            cpu.flavour = qhist::<F>(q);
            cpu.set_r(r);
            cpu.add_r(d);
            check(rep, &cpu, d == 0, &|| format!("{} Q history {q}, R {r:02x}+{d}", show_cpu(&s)));
            n += 1;
        } } }
        rep.add(n, n * 6, n);
    });
}

/// Reachable states: every opcode executed from several starts, and sequences of instructions, interrupts
/// and control calls; the restored CPU then has to run in lock-step with the original.
fn reach<F: Sf>(rep: &Rep) {
    fn follow<F: Sf>(rep: &Rep, x: &mut Ex<F>, steps: usize, what: &dyn Fn() -> String) -> u64 {
        let r = guard(|| trips(&x.c, false));
        let v = match r { Ok(Ok(v)) => v, Ok(Err(m)) | Err(m) => { rep.violation(format!("{} round trip of {}: {m}", F::NAME, what())); return 0 } };
        let orig = x.c.clone();
        let sv = x.save();
        let run = |x: &mut Ex<F>| {
            let mut o = vec![];
            for i in 0..steps {
                o.push(x.step());
                if i == 1 { o.push(Ok(if x.act(Act::Nmi).ok().flatten().is_some() { Out::Ok } else { Out::Halt })) }
            }
            (o, snap(&x.c), x.e.log()[sv.ln_()..].to_vec(), x.k.log[sv.kn_()..].to_vec(), x.k.now)
        };
        let want = run(x);
        x.restore(&sv);
        for (n, d) in v {
            if d != orig { rep.violation(format!("{} {n} of {}: not equal\nwant {}\ngot  {}", F::NAME, what(), show_cpu(&snap(&orig)), show_cpu(&snap(&d)))); return 0 }
            x.c = d;
            let got = run(x);
            x.restore(&sv);
            if got != want {
                rep.violation(format!("{} {n} of {}: continues differently\nwant {:?} {} [{}] [{}]\ngot  {:?} {} [{}] [{}]", F::NAME, what(),
                    want.0, show_cpu(&want.1), show_log(&want.3), show_log(&want.2), got.0, show_cpu(&got.1), show_log(&got.3), show_log(&got.2)));
                return 0;
            }
        }
        7 * steps as u64
    }
    let ops = all_ops();
    par(rep, ops.len(), || Ex::<F>::new(&|a| bg(a)), |x, i| {
        let o = ops[i];
        let (mut n, mut t) = (0, 0);
        for b in 0..rep.q(3, 6) { for after in [0x00u8, 0x37, 0xB7, 0x3F] {
            let mut c = base_cells(b);
            c[20] = 0x50;
            let cs = fixq::<F>(build(o, &c));
            x.start(&cs.cpu, cs.cfg);
            x.pokes(cs.cpu.pc, &cs.code);
            if x.step().is_err() { continue }
            // the interesting follow-up instruction depends on the state just saved
            let pc = x.c.get_pc();
            x.pokes(pc, &[after, 0x46, 0x3F]);
            t += follow(rep, x, 3, &|| format!("the state after {:02x?} from {}", cs.code, show_cpu(&cs.cpu)));
            n += 1;
        } }
        rep.add(n + t, t, n);
    });
    // sequences
    let snip: &[&[u8]] = &[&[0x00], &[0xFB], &[0x76], &[0xDD], &[0xFD], &[0x37], &[0xB7], &[0xED, 0x5E], &[0xED, 0xB0], &[0xED, 0x5F], &[0x08], &[0xD9]];
    let acts: Vec<(Act, &[u8], bool)> = snip.iter().flat_map(|s| [(Act::Step, *s, false), (Act::Step, *s, true)])
        .chain([(Act::Nmi, &[][..], false), (Act::IncR, &[][..], false), (Act::SetR(0xFF), &[][..], false), (Act::EnInt, &[][..], false), (Act::Run(9), &[0xFB][..], true), (Act::Halt, &[][..], false)]).collect();
    let depth = rep.q(3u32, 4);
    let total = acts.len().pow(depth);
    par(rep, total, || Ex::<F>::new(&fill_std), |x, i| {
        let s = RCpu { iff1: true, iff2: true, im: (i % 3) as u8, pc: 0x8000, ..std_start() };
        x.start(&s, EnvCfg::default());
        let mut j = i;
        let mut path = vec![];
        for _ in 0..depth {
            let (a, code, line) = &acts[j % acts.len()];
            j /= acts.len();
            let pc = x.c.get_pc();
            x.pokes(pc, code);
            let now = x.k.now;
            x.e.cfg.ints[0] = if *line { (now, Ts::MAX) } else { (0, 0) };
            x.e.st.acked = 0;
            path.push(format!("{a:?} {code:02x?} int={line}"));
            if x.act(*a).is_err() { return }
        }
        let pc = x.c.get_pc();
        x.pokes(pc, &[0xCB, 0x46, 0x37, 0xED, 0x5F]);
        let t = follow(rep, x, 3, &|| format!("the state after {path:?}"));
        rep.add(1 + t, t, 1);
    });
}

fn cross<A: Sf, B: Sf + From<A>>(rep: &Rep) {
    let ld = Loader::<A>::new();
    let mut n = 0;
    for b in 0..6 { for cell in 0..NCELLS { for v in [0u8, 0x55, 0x80, 0xFF] { for pfx in 0..3u8 {
        let mut c = base_cells(b);
        c[cell] = v;
        let cs = fixq::<A>(build(Opc { pfx, table: 0, op: 0 }, &c));
        for q in 0..4u8 { for halt in [false, true] {
            let mut s = cs.cpu;
            s.halt = halt;
            let mut cpu = ld.load(&s);
            cpu.flavour = qhist::<A>(q);
            cpu.inc_r();
            let want: Z80<B> = cpu.clone().into_flavour::<B>();
            // registers are preserved by the conversion itself
            let (mut x, mut y) = (snap(&cpu), snap(&want));
            let keepq = A::F != Fl::Cmos && B::F != Fl::Cmos || A::F == B::F;
            if !keepq { x.q = false; y.q = false }
            let mut bad = None;
            if x != y { bad = Some(("into_flavour", y)) }
            let r = guard(|| -> Result<Vec<(&'static str, Z80<B>)>, String> {
                let js = serde_json::to_string(&cpu).unwrap();
                let bc = bincode::serialize(&cpu).unwrap();
                let any: Z80Any = cpu.clone().into();
                Ok(vec![
                    ("json", serde_json::from_str(&js).map_err(|e| format!("json: {e}"))?),
                    ("bincode", bincode::deserialize(&bc).map_err(|e| format!("bincode: {e}"))?),
                    ("json value", serde_json::from_value(serde_json::to_value(&cpu).unwrap()).map_err(|e| format!("value: {e}"))?),
                    ("any json", serde_json::from_str(&serde_json::to_string(&any).unwrap()).map_err(|e| format!("any json: {e}"))?),
                    ("any bincode", bincode::deserialize(&bincode::serialize(&any).unwrap()).map_err(|e| format!("any bincode: {e}"))?),
                ])
            });
            n += 1;
            match r {
                Ok(Ok(v)) => for (name, d) in v {
                    let mut z = snap(&d);
                    if !keepq { z.q = false }
                    if z != x || keepq && d != want { bad = Some((name, snap(&d))) }
                },
                Ok(Err(m)) | Err(m) => { rep.violation(format!("{} loaded as {}: {m}\nstate {}", A::NAME, B::NAME, show_cpu(&s))); return }
            }
            if let Some((name, z)) = bad {
                rep.violation(format!("{} loaded as {} ({name}) loses registers\nwant {}\ngot  {}", A::NAME, B::NAME, show_cpu(&x), show_cpu(&z)));
                return;
            }
        } }
    } } } }
    rep.add(n, n * 6, n);
}

/// Alternative and legacy input, invalid input.
fn forms<F: Sf>(rep: &Rep) {
    let ld = Loader::<F>::new();
    let mut n = 0u64;
    let keys = ["type", "af", "afAlt", "regs", "regsAlt", "index", "pc", "sp", "memptr", "lastEi", "ir", "im", "iff1", "iff2", "halt", "prefix", "r", "flavour"];
    let opt = ["type", "memptr", "r", "flavour"];
    let alias = [("afAlt", "af_alt"), ("regsAlt", "regs_alt"), ("lastEi", "last_ei")];
    let read = |t: &str| -> (Result<Z80<F>, String>, Result<Z80Any, String>) {
        (guard(|| serde_json::from_str::<Z80<F>>(t).map_err(|e| e.to_string())).unwrap_or_else(|m| Err(format!("PANIC {m}"))),
         guard(|| serde_json::from_str::<Z80Any>(t).map_err(|e| e.to_string())).unwrap_or_else(|m| Err(format!("PANIC {m}"))))
    };
    let panicked = |a: &Result<Z80<F>, String>, b: &Result<Z80Any, String>| {
        matches!(a, Err(m) if m.starts_with("PANIC")) || matches!(b, Err(m) if m.starts_with("PANIC"))
    };
    for b in 0..6 { for ctl in 0..24u8 {
        let cs = fixq::<F>(build(Opc { pfx: ctl % 3, table: 0, op: 0 }, &base_cells(b)));
        let mut s = cs.cpu;
        s.ei = ctl / 3 & 1 != 0; s.halt = ctl / 6 & 1 != 0; s.im = ctl % 3; s.iff1 = ctl / 12 != 0;
        let mut cpu = ld.load(&s);
        cpu.flavour = qhist::<F>(ctl & 3);
        let val = serde_json::to_value(&cpu).unwrap();
        let obj = val.as_object().unwrap().clone();
        // the documented field set
        if obj.len() != keys.len() || keys.iter().any(|k| !obj.contains_key(*k)) {
            rep.violation(format!("serialized fields {:?} are not {keys:?}", obj.keys().collect::<Vec<_>>()));
            return;
        }
        let emit = |ks: &[&str], ren: &dyn Fn(&str) -> String| -> String {
            let parts: Vec<String> = ks.iter().map(|k| {
                let mut v = obj[*k].clone();
                if *k == "flavour" { if let Value::Object(m) = &v {
                    v = Value::Object(m.iter().map(|(k, v)| (ren(k), v.clone())).collect());
                } }
                format!("{:?}:{}", ren(k), v)
            }).collect();
            format!("{{{}}}", parts.join(","))
        };
        let ident = |k: &str| k.to_string();
        // field order does not matter
        for rot in 0..keys.len() { for rev in [false, true] {
            let mut ks: Vec<&str> = keys.to_vec();
            ks.rotate_left(rot);
            if rev { ks.reverse() }
            let t = emit(&ks, &ident);
            let (x, y) = read(&t);
            n += 2;
            if x.as_ref() != Ok(&cpu) || y.as_ref().ok().and_then(unany::<F>).as_ref() != Some(&cpu) {
                rep.violation(format!("{} from fields in another order\n{t}\ngot {:?} / {:?}", F::NAME, x.map(|c| show_cpu(&snap(&c))), y));
                return;
            }
        } }
        // aliases: every subset
        for m in 0..32u32 {
            let ren = |k: &str| -> String {
                for (i, (a, b)) in alias.iter().chain([&("flagsModified", "flags_modified"), &("lastFlagsModified", "last_flags_modified")]).enumerate() {
                    if *a == k && m >> i & 1 != 0 { return b.to_string() }
                }
                k.to_string()
            };
            let t = emit(&keys, &ren);
            let (x, y) = read(&t);
            n += 2;
            if x.as_ref() != Ok(&cpu) || y.as_ref().ok().and_then(unany::<F>).as_ref() != Some(&cpu) {
                rep.violation(format!("{} from alias names (mask {m:x})\n{t}\ngot {:?} / {:?}", F::NAME, x.map(|c| show_cpu(&snap(&c))), y));
                return;
            }
        }
        // every subset of fields missing: optional ones default, required ones are an error
        for m in 0..16u32 {
            let gone = |k: &str| opt.iter().enumerate().any(|(i, o)| *o == k && m >> i & 1 != 0);
            let ks: Vec<&str> = keys.iter().copied().filter(|k| !gone(k)).collect();
            let t = emit(&ks, &ident);
            let mut want = cpu.clone();
            if gone("memptr") { want.set_memptr(0) }
            if gone("r") { let ir = obj["ir"].as_u64().unwrap() as u16; want.set_r(ir as u8) }
            if gone("flavour") { want.flavour = F::default() }
            let (x, y) = read(&t);
            n += 2;
            let okc = x.as_ref() == Ok(&want);
            let wa: Z80Any = want.clone().into();
            let oka = match &y {
                Ok(a) => if gone("type") { a.is_nmos() && *a == wa.clone().into_nmos() || a.is_nmos() && F::F == Fl::Cmos && { let mut z = a.clone().into_cmos(); z.normalize_r(); let mut w = wa.clone(); w.normalize_r(); z == w } } else { *a == wa },
                _ => false,
            };
            if !okc || !oka {
                rep.violation(format!("{} from input without {:?}\n{t}\nwant {}\ngot  {:?} / {:?}", F::NAME, opt.iter().filter(|o| gone(o)).collect::<Vec<_>>(), show_cpu(&snap(&want)), x.map(|c| show_cpu(&snap(&c))), y));
                return;
            }
            for k in keys.iter().filter(|k| !opt.contains(k)) {
                let ks: Vec<&str> = ks.iter().copied().filter(|q| q != k).collect();
                let t = emit(&ks, &ident);
                let (x, y) = read(&t);
                n += 2;
                if x.is_ok() || y.is_ok() || panicked(&x, &y) { rep.violation(format!("{}: input without the field {k} is not an error\n{t}\n{:?}", F::NAME, x.map(|c| show_cpu(&snap(&c))))); return }
            }
        }
        // duplicated fields (also through the alias), unknown fields
        for (i, k) in keys.iter().enumerate() { for at in [0, i, keys.len()] {
            let mut ks: Vec<&str> = keys.to_vec();
            ks.insert(at, k);
            let t = emit(&ks, &ident);
            let (x, y) = read(&t);
            n += 2;
            if x.is_ok() || y.is_ok() || panicked(&x, &y) { rep.violation(format!("{}: duplicate field {k} is not an error\n{t}", F::NAME)); return }
        } }
        for (a, bn) in alias {
            let t = emit(&keys, &ident);
            let t = format!("{},{:?}:{}}}", &t[..t.len() - 1], bn, obj[a]);
            let (x, y) = read(&t);
            n += 2;
            if x.is_ok() || y.is_ok() || panicked(&x, &y) { rep.violation(format!("{}: field {a} given twice through its alias is not an error\n{t}", F::NAME)); return }
        }
        // every value replaced with each of many wrong ones: an error, never a panic
        let wrong = ["null", "-1", "65536", "99999999999999999999", "-32769", "1.5", "\"\"", "\"zz\"", "\"$12345\"", "[]", "[1]", "[1,2,3]", "[256,0]", "[-1,0]", "{}", "true", "\"Mode3\"", "\"Zdd\"", "\"Z80\"", "3", "256", "{\"bc\":0}", "{\"bc\":0,\"de\":0,\"hl\":0,\"af\":0}", "\"$\"", "\"0x\"", "\"+1\"", "[0,0", "\"\\u0000\""];
        if ctl < 3 { for (i, k) in keys.iter().enumerate() { for wv in wrong {
            let t0 = emit(&keys, &ident);
            let probe = format!("{:?}:{}", k, obj[*k]);
            let t = t0.replacen(&probe, &format!("{k:?}:{wv}"), 1);
            let (x, y) = read(&t);
            n += 2;
            if panicked(&x, &y) { rep.violation(format!("{}: panic on invalid input\n{t}", F::NAME)); return }
            // what is clearly not a value of the field must be refused
            let pair = matches!(*k, "af" | "afAlt" | "pc" | "sp" | "memptr" | "ir");
            let refuse = match *k {
                "lastEi" | "iff1" | "iff2" | "halt" => wv != "true",
                "im" => true,
                "prefix" => wv != "null",
                "regs" | "regsAlt" | "index" => !wv.starts_with('[') && !wv.contains("af"),
                "r" => !matches!(wv, "3"),
                _ if pair => !matches!(wv, "-1" | "3" | "256" | "\"+1\""),
                _ => false,
            };
            if refuse && (x.is_ok() || y.is_ok()) { rep.violation(format!("{}: {k}={wv} is accepted\n{t}", F::NAME)); return }
            if *k == "type" && wv != "null" && y.is_ok() { rep.violation(format!("type {wv} is accepted by the any-flavour reader\n{t}")); return }
            let _ = i;
        } } }
        // truncated and corrupted text
        let t = emit(&keys, &ident);
        for l in 0..t.len() {
            let (x, y) = read(&t[..l]);
            n += 2;
            if x.is_ok() || y.is_ok() || panicked(&x, &y) { rep.violation(format!("{}: truncated input accepted\n{}", F::NAME, &t[..l])); return }
        }
        // binary: truncations are errors; every byte replaced by every value never panics, and what is accepted is
        // exactly what was written
        let bin = bincode::serialize(&cpu).unwrap();
        for l in 0..bin.len() {
            let x = guard(|| bincode::deserialize::<Z80<F>>(&bin[..l]).is_ok());
            let y = guard(|| bincode::deserialize::<Z80Any>(&bin[..l]).is_ok());
            n += 2;
            if x != Ok(false) || y != Ok(false) { rep.violation(format!("{}: binary input cut at {l} of {}: {x:?} {y:?}", F::NAME, bin.len())); return }
        }
        if ctl < rep.q(3, 24) { for p in 0..bin.len() { for v in 0..=255u8 {
            let mut t = bin.clone();
            t[p] = v;
            let y = guard(|| bincode::deserialize::<Z80Any>(&t).map_err(|e| e.to_string()));
            let x = guard(|| bincode::deserialize::<Z80<F>>(&t).map_err(|e| e.to_string()));
            n += 2;
            let bad = match (&x, &y) {
                (Err(m), _) | (_, Err(m)) => Some(format!("panic {m}")),
                (Ok(x), Ok(y)) => {
                    let mut why = None;
                    if x.is_ok() != y.is_ok() { why = Some("the concrete and the any-flavour reader disagree".to_string()) }
                    if let Ok(y) = y {
                        let back = bincode::serialize(y).unwrap();
                        if !t.starts_with(&back) && !(y.is_cmos()) { why = Some(format!("accepted, but it is not what was written: back {back:02x?}")) }
                    }
                    why
                }
            };
            if let Some(m) = bad { rep.violation(format!("{}: binary byte {p} replaced by {v:02x}: {m}\n{t:02x?}", F::NAME)); return }
        } } }
        // sequence forms: 18 elements with the type, 17 without (legacy, NMOS for the any-flavour reader)
        let seq18: Vec<Value> = keys.iter().map(|k| obj[*k].clone()).collect();
        let seq17: Vec<Value> = seq18[1..].to_vec();
        let x = guard(|| serde_json::from_value::<Z80<F>>(Value::Array(seq18.clone())).map_err(|e| e.to_string()));
        let y = guard(|| serde_json::from_value::<Z80Any>(Value::Array(seq18.clone())).map_err(|e| e.to_string()));
        let x17 = guard(|| serde_json::from_value::<Z80<F>>(Value::Array(seq17.clone())).map_err(|e| e.to_string()));
        let y17 = guard(|| serde_json::from_value::<Z80Any>(Value::Array(seq17.clone())).map_err(|e| e.to_string()));
        let xt = guard(|| serde_json::from_str::<Z80<F>>(&Value::Array(seq18.clone()).to_string()).map_err(|e| e.to_string()));
        n += 5;
        let wa: Z80Any = cpu.clone().into();
        let wn: Z80Any = match F::F { Fl::Cmos => { let mut z = wa.clone().into_nmos(); z.normalize_r(); z } _ => wa.clone().into_nmos() };
        let mut y17n = y17.clone();
        if F::F == Fl::Cmos { if let Ok(Ok(a)) = &mut y17n { a.normalize_r() } }
        if x != Ok(Ok(cpu.clone())) || y != Ok(Ok(wa)) || x17 != Ok(Ok(cpu.clone())) || y17n != Ok(Ok(wn)) || xt != Ok(Ok(cpu.clone())) {
            rep.violation(format!("{}: sequence forms of {}: {:?} {:?} {:?} {:?} {:?}", F::NAME, show_cpu(&snap(&cpu)), x.map(|r| r.map(|c| show_cpu(&snap(&c)))), y, x17.map(|r| r.map(|c| show_cpu(&snap(&c)))), y17, xt.map(|r| r.map(|c| show_cpu(&snap(&c))))));
            return;
        }
        for l in 0..=18usize {
            if l == 17 { continue }
            let x = guard(|| serde_json::from_value::<Z80<F>>(Value::Array(seq18[..l].to_vec())).is_ok());
            let y = guard(|| serde_json::from_value::<Z80Any>(Value::Array(seq18[..l].to_vec())).is_ok());
            n += 2;
            if x != Ok(l == 18) || y != Ok(l == 18) { rep.violation(format!("{}: sequence of {l} elements: {x:?} {y:?}", F::NAME)); return }
        }
    } }
    rep.add(n, n, n);
    // register pairs: every value in every documented notation, through each register field
    par(rep, 256, || Loader::<F>::new(), |ld, hi| {
        let mut n = 0;
        let cpu = ld.load(&std_start());
        let base = serde_json::to_value(&cpu).unwrap();
        for lo in 0..256usize {
            let v = (hi << 8 | lo) as u16;
            let forms: [Value; 8] = [v.into(), (v as i16).into(), vec![v as u8, (v >> 8) as u8].into(), format!("{v:x}").into(), format!("${v:X}").into(), format!("0x{v:04x}").into(), format!("{v:04X}").into(), format!("${v:04x}").into()];
            for (i, f) in forms.iter().enumerate() {
                let fields: &[usize] = if lo % 16 == hi % 16 || lo == 0 { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] } else { &[4] };
                for fi in fields {
                    let mut t = base.clone();
                    let mut w = snap(&cpu);
                    match fi {
                        0 => { t["af"] = f.clone(); w.af = v }
                        1 => { t["afAlt"] = f.clone(); w.af_ = v }
                        2 => { t["regs"]["de"] = f.clone(); w.de = v }
                        3 => { t["regsAlt"]["hl"] = f.clone(); w.hl_ = v }
                        4 => { t["pc"] = f.clone(); w.pc = v }
                        5 => { t["sp"] = f.clone(); w.sp = v }
                        6 => { t["memptr"] = f.clone(); w.wz = v }
                        7 => { t["index"]["iy"] = f.clone(); w.iy = v }
                        8 => { t["ir"] = f.clone(); w.i = (v >> 8) as u8; w.r = v as u8 & 0x80 | w.r & 0x7F }
                        _ => { t["regs"]["bc"] = f.clone(); w.bc = v }
                    }
                    let g = guard(|| serde_json::from_value::<Z80<F>>(t.clone()).map(|c| snap(&c)).map_err(|e| e.to_string()));
                    n += 1;
                    if g != Ok(Ok(w)) { rep.violation(format!("{}: notation {i} of {v:04x} ({f}) in field {fi}: {g:?}", F::NAME)); return }
                }
            }
        }
        rep.add(n, n, n);
    });
}

/// Register pairs from every data type a format may hand over: the value, or an error when it does not fit.
fn pair_types(rep: &Rep) {
    use serde::de::{value::*, Deserialize, IntoDeserializer};
    fn get<'a, D: serde::Deserializer<'a, Error = Error>>(d: D) -> Option<u16> { RegisterPair::deserialize(d).ok().map(|r| r.get16()) }
    let ck = |what: &str, v: i128, got: Result<Option<u16>, String>| {
        let want = if (-0x8000..0x10000).contains(&v) { Some(v as u16) } else { None };
        if got != Ok(want) { rep.violation(format!("a register pair from the {what} {v}: {got:x?}, expected {want:x?}")) }
        rep.add(1, 1, 1);
    };
    macro_rules! ty { ($t:ty, $vals:expr) => { for v in $vals { ck(stringify!($t), v as i128, guard(|| get::<_>(IntoDeserializer::<Error>::into_deserializer(v as $t)))) } } }
    ty!(u8, 0..=u8::MAX); ty!(i8, i8::MIN..=i8::MAX);
    ty!(u16, 0..=u16::MAX); ty!(i16, i16::MIN..=i16::MAX);
    ty!(u32, 0..=0x1_0100u32); ty!(i32, -0x8100..=0x1_0100i32); ty!(u64, 0..=0x1_0100u64); ty!(i64, -0x8100..=0x1_0100i64);
    for b in 16..64u32 { for d in [0u64, 1, 0x1234, u64::MAX] {
        let v = (1u64 << b).wrapping_add(d);
        ty!(u64, [v]); ty!(u32, [v as u32]);
        ty!(i64, [v as i64, (v as i64).wrapping_neg()]); ty!(i32, [v as i32, (v as i32).wrapping_neg()]);
    } }
    // sequences of bytes: exactly two, low byte first
    for n in 0..5usize { for a in 0..=255u8 { for b in [0u8, 1, 0x7F, 0x80, 0xFF, a] {
        let v: Vec<u8> = [a, b, b, a][..n.min(4)].to_vec();
        let want = if v.len() == 2 { Some(u16::from_le_bytes([a, b])) } else { None };
        let got = guard(|| get(SeqDeserializer::<_, Error>::new(v.clone().into_iter())));
        if got != Ok(want) { rep.violation(format!("a register pair from the sequence {v:02x?}: {got:x?}, expected {want:x?}")) }
        rep.add(1, 1, 1);
    } } }
    for (t, s) in [("bool", 0u8), ("char", 1), ("f64", 2), ("unit", 3)] {
        let got = guard(|| match s { 0 => get(IntoDeserializer::<Error>::into_deserializer(true)), 1 => get(IntoDeserializer::<Error>::into_deserializer('1')),
            2 => get(IntoDeserializer::<Error>::into_deserializer(1.0f64)), _ => get(UnitDeserializer::<Error>::new()) });
        // a character is handed over as a one-character string
        if got != Ok(if s == 1 { Some(1) } else { None }) { rep.violation(format!("a register pair from a {t}: {got:x?}")) }
        rep.add(1, 1, 1);
    }
    rep.bound("register pairs from every integer type a format may hand over (8 and 16 bits: every value; wider: everything around the 16-bit range and powers of two), byte sequences of length 0..4, other types");
}

/// The round trip through formats taking every combination of the liberties serde leaves to a format.
fn formats<F: Sf>(rep: &Rep) {
    use crate::serfmt::{D, Opt};
    use serde::Deserialize;
    let opts = Opt::all();
    par(rep, 24, || Loader::<F>::new(), |ld, ctl| {
        let mut n = 0;
        for b in 0..6 { for hi in [0u16, 0x8000] { for q in 0..4 {
            let cs = fixq::<F>(build(Opc { pfx: ctl as u8 % 3, table: 0, op: 0 }, &base_cells(b)));
            let mut s = cs.cpu;
            s.ei = ctl / 3 & 1 != 0; s.halt = ctl / 6 & 1 != 0; s.im = ctl as u8 % 3; s.iff1 = ctl / 12 != 0;
            s.bc ^= hi; s.hl_ ^= hi; s.ix ^= hi; s.pc ^= hi; s.sp ^= hi; s.wz ^= hi; s.i ^= (hi >> 8) as u8;
            let mut cpu = ld.load(&s);
            cpu.flavour = qhist::<F>(q);
            let v = serde_json::to_value(&cpu).unwrap();
            let any: Z80Any = cpu.clone().into();
            for o in &opts {
                let x = guard(|| Z80::<F>::deserialize(D { v: &v, o: *o }).map_err(|e| e.to_string()));
                let y = guard(|| Z80Any::deserialize(D { v: &v, o: *o }).map_err(|e| e.to_string()));
                n += 2;
                if x != Ok(Ok(cpu.clone())) || y != Ok(Ok(any.clone())) {
                    rep.violation(format!("{} through a format with {o:?}\n{v}\ngot {:?}\nany {y:?}", F::NAME, x.map(|r| r.map(|c| show_cpu(&snap(&c))))));
                    return;
                }
            }
        } } }
        rep.add(n, n, n);
    });
}

pub fn c17(rep: &Rep) {
    pair_types(rep);
    rep.bound("round trips of 1152 states per flavour through a serde format with every combination of: readable or not, integers as i64 / i32 / u64 / smallest unsigned, keys borrowed / owned / bytes / index, structures as maps (two orders) or sequences, with or without a length hint");
    flavours!(formats, rep);
    rep.bound("round trips (JSON text/value/reader/pretty, bincode slice/reader, concrete and any-flavour, each read by the other) of: every register cell x 256 values x base states x prefix; every control state x Q history x R load and lazy advance; the state after every opcode and after every action sequence of the stated depth, the restored CPU then stepped against the original");
    flavours!(cells, rep);
    flavours!(reach, rep);
    rep.bound("all 9 flavour pairs for loading as another flavour");
    cross::<NMOS, NMOS>(rep); cross::<NMOS, CMOS>(rep); cross::<NMOS, BM1>(rep);
    cross::<CMOS, NMOS>(rep); cross::<CMOS, CMOS>(rep); cross::<CMOS, BM1>(rep);
    cross::<BM1, NMOS>(rep); cross::<BM1, CMOS>(rep); cross::<BM1, BM1>(rep);
    rep.bound("input forms: field orders (rotations, reversals), every alias subset, every subset of optional fields missing, each required field missing, each field duplicated, wrong values, every truncation, every binary byte x 256, sequence forms of every length, every register value in every notation");
    flavours!(forms, rep);
}
