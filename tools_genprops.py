import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every opcode has exactly the Z80's architectural effect",
 "Executing any instruction of the unprefixed, CB, ED, DD, FD, DDCB and FDCB tables, documented or not, from any CPU state leaves every programmer-visible register (main, alternate, index, SP, PC, I, interrupt flip-flops and mode) with the value the Z80 gives it, and performs exactly the memory and I/O reads and writes the Z80 performs (same addresses, same data, same order), for each of the NMOS, CMOS and BM1 flavours. All address and register arithmetic wraps modulo 2^16 / 2^8. Nothing else is changed.",
 ["inputs","programs","configurations"],"all opcodes of all seven tables x operand bytes x register/flag/memory values x 3 flavours",
 "cycles_test and mnemonics_test run each opcode once or a few times on random registers and look only at timing or text; shuffle_test runs one program. None compares the results of an instruction over its operand space.",
 ["src/z80/instructions.rs","src/z80/opcodes.rs","src/z80/internal.rs","src/z80/ops.rs","src/z80/macros.rs","src/z80.rs"],
 [("opcode dispatch macros","src/z80/opcodes.rs"),("instruction bodies","src/z80/instructions.rs"),("ALU primitives","src/z80/ops.rs")],
 ["Cpu getters after execute_next","Memory/Io calls received by the host"])
p("C02","Arithmetic, logic, shift, BIT and DAA results and all eight flags are exact",
 "For every combination of operand values and incoming flags, the 8-bit ALU operations, INC/DEC, rotates and shifts, BIT/SET/RES, DAA, CPL, NEG, SCF/CCF, RLD/RRD and the 16-bit ADD/ADC/SBC/INC/DEC produce the result the Z80 produces together with all eight flag bits, including the undocumented bits 3 and 5, in every addressing form of the operation.",
 ["inputs","configurations"],"all 2^16 operand pairs x incoming F for the 8-bit operations in every addressing form; byte-wise complete carry structure of the 16-bit operations (all 2^32 pairs in the thorough tier)",
 "ops.rs unit tests check single hand-picked operands per operation; flag bugs live at specific operand pairs (half-carry, overflow, DAA corners).",
 ["src/z80/ops.rs","src/cpu/flags.rs","src/z80/internal.rs","src/z80/instructions.rs"],
 [("flag mask helpers","src/cpu/flags.rs"),("ALU primitives","src/z80/ops.rs")],
 ["Cpu::get_flags, Cpu::get_acc, Cpu::get_reg* after execute_next"])
p("C03","Clock cycles of every instruction: kind, order, address and T-states",
 "Every executed instruction, interrupt acknowledge, NMI acceptance and HALT cycle reports to the Clock exactly the Z80's machine cycles, in order: M1, memory, I/O, interrupt-acknowledge and internal (no-MREQ) cycles, each with the address the Z80 has on its bus and the right number of internal T-states, for both outcomes of conditional and repeating instructions. The T-state total is therefore that of the Z80.",
 ["inputs","programs","configurations"],"all opcodes of all tables x flag/counter outcomes x register and operand values determining bus addresses",
 "cycles_test checks cycles of each instruction on a few random register values; wrong contention addresses that only differ at wrap-around or for particular register values are not reached.",
 ["src/z80/instructions.rs","src/z80/internal.rs","src/z80/macros.rs","src/host.rs"],
 [("cycle comments and add_* calls","src/z80/internal.rs")],
 ["Clock::add_m1, add_mreq, add_io, add_irq, add_no_mreq call sequence"])
p("C04","Block instructions equal their iterated definition and stay interruptible",
 "LDI/LDD/CPI/CPD/INI/IND/OUTI/OUTD and their repeating forms, run to completion for any counter, pointer and memory contents, including overlapping regions, address wrap-around and self-overwriting, leave memory, registers, ports and flags as the iterated definition of the Z80 does. A repeating form executes exactly one iteration per instruction step, so an interrupt may be accepted between any two iterations and, after the handler returns, the transfer resumes and finishes with the same result as if uninterrupted.",
 ["inputs","programs","schedules"],"all block opcodes x counters, pointer layouts and directions x every interrupt position",
 "Tests run a block instruction once with random counters; multi-iteration overlap, B/BC wrap at zero, and interruption in the middle are not covered.",
 ["src/z80/internal.rs","src/z80/instructions.rs"],
 [("block_transfer, block_search, block_in, block_out","src/z80/internal.rs")],
 ["memory image, port log and registers at completion","PC after each step"])
p("C05","DD/FD prefix bytes: any chain, one step each, only the last one counts",
 "Each DD or FD byte is executed as one 4 T-state step that changes nothing but PC, R and the pending prefix, which is reported by the CPU; in any chain of prefixes only the last before the opcode has effect, and it has effect only on that one opcode. On opcodes that do not use HL the prefix is ignored, before ED it is discarded, and no interrupt, maskable or not, is accepted between a prefix and its opcode.",
 ["programs","schedules","inputs"],"all chains of prefix bytes up to a depth x all opcodes x interrupt requests at every position",
 "The tests execute each prefixed opcode once after a single prefix without interrupts.",
 ["src/z80/instructions.rs","src/z80/opcodes.rs","src/z80.rs","src/z80/macros.rs"],
 [("prefix state carried between steps","src/z80.rs"),("is_int_allowed","src/z80.rs")],
 ["Cpu::get_prefix, is_after_prefix, is_irq_allowed, is_nmi_allowed","register and bus effects of the following opcode"],
 state=[("prefix","pending DD/FD prefix","src/z80.rs")])
p("C06","Maskable interrupts: accepted exactly when allowed, acknowledged per IM",
 "A requested maskable interrupt is accepted before the next opcode if and only if IFF1 is set, the previous instruction was not EI and no prefix is pending; a refused request changes nothing. Acceptance clears both IFFs, leaves HALT, advances R once, performs the acknowledge cycle with the current PC and then, in IM 0 executes the instruction on the bus, in IM 1 RST 38h, in IM 2 pushes PC and jumps through the vector at I*256+data; the interrupted program resumes at the pushed address. EI sets and DI clears both IFFs, and exactly the one instruction following EI is protected, whether execution is stepped or run with a limit.",
 ["schedules","programs","histories"],"all instruction/request sequences up to a depth, all three modes, any bus data, both execution entry points",
 "shuffle_test uses one program with one interrupt pattern; acceptance conditions depend on the history (EI, prefixes, HALT, RETN) and the request instant.",
 ["src/z80.rs","src/z80/internal.rs"],
 [("is_irq_allowed / irq_no_check","src/z80/internal.rs"),("interrupt sampling in execute_next and execute_with_limit","src/z80.rs")],
 ["Cpu::irq result","Io::irq_data calls","IFFs, PC, stack after acceptance"],
 state=[("iff1/iff2","interrupt flip-flops","src/z80.rs"),("last_ei","EI shadow","src/z80.rs")])
p("C07","NMI and RETN/RETI preserve and restore the interrupt enable state",
 "A non-maskable interrupt is accepted whenever no prefix is pending and the last instruction was not EI, regardless of IFF1: it clears IFF1 only, leaves HALT, advances R once, pushes the resume address and continues at 0066h without executing an instruction; a refused NMI changes nothing and returns false. RETN and RETI (all encodings) return and copy IFF2 to IFF1, and only the RETI encoding ED 4D notifies the host, once, before the return address is popped; LD A,I and LD A,R report IFF2 in P/V (0 on NMOS if an interrupt is being accepted right then).",
 ["schedules","histories","programs"],"all sequences of instructions, NMIs and INT requests up to a depth",
 "No test nests NMI with maskable interrupts or checks the IFF pair across histories.",
 ["src/z80/internal.rs","src/z80.rs","src/z80/instructions.rs"],
 [("nmi_no_check","src/z80/internal.rs"),("RETN/RETI","src/z80/instructions.rs"),("instr_ld_a_from_ir","src/z80/internal.rs")],
 ["Cpu::nmi result, get_iffs, PC, stack","Io::reti calls"])
p("C08","HALT stops at its own address, burns M1 cycles and is left only by interrupts",
 "Executing HALT reports Halt once and enters the halt state with PC on the HALT opcode; while halted every step is one M1 cycle at that address that advances R once and touches nothing else, until an accepted INT or NMI, which resumes after the HALT opcode, or a reset. Limited execution entered while halted burns M1 cycles until the limit or an accepted interrupt and then goes on executing; directly executing an instruction also leaves the halt state.",
 ["schedules","histories","programs"],"all entry paths into HALT x IFF states x request instants x limits",
 "Tests execute HALT once to check its cycles; the resume paths, and HALT combined with EI/NMI/limits, are not enumerated.",
 ["src/z80.rs","src/z80/internal.rs","src/z80/instructions.rs"],
 [("halt flag handling","src/z80.rs"),("halt exit in irq/nmi","src/z80/internal.rs")],
 ["BreakCause::Halt, is_halt, PC, R, Clock calls"],
 state=[("halt","halt state","src/z80.rs")])
p("C09","Running with a limit equals stepping; slicing a run changes nothing",
 "For any program, interrupt line schedule and limit, executing with a limit performs exactly the same instructions, bus accesses, clock cycles and interrupt acceptances as calling the single-step method until the clock has passed the limit or a break occurs, and returns Ok exactly when the limit was reached without a break. Consequently splitting a run at any sequence of limits never changes the behaviour, and a call with an already passed limit does nothing.",
 ["programs","schedules","histories"],"all programs over an instruction alphabet up to a length x INT schedules x limit sequences",
 "Two separate execution loops exist; tests compare them only on the shuffle program with one interrupt pattern.",
 ["src/z80.rs","src/z80/macros.rs","src/z80/instructions.rs"],
 [("execute_with_limit and execute_with_limit_loop","src/z80.rs"),("execute_next","src/z80.rs")],
 ["full CPU state, memory, host call log, return value"])
p("C10","Break requests are reported exactly, after the instruction has completed",
 "When the host requests a break from an I/O write or a RETI notification, the instruction still completes (registers, memory and cycles as without the break) and the executing call returns exactly that cause and value, once; without a request no such cause is returned, and execution resumes afterwards as if there had been no break. This holds for all output instructions, RETI, repeating forms and instructions executed as IM 0 interrupt data, in all execution entry points.",
 ["programs","histories","fault_sequences"],"all output/RETI opcodes x break answers x entry points x following instructions",
 "Tests request a break from a single OUT in one program.",
 ["src/z80.rs","src/z80/instructions.rs","src/z80/internal.rs","src/host.rs"],
 [("LoopExitReason","src/z80.rs"),("BreakCause","src/host.rs")],
 ["return values of execute_instruction, execute_next, execute_with_limit, irq"])
p("C11","Host callbacks get the right timestamps and wait states are added exactly",
 "Every Memory and Io callback receives the timestamp returned by the Clock for the machine cycle it belongs to, RETI and interrupt sampling receive the current clock value, and the wait states an Io callback returns are added to the clock exactly once, for the same bus address, before the next cycle. The CPU never advances the clock in any other way, so elapsed time is the sum of the reported cycles and wait states.",
 ["inputs","programs","configurations"],"all opcodes and interrupt modes x wait-state answers, with a clock whose timestamps identify each cycle",
 "Tests return no wait states and use timestamps only as totals.",
 ["src/z80/internal.rs","src/z80/instructions.rs","src/host.rs"],
 [("add_wait_states after read_io, write_io, irq_data","src/z80/internal.rs")],
 ["timestamps passed to Memory and Io; Clock::add_wait_states calls"])
p("C12","The R register counts M1 cycles in its low seven bits only",
 "R advances by exactly one per M1 cycle (each prefix and opcode fetch, HALT cycle, interrupt and NMI acknowledge), only in its low seven bits; bit 7 changes only by LD R,A or an explicit set. LD A,R, the refresh address given to opcode reads and the accessor all show this value in any history of loads, accessor calls and execution.",
 ["programs","histories","inputs"],"all 256 values of R x all opcodes, and all histories of R accessors, LD R,A / LD A,R and fetches up to a depth",
 "R is lazily split in two internal pieces; tests look at it at most once per instruction.",
 ["src/z80.rs","src/z80/internal.rs","src/cpu.rs"],
 [("inc_r, get_r, set_r, get_ir, add_r","src/z80.rs"),("fetch_next_opcode","src/z80/internal.rs")],
 ["Cpu::get_r, get_ir, Memory::read_opcode ir argument, LD A,R"],
 state=[("r / ir","lazy refresh counter","src/z80.rs")])
p("C13","Hidden MEMPTR and Q state evolve as documented for each flavour",
 "The hidden 16-bit MEMPTR register takes the documented value after every instruction and interrupt, with the BM1 and NMOS/CMOS difference for LD (nn),A, LD (rp),A and OUT (n),A, and is what BIT n,(HL) exposes in flag bits 3 and 5. SCF and CCF set bits 3 and 5 from A on CMOS, and on NMOS and BM1 from A if the preceding instruction modified the flags and from A OR F otherwise, for every preceding instruction.",
 ["inputs","programs","histories","configurations"],"all opcodes x operand values for MEMPTR; all ordered pairs (preceding instruction, SCF/CCF) x A x F x flavour",
 "flav_test runs five fixed programs.",
 ["src/z80/internal.rs","src/z80/instructions.rs","src/z80/flavours.rs"],
 [("Flavour trait","src/z80/flavours.rs"),("memptr updates","src/z80/internal.rs")],
 ["Z80::get_memptr, flags after BIT n,(HL), SCF, CCF"],
 state=[("memptr","hidden address register","src/z80.rs"),("flags_modified","Q state","src/z80/flavours.rs")])
p("C14","Attaching a debugger never changes execution",
 "Executing with a debug closure yields the same CPU state, memory and I/O accesses, clock cycles, interrupt behaviour and return value as without one, for every instruction, interrupt mode and entry point. The closure is called exactly once per executed instruction and never for a lone prefix byte, a halted cycle or a refused interrupt.",
 ["inputs","programs","schedules"],"all opcodes and short instruction sequences x interrupt modes, with and without a closure",
 "mnemonics_test executes with a debugger only and does not compare with undebugged execution.",
 ["src/z80/macros.rs","src/z80/debug.rs","src/z80/instructions.rs"],
 [("debug! dispatch","src/z80/macros.rs")],
 ["host call log, CPU state and closure invocation count"])
p("C15","Debug records name exactly the instruction that was executed",
 "The record handed to the debugger carries the address, the exact opcode bytes (including the effective prefix), the prefix and a mnemonic with arguments that denote the instruction actually executed: re-encoding its operands (immediates, displacement, jump target, bit number, registers, condition, port, mode) agrees with the bytes. This holds wherever the instruction lies, across the 64K wrap and for taken and untaken branches, and its text renderings contain the same values in the documented columns.",
 ["inputs","programs"],"all opcode/operand byte strings of the seven tables x addresses x branch outcomes x flavours",
 "mnemonics_test covers each mnemonic with one operand value and address.",
 ["src/cpu/debug.rs","src/z80/debug.rs","src/z80/macros.rs","src/z80/instructions.rs"],
 [("CpuDebug construction","src/z80/macros.rs"),("Display/LowerHex/UpperHex","src/cpu/debug.rs")],
 ["CpuDebug passed to the closure and its formatting"])
p("C16","The disassembler splits any bytes into instructions exactly as the CPU decodes",
 "For every byte string and origin, disassembly visits the string from start to end without panicking or looping, reports each complete instruction once with its address (modulo 2^16) and exact bytes, consecutive and non-overlapping, skips only superseded or trailing prefixes and a truncated tail, and agrees in length, bytes and text with what the CPU would execute there. Stopping by an error from the callback stops immediately and returns that error, and the single-instruction and text variants agree with the full one.",
 ["inputs","programs"],"all byte strings up to a length over all values / an alphabet x origins incl. wrap x truncation points x flavours",
 "Two short fixed byte strings are tested.",
 ["src/disasm.rs","src/cpu/debug.rs"],
 [("disasm_memory","src/disasm.rs")],
 ["sequence of CpuDebug records, returned Result, rendered text"])
p("C17","A serialized CPU resumes exactly where it was",
 "Serializing a CPU in any reachable state (mid-prefix, after EI, halted, any flavour, any register values) and deserializing it gives a CPU that is equal to the original and behaves identically ever after, in human-readable and binary formats, directly or through the any-flavour wrapper; documented alternative and legacy input forms give the same CPU, and invalid input is an error, never a panic. Loading a snapshot as another flavour preserves all registers.",
 ["histories","inputs","configurations"],"all states reached by instruction sequences up to a depth x register values x formats x flavours",
 "Round trips are tested on a handful of states without resuming execution.",
 ["src/z80/serde.rs","src/z80/any.rs","src/cpu/registers.rs","src/z80/flavours.rs","src/cpu/parse.rs"],
 [("Serialize/Deserialize impls","src/z80/serde.rs"),("RegisterPair visitor","src/cpu/registers.rs")],
 ["serde_json / bincode output, equality, subsequent execution"])
p("C18","The any-flavour CPU is indistinguishable from the concrete flavour",
 "A Z80Any behaves identically to the Z80 of the flavour it wraps for every operation of the CPU interface: accessors, execution entry points, interrupts and their results. Conversions between concrete flavours and to and from Z80Any preserve all registers and execution state (and the flavour state where the target has it), is/into/unwrap helpers and tags agree with the variant, and wrapping then unwrapping is the identity.",
 ["histories","programs","configurations"],"all operation sequences up to a depth x 3 flavours x all conversions",
 "Tests call each Z80Any method once on default states.",
 ["src/z80/any.rs","src/z80/flavours.rs","src/z80.rs"],
 [("dispatch macro","src/z80/any.rs"),("into_flavour/from_flavour","src/z80.rs")],
 ["results of all Cpu methods on both"])
p("C19","TsCounter counts exactly the documented T-states",
 "The provided clock adds 4, 3, 4, 6, n and n T-states for M1, memory, I/O, interrupt acknowledge, internal and wait cycles, returns the documented timestamp of each cycle, compares limits by its current count, and does so for all of its counter widths with the documented wrap-around, so a whole instruction sequence takes the same time on it as on any other clock that follows the trait.",
 ["inputs","histories"],"all sequences of clock events up to a depth from boundary counter values, for several integer types",
 "Doc tests use one value; wrap-around and per-event timestamps are not enumerated.",
 ["src/host.rs"],
 [("TsCounter impl of Clock","src/host.rs")],
 ["TsCounter value and returned timestamps"])
p("C20","Register accessors are coherent views of one register file",
 "Every setter changes exactly the register it names and every getter shows it: 8-bit, 16-bit, pair, index, alternate, I/R, flag, IFF, IM, PC, SP and MEMPTR views agree with each other after any history of setter, exchange and reset calls, and instructions see the same registers. Reset puts the CPU in the documented initial state from any state, equality of two CPUs means equal state, and the Debug rendering shows each register with its value.",
 ["histories","inputs"],"all accessor sequences up to a depth x all register selectors x byte values",
 "z80_methods tests set each register once.",
 ["src/z80.rs","src/z80/internal.rs","src/cpu/registers.rs","src/z80/any.rs"],
 [("accessors","src/z80.rs"),("reg8_ptr","src/z80/internal.rs")],
 ["all Cpu getters"])
p("C21","No input makes the CPU core panic, hang or overfeed the clock",
 "For any memory contents, I/O answers, interrupt data and CPU state, every execution entry point returns after a bounded number of machine cycles per instruction without panicking (also with overflow and debug assertions on), whatever instruction bytes are supplied, including interrupt data in IM 0 and undefined ED codes.",
 ["inputs","programs","histories","fault_sequences"],"all instruction byte strings x states reached by call sequences x IM 0 data bytes",
 "Tests run well-formed programs only.",
 ["src/z80.rs","src/z80/instructions.rs","src/z80/opcodes.rs","src/z80/internal.rs","src/cpu/parse.rs"],
 [("unreachable_unchecked in code parsing","src/cpu/parse.rs"),("Wrapping arithmetic","src/z80/internal.rs")],
 ["return of every call; number of Clock events per call"])
p("C22","Opcode constants and operand parsers agree with the decoder",
 "Every public opcode constant and mask/base pair selects exactly the opcodes that execute as the named instruction, and every parser of opcode fields (registers, register pairs, conditions, bit operations, interrupt modes, prefixes, RST) maps each code byte to the operand the CPU uses, inverts its encoder and prints its standard name; a condition is satisfied exactly for the flags on which the CPU branches.",
 ["inputs","configurations"],"all 256 code bytes x all constants, parsers and flag values",
 "Only a few constants are used by tests.",
 ["src/lib.rs","src/cpu/parse.rs"],
 [("opconsts","src/lib.rs"),("reg_enum_mask macros","src/cpu/parse.rs")],
 ["constants and TryFrom/From impls vs. executed behaviour"])
p("C23","Flag and register-pair helper methods equal their mathematical definition",
 "Every public helper of the flags type and of the register-pair type (set/clear/mask/test and op8/op16, increments, decrements, additions, conversions) returns and stores exactly the documented value for all inputs and changes only the bits or bytes it names.",
 ["inputs"],"all inputs of 8- and 16-bit helpers (products of full byte ranges)",
 "Unit tests check single values.",
 ["src/cpu/flags.rs","src/cpu/registers.rs"],
 [("CpuFlags methods","src/cpu/flags.rs"),("RegisterPair methods","src/cpu/registers.rs")],
 ["return values and stored bits"])
p("C24","Forwarded hosts behave exactly like the host they wrap",
 "A Memory, Io or Clock wrapper made with the forwarding macros, in any of their forms, passes every call through once with the same arguments and returns the same answer, so any execution on the wrapped host equals the execution on the host itself. Methods that are not forwarded (nor implemented) behave as the documented defaults of the trait.",
 ["programs","inputs"],"all instructions and interrupts executed on wrapped and plain hosts",
 "Macro doc tests only compile or call one method.",
 ["src/macros.rs","src/host.rs"],
 [("forward_host_* macros","src/macros.rs")],
 ["call logs of the wrapped host"])
p("C25","Every build configuration behaves the same",
 "Everything the crate computes (registers, memory and I/O accesses, timing, disassembly, conversions) is the same in every combination of its features (with and without std and serde), optimisation level, run-time checks (overflow checks, debug assertions on or off), compiler version and target architecture (pointer width, byte order); no configuration panics where another does not, and every documented combination of features compiles.",
 ["configurations","inputs"],"all build configurations x every instruction, entry point and flavour over enumerated states",
 "The tests are run in one configuration on one little-endian 64-bit machine; a conditional compilation branch or a byte-order assumption is exercised elsewhere only.",
 ["src/lib.rs","src/cpu/flags.rs","src/cpu/registers.rs","src/z80.rs","src/z80/internal.rs","src/z80/opcodes.rs","Cargo.toml"],
 [("RegisterPair byte order","src/cpu/registers.rs"),("debug assertions","src/z80/internal.rs"),("no_std","src/lib.rs")],
 ["outputs of one program over the public interface, built in each configuration"])
p("C26","No use of the public interface causes undefined behaviour",
 "Whatever memory, I/O answers, register contents, opcode bytes and call order a program using only the safe public interface supplies, the crate never reads out of bounds or uninitialised, dangling or unaligned memory, makes an invalid value, or breaks Rust's aliasing rules, although it decodes opcodes and selects registers with unsafe code; the same goes for the banked memory of the example computer.",
 ["inputs","histories","programs"],"every opcode, operand selector, parser code, bank history executed under a machine that detects undefined behaviour",
 "Undefined behaviour usually shows no wrong result in a native test run; no test runs under a detector.",
 ["src/z80/internal.rs","src/cpu/parse.rs","src/cpu/registers.rs","src/disasm.rs","examples/ral1243/src/memory.rs"],
 [("reg8_ptr and unchecked operand parsing","src/z80/internal.rs"),("unreachable_unchecked","src/cpu/parse.rs"),("bank1 pointer","examples/ral1243/src/memory.rs")],
 ["absence of undefined behaviour reported by the interpreter"])
p("C30","CTC channels count and time exactly like the Z8430 model, whenever polled",
 "Every CTC channel of the example computer, programmed by any sequence of documented control, time-constant and vector words (mode, prescaler and trigger selection changed together with a channel reset), shows on read the down-counter value and produces the zero-count pulses and interrupt requests that a T-state-by-T-state model of the documented timer (prescaler 16/256, automatic or triggered start) and counter modes produces. How often or at which moments the host polls or reads the chip does not change counts, pulse times or requests.",
 ["histories","schedules","inputs"],"all command/poll/time-advance sequences up to a depth over small time constants, all modes and trigger edges",
 "There is no test of the CTC; the lazy event-driven implementation must equal continuous counting for every polling pattern.",
 ["examples/ral1243/src/ctc.rs","examples/ral1243/src/ctc_trigger.rs"],
 [("Channel::process","examples/ral1243/src/ctc.rs"),("next_ts_hint laziness","examples/ral1243/src/ctc.rs")],
 ["read_io, is_irq, zc_to_pulse times"],
 state=[("next_ts_hint","lazy processing horizon","examples/ral1243/src/ctc.rs")])
p("C31","Daisy-chained interrupts: priority, vectors, one service at a time",
 "In the device chain (CTC channels 0 to 3, then PIO A and B) an acknowledge is answered by the highest-priority pending source with its own programmed vector and clears only that request; while the CTC is being serviced neither it nor the PIO requests, while the PIO is being serviced it does not request but the CTC may interrupt it, and RETI ends the service of the highest-priority chip in service only. Requests pending meanwhile are neither lost nor duplicated.",
 ["histories","schedules"],"all sequences of requests, acknowledges, RETI, enable/disable and reset up to a depth",
 "No test drives the chain.",
 ["examples/ral1243/src/ctc.rs","examples/ral1243/src/pio.rs","examples/ral1243/src/bus.rs"],
 [("is_irq/irq_data/reti chaining","examples/ral1243/src/ctc.rs")],
 ["Io::is_irq, irq_data, reti of the chain"],
 state=[("ieo","device in service","examples/ral1243/src/ctc.rs")])
p("C32","PIO channels transfer every byte exactly once, in order",
 "In input mode each byte of the attached stream is latched once, readable until the next is sampled after the CPU read, with one interrupt request per byte when enabled; in output mode each byte written reaches the sink in order, one request per accepted byte, whatever the pattern of sink refusals, polls, mode changes and interrupt enables. Bytes are never duplicated, reordered or dropped except by overwriting a byte not yet accepted, or by a mode select or reset discarding the latched or not yet accepted byte.",
 ["histories","fault_sequences","schedules"],"all sequences of control words, data reads/writes, polls, stream and sink readiness up to a depth",
 "No test of the PIO exists.",
 ["examples/ral1243/src/pio.rs","examples/ral1243/src/pio_device.rs"],
 [("ready handshake","examples/ral1243/src/pio.rs"),("PioInput/PioOutput","examples/ral1243/src/pio_device.rs")],
 ["bytes seen by the sink / returned by IN, is_irq"])
p("C33","Memory paging shows the right bank at every address and never loses RAM",
 "The example computer's memory shows ROM in 0000-1FFF, kernel RAM or the selected EX-ROM (FF if absent) in 2000-3FFF depending only on whether the last opcode fetch was below 2000h and on the selected number, user RAM up to its size and FF beyond; ROM and EX-ROM never change, RAM keeps what was written while visible, and byte, 16-bit, opcode and debug reads all agree at every address including bank boundaries and wrap. This holds after any history of fetches, bank selects, writes and EX-ROM attach/eject.",
 ["histories","inputs","configurations"],"all operation sequences up to a depth x boundary addresses x RAM sizes x EX-ROM counts",
 "memory_read16_works checks two static configurations.",
 ["examples/ral1243/src/memory.rs"],
 [("bank1 pointer switching","examples/ral1243/src/memory.rs")],
 ["Memory trait reads, read_ctrl, memory_debug"],
 state=[("bank1/bank1_is_ram/exrom_select","current bank mapping","examples/ral1243/src/memory.rs")])
p("C34","Port decoding routes each I/O access to exactly one device",
 "For every 16-bit port address each read and write reaches exactly the device register selected by the documented masks (memory control 124, PIO 8-11, CTC 4-7 on the low byte, otherwise the terminator: FF / ignored) and no other device is affected; custom mask configurations decode by the documented rule.",
 ["inputs","configurations"],"all 65536 ports x read/write x device configurations",
 "Not tested.",
 ["examples/ral1243/src/bus.rs","examples/ral1243/src/ctc.rs","examples/ral1243/src/pio.rs","examples/ral1243/src/lib.rs"],
 [("with_port_bits masks","examples/ral1243/src/bus.rs")],
 ["device state reached by each port"])
p("C35","Frames, second wrap-around and the clock never change what the machine does",
 "Running the example computer frame by frame emits the same output bytes, memory and CPU state as any other division of the same time into frames or debug steps, frame durations follow the limit without drift, and the periodic wrap of the clock (subtracting one second from all timestamps) changes nothing the program can observe: counters, pending pulses, interrupts.",
 ["schedules","histories","configurations"],"all start phases around the wrap x frame divisions x timer configurations of small periods",
 "The examples are not run by tests; wrap happens once per emulated second.",
 ["examples/ral1243/src/runner.rs","examples/ral1243/src/clock.rs","examples/ral1243/src/ctc.rs","examples/ral1243/src/ctc_trigger.rs"],
 [("FrameRunner::step","examples/ral1243/src/runner.rs"),("check_wrap_second / next_second","examples/ral1243/src/clock.rs")],
 ["device outputs, CPU state, returned T-states"])
p("C36","Debug stepping and breakpoints run the same machine and stop at the right place",
 "Debug step, run-to-interrupt, run-to-return and run-until-breakpoint execute the same instructions with the same effects as normal running, report the executed instruction and elapsed T-states truthfully, and stop at the first point that satisfies their condition: after one instruction, after an accepted interrupt, after a taken return, or when PC equals any given breakpoint. The preview shows the next instruction without changing anything.",
 ["programs","schedules","histories"],"all short programs x breakpoint sets x interrupt schedules",
 "Not tested.",
 ["examples/ral1243/src/debug.rs"],
 [("debug_step, debug_runto_int, debug_runto_ret, run_until_brkpt","examples/ral1243/src/debug.rs")],
 ["returned CpuDebug/index/T-states, CPU state"])
p("C37","CTC trigger lines deliver every edge once, in time order",
 "The external-clock trigger reports each rising or falling edge of its square wave exactly once at its exact time, in order, for any query pattern, and purging discards exactly the edges not after the given time and returns the time of the next one; the cascade trigger delivers each zero-count pulse of the driving channel once, at whichever of its edges is asked for, unless that edge was purged. No more pulses may be outstanding than the documented capacity.",
 ["histories","schedules","inputs"],"all query/purge/pulse/time-shift sequences up to a depth",
 "Not tested.",
 ["examples/ral1243/src/ctc_trigger.rs"],
 [("CtcActive, CtcPassive, CtcPulse","examples/ral1243/src/ctc_trigger.rs")],
 ["next_clk_trg, purge_clk_trg results"])
p("C38","The emulation thread obeys every control message",
 "The threaded runner of the example computer ends on Terminate or when its control channel is closed, in running and in debug mode alike, applies Reset and NMI requests exactly once (an NMI refused at the moment is retried until accepted), and Continue resumes running from debug mode; no message sequence makes it panic, deadlock or lose bytes.",
 ["schedules","histories"],"all control message sequences up to a depth",
 "Not tested.",
 ["examples/ral1243/src/thread.rs"],
 [("run and debug message loops","examples/ral1243/src/thread.rs")],
 ["thread termination, output bytes"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
