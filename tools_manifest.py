#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
STEP="explicit-state product of a reference model and the real CPU, exhaustive one-step enumeration"
SEQ="bounded exhaustive exploration of action sequences, reference model and real CPU in lock-step"
C={
"C01":(STEP,"every opcode/prefix/flavour x all byte cells and pairs of cells within bounds"),
"C02":("exhaustive enumeration of all operand/flag states of every ALU operation, real CPU against reference tables","all 2^8 x 2^8 x F operands; 16-bit ops on all values of one operand x selected others (quick), all 2^32 (thorough)"),
"C06":(SEQ,"all sequences of snippets, interrupt windows, modes, vectors and control calls up to the stated depth"),
"C07":(SEQ,"all sequences of NMI/INT/RETN/RETI/EI/DI up to the stated depth"),
"C08":(SEQ,"all sequences around HALT up to the stated depth"),
"C03":(STEP,"machine-cycle log compared event by event"),
"C11":(STEP,"timestamps and wait states compared event by event, two clock models"),
"C12":(STEP,"R and refresh address"),
"C13":(STEP,"MEMPTR, Q and their exposure"),
"C04":("exhaustive bounded enumeration of block-instruction runs, reference iterated definition against the real CPU","counters, pointers, overlaps, self-overwriting programs and interruption points within bounds"),
"C05":("exhaustive enumeration of prefix chains up to a length x every opcode x flavour, real CPU stepped","interrupts attempted at every point of the chain"),
"C09":(SEQ,"real CPU against itself: limited execution and every slicing against single stepping"),
"C10":(SEQ,"real CPU against itself with and without break requests, every breaking instruction and entry point"),
"C14":("exhaustive one-step and sequence enumeration, real CPU with debugger against without","every opcode, entry point and flavour"),
"C15":("exhaustive enumeration of instructions and places, record against an independent decoder","every opcode x operand bytes x placement within bounds"),
"C17":("breadth-first search of reachable CPU states plus exhaustive enumeration of input forms, round trip and re-execution on the real code","histories to a depth x formats x flavours; field subsets, orders, aliases, notations, corruptions"),
"C18":("exhaustive enumeration of accessor-call sequences, real CPU against a plain register file model","all sequences of the accessor vocabulary up to a depth x values x flavours, static and dynamic type"),
"C20":("exhaustive enumeration of reset/control-call/conversion histories on the real CPU","every state of the enumerated set x reset, flavour change, conversion, clone and compare"),
"C19":("explicit-state enumeration of clock-event histories against an unbounded-integer model, plus exhaustive product runs on two clocks","all events from all (16-bit) or boundary counter values, event sequences to a depth, 8 counter types"),
"C21":("exhaustive enumeration of byte strings, fill patterns and call sequences on the real CPU built with overflow checks and debug assertions","all 3-byte strings x entry points; period-2 (thorough: 3) memories; call sequences to depth 4 (5)"),
"C22":("exhaustive enumeration: every opcode x flag value executed on the real CPU against constants and parsers","complete"),
"C23":("exhaustive enumeration of helper inputs against arithmetic definitions","complete except add16 operands (complete in thorough)"),
"C24":("exhaustive enumeration of host calls and one-step product of plain and wrapped hosts","all methods x arguments x macro forms; every instruction and interrupt on wrapped hosts"),
"C25":("exhaustive enumeration of a fixed bounded space of executions of the real code in every build configuration, outputs compared group by group","7 native configurations (features, optimisation, checks, toolchains) and an interpreted 32-bit big-endian machine (thorough: also 64-bit big-endian)"),
"C26":("exhaustive enumeration of a bounded space of executions of the real code on an interpreter that detects undefined behaviour in each step (Miri)","every opcode, parser code, register pair operation, interrupt vector, and all bank histories to a depth; aliasing rules of Tree Borrows (thorough: also Stacked Borrows)"),
"C30":(SEQ,"T-state model of the documented counter/timer against the real chip: all operation sequences to a depth over six modes x channels; all control-word triples with and without extra polls; cascaded channels poll by poll"),
"C31":(SEQ,"request/acknowledge/RETI/enable/reset sequences over the whole device chain"),
"C32":(SEQ,"byte-transfer model against the real PIO and its devices: all sequences of control, data, poll, readiness operations to a depth"),
"C33":(SEQ,"memory-map model against the real memory: all sequences of fetches, selects, writes, attach/eject to a depth"),
"C34":("exhaustive enumeration of ports and decoder configurations, real devices against the documented masks","all 65536 ports x read/write x configurations"),
"C35":("exhaustive enumeration of programs x time divisions, real machine driven by frames/debug steps against itself run instruction by instruction on a clock that never wraps","programs, phases, clock rates and divisions within bounds"),
"C37":(SEQ,"edge-list model against the real trigger lines: all query/purge/pulse/time-shift sequences to a depth"),
"C36":(SEQ,"all sequences of debugger calls from many starting points against the run recorded instruction by instruction"),
"C38":("exhaustive enumeration of message schedules delivered to the real runner thread, against a model of the protocol","all message sequences up to a depth"),
"C16":("exhaustive enumeration of byte strings up to a length and origin, disassembler against an independent decoder","byte strings within bounds"),
}
import sys
props=[json.loads(l)["id"] for l in open("properties.jsonl")]
NA={}
checks=[]
for p in props:
    if p in C:
        t,n=C[p]
        checks.append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough",
          "technique":t,"level":"model_checking","level_note":n})
    else:
        NA.setdefault(p,"check not built yet")
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()]},open("MANIFEST.json","w"),indent=1)
