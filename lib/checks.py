"""The registered checks: which harnesses decide which property, with which budgets."""
import os
from vrun import Job, VERIF, build_guest

SUP = os.path.join(VERIF, "harness", "supported.txt")
CHECKS = {}
PAST = ("0x7fff0000", "0x100000000") # programs across 2 GiB and above 4 GiB
def check(pid, **kw): CHECKS[pid] = kw
def T(tier, q, t): return t if tier == "thorough" else q

def isa_jobs(group, per_q, seq_q, layouts=()):
    def jobs(tier):
        m = 12 if tier == "thorough" else 1
        base = "--group %s --supported %s" % (group, SUP)
        out = [Job("h_isa", base + " --per %d --seqs %d" % (per_q * m, seq_q * m), shards=6, prefix="isa:")]
        out.append(Job("h_isa", base + " --per %d --seqs %d" % (per_q // 2 * m, seq_q // 4 * m), config="asan", shards=2, prefix="isa:"))
        out += [Job("h_isa", base + " --layout %d --per %d --seqs %d" % (l, per_q // 5 * m, seq_q // 10 * m), config=c, prefix="isa:") for l in layouts for c in ("plain", "tail")]
        return out
    return jobs

def jobs_c02(tier):
    n = T(tier, 50000, 600000)
    return [Job("h_elf", "--cases %d" % n, shards=3, prefix="elf:"), Job("h_elf", "--cases %d" % n, config="asan", shards=4, prefix="elf:"), Job("h_elf", "--cases %d" % (n // 2), config="tail_asan", shards=1, prefix="elf:")]
check("C02", jobs=jobs_c02, eval=["accepted", "rejected", "images_compared", "runs"], distinct=["images", "layouts"], floor={"rejections": 7, "programs_completed": 1000, "many_headers": 50},
      rule="generated ELF images (1-4 segments, sections, symbols), three fifths of them damaged in the fields a loader trusts, with random memory_max, brk, stack and arena options; each judged by an independent reading; non-trivial: distinct images and distinct accepted layouts")
def jobs_c03(tier):
    n = T(tier, 400, 6000); a = "--supported %s " % SUP
    return [Job("h_mem", a + "--cases %d" % (n * 2), shards=2, prefix="mem:"), Job("h_mem", a + "--cases %d" % n, config="asan", shards=4, prefix="mem:"), Job("h_mem", a + "--cases %d" % n, config="tail_asan", shards=2, prefix="mem:"),
            Job("h_mem", a + "--large 1 --cases %d" % (n // 2), shards=2, prefix="mem:")] + [Job("h_isa", a + "--pool mem --layout %d --per 40 --seqs 600" % l, config=c, shards=1, prefix="large:") for l in (1, 2, 3, 4) for c in ("plain", "tail")]
check("C03", jobs=jobs_c03, eval=["allowed", "refused", "guest_accesses"], distinct=["guest_accesses", "outcomes"], floor={"guest_accesses": 350, "outcomes": 24, "large_arenas": 50},
      rule="host accessor calls and single guest loads/stores at addresses and lengths biased to the region boundaries and to wrapping ranges, compared with a byte-exact model; non-trivial: distinct (instruction, outcome, interpreter) and (accessor, outcome) pairs, allowed and refused counted")

ISA_RULE = "one generated instruction (or a straight-line sequence of up to 31) with random operands and state, run through every interpreter and compared with an independent reference on all architecturally defined bits; non-trivial: distinct instruction words, and the reference defines the result"
check("C04", jobs=isa_jobs("int", 150, 6000, layouts=(1, 2, 3, 4)), eval=["compared.precise", "compared.accurate", "compared.inaccurate"], distinct=["programs"], rule=ISA_RULE)
check("C05", jobs=isa_jobs("fp", 200, 6000), eval=["compared.precise", "compared.accurate", "compared.inaccurate"], distinct=["programs"], rule=ISA_RULE)
check("C06", jobs=isa_jobs("vec", 60, 6000), eval=["compared.precise", "compared.accurate", "compared.inaccurate"], distinct=["programs"], rule=ISA_RULE)

def jobs_c07(tier):
    sh = 8
    return ([Job("h_decode", "--mode agree --shards %d --rep %d --supported %s" % (sh, T(tier, 16, 128), SUP), shards=sh, prefix="decode:"),
             Job("h_decode", "--mode reject --cases %d --supported %s" % (T(tier, 40000, 400000), SUP), shards=4, prefix="decode:"),
             Job("h_decode", "--mode reject --cases %d --supported %s" % (T(tier, 4000, 40000), SUP), config="asan", shards=2, prefix="decode:")])
check("C07", jobs=jobs_c07, eval=["words", "rejections.precise", "rejections.accurate", "rejections.inaccurate"], distinct=["rejected_words", "neighbours"],
      rule="32-bit words: every 17-bit opcode prefix with random low bits, encodings of every instruction and their one-bit neighbours; non-trivial: distinct neighbours of real encodings, and distinct unassigned words executed in every interpreter")

CALLS_FLAGS = "-DGUEST -O2 -ffp-contract=off -static -nostdlib -ffreestanding -fno-builtin -Wl,-Ttext-segment=0x200000"
def jobs_c12(tier):
    g = build_guest("calls.c", CALLS_FLAGS); n = T(tier, 4000, 60000)
    return [Job("h_call", "--guest %s --cases %d" % (g, n // (1 if c in ("plain", "tail") else 4)), config=c, shards=2, prefix="call:") for c in ("plain", "tail", "asan", "tail_asan")]
check("C12", jobs=jobs_c12, eval=["nested_calls", "entry_states", "failed_calls"], distinct=["arguments", "nest_histories", "calls"], floor={"calls": 70, "nesting": 20},
      rule="calls into a compiled guest library with random arguments of every kind, by every calling API, nested to depth 6 from system calls with timeouts and faults in between; results compared with the same C source compiled natively, entry states with the calling convention, suspended state with its snapshot; non-trivial: distinct argument lists and distinct nesting histories")

def four(h, args, n, prefix, asan_args="", div=6, shards=(3, 2, 2, 1), high=()):
    def jobs(tier):
        k = T(tier, n, n * 12)
        return [Job(h, "%s %s --cases %d" % (args, asan_args if "asan" in c else "", k // (div if "asan" in c else 1)), config=c, shards=s, prefix=prefix) for c, s in zip(("plain", "tail", "asan", "tail_asan"), shards) if s] + [Job(h, "%s --high %s --cases %d" % (args, a, k // 5), config="plain", prefix=prefix) for a in high]
    return jobs
check("C13", jobs=four("h_multi", "--mode share --supported %s" % SUP, 8000, "multi:"), eval=["completed"], distinct=["interleavings", "programs"], floor={"interleavings": 1000},
      rule="sets of random programs, some crafted to collide in the checksum that keys shared code (same or other length, nearly equal text), run in machines created, sliced, evicted and destroyed in random order with and without sharing, compared with each program's reference run; non-trivial: distinct programs and distinct machine life histories")
def jobs_c14(tier):
    a = "--mode threads --supported %s --cases %%d" % SUP; k = T(tier, 3, 30)
    return [Job("h_multi", a % (200 * k), config="tsan", shards=4, prefix="multi:"), Job("h_multi", a % (1200 * k), shards=2, prefix="multi:"), Job("h_multi", a % (1200 * k), config="tail", shards=1, prefix="multi:"), Job("h_multi", a % (200 * k), config="asan", shards=1, prefix="multi:")]
check("C14", jobs=jobs_c14, eval=["completed", "parallel_runs"], distinct=["interleavings", "programs"], floor={"interleavings": 1000},
      rule="six host threads each creating, running in slices, evicting and destroying machines over the same set of programs, under ThreadSanitizer, ASan+UBSan and plain; every machine compared with its program's reference run; non-trivial: distinct programs and distinct machine life histories, most machines alive at once counted")
check("C23", jobs=four("h_sym", "", 40000, "sym:"), eval=["lookups", "names", "backtraces"], distinct=["tables"], floor={"lookup_kinds": 4, "frames": 60, "large_tables": 100},
      rule="generated symbol tables (overlapping, unsized, wrapping, duplicate and up to 10 kB long names, mangled C++ names) and random stacks; lookups, demangled names and backtraces compared with an independent reading; non-trivial: distinct symbol tables")
def jobs_c20(tier):
    g = build_guest("data.cpp", "-O2 -static -std=gnu++20 -fno-exceptions -fno-rtti -w -Wl,-Ttext-segment=0x200000", cxx=True); n = T(tier, 4000, 60000)
    return [Job("h_data", "--guest %s --cases %d" % (g, n // (1 if c in ("plain", "tail") else 4)), config=c, shards=2, prefix="data:") for c in ("plain", "tail", "asan", "tail_asan")]
check("C20", jobs=jobs_c20, eval=["heap_audits", "guest_calls", "host_operations"], distinct=["histories", "contents"], floor={"host_operations": 50, "guest_operations": 45, "constructors": 12, "allocation_failures": 20},
      rule="random histories of strings, vectors, nested vectors, structs of them and Rust strings and vectors in guest memory, changed in turn by the host views and by the guest's libstdc++; a model, the guest's own reading, an independent layout reader and the heap's block list judge after every step; non-trivial: distinct histories and distinct contents")
check("C15", jobs=four("h_heap", "--mode heap", 2500, "heap:", high=PAST), eval=["allocations", "frees", "moved", "resized_in_place", "exhausted", "invalid_frees", "meminfos"], distinct=["histories", "heap_states"], floor={"ways": 13},
      rule="random histories of malloc, calloc, realloc, free (valid, null, stale, foreign, wide) and meminfo by system call and through the patched guest functions, in arenas from 16 bytes to 48 KiB with chunk limits; a model of the live allocations and of guest memory judges each; non-trivial: distinct histories and distinct heap layouts")
check("C16", jobs=four("h_heap", "--mode str", 2500, "str:", high=PAST), eval=["calls"], distinct=["arguments"], floor={"string_calls": 40, "ways": 27, "long_operands": 1000},
      rule="accelerated string functions by system call and through the patched guest functions in the counting and non-counting interpreters, with strings that agree, overlap, and end at or beyond the edges of memory, compared with plain loops over a shadow memory; non-trivial: distinct argument lists")
check("C17", jobs=four("h_sys", "--mode mmap", 3000, "mmap:", "--filter 0", high=PAST), eval=["mmaps", "munmaps", "fixed_mmaps", "mmap_refused"], distinct=["histories", "map_layouts"], floor={"calls": 3, "memory_effects": 10},
      rule="random histories of mmap (fixed and free, with boundary and overflowing lengths), munmap and writes into live mappings; a model of the live mappings judges every returned address, zeroing, contents and refusal; non-trivial: distinct histories and distinct layouts of live mappings")
check("C18", jobs=four("h_sys", "--mode sys", 3000, "sys:", "--filter 0", high=PAST), eval=["successes", "errors", "exceptions"], distinct=["histories", "memory_effects"], floor={"calls": 70, "memory_effects": 80, "seccomp_filters": 1, "long_vectors": 20, "identities_compared": 100},
      rule="random histories of every Linux system call the emulator installs with plausible and hostile arguments; a model predicts result, guest memory effects and host output of each; a seccomp filter traps any host system call outside the expected set; non-trivial: distinct call histories and distinct (call, effect) pairs")
check("C19", jobs=four("h_thr", "", 6000, "thr:", div=4, high=PAST), eval=["calls", "context_switches", "wakeups", "threads_created"], distinct=["histories", "scheduler_states", "switches"], floor={"calls": 10, "deadlock_resumes": 100, "thread_exits": 1000, "thread_limit_hits": 100},
      rule="random histories of clone, clone3, futex, yield, exit, kill and tid calls by up to 50 guest threads; a scheduler model knows each thread's registers and waits and judges who runs next, with what state, after every call; non-trivial: distinct histories and distinct scheduler states")
check("C24", jobs=four("h_sys", "--mode stack", 20000, "stack:", "--filter 0", high=PAST), eval=["stacks"], distinct=["stacks"], floor={"memory_effects": 5, "many_strings": 100, "long_strings": 100},
      rule="random argument and environment lists (counts, lengths, bytes) placed by setup_linux and setup_argv and read back as a C runtime would; non-trivial: distinct argument and environment lists")

check("C01", jobs=four("h_host", "--supported %s" % SUP, 60000, "host:", "--filter 0", div=6, shards=(2, 2, 3, 2)), eval=["rounds", "exceptions", "stops", "repeated"], distinct=["programs", "outcomes"], floor={"exceptions": 12, "seccomp_filters": 1, "style.0": 1000, "style.1": 1000, "style.2": 1000, "style.3": 1000},
      rule="hostile ELF programs (random and malformed code, registers at the edges of memory, symbols anywhere, every system call) run in every interpreter with guard pages, sanitizers and a seccomp filter around them; read-only memory, r0, budgets and, for programs without time or randomness, a second run in a differently filled host heap are compared; non-trivial: distinct programs and distinct final states")

import fn_dis
check("C22", fn=lambda res, tier, seed, only=None: fn_dis.roundtrip(res, tier, seed, only, SUP), eval=["printed"], distinct=["roundtrips"], floor={"mnemonics_printed": 350},
      rule="instruction words of every supported mnemonic with random operands, printed and re-assembled by GNU as; non-trivial: distinct words the assembler accepted")

import fn_prog
def prog_jobs(lf, sup):
    a = "--list %s --supported %s --shards %%d --modes %%s" % (lf, sup)
    return [Job("h_prog", a % (5, "0xff"), shards=5, prefix="prog:", watchdog=120), Job("h_prog", a % (5, "0xc7"), config="tail", shards=5, prefix="prog:", watchdog=120),
            Job("h_prog", a % (24, "0x11"), config="asan", shards=3, prefix="prog:", watchdog=240), Job("h_prog", a % (24, "0x11"), config="tail_asan", shards=2, prefix="prog:", watchdog=240)]
check("C30", fn=lambda res, tier, seed, only=None: fn_prog.programs(res, tier, seed, only, SUP, jobs=prog_jobs), eval=["judged", "sections_equal", "functions_run"], distinct=["programs", "sections"], floor={"programs": 60, "flags": 20, "runs.accelerated": 50, "runs.embedded": 50, "slices": 1000},
      rule="random C programs (loops for the vectorizer, scalar expressions, aggregates by value, vector extensions, libc) and a library-heavy C++ program, compiled by GCC at random levels for the guest and natively for the oracle; every function's output and the exit code compared in every interpreter and set-up; functions needing instructions the emulator lacks are left out and counted; non-trivial: distinct guest binaries and distinct section outputs")

def jobs_c28(tier):
    g = build_guest("calls.c", CALLS_FLAGS); n = T(tier, 1000, 20000)
    return flow_jobs("--modes 5", 12000, 200, configs=("plain",), high=False)(tier) + [Job("h_call", "--guest %s --debugger 1 --cases %d" % (g, n // (1 if c == "plain" else 4)), config=c, prefix="call:") for c in ("plain", "asan")] + [Job("h_sym", "--debug 1 --cases %d" % (4 * n // (1 if c == "plain" else 4)), config=c, prefix="sym:") for c in ("plain", "asan")]
check("C28", jobs=jobs_c28, eval=["slices.debugger", "register_dumps", "trace_lines", "debugger_calls"], distinct=["programs", "calls"], floor={"traced_programs": 1000, "faults.2": 10, "resumed_after_stop": 100, "listings": 300, "mismatches": 1000},
      rule="random control-flow programs stepped by the debugger in random slices, with and without its trace; every stop, every traced line and every register dump compared with a reference run; debugger calls with 1 to 12 strings against native results; non-trivial: distinct programs")

import fn_cli
check("C27", fn=lambda res, tier, seed, only=None: fn_cli.sessions(res, tier, seed, only), eval=["runs", "fuel_runs", "hostile"], distinct=["outcomes", "refusals", "fault_kinds"], floor={"fault_kinds": 7, "fuel_enough": 100, "fuel_exhausted": 100, "statistics": 50, "refusals": 10},
      rule="random laemu command lines: programs printing, computing, allocating, exiting or faulting with hostile arguments under random options; budgets around the program's need; missing, damaged and foreign files, bad options and sizes; non-trivial: distinct outcomes, refusals and faults")

FLOW = "--supported %s " % SUP
HIGH = ("0x7ffff000", "0xfffff000", "0x1fffff000") # texts that cross or lie above 2 and 4 GiB
BIG = "--minwords 20000 --maxwords 3000000 "
def flow_jobs(mode_args, q, big_q, configs=("plain", "tail"), prefix="flow:", high=True):
    def jobs(tier):
        m = 10 if tier == "thorough" else 1; out = []
        for c in configs:
            out.append(Job("h_flow", FLOW + mode_args + " --cases %d" % (q * m), config=c, shards=4, prefix=prefix))
            out.append(Job("h_flow", FLOW + BIG + mode_args + " --cases %d" % (big_q * m), config=c, shards=2, prefix=prefix))
            if high: out += [Job("h_flow", FLOW + mode_args + " --text %s --cases %d" % (t, q // 20 * m), config=c, shards=1, prefix=prefix) for t in HIGH]
        out.append(Job("h_flow", FLOW + mode_args + " --cases %d" % (q // 5 * m), config="asan", shards=2, prefix=prefix))
        out.append(Job("h_flow", FLOW + mode_args + " --cases %d" % (q // 5 * m), config="tail_asan", shards=1, prefix=prefix))
        if tier == "thorough": out.append(Job("h_flow", FLOW + "--minwords 30000000 --maxwords 45000000 " + mode_args + " --cases 12", shards=2, prefix=prefix, watchdog=200))
        return out
    return jobs
check("C08", jobs=flow_jobs("--modes 103", 20000, 600), eval=["runs.precise", "runs.accurate", "runs.inaccurate"], distinct=["programs", "transfers"], floor={"transfers": 100, "far_jumps": 500},
      rule="random programs whose blocks end in every kind of branch, call, jump, system call and fault, in texts from 320 bytes to 12 MB, compared with an independent reference at every system call and at the end; non-trivial: distinct program texts, and distinct (transfer, direction, log2 distance) executed")
check("C09", jobs=flow_jobs("--equiv 1", 12000, 300, prefix="equiv:"), eval=["compared.accurate", "compared.inaccurate", "compared.sliced"], distinct=["equiv_programs", "end_states"],
      rule="random programs over the whole instruction set (integer, atomics, float, LSX, LASX) run in the precise, accurate, sliced and inaccurate interpreters of both dispatch builds; system-call histories, faults, registers, flags, memory, counts and final pc compared; non-trivial: distinct programs and distinct end states")
check("C10", jobs=flow_jobs("--modes 124", 12000, 300), eval=["runs.sliced", "runs.accurate", "limit_stops"], distinct=["programs"],
      rule="random programs run under random instruction budgets; at every stop the claimed count is replayed on an independent reference, which must be in exactly the machine's state; non-trivial: distinct programs, stops at a limit counted")
check("C11", jobs=flow_jobs("--modes 24", 16000, 300), eval=["slices.sliced", "slices.precise-sliced", "resumed_after_stop"], distinct=["programs"],
      rule="random programs interrupted at random points (budget, stop from a system call) and resumed until the end, compared at every interruption and at the end with an uninterrupted reference; non-trivial: distinct programs, slices and resumptions counted")

def jit_flow(tier):
    m = 12 if tier == "thorough" else 1; out = []
    for a, prefix in (("--modes 123 --jit 1 ", "flow:"), ("--equiv 1 --jit 1 ", "equiv:")):
        out.append(Job("h_flow", FLOW + a + "--cases %d" % (420 * m), config="jit", shards=4, prefix="jit:" + prefix))
        out.append(Job("h_flow", FLOW + a + "--cases %d" % (90 * m), config="jit_asan", shards=2, prefix="jit:" + prefix))
    return out + [Job("h_hook", "--cases %d" % (120 * m), config="jit", shards=4, prefix="jit:hook:")]
def jit_prog(lf, sup):
    return [Job("h_prog", "--list %s --supported %s --shards 8 --jit 12000 --modes %s" % (lf, sup, "0x67"), config="jit", shards=8, prefix="jit:prog:", watchdog=240)]
check("C29", jobs=jit_flow, fn=lambda res, tier, seed, only=None: fn_prog.programs(res, tier, seed, only, SUP, count=(6, 120), cxx=False, jobs=jit_prog), eval=["runs.accurate", "compared.accurate", "judged"], distinct=["programs", "equiv_programs", "end_states"], floor={"translated": 100, "patched": 100, "patched_between": 1000, "sections_equal": 100},
      rule="random control-flow and whole-instruction-set programs, and compiled C programs, run with translation (at once, partial, live-patched before or during the run, with and without register caching) and compared with an independent reference, the precise interpreter or native runs; non-trivial: distinct programs and end states")

check("C31", jobs=four("h_hook", "", 9000, "hook:"), eval=["known_calls", "unknown_calls", "args_read", "args_refused", "results"], distinct=["histories", "calls"], floor={"calls": 500, "signatures": 15, "results": 13, "nested_calls": 1000, "nested_machines": 1000, "thrown": 1000, "stops": 1000, "installs": 1000},
      rule="programs that make random system calls (register, immediate and break) and read the clock, with handlers that check who was called, on which machine, with which registers and pc, read their arguments by random types, answer, change registers, throw, stop, call on, reinstall handlers or run another machine; a model of the handler table and of the program predicts every call and everything the program sees afterwards; non-trivial: distinct call histories and distinct (kind, number, outcome) of calls")

# ---- C32: builds with masked memory
def jobs_c32(tier):
    n = T(tier, 250, 5000); a = "--supported %s " % SUP
    return [Job("h_mem", a + "--cases %d" % (n * m), config=c, shards=2, prefix="masked:mem:") for c, m in (("masked", 2), ("masked_tail", 1), ("masked_asan", 1))] + [Job("h_host", a + "--filter 0 --cases %d" % T(tier, 3000, 100000), config="masked_asan", shards=3, prefix="masked:host:")]
def masked_prog(lf, sup):
    a = "--list %s --supported %s --shards 6 " % (lf, sup)
    return [Job("h_prog", a + "--modes 0xff", config="masked32", shards=6, prefix="masked:prog:", watchdog=240), Job("h_prog", a + "--jit 12000 --modes 0x67", config="jit_masked32", shards=6, prefix="masked:jit:", watchdog=240)]
check("C32", jobs=jobs_c32, fn=lambda res, tier, seed, only=None: fn_prog.programs(res, tier, seed, only, SUP, count=(6, 120), cxx=False, jobs=masked_prog), eval=["wrapped", "guest_accesses", "judged"], distinct=["guest_accesses", "outcomes", "sections"], floor={"wrapped": 1000, "guest_accesses": 350, "sections_equal": 100, "small_arenas_refused": 50},
      rule="in builds with masked memory (20 and 32 bits): host accessors and guest accesses at any 64-bit address against a byte-exact model that wraps, hostile programs under AddressSanitizer between guard pages, and compiled programs against native runs, interpreted and translated; non-trivial: accesses whose address wrapped")
