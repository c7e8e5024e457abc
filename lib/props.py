"""The properties and how each is decided.  `python3 lib/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os
L = "lib/libloong/"
PROPS = []
def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, level="exploration"):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=[L + f if not f.startswith(("emulator", "docs", "lib/")) else f for f in files],
                      mech=mech, technique=technique, note=note, state=state, observe=observe, level=level))

ISA_NOTE = "Every supported mnemonic with random operand fields and boundary-biased operands, through the precise, accurate and inaccurate interpreters; operand values are sampled, not enumerated. Bits the architecture leaves undefined (upper vector halves, NaN payloads) are not compared."
prop("C01", "No guest can harm its host",
     "Whatever code, data, symbols and registers a guest brings, and whatever system calls it makes, in every interpreter and set-up: the host process has no memory error or undefined behaviour, touches nothing outside the guest's own memory, makes no host system call beyond the harmless ones the sandbox needs, and returns within the instruction budget by a stop or an exception. Read-only guest memory stays as loaded, r0 stays zero, and nothing left in host memory can influence the guest.",
     ["inputs", "programs", "configurations"], "all guest images and machine states",
     "tests run well-behaved guests; hostile machine states are unbounded",
     ["machine.cpp", "memory.cpp", "memory_inline.hpp", "cpu.cpp", "threaded_dispatch.cpp", "tailcall_dispatch.cpp", "linux/syscalls.cpp", "linux/syscalls_threads.cpp"],
     [("bounds checks", L + "memory_inline.hpp"), ("interpreters", L + "threaded_dispatch.cpp"), ("system calls", L + "linux/syscalls.cpp")],
     "sanitizer and containment monitors: ASan+UBSan builds, guard pages around guest memory, seccomp trap on host system calls, state invariants after every run, repeated runs under different host heap contents", "Hostile programs are sampled at random, not enumerated. The non-counting interpreter, which has no budget, only runs programs a counting run has shown to end.")
prop("C02", "Loading an ELF image is total and exact",
     "For any byte string and any options, creating a machine either succeeds or raises an INVALID_PROGRAM or OUT_OF_MEMORY machine exception; it never reads outside the given bytes, never writes outside the arena and never fails in another way. An image is accepted exactly when its header is a LoongArch ELF header, its program headers and segment contents lie within the file, its segments lie within memory_max, and the brk area and stack fit behind them. After acceptance guest memory holds the segments' bytes and zeros elsewhere, the readable and writable regions, entry point, heap, brk area, stack and symbols are the ones the file and options describe, code in every executable segment runs, and a donated arena stays owned by the caller.",
     ["inputs", "configurations"], "all byte strings offered as programs, all memory_max, brk, stack and arena options",
     "tests load a few well-formed compiler outputs; hostile headers, overflowing ranges, several executable segments and tight memory limits are never tried",
     ["elf_loader.cpp", "memory.cpp", "elf.hpp"],
     [("image loading", L + "elf_loader.cpp"), ("symbol tables", L + "memory.cpp"), ("execute segment creation", L + "memory.cpp")],
     "oracle over generated and damaged images: an independent reading of the same bytes predicts acceptance, memory, layout and symbols; ASan+UBSan with exactly sized buffers watch the loader", "ELF images are generated and damaged at random (field-directed), at most a few segments each; section-name damage that only moves the pre-decoded range is checked for containment, not for a specific range.")
prop("C03", "Guest memory accesses stay in bounds and move exactly the right bytes",
     "Every access to guest memory, by a guest load or store in any interpreter or by a host accessor (read, write, copies, memset, memcmp, string and array views), succeeds exactly when the whole range lies in the readable region (or writable region for stores), whatever the address and length, and then reads or writes exactly the addressed bytes. Otherwise it raises a protection fault, changes no guest memory, and never touches host memory outside the arena. Scalar accesses that straddle the very end of memory may complete in the arena's padding or fault.",
     ["inputs", "programs"], "all addresses, lengths (including overflowing ones), access widths, instructions and host accessors",
     "tests probe one or two bad addresses; ranges that wrap, end exactly at a boundary or start just below it are not tried",
     ["memory.hpp", "memory_inline.hpp", "memory_rw.cpp", "memory.cpp", "la_instr_impl.hpp", "bytecode_impl.cpp"],
     [("range checks", L + "memory.hpp"), ("scalar accesses", L + "memory_inline.hpp"), ("bulk accesses", L + "memory_rw.cpp"), ("strings", L + "memory.cpp")],
     "boundary monitor: every accessor and every load/store instruction at boundary-biased addresses against a byte-exact model of guest memory in an exactly sized heap arena under ASan", "Addresses and lengths are boundary-biased samples. Masked-memory builds, where addresses wrap by design, are not covered.",
     state=[("m_rodata_start, m_data_start, m_arena_size", "limits of the readable and writable regions")])
prop("C04", "Integer, bit-manipulation and atomic instructions compute the LoongArch result",
     "Every supported integer, bit-manipulation, load/store and atomic instruction writes exactly the registers and guest memory the LoongArch manual specifies, with the specified value, for every operand and register combination. Register zero always reads as zero, and no operand values can trap or crash the host.",
     ["inputs", "programs"], "all operand values, register combinations (including the same register in several roles and register zero) and immediates of all supported integer instructions, alone and in straight-line sequences",
     "unit tests check a handful of values per instruction; boundary values, aliased registers, register zero and rarely used immediates are never tried",
     ["la_instr_impl.hpp", "bytecode_impl.cpp", "threaded_rewriter.cpp", "la_instr_atomic.hpp"],
     [("instruction handlers", L + "la_instr_impl.hpp"), ("fast-path bytecodes", L + "bytecode_impl.cpp"), ("operand rewriting", L + "threaded_rewriter.cpp")],
     "differential monitor: generated instructions and sequences run in the real interpreters (also under ASan+UBSan), an independent reference model judges every register and memory byte after each", ISA_NOTE)
prop("C05", "Scalar floating point follows LoongArch and IEEE-754",
     "Every supported scalar floating-point instruction (arithmetic, fused multiply-add, conversion, comparison, classification, move, select, load and store) yields the architecturally specified value or condition flag for every operand, including NaN, infinity, subnormal, signed zero and out-of-range conversions.",
     ["inputs", "programs"], "all operand values of all supported scalar floating-point instructions",
     "unit tests use ordinary finite operands; rounding, NaN handling, saturation and signed-zero cases are hardly reached",
     ["la_instr_impl.hpp", "bytecode_impl.cpp", "registers.hpp"],
     [("floating-point handlers", L + "la_instr_impl.hpp"), ("fast-path bytecodes", L + "bytecode_impl.cpp")],
     "differential monitor against an independent IEEE-754/LoongArch reference over boundary-biased operands, all interpreters, plain and ASan+UBSan builds", ISA_NOTE + " Exception flags in fcsr and non-default rounding modes are not modelled by the emulator and not compared.")
prop("C06", "LSX and LASX instructions compute every lane as specified",
     "Every supported 128-bit and 256-bit vector instruction computes each lane of its result as the LoongArch vector manual specifies and never touches lanes, registers or memory outside its destination.",
     ["inputs", "programs"], "all lane values, register combinations and immediates of all supported vector instructions",
     "unit tests cover few of the vector instructions and a single operand pattern each",
     ["la_instr_impl.hpp", "bytecode_impl.cpp", "registers.hpp"],
     [("vector handlers", L + "la_instr_impl.hpp"), ("vector bytecodes", L + "bytecode_impl.cpp")],
     "differential monitor against an independent lane-by-lane reference, all interpreters, plain and ASan+UBSan builds", ISA_NOTE)
prop("C07", "Decoding recognises exactly the supported encodings",
     "Every encoding of a supported instruction is decoded as that instruction with all its operand bits, and as no other. Every word that is not an encoding of a supported instruction raises an illegal or unimplemented instruction exception when executed and changes no register or memory.",
     ["inputs", "configurations"], "all 2^32 instruction words, in every interpreter",
     "tests only decode instructions that compilers emit; a too-wide opcode mask is invisible to them",
     ["la64.cpp", "decoder_cache.cpp", "la_instr.hpp"],
     [("decoder", L + "la64.cpp"), ("bytecode selection", L + "decoder_cache.cpp")],
     "oracle over decoded words: every opcode prefix and every one-bit neighbour of every encoding compared with an independent encoding table, rejected words executed in every interpreter with state monitored",
     "All 17-bit prefixes are visited with several random suffixes each rather than all 2^32 words.")
FLOW_NOTE = "Programs are generated (up to 12 MB of text in the quick tier, 180 MB in the thorough one); binary translation is not built (libtcc is absent)."
prop("C08", "Branches, calls and jumps reach exactly the encoded target",
     "Every branch, call, indirect jump, system call and fault transfers control to exactly the architecturally specified address, over the whole range each encoding can express, however large the program's blocks and text are. Link registers receive the address of the following instruction, and a target outside the program or misaligned raises the corresponding exception instead of executing anything else.",
     ["programs", "configurations"], "all programs, all branch kinds and distances up to the limits of their encodings, all block lengths, every interpreter and dispatch build",
     "compiled test programs only contain short branches and small blocks",
     ["bytecode_impl.cpp", "threaded_rewriter.cpp", "decoder_cache.cpp", "threaded_dispatch.cpp", "tailcall_dispatch.cpp", "cpu.cpp"],
     [("branch bytecodes", L + "bytecode_impl.cpp"), ("branch rewriting", L + "threaded_rewriter.cpp"), ("block formation", L + "decoder_cache.cpp")],
     "trace monitor: system-call histories (address, number, all registers) and final states of generated control-flow programs judged by an independent reference run", FLOW_NOTE)
prop("C09", "All interpreters and dispatch builds behave identically",
     "A program behaves the same in the stepping, the instruction-counting, the sliced and the non-counting interpreter and in both dispatch builds: same system calls with same registers, same memory, same faults, same final state, same instruction count where instructions are counted.",
     ["programs", "configurations"], "all programs over the whole supported instruction set, all interpreters and dispatch builds; programs using the emulator's own stop instruction are excluded",
     "the test suite runs one build in one mode and never compares modes",
     ["threaded_dispatch.cpp", "threaded_inaccurate_dispatch.cpp", "tailcall_dispatch.cpp", "tailcall_inaccurate_dispatch.cpp", "cpu.cpp", "bytecode_impl.cpp"],
     [("threaded dispatch", L + "threaded_dispatch.cpp"), ("tailcall dispatch", L + "tailcall_dispatch.cpp"), ("stepping", L + "cpu.cpp")],
     "cross-mode differential monitor over generated programs: histories and end states recorded in one interpreter judge all the others", FLOW_NOTE + " Programs that leave their text are compared among the interpreters running from decoded text only: the stepping interpreter decodes from any readable memory.")
prop("C10", "Instruction budgets are enforced and counted exactly",
     "A run with an instruction budget always returns, stops at the first taken control transfer at or after the budget, and reports a count equal to the number of instructions it really executed. Hitting the budget is reported as a timeout and never as a normal stop, and vice versa.",
     ["programs", "histories", "configurations"], "all programs, all budgets, all stop causes, every counting interpreter and dispatch build",
     "tests run to completion or check one endless loop with one limit",
     ["threaded_dispatch.cpp", "tailcall_dispatch.cpp", "decoder_cache.cpp", "instruction_counter.hpp", "machine.hpp", "machine_inline.hpp"],
     [("limit checks", L + "threaded_dispatch.cpp"), ("block instruction counts", L + "decoded_exec_segment.hpp"), ("counter handling", L + "instruction_counter.hpp")],
     "trace monitor: at each stop the claimed count is replayed instruction by instruction on the reference and every register, memory byte and the stop reason are compared", FLOW_NOTE)
prop("C11", "Interrupting and resuming a run is invisible to the program",
     "However often a run is interrupted, by its instruction budget or by a stop request from a system call, and resumed, the program performs the same system calls and ends in the same state as if it had run uninterrupted. At each interruption the visible program counter and registers are those between two instructions.",
     ["programs", "histories"], "all programs and all sequences of interruption points",
     "tests never resume a machine they stopped at an arbitrary point",
     ["threaded_dispatch.cpp", "tailcall_dispatch.cpp", "machine_inline.hpp", "cpu.cpp"],
     [("dispatch entry and exit", L + "threaded_dispatch.cpp"), ("counter handling", L + "instruction_counter.hpp")],
     "trace monitor: sliced runs compared with an uninterrupted reference at every interruption and at the end", FLOW_NOTE)
prop("C12", "Host-to-guest calls follow the C ABI and nest safely",
     "A guest function called from the host (vmcall, timed_vmcall, preempt) sees exactly the arguments passed, of whatever number and type, as the LoongArch C calling convention places them, and its result reaches the host unchanged. Strings and structs passed by value live on the guest stack inside the stack area. A preempt call made while the guest is suspended in a system call leaves the suspended program's registers, stack contents, program counter and instruction budget as they were (apart from its return value in A0), whether the call returns, faults or times out, to any nesting depth; a call that exceeds its budget is reported as a timeout.",
     ["inputs", "histories"], "all argument lists up to 20 arguments, all nestings of calls and failures (when register saving is requested)",
     "tests call a few functions with one to three small positive arguments",
     ["machine_vmcall.hpp", "machine_inline.hpp", "machine.hpp"],
     [("argument set-up", L + "machine_vmcall.hpp"), ("stack push", L + "machine_inline.hpp")],
     "differential monitor: the same C functions compiled natively judge results; the guest records its own entry state; a snapshot taken around every nested call judges what the suspended program kept", "Structs are passed by pointer by this API and the guest functions take pointers. Guest function bodies are fixed; arguments, nestings and limits are random.")
prop("C13", "Sharing decoded code between machines is invisible",
     "Whether machines share decoded execute segments, and whatever other programs (including programs with the same load address and checksum, or almost the same text) are loaded, were loaded before or failed to load, a machine executes exactly its own program: same system calls, results and instruction counts as if it were alone and unshared. Evicting code or destroying a machine affects no other machine.",
     ["histories", "programs", "configurations"], "all sets of programs and all orders of creating, running, evicting and destroying machines",
     "tests create a couple of machines with the same program",
     ["shared_exec_segment.hpp", "shared_exec_segment.cpp", "memory.cpp", "decoder_cache.cpp", "util/crc32c.cpp"],
     [("segment cache", L + "shared_exec_segment.cpp"), ("segment creation and eviction", L + "memory.cpp")],
     "history monitor: machines with colliding, equal and different programs interleaved; each compared with its program's independent reference run; ASan+UBSan builds watch lifetimes", "Accelerated-function patching writes into shared code by design (documented) and is excluded. Unused segments are never removed from the global cache; memory growth is not claimed.",
     state=[("SharedExecuteSegments::m_segments", "decoded code by address and checksum")])
prop("C14", "Machines in different host threads are independent and race-free",
     "Machines created, run and destroyed concurrently in different host threads, sharing decoded code or not, never race on shared state, never corrupt each other, and each behaves exactly as when run alone. (One machine is used by one thread at a time; system call handlers are installed beforehand.)",
     ["schedules", "programs"], "all interleavings of machine creation, execution, eviction and destruction in any number of threads",
     "tests are single-threaded",
     ["decoder_cache.cpp", "decoder_cache.hpp", "shared_exec_segment.cpp", "memory.cpp", "machine.cpp", "cpu.cpp"],
     [("segment cache locking", L + "shared_exec_segment.cpp"), ("handler registration", L + "decoder_cache.cpp")],
     "ThreadSanitizer and ASan+UBSan over stress workloads; an independent reference run of each program judges every machine's history and final state", "Schedules are those the host produces under stress with random slices and yields; not enumerated.",
     state=[("DecoderData::m_handlers", "table of instruction handlers shared by all machines"), ("SharedExecuteSegments::m_segments", "decoded code shared by machines")])
prop("C23", "Symbol lookups and backtraces report the right names for any program",
     "For every symbol table and address: address_of returns the address of a symbol of exactly that name or zero; looking up an address gives a symbol containing it if there is one, otherwise the closest symbol below it, or nothing; the demangled form is the C++ demangling with the offset. A backtrace lists the address and the return addresses found in ra and on the stack, each with its name, complete for names of any length, without reading outside guest memory.",
     ["inputs"], "all symbol tables, names, addresses and stacks",
     "tests look up main and a few functions in well-formed binaries",
     ["memory.cpp", "machine_backtrace.cpp"],
     [("symbol lookup", L + "memory.cpp"), ("backtrace", L + "machine_backtrace.cpp")],
     "oracle monitor: an independent reading of the generated symbol table predicts every lookup, demangled name and backtrace line; ASan+UBSan builds watch buffers", "Among several symbols containing the address any one is accepted.")
prop("C15", "The native heap hands out disjoint live blocks and keeps their contents",
     "For every history of malloc, calloc, realloc, free and meminfo on the accelerated heap, whether made by system call or through the guest's own patched functions: every returned block lies inside the heap area, is 16-byte aligned relative to it, is at least as long as requested and overlaps no other live block; calloc zeroes it, realloc keeps the common prefix, free and null behave as in C. A request is refused only when no free range fits; freeing or resizing anything that is not a live block is rejected and changes nothing; used and free bytes always add up to the area. Nothing but the named blocks changes in guest memory, and callee-saved registers are kept.",
     ["histories", "inputs"], "all histories of heap calls with all sizes and pointers",
     "tests make a short fixed sequence of allocations",
     ["native/heap.hpp", "machine_accelerate.cpp"],
     [("allocator", L + "native/heap.hpp"), ("heap system calls and patching", L + "machine_accelerate.cpp")],
     "history monitor: a model of live blocks and a shadow of guest memory judge each call; conservation of heap bytes checked after every call; ASan+UBSan builds as well", "Allocation is compared with availability (a fitting free range exists), not with a placement policy. The configured chunk limit may raise an exception.",
     state=[("m_base_chunk list", "chunks of the heap area in address order")])
prop("C16", "Accelerated string functions behave like their C counterparts",
     "The host implementations of memcpy, memmove, memset, memcmp, memchr, strlen, strnlen, strcmp and strncmp return what the C functions return, write exactly the bytes they write (memmove and memcpy under any overlap), keep all callee-saved registers, return to the caller, and fault, without any effect, exactly when the C function would have to touch memory the guest may not access.",
     ["inputs", "configurations"], "all pointers, lengths and string contents, by system call and through patched guest functions",
     "tests call a few of them on short well-formed strings",
     ["machine_accelerate.cpp", "memory.cpp", "memory_inline.hpp"],
     [("accelerated functions", L + "machine_accelerate.cpp"), ("patching", L + "machine_accelerate.cpp")],
     "differential monitor: plain byte loops over a shadow of guest memory judge result, memory and faults of each call; ASan+UBSan builds with the arena as watched heap memory", "Ordering functions are compared by sign. Patched functions are only accelerated in the decoded interpreters, as documented.")
prop("C20", "Host and guest agree on shared C++ and Rust containers",
     "A std::string, std::vector, nested vector, struct of them, or Rust String or Vec that lives in guest memory always has the contents the last writer gave it, whether host or guest wrote it: the host's views return exactly the text and elements the guest sees, the guest's own library finds every host-built object well formed (local and heap strings, NUL termination, pointers, capacity) and can go on changing it. Every block such an object uses is a live heap block owned by exactly one object, nothing stays allocated once the objects are gone, an index out of range raises an exception, and a full heap raises one and leaves valid objects.",
     ["histories", "inputs"], "all histories of container operations by host and guest on all contents and heap sizes",
     "tests check a few host-built strings and vectors, without tracking heap ownership or guest-shaped objects",
     ["guest_datatypes.hpp", "native/heap.hpp", "machine_vmcall.hpp"],
     [("containers", L + "guest_datatypes.hpp"), ("argument passing", L + "machine_vmcall.hpp")],
     "history monitor: model contents, the guest's compiled libstdc++ as a second reader, an independent layout reader, and heap ownership (owned blocks = live blocks) judged after every step; ASan+UBSan builds as well", "The guest must allocate from the accelerated heap. Copying a view is shallow by design, so histories transfer ownership. No Rust guest toolchain exists here: the harness itself plays the Rust guest, with the layout rustc uses.")
prop("C17", "Guest memory mappings are disjoint, zeroed and inside memory",
     "For every history of mmap and munmap calls, a successful mapping is page aligned, lies inside the mmap area of guest memory, overlaps no other live mapping unless the program fixed its address, and reads as zeros. Contents of live mappings change only through the program's own writes. Requests that cannot be met (lengths that overflow, do not fit or are zero, addresses outside memory) are refused with an error and change nothing.",
     ["histories", "inputs"], "all histories of mapping calls with all lengths, addresses and flags",
     "tests map a region or two; reuse after munmap, rounding, exhaustion and overflowing lengths are not tried",
     ["linux/syscalls.cpp", "memory.hpp", "memory.cpp"],
     [("mapping system calls", L + "linux/syscalls.cpp"), ("mapping area", L + "memory.hpp")],
     "history monitor: a model of live mappings checks every result, the zeroing and the whole guest memory after every call; ASan builds as well", "The emulator does not reclaim holes in general; reuse is allowed but not required.")
prop("C18", "Linux system calls do what the LoongArch Linux ABI says, and only that",
     "Every Linux system call the emulator installs returns the documented result or a negative error number, writes exactly the guest bytes the call defines at the LoongArch layout, changes no other guest memory or callee-preserved register, emits exactly the bytes the program asked to write, and reaches no host resource beyond clocks, random numbers and the output stream. Bad pointers, descriptors and sizes produce an error or a machine exception, never a host fault or partial corruption.",
     ["inputs", "histories"], "all system calls with all argument values, in all orders",
     "tests run programs that make a few well-formed calls",
     ["linux/syscalls.cpp", "posix/signals.cpp", "machine.cpp"],
     [("system call handlers", L + "linux/syscalls.cpp"), ("signals", L + "posix/signals.cpp")],
     "history monitor: a model of each call judges results, memory effects and output over random call histories, while a seccomp filter traps any unexpected host system call; ASan+UBSan builds as well", "Signal handlers that return (rt_sigreturn) are not supported by the emulator and not claimed. Values of clocks and random numbers are checked for range, not exact value.")
prop("C19", "Guest threads are scheduled, woken and ended exactly as requested",
     "Whichever guest thread runs after a thread-related system call is a live thread that is allowed to run, with exactly the registers (integer, vector, flags, pc) it had when it gave up the processor plus the call's documented result. A futex wait blocks exactly when the word holds the expected value; a wake releases exactly the requested number of matching waiters in arrival order; ending a thread clears its clear-tid word, wakes its joiner and never lets it run again; a signal enters its handler in the thread it was sent to (waiting or not, on that thread's alternate stack), does nothing if ignored and ends the thread if unhandled; thread ids are never reused, runnable threads are not starved, and no call changes other guest memory.",
     ["schedules", "histories"], "all histories of clone, clone3, futex, sched_yield, exit, tgkill, sigaction, sigaltstack, set_robust_list and set_tid_address by any number of threads up to the limit of 50, and of yields and unblocks ordered by the host",
     "tests run one small threaded program in one order",
     ["posix/threads.cpp", "posix/threads.hpp", "linux/syscalls_threads.cpp"],
     [("scheduler", L + "posix/threads.cpp"), ("thread system calls", L + "linux/syscalls_threads.cpp")],
     "trace-specification monitor: an online scheduler model judges who runs next and its complete state after each call of random histories", "Futex timeouts are ignored by the emulator (documented) and not claimed. When every thread waits the main thread is resumed, as documented; the monitor accepts a waiting thread only then.")
prop("C24", "The initial stack hands the program its arguments and environment intact",
     "For every argument and environment list that fits the stack, a started program finds a 16-byte aligned stack pointer, argc, argv, environment and auxiliary vector in the layout of the Linux process ABI, with every string intact and NUL terminated, inside the stack area, and nothing else of guest memory changed.",
     ["inputs", "configurations"], "all argument and environment lists that fit the stack area",
     "tests pass a single program name",
     ["machine.cpp", "machine_inline.hpp"],
     [("stack set-up", L + "machine.cpp")],
     "oracle monitor: the stack of each generated configuration is read back as a C runtime reads it and compared byte for byte; ASan builds as well", "Lists larger than the stack area are outside the property.")
prop("C22", "Printed instructions re-assemble to the same word",
     "The textual form of every supported instruction is valid assembly that denotes exactly that instruction: a standard LoongArch assembler turns it back into the same word.",
     ["inputs"], "all words of all supported mnemonics",
     "tests check a few printed strings by substring",
     ["la_instr_printers.hpp", "cpu.cpp"],
     [("instruction printers", L + "la_instr_printers.hpp")],
     "round-trip monitor: printed text of random words assembled by GNU as and compared bit for bit", "Words are sampled per mnemonic; branch targets and a few forms the assembler cannot express are compared after a documented syntax mapping.")

prop("C30", "Compiled programs behave as they do natively",
     "A program built by a standard LoongArch toolchain prints the same output and ends with the same exit code as the same source built for the host, in every interpreter, split into any slices, with shared or private code, with accelerated heap and string functions or its own, in an arena of the library or of the caller; and it executes the same number of instructions each time. A program that needs an instruction the emulator does not have gets an exception naming it.",
     ["programs", "configurations", "schedules"], "all programs built for the supported instruction set; all ways to run them",
     "tests run a handful of small programs with hand-written expectations",
     ["cpu.cpp", "threaded_dispatch.cpp", "tailcall_dispatch.cpp", "linux/syscalls.cpp", "machine_accelerate.cpp"],
     [("interpreters", L + "threaded_dispatch.cpp"), ("accelerated functions", L + "machine_accelerate.cpp"), ("Linux system calls", L + "linux/syscalls.cpp")],
     "differential monitor: generated C programs and a C++ program run natively (two host compilers must agree) and in eight emulator set-ups of plain, tail-call and sanitizer builds; outputs, exit codes and instruction counts compared function by function", "Programs and compiler options are sampled. Functions that need unimplemented instructions are left out and counted; C++ exceptions and iostreams of this toolchain need such instructions.")

prop("C27", "The command-line emulator reports what the program did",
     "For every program, argument list and combination of options, laemu hands the program exactly the arguments behind its path, prints exactly the program's output (followed, unless silent, by one line with its exit code and, under a budget, its instruction count), and ends with the program's exit status; a faulting, aborting or over-budget program gives status 255 with the reason, a usage error or unreadable file status 1 with a message. No file, option or size makes it crash or hang, the same program needs the same number of instructions in every mode, and the bytecode statistics add up.",
     ["inputs", "configurations"], "all programs, files, argument lists and option combinations of the command line",
     "no test runs the command line program",
     ["machine_bytecode_stats.cpp", "linux/syscalls_threads.cpp"],
     [("command line", "emulator/src/main.cpp"), ("bytecode statistics", L + "machine_bytecode_stats.cpp")],
     "differential monitor: random command-line sessions of plain and sanitizer builds of laemu; output and status compared with the same guest source run natively, budgets with the program's own count, damaged files and impossible options with the documented refusals", "Sessions are sampled; the text of verbose traces is not judged beyond the argument list.")

prop("C28", "Debugging a program does not change it",
     "A program stepped by the debugger (DebugMachine), in any slices, with or without its instruction and register trace, executes exactly what it executes otherwise: same registers, memory, system calls, faults, stops and instruction counts; it stops at the budget and reports it. The trace has one line per executed instruction, in order, with its address, symbol and text, and each register dump shows the registers at that point. A debugger call passes any number of string arguments as the C calling convention places them and returns the function's result, whatever ran before it. Comparing the program with an object dump reports exactly the instructions whose text differs, and changes nothing.",
     ["programs", "histories"], "all programs, slicings, trace options and argument lists",
     "no test uses the debugger",
     ["debug.cpp", "cpu.cpp"],
     [("stepping and trace", L + "debug.cpp"), ("single step", L + "cpu.cpp")],
     "online checker: programs stepped by the real debugger in random slices, its printed trace and every stop judged against an independent reference run; debugger calls compared with the same C functions run natively", "The external objdump is replaced by generated listings; the comparison made while tracing is not judged.")

prop("C29", "Binary translation agrees with the interpreters",
     "A program run through the just-in-time binary translator behaves as in the interpreters: same registers, memory, system calls, faults (type and place), stops and exit; instructions are counted the same and a budget ends loops. It does not matter how much of the program is translated, whether registers are cached, or whether the translation is applied at once, before the run or from another thread while the program runs.",
     ["programs", "configurations", "schedules"], "all programs, with translation enabled",
     "the translator is disabled in the tested build",
     ["tr_emit.cpp", "tr_translate.cpp", "tr_compiler.cpp", "tr_api.cpp"],
     [("code emission", L + "tr_emit.cpp"), ("live patching", L + "tr_compiler.cpp")],
     "online checker: random programs run by the real translator and its generated code, compared with an independent reference, the precise interpreter and native runs; translations applied by a concurrent thread; AddressSanitizer and UBSan in the host code", "LibTCC is not installed: the generated C is compiled by GCC behind a stand-in for its interface (shim/), with TinyCC's predefines and no unwind tables. The options that give up checks (unchecked or masked memory, ignored limits) and translation in tail-call builds, which the code leaves unimplemented, are not judged.")
prop("C31", "A guest's system calls reach exactly the handlers the host installed",
     "Every system call a guest makes runs exactly once the handler installed last for its number, whenever it was installed, or the handler for unknown calls with that number (by default an UNIMPLEMENTED_SYSCALL exception naming it), on the machine that made it (with its user pointer), seeing exactly the guest's registers with pc at the call. Reading arguments by type gives exactly the values the C calling convention puts in the registers and guest memory, or a protection fault for memory outside the guest. The guest continues behind the call (an immediate call continues at its return address) with exactly the registers the handler left and the result it set; an exception a handler throws reaches the host unchanged with pc at the call, a stop request ends the run behind it, and neither loses the guest's state. A handler may call other handlers, change the table or run other machines without disturbing its own. rdtime.d asks the host's clock once.",
     ["inputs", "histories", "configurations"], "all call numbers, registers, argument types, handler actions and handler tables; all interpreters",
     "tests install one or two handlers and call them once with one or two arguments",
     ["machine_inline.hpp", "machine.cpp", "threaded_dispatch.cpp", "threaded_inaccurate_dispatch.cpp", "tailcall_dispatch.cpp", "la_instr_impl.hpp"],
     [("dispatch and arguments", L + "machine_inline.hpp"), ("handler table", L + "machine.cpp"), ("call instructions", L + "threaded_dispatch.cpp")],
     "online checker: a model of the handler table and of the calling program judges every handler invocation, typed argument, result, exception and stop as it happens, in all interpreters of plain, tail-call and sanitizer builds", "Numbers are the low 32 bits of a7 (the library's convention). Numbers of calls a handler makes itself to a missing handler are not judged (the stub reports a7); 16-byte alignment of 128-bit arguments to even registers is not modelled.")
prop("C32", "Masked-memory builds confine every guest access by wrapping its address",
     "In a library built with LA_MASKED_MEMORY_BITS=N (interpreted or translated), a guest load, store, atomic or instruction fetch at any 64-bit address reads or writes exactly the bytes at that address modulo 2^N and never faults or touches anything outside the arena; host range accessors and system calls keep refusing ranges outside it. A hostile guest can do no harm, and a program that stays inside the arena behaves exactly as in an ordinary build.",
     ["inputs", "programs", "configurations"], "all addresses, access widths, programs and arena sizes",
     "the tested build has no masked memory",
     ["memory_inline.hpp", "memory.hpp", "memory.cpp", "tr_emit.cpp"],
     [("masked scalar accesses", L + "memory_inline.hpp"), ("arena set-up", L + "memory.cpp"), ("masked translated accesses", L + "tr_emit.cpp")],
     "boundary and differential monitors over masked builds: a byte-exact wrapping model judges every access, hostile programs run between guard pages under AddressSanitizer, compiled programs are compared with native runs", "Arena sizes of 2^20 and 2^32 bytes. A vector or multi-byte access that begins below the end of the arena may reach into the slack behind it (documented over-allocation).")

NOT_APPLICABLE = []
PROPS_NA = []

def main():
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(v + "/properties.jsonl", "w") as f:
        for p in sorted(PROPS + PROPS_NA, key=lambda p: p["pid"]):
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]: a["state"] = [dict(name=n, meaning=w) for n, w in p["state"]]
            f.write(json.dumps(dict(id=p["pid"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="python3 -c \"import subprocess as s; s.run(['clang++','--version'],check=True); s.run(['cmake','--version'],check=True); s.run(['ninja','--version'],check=True)\"",
             checks=[dict(property=p["pid"], quick_cmd="./check %s quick" % p["pid"], thorough_cmd="./check %s thorough" % p["pid"], evidence_file="evidence/%s.json" % p["pid"],
                          technique=p["technique"], level=p["level"], level_note=p["note"]) for p in sorted(PROPS, key=lambda p: p["pid"])],
             not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE])
    with open(v + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
if __name__ == "__main__": main()
