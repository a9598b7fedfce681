#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it after editing (python3 tools/spec.py)."""
import importlib, json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]
sys.dont_write_bytecode = True
L = "libCrashDebug/src/"
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, observe, technique, note):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note))


EXE_NOTE = ("Runs the real program (ASan+UBSan) over its real stdin/stdout against an independent oracle; random but seeded, "
            "so it samples the quantifier. Trusts the Python oracle and file writers (lib/) and the stand-in for the absent mri "
            "submodule (stubs/mri_core.c). ")
DRV_NOTE = ("Runs the real code in process (ASan+UBSan, part of it MSan) step by step beside a Python model; random but seeded, "
            "so it samples the quantifier. Trusts the model. ")

P("C01", "GDB reads exactly the image's bytes at the image's load addresses",
  "For every valid 32-bit little-endian executable ELF file, the file bytes of every loadable segment can be read by GDB, unchanged, at the segment's physical address; entries that are not loadable, hold no bytes in the file, or are smaller in memory than in the file contribute nothing. For every raw binary with base address B, byte i of the file is served at B+i. Image memory reaches exactly as far as the image's bytes, at any base up to the top of the 32-bit address space.",
  ["inputs"], "all valid ELF / raw images: any number, size, order, alignment and placement of segments; any read size and order",
  "unit tests load three hand-made ELF blobs and one 2-byte binary, and read back single words",
  [L + "ElfLoad.c", L + "CrashDebugCommandLine.c", L + "MemorySim.c"],
  [("ELF segment loading", L + "ElfLoad.c loadFlashLoadableEntries"), ("raw binary loading", L + "CrashDebugCommandLine.c loadBinFile"),
   ("byte store", L + "MemorySim.c MemorySim_LoadFromFlashImage")],
  ["memory-read replies to GDB"], "runtime monitoring: differential oracle over RSP sessions of the sanitized program",
  EXE_NOTE + "Segments of one image are kept disjoint.")

P("C02", "A CrashCatcher dump's registers and RAM reach GDB unchanged",
  "For every valid CrashCatcher dump, whether binary or hexadecimal text (any line lengths, CR/LF line ends, letter case), version 2 or 3, with or without floating point, GDB sees each register the dump holds with the dump's value and each RAM byte of each region at its address. Nothing is shifted, swapped, dropped or invented: memory outside the regions stays unmapped, msp and psp, which version 2 lacks, read as the placeholder 0xBAADBAAD, and the binary and hexadecimal forms of one dump give the same session.",
  ["inputs"], "all valid dumps: flags, register values, number, size, alignment and placement of regions, text layout",
  "unit tests use a handful of fixed dumps with one or two regions and one text layout",
  [L + "CrashCatcherDump.c"],
  [("dump reader", L + "CrashCatcherDump.c readDump"), ("hex decoder", L + "CrashCatcherDump.c hexRead"),
   ("format detection", L + "CrashDebugCommandLine.c getFileType")],
  ["register and memory replies to GDB"], "runtime monitoring: differential oracle over RSP sessions of the sanitized program",
  EXE_NOTE)

P("C03", "A GDB log's registers and RAM reach GDB unchanged",
  "For every GDB log made with the documented commands (x/4wx memory lines with or without symbols, info all-registers), GDB sees each register and each RAM word with the value the log shows, at the address the log shows, and no RAM besides that. Unrelated text in between is ignored, words printed on a short line are all kept and no others invented, FPU registers are offered exactly when the log has them, and msp and psp read as the placeholder 0xBAADBAAD when the log lacks them.",
  ["inputs"], "all logs GDB's documented dump commands produce: symbol text, line ends, line lengths, block order, register layouts, addresses up to the top of memory",
  "unit tests parse a few fixed lines; symbols, short lines, order of blocks and addresses vary without bound",
  [L + "GdbLogParser.c"],
  [("two-pass line parser", L + "GdbLogParser.c GdbLogParse"), ("line splitting", L + "GdbLogParser.c parseMemoryLine"),
   ("register lines", L + "GdbLogParser.c isRegisterLine")],
  ["register and memory replies to GDB"], "runtime monitoring: differential oracle over RSP sessions of the sanitized program",
  EXE_NOTE + "Log lines stay below 1000 characters, addresses are word aligned.")

P("C04", "A write changes exactly its bytes of RAM; image memory never changes",
  "A successful GDB write at any size and alignment changes exactly the bytes it names, and every later read of them returns "
  "what was written while all other bytes keep their values. No GDB request changes a byte of image (FLASH) memory: writes "
  "there are refused with an error and the bytes stay as loaded. A write that runs past the end of writable memory is refused "
  "with an error and changes nothing outside the range it names.",
  ["histories", "inputs"], "all memory layouts and all histories of reads and writes at any size, alignment and address",
  "unit tests write single values to one or two regions; interference needs histories over many layouts",
  [L + "MemorySim.c", L + "mriPlatform.c"],
  [("access check", L + "MemorySim.c getDataPointer"), ("read-only marking", L + "MemorySim.c MemorySim_MakeRegionReadOnly")],
  ["write replies and later memory reads"], "runtime monitoring: model-checked command histories over RSP, full read-back",
  EXE_NOTE)

P("C05", "Access to unmapped memory is an error reply and nothing else",
  "Whenever GDB reads or writes an address that neither the image, the dump nor an alias provides, it gets an error reply (a read that starts in mapped memory and runs out of it gives the bytes up to there, a write keeps what it stored up to there), never made-up data. The session goes on afterwards as if the failed access had not been asked for: the next valid request succeeds, and no other memory or register has changed.",
  ["histories", "inputs"], "all addresses and sizes (1-byte to packet-size, aligned or not) next to and away from mapped memory, in all histories",
  "unit tests probe a few addresses once each; stale fault state shows only across histories",
  [L + "MemorySim.c", L + "mriPlatform.c"],
  [("fault on unmapped access", L + "MemorySim.c getDataPointer"), ("fault flag", L + "mriPlatform.c Platform_WasMemoryFaultEncountered")],
  ["read/write replies"], "runtime monitoring: model-checked command histories over RSP",
  EXE_NOTE)

P("C06", "No input file can make the program misbehave at memory level, hang or crash",
  "For arbitrary image and dump files, including damaged and malicious ones, the program performs no out-of-bounds, "
  "use-after-free or uninitialised access and no undefined arithmetic. It always ends its start-up in bounded time in one of "
  "two ways: it refuses with an error message, the usage text and a failure status, or it serves a session in which every GDB "
  "request is answered. It never modifies the input files.",
  ["inputs"], "all byte strings as image and dump files",
  "unit tests feed well-formed files and about a dozen malformed ones, without sanitizers",
  [L + "ElfLoad.c", L + "CrashCatcherDump.c", L + "GdbLogParser.c", L + "CrashDebugCommandLine.c", L + "MemorySim.c"],
  [("bounds checks", L + "ElfLoad.c fetchSizedByteArray"), ("file loading", L + "CrashDebugCommandLine.c loadFileData"),
   ("line buffer", L + "GdbLogParser.c GdbLogParse")],
  ["sanitizer reports, exit status, stderr/stdout text, session liveness"],
  "sanitizers (ASan, UBSan, MSan) under mutation fuzzing, with exit-protocol and liveness monitors",
  EXE_NOTE + "Single allocations above 96 MB fail in the bench; alignment UBSan is off.")

P("C07", "Truncated or inconsistent inputs are refused, never served in part",
  "An image or dump that is truncated inside a header or inside promised data, has an invalid header or signature, refers "
  "outside its file (also by 32-bit wrap-around), contains an invalid or half hex byte, carries the stack-overflow marker, or "
  "whose contents do not fit memory is refused before any byte is sent to GDB. The refusal prints an error message saying "
  "what is wrong, prints the usage text, and exits with a failure status.",
  ["inputs"], "all positions and kinds of damage in every input format",
  "unit tests cut a few files at a few places; the positions and header values are unbounded",
  [L + "CrashCatcherDump.c", L + "ElfLoad.c", L + "GdbLogParser.c", L + "CrashDebugCommandLine.c"],
  [("header validation", L + "ElfLoad.c validateElfHeaderContents"), ("signature and flags", L + "CrashCatcherDump.c validateDumpSignature"),
   ("region reading", L + "CrashCatcherDump.c readNextMemoryRegion"), ("hex digits", L + "CrashCatcherDump.c nibbleDigitToVal")],
  ["exit status, messages, bytes sent to GDB"], "runtime monitoring: fault-injected inputs with known verdicts against the sanitized program",
  EXE_NOTE + "A dump file without CrashCatcher's signature is a GDB log by design.")

P("C08", "Failed allocations and file operations end in a clean refusal",
  "If any single memory allocation or file open, seek, tell or read fails while the inputs are being loaded, the program refuses to start with an error line, the usage text and a failure status, rather than crashing, hanging or serving a session with part of the inputs. Every file it opened is closed exactly once and every allocation released.",
  ["fault_sequences", "inputs"], "all inputs and every position of a failing allocation or file operation in their start-up",
  "unit tests fail a few hand-picked calls; each new input shape has its own call sequence",
  [L + "CrashDebugCommandLine.c", L + "CrashCatcherDump.c", L + "GdbLogParser.c", L + "MemorySim.c", "libcommon/src/common.c"],
  [("exception propagation and clean-up", L + "CrashDebugCommandLine.c CrashDebugCommandLine_Init"),
   ("region clean-up", L + "MemorySim.c MemorySim_CreateRegion")],
  ["exit status, messages, allocation and open-file accounting"],
  "runtime fault injection at every libc call of the start-up, with resource accounting and sanitizers",
  EXE_NOTE + "Every call position is enumerated up to 12 calls per kind, sampled above. A read error in a GDB log is a listed known finding.")

P("C09", "Byte delivery timing never changes the conversation; end of input ends it",
  "The bytes the program sends to GDB depend only on the bytes GDB sent, not on how they were cut into pieces, delayed, or "
  "how slowly replies are read; all 256 byte values pass through unchanged. When the connection ends at any point, or reading "
  "or writing fails, the program stops by itself with a failure status, having sent only a prefix of what it would have sent.",
  ["schedules", "fault_sequences", "inputs"], "all ways of cutting, delaying and ending the input stream; failure of any read or write",
  "unit tests replace the console by mocks, so no timing, partial delivery or end of input is ever exercised",
  [L + "StandardIComm.c", "main/MockDefaults.c", "main/main.c"],
  [("stdin/stdout access", "main/MockDefaults.c Console_ReadStdIn"), ("connection object", L + "StandardIComm.c receiveChar")],
  ["bytes on stdout, exit status"], "runtime monitoring with injected delays, fragmentation, I/O faults; replay comparison",
  EXE_NOTE + "EINTR is not injected; commands are sent in lock-step.")

P("C10", "The session is post-mortem: only GDB's own writes change state",
  "Continue, step, breakpoints, watchpoints, queries, malformed packets and refused writes never change the registers or memory GDB sees; only a successful memory or register write does. Continue and step, also with an address or signal, stop again at once and report the same crash at the same pc.",
  ["histories"], "all histories of GDB commands on all dumps",
  "unit tests issue single commands on a tiny world; state leaks show only over histories",
  [L + "mriPlatform.c", L + "MemorySim.c"],
  [("run loop", L + "mriPlatform.c mriPlatform_Run"), ("stop report", L + "mriPlatform.c Platform_WriteTResponseRegistersToBuffer")],
  ["all registers and memory after each history, stop replies"], "runtime monitoring: model-checked command histories over RSP",
  EXE_NOTE)

P("C11", "The stop reason GDB is given matches the exception in the dump",
  "At connection and after every resume the stop report names the signal of the exception the dump records: HardFault and MemManage segmentation violation, BusFault bus error, UsageFault illegal instruction, NMI interrupt, DebugMonitor trap, and stop for Thread mode and every other exception. It carries the current r12, sp, lr and pc, and depends on no other register, on no memory and not on the dump's format.",
  ["inputs", "histories"], "all 512 exception numbers, register values, dump formats, and ways of asking",
  "unit tests check each cause once with one dump; other PSR bits and histories vary",
  [L + "mriPlatform.c"],
  [("cause mapping", L + "mriPlatform.c Platform_DetermineCauseOfException")],
  ["T packets"], "runtime monitoring: exhaustive over exception numbers, random otherwise, over RSP sessions",
  EXE_NOTE + "Signals 7 and 19 are Linux's, not GDB's: two listed known findings.")

P("C12", "Fault explanations on GDB's console match the fault status registers",
  "After a HardFault, MemManage, BusFault or UsageFault, the text sent to GDB's console at a resume names exactly the causes whose bits are set in the fault status registers found in the dump's memory, with each status register's value, and the fault addresses only when flagged valid and present; other exceptions show nothing, and the MPU/bus/usage details of a HardFault are shown when it was forced. When these registers are not in the dump nothing is invented. Showing the text leaves memory, registers and the outcome of later requests untouched.",
  ["inputs", "histories"], "all values of the fault status registers, present or missing, for every exception",
  "unit tests set single bits for one layout; combinations, missing registers and repeated display vary",
  [L + "mriPlatform.c"],
  [("fault display", L + "mriPlatform.c Platform_DisplayFaultCauseToGdbConsole")],
  ["console output packets at resume"], "runtime monitoring: independent ARMv7-M fault decoder over RSP sessions",
  EXE_NOTE)

P("C13", "Register transfer agrees with the target description",
  "Laying out the register block by the target description the program itself offers gives every register the dump's value "
  "under that register's own name, including msp, psp and, exactly when the dump has them, the FPU registers. Registers GDB "
  "writes read back as written, in the register block and in stop reports, and the description is the same however it is "
  "fetched. A register block of the wrong length does not disturb the session.",
  ["inputs", "histories"], "all register values, dump formats, chunk sizes of the description, and histories of register writes",
  "unit tests compare fixed strings; layout against description, chunking and histories are not covered",
  [L + "mriPlatform.c", "include/CrashCatcherDump.h"],
  [("context transfer", L + "mriPlatform.c Platform_CopyContextToBuffer"), ("description", L + "mriPlatform.c Platform_GetTargetXml")],
  ["g/G/qXfer replies"], "runtime monitoring: description-driven decoding over RSP sessions, ASan/UBSan/MSan",
  EXE_NOTE)

P("C14", "The memory map GDB is given describes exactly the accessible memory",
  "The memory map covers exactly the bytes GDB can read, marking as ram exactly those it can write and as flash the rest, for "
  "any number of regions and aliases. It is well-formed and identical however often, in whatever pieces and at whatever point "
  "of the session it is fetched.",
  ["inputs", "histories"], "all sets of regions and aliases, chunk sizes, and histories of fetches",
  "unit tests compare the text for one to three regions fetched once",
  [L + "MemorySim.c", L + "mriPlatform.c"],
  [("map text", L + "MemorySim.c MemorySim_GetMemoryMapXML")],
  ["qXfer memory-map replies, reads and writes at every edge"], "runtime monitoring: map against observed accessibility over RSP sessions",
  EXE_NOTE)

P("C15", "An alias is a second view of the same bytes",
  "After an alias of [R, R+S) at A is defined, GDB access to A+i is access to R+i for every i below S that stays in the region "
  "R is in: reads agree, a write through either shows in both, and writes to an alias of image memory are refused. This "
  "holds for aliases of aliases, for any number of aliases, and an alias whose target is not mapped is refused at start-up.",
  ["configurations", "histories"], "all alias sets (target, offset, size, nesting) and histories of accesses through any of the views",
  "unit tests define one alias of the start of a region",
  [L + "MemorySim.c", L + "CrashDebugCommandLine.c"],
  [("alias creation", L + "MemorySim.c MemorySim_CreateAlias"), ("address translation", L + "MemorySim.c findMatchingRegion")],
  ["reads and writes through each view"], "runtime monitoring: shared byte-array model over RSP sessions",
  EXE_NOTE)

P("C16", "The command line is understood exactly as documented",
  "For every order and letter case of the documented options, with numbers in decimal, hex or octal, the session serves the image, dump and aliases the arguments name. Every command line that misses a required option or an option's value, or contains a word that is neither a documented option nor its value, is refused with a message, the usage text and a failure status, without any byte to GDB.",
  ["inputs", "configurations"], "all orders, spellings and defects of command lines",
  "unit tests try about twenty fixed command lines with mocked loading",
  [L + "CrashDebugCommandLine.c", "main/main.c"],
  [("argument parsing", L + "CrashDebugCommandLine.c parseArgument"), ("required options", L + "CrashDebugCommandLine.c throwIfRequiredArgumentNotSpecified")],
  ["session contents or refusal"], "runtime monitoring: generated command lines with known verdicts against the sanitized program",
  EXE_NOTE + "Repeated options, --elf together with --bin and non-numeric numbers are unspecified.")

P("C17", "The memory simulator is a faithful store under every operation history",
  "After any history of creating regions and aliases, marking read-only, loading images and accessing bytes, halfwords and "
  "words, every read returns the last value stored at that address and every operation that is not allowed (unmapped, "
  "misfit, read-only, failed allocation) raises the documented error and changes nothing. Host pointers handed out stay "
  "valid and see the same bytes until the simulator is released, which frees every allocation exactly once.",
  ["histories", "fault_sequences"], "all histories of the simulator's operations, with any allocation failing",
  "unit tests run one to four operations on one or two regions",
  [L + "MemorySim.c", "include/MemorySim.h"],
  [("store", L + "MemorySim.c getDataPointer"), ("regions", L + "MemorySim.c MemorySim_CreateRegion"),
   ("release", L + "MemorySim.c MemorySim_Uninit")],
  ["API results, exceptions, allocation counts"], "runtime monitoring: stateful model-based testing under ASan/UBSan/MSan with allocation faults",
  DRV_NOTE + "Regions do not overlap.")

P("C18", "Simulator breakpoints, watchpoints and read counts follow their definition",
  "A read, write or execute access raises a debug event exactly when a currently set watchpoint or breakpoint of a matching type covers it, whatever the order, duplicates and number of sets and clears, and the query for a hit watchpoint answers yes once after a hit. Setting or clearing a point outside mapped memory is refused, and clearing one that is not set changes nothing. The simulator's count of reads of a read-only byte equals the number of successful reads of it.",
  ["histories", "fault_sequences"], "all histories of set, clear and access over all kinds, ranges and alignments, with allocation failures",
  "unit tests set at most three points in fixed orders",
  [L + "MemorySim.c"],
  [("sorted point list", L + "MemorySim.c findMatchingOrHigherWatchpoint"), ("match", L + "MemorySim.c accessInRange"),
   ("read counts", L + "MemorySim.c getDataPointer")],
  ["API results, exceptions, counts"], "runtime monitoring: stateful model-based testing under ASan/UBSan with allocation faults",
  DRV_NOTE)

P("C19", "Exceptions reach the nearest handler with their code and message",
  "A thrown exception, from any call depth, reaches the innermost enclosing guarded block's handler with its code and its message text (the first 1023 characters); blocks that complete normally run no handler, and after a handler clears the exception execution goes on normally. Rethrowing passes the same code and text outwards, a new throw from a handler whose exception is still pending passes on the higher code, and the chain of handlers is exact after every block. An exception with no handler ends the process instead of continuing.",
  ["programs"], "all nestings and sequences of guarded blocks, throws, rethrows and clears; messages of any length",
  "unit tests cover seven small fixed nestings",
  ["include/try_catch.h", "libcommon/src/try_catch.c"],
  [("handler chain and jump", "include/try_catch.h __try/__catch/__throw")],
  ["marks, codes, messages, handler chain"], "runtime monitoring: random guarded programs beside a reference interpreter, ASan/UBSan",
  DRV_NOTE)

P("C20", "Allocation failure injection fails exactly the chosen allocation",
  "After a failure of the n-th allocation is armed, exactly that allocation or reallocation from then on returns failure, leaves the old "
  "block untouched, and all others behave as the C library's; n = 0 fails none. Restoring, or arming again, forgets what was armed, at any point.",
  ["histories"], "all histories of arming, restoring, allocating, reallocating and freeing",
  "unit tests fail the first or second allocation, and restore, once each",
  ["libmocks/src/MallocFailureInject.c"],
  [("countdown", "libmocks/src/MallocFailureInject.c shouldThisAllocationBeFailed")],
  ["results and block contents"], "runtime monitoring: stateful model-based testing under ASan/UBSan/MSan", DRV_NOTE)

P("C21", "The print spy records exactly what was printed",
  "While hooked, each print call's formatted text, cut to the buffer size, is recorded instead of printed and can be retrieved from its stream's accessors as the n-th last call (n up to 4), the call count is the number of calls since hooking, and each call returns the length of its full text. Unhooking restores real printing and frees the records, and hooking again starts afresh.",
  ["histories", "inputs"], "all histories of hook, unhook and prints; all text lengths against buffer sizes",
  "unit tests print one to four fixed lines around one buffer size",
  ["libmocks/src/printfSpy.c"],
  [("capture", "libmocks/src/printfSpy.c mock_common"), ("ring of outputs", "libmocks/src/printfSpy.c _prevIndex")],
  ["accessors, return values, real streams"], "runtime monitoring: stateful model-based testing under ASan/UBSan/MSan", DRV_NOTE)

P("C22", "File failure injection affects exactly the armed calls",
  "While a failure is armed for a file operation, exactly the calls it names (all of them, or after the chosen number of calls) return the "
  "chosen failure, and every other operation does what the C library does to the file. Restoring an operation makes it real again at "
  "once, whatever was armed, used up or re-armed before.",
  ["histories"], "all histories of arming, restoring and using each file operation",
  "unit tests arm and restore each operation once, alone",
  ["libmocks/src/FileFailureInject.c"],
  [("hooks", "libmocks/src/FileFailureInject.c mock_fseek / mock_fread / mock_fgets")],
  ["results, data, file positions"], "runtime monitoring: stateful model-based testing on real files under ASan/UBSan/MSan", DRV_NOTE)

P("C23", "The file size query is exact, rewinds the file, and never guesses",
  "The size query returns the file's size in bytes for a file of any size, wherever the file was positioned before, and leaves the file positioned at its start. If any of the seeks or tells it needs fails, it reports a file error instead of a number.",
  ["inputs", "fault_sequences"], "all file sizes, positions and failures of the operations used",
  "unit tests use one file and fail each call once",
  ["libcommon/src/common.c"],
  [("size query", "libcommon/src/common.c GetFileSize")],
  ["value, exception, position"], "runtime monitoring: model-based testing with injected seek/tell failures under ASan/UBSan/MSan", DRV_NOTE)

P("C24", "Loading, failing and unloading any number of times leaves nothing behind",
  "In one process, any sequence of loads (successful or refused, also by failing allocations or file operations), sessions and unloads gives each load a world made only of its own inputs. After each refused load or unload all memory and files acquired since are released.",
  ["histories", "fault_sequences"], "all sequences of loads and unloads with all inputs, command lines and faults",
  "unit tests start each case from fresh state, so nothing carried over can show",
  [L + "CrashDebugCommandLine.c", L + "MemorySim.c", L + "mriPlatform.c"],
  [("init / uninit", L + "CrashDebugCommandLine.c CrashDebugCommandLine_Uninit"), ("singleton reset", L + "MemorySim.c MemorySim_Init"),
   ("session state", L + "mriPlatform.c mriPlatform_Init")],
  ["registers, memory, allocation and open-file counts after each step"],
  "runtime monitoring: lifecycle histories with fault injection and resource accounting, ASan/UBSan", DRV_NOTE)

P("C25", "The console connection is an exact, order-preserving byte channel",
  "Every byte arriving on standard input is delivered once, in order, with its value; receiving waits for one, and the has-data query never waits and says yes exactly when a receive would not wait (no, harmlessly, when polling fails). Every byte sent appears on standard output once, in order and at once, and a failing read or write, or end of input, raises a file error. GDB counts as connected from the first byte waiting or received until re-initialisation, and the connection never asks the run to stop.",
  ["histories", "schedules", "fault_sequences"], "all histories of arrivals, calls and faults",
  "unit tests mock the console; the real stdin/stdout code has no test",
  [L + "StandardIComm.c", "main/MockDefaults.c"],
  [("connection object", L + "StandardIComm.c StandardIComm_Init"), ("console", "main/MockDefaults.c Console_HasStdInDataToRead")],
  ["bytes at both ends, results, exceptions"], "runtime monitoring: byte-stream model over real pipes with fault injection, ASan/UBSan", DRV_NOTE)

P("C26", "The target interface answers any sequence of monitor calls from the dump",
  "For every loaded dump and every sequence of calls a debug monitor can make to the target interface, not only those one monitor makes: each memory access reads or changes exactly what the memory holds; the memory-fault indication is set exactly when an access failed since it was last read, and reading it clears it; register blocks and stop registers are the dump's with the monitor's own replacements and never overrun the buffer given; cause and fault text follow the dump; both XML documents have their stated sizes; the packet buffer can take a full register write; and breakpoint, watchpoint, stepping, program-counter, instruction-type, interrupt and semihosting calls report nothing and change nothing, even with pc at a breakpoint instruction. None of these calls throws.",
  ["histories", "inputs"], "all dumps and all sequences of target-interface calls, at any address and size, with any buffer size",
  "unit tests drive the interface through a few fixed GDB packets; calls the monitor seldom makes, and their order, are not exercised",
  [L + "mriPlatform.c", L + "MemorySim.c"],
  [("memory access and fault indication", L + "mriPlatform.c Platform_MemRead32"), ("register blocks", L + "mriPlatform.c Platform_CopyContextToBuffer"),
   ("inert execution control", L + "mriPlatform.c Platform_TypeOfCurrentInstruction")],
  ["return values, buffers, console bytes, registers and memory after each call"],
  "runtime monitoring: random call histories in process beside a model, ASan/UBSan", DRV_NOTE)


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, builds = [], []
    for p in PROPS:
        m = importlib.import_module(p["id"].lower())
        for b in m.BUILDS:
            if b not in builds:
                builds.append(b)
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": m.LEVEL, "level_note": p["note"].strip()})
    man = {"version": 1, "setup_cmd": "python3 lib/build.py " + " ".join(builds), "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything is observed from outside or through link-time wrappers. See DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
