#!/usr/bin/env python3
"""Writes properties.jsonl (kept here because the statements are long)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})
T = "The 1110 tests assemble one instruction each with the library and look at one word of the result; "
prop("C01", "Exit status 0 means the complete image is in the output file",
 "Whenever the command-line assembler ends with status 0, the output file named on its command line holds exactly the image of the input program, byte for byte: nothing is missing, nothing is added, nothing of an earlier file is left. This holds whatever happens to its writes: writes that take only part of the data, interrupted calls, a disk that is full at any byte, I/O errors while writing, and errors that are reported only when the file is closed.",
 ["fault_sequences", "inputs"], "every program, every previous content of the output, every sequence of results the operating system may give to the calls on the output",
 T + "the executable is never run, and no write ever fails.",
 ["src/command_line.cpp"], [("stream exceptions and explicit close", "src/command_line.cpp main"), ("one write of the whole image", "src/command_line.cpp main")],
 ["exit status", "contents of the output file"])
prop("C02", "The image is that of the whole input file",
 "Whenever the command-line assembler ends with status 0, the image it wrote is that of the complete contents of one version of the input file: never that of a part of it, of a mixture of two versions, or of bytes that were not in it. This holds when reads are short, interrupted or fail at any byte, when the input cannot be sought, when it is empty or of any size, and when it is atomically replaced while the tool runs. An input that contains null characters (a block that was lost on disk reads as zeros) is rejected as a whole, it never silently ends the program.",
 ["fault_sequences", "inputs"], "every program, every sequence of results of the calls on the input, every instant of replacement",
 T + "the file reader is never run.",
 ["src/command_line.cpp", "src/nxas.cpp"], [("read loop with error check", "src/command_line.cpp read_file"), ("null characters rejected", "src/nxas.cpp assemble")],
 ["exit status", "contents of the output file against the contents of the input file"])
prop("C03", "Files are untouched unless a valid program is being written",
 "A run that is refused (unusable command line, unreadable input, rejected source, memory exhausted while reading or assembling) or killed before it has opened its output leaves every file exactly as it was and creates none. At every later instant, and after a kill or a failure at any instant, the output file holds either its old contents or a prefix of the new image. No other file is ever modified or removed, and a run that ends by itself leaves no other new file behind.",
 ["crash_points", "fault_sequences", "inputs"], "every program (valid or not), command line, fault sequence and kill point, including output names that alias the input",
 T + "no file is ever written by them.",
 ["src/command_line.cpp", "src/error.cpp"], [("read, assemble, then open the output", "src/command_line.cpp main")],
 ["directory contents after every system call"])
prop("C04", "Every failure ends in a failing status and an error message",
 "Whatever call on a file fails, and whenever, the command-line assembler ends by itself within a bounded number of calls with an exit status, never by a signal, an uncaught exception or a failed assertion. If it did not put the image into the output file, the status is not 0 and it has said so on the standard error stream (when that stream can be written). A message about a file that could not be opened or read names that file.",
 ["fault_sequences", "inputs", "configurations"], "every program, command line, kind of file named, and every sequence of failing calls on input, output and stderr",
 T + "no failing call is ever made.",
 ["src/command_line.cpp", "src/error.cpp", "src/error.h"], [("fatal_error", "src/error.cpp"), ("checks after open, read and write", "src/command_line.cpp")],
 ["wait status", "stderr"])
prop("C05", "Harmless irregularities of the system never fail a valid run",
 "A valid program is assembled, with status 0 and the right output, also when the system only behaves irregularly: reads and writes that return fewer bytes than asked, in any pattern down to single bytes, calls interrupted by signals (EINTR on read or write), an input that cannot be sought or has no known size. The number of calls stays bounded by the number of pieces the system chose.",
 ["fault_sequences", "inputs"], "every valid program and every pattern of short or interrupted calls",
 T + "file access is not exercised.",
 ["src/command_line.cpp"], [("stream buffers that retry", "src/command_line.cpp")], ["exit status", "output", "number of calls"])
prop("C06", "Running again after a crash or failure gives the right output",
 "After a run that was killed at any instant (including in the middle of a write) or failed for any reason, running the same command again without faults succeeds and leaves exactly the output a first run would have left. No remains of the earlier run (longer old contents, half-written output, stray files) can change the result.",
 ["crash_points", "fault_sequences", "histories"], "every program, every kill point or failure of the first run",
 T + "no run is ever interrupted or repeated.",
 ["src/command_line.cpp"], [("output opened with truncation, no other persistent state", "src/command_line.cpp main")], ["second exit status", "output"])
prop("C07", "Parallel runs of the tool do not influence each other",
 "Processes of the command-line assembler that run at the same time in one directory on different outputs each end exactly as if they had run alone: same status, same output, same diagnostic. This holds for every interleaving of their system calls, when they share an input, and when some of them are killed or fail. Runs of the same program to the same output leave that program's image there when all of them succeed.",
 ["schedules", "crash_points", "fault_sequences"], "every interleaving of the calls of several processes with faults on some of them",
 T + "no two runs of the tool ever overlap.",
 ["src/command_line.cpp"], [("no shared temporary names", "src/command_line.cpp")], ["statuses, outputs and messages of all processes"])
prop("C08", "Concurrent library calls are independent",
 "Calls of the library's assemble function made at the same time from several threads do not influence each other: under every interleaving each call returns the image, or prints the diagnostic, that the same source gives when assembled alone, and no data race occurs. When the source of one thread is rejected, the process ends with a failing status and that source's complete diagnostic, without crashing, whatever the other threads are doing.",
 ["schedules", "inputs"], "every set of sources assembled concurrently and every interleaving of the threads' memory accesses",
 "All tests are single-threaded, one process per instruction.",
 ["src/context.cpp", "src/parse.cpp", "src/nxas.cpp", "src/table.h", "src/operand.h", "src/options.cpp", "src/dksh.cpp", "src/error.cpp"],
 [("all state in a context local to the call", "src/context.h"), ("immutable instruction table", "src/table.h")], ["returned images", "stderr", "wait status", "memory accesses"])
prop("C09", "The result depends on the source alone, not on history or environment",
 "Assembling a source gives the same image, or the same diagnostic and failing exit, no matter what the process assembled before and how often, what recycled heap and stack memory contains, at which addresses memory lies, what earlier calls left in errno, which C locale is in force, and what the clock, the process number and the environment variables are. In particular no label, option, scheduling setting or partially matched instruction of an earlier source ever shows in a later result.",
 ["histories", "configurations", "inputs"], "every history of earlier calls, every content of fresh memory, every memory layout and locale",
 "Each test is a fresh process that assembles one instruction in one memory state and the C locale.",
 ["src/nxas.cpp", "src/context.cpp", "src/parse.cpp", "src/options.cpp", "src/dksh.cpp", "src/operand.h", "src/opcode.h"],
 [("fresh context per call", "src/nxas.cpp assemble"), ("value-initialised opcode and options", "src/opcode.h, src/context.h")], ["returned images", "diagnostics"])
prop("C10", "Running out of memory never gives a wrong result or a leak",
 "If any allocation fails during an assembly, the call either still returns the right image or ends with an out-of-memory exception (or, for a source that is rejected anyway, its diagnostic); it never returns a wrong image, crashes, or hangs. What the call had allocated is released and later calls in the process are unaffected. The command-line assembler out of memory never ends with status 0 unless the right output is in place, and leaves the files untouched if it had not begun to write.",
 ["fault_sequences", "histories", "inputs"], "every program and every position (and combination) of failing allocations",
 "No allocation ever fails in the tests.",
 ["src/nxas.cpp", "src/context.cpp", "src/parse.cpp", "src/dksh.cpp", "src/write.cpp", "src/command_line.cpp"],
 [("ownership by containers only", "src/")], ["returned images, exceptions, allocator balance", "exit status and output of the tool"])
prop("C11", "A damaged source ends in an image or a diagnostic, never a crash or hang",
 "However the stored source text was damaged (cut off at any byte, bits or bytes changed, blocks lost, repeated, swapped or zeroed, and of any length), assembling it ends within a number of steps that is bounded by a low polynomial in its length, either with an image or with exit status 1 and an error message on the standard error stream. A position named by the message lies inside the source. It never reads outside the source text or its own tables, crashes, fails an assertion, throws or hangs.",
 ["fault_sequences", "inputs"], "every program and every sequence of damages to the stored bytes",
 T + "sources are intact except for a few dozen rejected instructions.",
 ["src/context.cpp", "src/parse.cpp", "src/token.cpp", "src/operand.h", "src/options.cpp", "src/helper.cpp", "src/table.h", "src/error.cpp"],
 [("null-terminated tables", "src/table.h, src/helper.cpp"), ("tokenizer stops at the end of the text", "src/context.cpp"), ("error positions", "src/error.cpp")], ["exit status", "stderr", "memory accesses", "executed steps"])
N = "A handful of operand values per instruction is sampled; "
prop("C12", "Every instruction encodes to the right machine word",
 "Each accepted instruction is encoded to the 64-bit word the Maxwell instruction set defines for its mnemonic, modifiers, predicate and operands.",
 ["inputs"], "every combination of modifiers and operand values", N + "the space of operands is far larger.", ["src/table.h", "src/operand.h", "src/opcode.h"], [("instruction table", "src/table.h")], ["returned words"])
prop("C13", "Operands that do not fit are rejected",
 "An operand value that the encoding cannot represent (register, immediate, constant buffer offset, shift, barrier) is rejected, never truncated into another instruction's bits.",
 ["inputs"], "every operand value", N + "boundaries are checked for a few.", ["src/operand.h", "src/helper.cpp"], [("range checks", "src/operand.h")], ["diagnostic or word"])
prop("C14", "Labels and branches reach the instruction they name",
 "Every branch to a label encodes the displacement that leads to the instruction following that label, forwards and backwards, over any distance the field can hold.",
 ["programs"], "every program with labels", T + "programs of several instructions are not tested.", ["src/context.cpp", "src/operand.h", "src/nxas.cpp"], [("label resolution", "src/context.cpp")], ["returned words"])
prop("C15", "Bundles carry each instruction's scheduling exactly once",
 "Instructions appear in source order, three to a bundle after one control word that carries the scheduling annotations of exactly these three, and padding completes the last bundle.",
 ["programs"], "every program", T + "the control word is not looked at.", ["src/nxas.cpp", "src/parse.cpp"], [("bundling", "src/nxas.cpp")], ["returned words"])
prop("C16", "The DKSH container describes the code it holds",
 "The header fields of a DKSH image (sizes, offsets, entry point, register count, workgroup and memory sizes, alignment) agree with the options and the code it contains.",
 ["programs", "configurations"], "every combination of options and programs", "The container is not tested.", ["src/dksh.cpp", "src/options.cpp"], [("header construction", "src/dksh.cpp")], ["returned image"])
prop("C17", "Literals are converted exactly",
 "Integer, single, half and double precision literals in any accepted notation become the bit pattern of the value written, correctly rounded or truncated as the field demands.",
 ["inputs"], "every literal", N + "few literals are sampled.", ["src/context.cpp", "src/helper.cpp", "src/fp16.h"], [("conversion", "src/context.cpp")], ["returned words"])
prop("C18", "Rejected sources are blamed at the offending token",
 "The diagnostic for a rejected source names the line, column and text of the token that makes it invalid, chosen among the candidate encodings that matched furthest.",
 ["inputs"], "every invalid source", T + "only whether it is rejected is tested.", ["src/parse.cpp", "src/error.cpp"], [("furthest failure", "src/parse.cpp")], ["stderr"])
prop("C19", "Memory in proportion to the source and a small fixed stack suffice",
 "Assembling needs an amount of heap that is bounded by a fixed amount plus a fixed multiple of the size of the source (1 MiB and 300 bytes per byte of source are always enough), and a stack that does not depend on the source (128 KiB, as threads often have, are enough), however often an instruction, label, token or directive occurs in it. With no more than that a call gives exactly the image or diagnostic it gives with ample memory, and the command-line assembler (4 MiB and 300 bytes per byte, 256 KiB of stack) the same output and status. What a call returned apart, what a call keeps for later ones is bounded by the largest source so far (512 KiB and 32 bytes per byte of it), however many sources were assembled.",
 ["inputs", "histories", "fault_sequences"], "every source and every history of earlier sources, on a system that refuses more memory than stated",
 T + "each is a few bytes long, and no limit is ever set.",
 ["src/nxas.cpp", "src/context.cpp", "src/parse.cpp", "src/write.cpp", "src/dksh.cpp", "src/command_line.cpp"],
 [("one saved context at a time", "src/parse.cpp parse_instruction"), ("loop over skipped labels, no recursion", "src/context.cpp tokenize"), ("one vector of instructions", "src/nxas.cpp assemble")],
 ["returned images", "diagnostics", "allocator"])
prop("C20", "The tool's result depends on its command line and input file alone",
 "What the command-line assembler does (exit status, contents of the output file, messages) is decided by its arguments and the contents of the input file. It is the same whatever environment variables are set (the locale's included), whether standard input is empty, closed or holds something, whether standard output is open, whether the standard streams are terminals, under which name the program is called, whatever the file creation mask, other open descriptors, the clock, the process number, the user, the parent process, the host and the size of machine and terminal are, whatever the output file held before and how old it is, and whatever other files exist. The same holds when a call on the input or output fails.",
 ["configurations", "inputs", "fault_sequences"], "every command line, input file and surrounding of the process",
 T + "the executable is never run.",
 ["src/command_line.cpp", "src/error.cpp", "src/context.cpp"],
 [("only arguments and the named files are consulted", "src/command_line.cpp"), ("no locale is set and literals are converted without one", "src/context.cpp")],
 ["exit status", "output", "stderr and stdout"])
prop("C21", "A library call leaves its caller's process as it found it",
 "Whatever the source, and whether the call returns an image or leaves with an out-of-memory exception raised by any of its allocations, afterwards the caller finds everything of its own unchanged: the source string and the file name, the C, thread and C++ locales, the rounding mode and floating-point traps, signal handlers and mask, environment variables, working directory, file creation mask, open descriptors, threads, timers, resource limits, the new and terminate handlers, the formatting state of the standard streams, and the positions of rand() and strtok(). Nothing is ever written to standard output, and nothing to standard error unless the source is rejected. A rejected source ends the process in the ordinary way: the caller's exit handlers run, and output it had not yet flushed is written.",
 ["inputs", "fault_sequences", "histories"], "every source, state of the calling process and position of failing allocations",
 T + "nothing but the returned words is looked at, and no allocation ever fails.",
 ["src/nxas.cpp", "src/nxas.h", "src/parse.cpp", "src/context.cpp", "src/error.cpp", "src/error.h", "src/helper.cpp", "src/dksh.cpp", "src/write.cpp"],
 [("the source is only ever read", "src/nxas.cpp assemble, src/context.cpp"), ("rejection is an ordinary exit", "src/error.cpp fatal_error"), ("no process-wide setting is touched", "src/context.cpp")],
 ["process state before and after each call", "stdout and stderr", "exit handlers"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
