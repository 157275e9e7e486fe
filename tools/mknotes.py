B = "Seeded search, not exhaustive: assurance is limited to the generated projects, histories, schedules and faults (counted in the evidence). "
R = "The package runs unmodified; only the operating-system calls, locks, clock, entropy and streams around it are simulated. "
F = "fault_enumeration"
NOTES = {
 "C01": ("deterministic simulation: seeded operation histories with injected I/O faults, differential oracle against the same operation in a pristine forked process",
         B + "The reference is the same code in a fresh process, so a defect present there as well is outside this property."),
 "C02": ("deterministic simulation: real threads under a seeded scheduler that owns every switch (random, priority-based and guided preemption), differential oracle against running alone, deadlock and process-state invariants",
         B + R + "Switches happen between source lines, at file operations and at lock operations, not inside one line or inside extension modules."),
 "C03": ("deterministic simulation with fault injection: generated hostile archives unpacked under a monitor of every file operation (audit hook), post-state scan for links and special files",
         B + R + "Runs partly as an unprivileged user; escaped calls are refused by the monitor before they reach anything real."),
 "C04": ("deterministic simulation with fault injection: errors and interrupts at recorded operations and source lines, invariant over the temporary folder",
         B + R + "Faults and interrupts strike before the removal of the folder begins.", F),
 "C05": ("deterministic simulation with fault injection at recorded operations on the main input; oracle: documented error or the fault-free output",
         B + R + "Folders and archives contain one top-level document.", F),
 "C06": ("deterministic simulation with fault injection at recorded operations on secondary files; oracle: output of the same project with the failed file absent or empty",
         B + R + "Every secondary file is referenced once; reference outputs come from the same code without faults.", F),
 "C07": ("deterministic simulation of the environment: listing orders, clocks, foreign interpreters (hash seed, locale, optimisation), locations and spellings; oracle: equal output",
         B + R),
 "C08": ("deterministic simulation: packaging variants with short reads and writes injected; oracle: equal output to the plain main file",
         B + R + "Projects have one top-level document."),
 "C09": ("deterministic simulation with fault injection at every operation of a save, retries; oracle: bytes on disk against the serialisation",
         B + R, F),
 "C10": ("deterministic simulation: seeded histories over held results with faults; oracle: first serialisation of each result",
         B + R),
 "C11": ("deterministic simulation: interrupts delivered at chosen source lines and file operations, differential oracle of everything done afterwards against a fresh process",
         B + R + "Interrupts arrive between source lines of the package or out of a file operation.", F),
 "C12": ("deterministic simulation: seeded include graphs with links, special and unreadable files; oracle: reference expansion, deterministic work budget, blocking calls detected",
         B + R + "Work is counted in function entries and loop iterations, relative to the expanded text."),
 "C13": ("deterministic simulation with fault injection: file-system mutation log, input snapshots, descriptor table and process state compared around every operation",
         B + R),
 "C14": ("deterministic simulation of storage damage (truncation, lost, zeroed, repeated blocks, bit flips, appended data); oracle: documented error or the undamaged output",
         B + R + "Zip damage other than truncation, loss, repetition and appending is limited to data before the central directory, which the format does not checksum.", F),
 "C15": ("deterministic simulation with fault injection in loggers, handlers, log files and standard streams; oracle: same outcome as with healthy diagnostics",
         B + R + "Handlers that raise into their caller are outside."),
 "C16": ("deterministic simulation of storage damage to project files (cut, lost, zeroed, duplicated, exchanged and stale blocks, bit flips); oracle: deterministic work budget, documented error or valid output, a fresh process for the undamaged project afterwards",
         B + R + "Work is counted in function entries and loop iterations of the package; loops inside extension modules (regular expressions) are bounded by processor time.", F),
 "C17": ("deterministic simulation with fault injection: failing allocations at chosen source lines and file operations, exhausted stacks; oracle: error or the undisturbed result, differential oracle of everything done afterwards",
         B + R + "Allocations fail at the beginning of a source line of the package or in a file operation, not inside extension modules.", F),
}
