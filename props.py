HOOKS = ["91ad77e"]

prop("C01", "A driver's projected output waveform follows the assignment rules",
  "Scheduling a value or a disconnection on a driver with any delay and any pulse rejection limit not above it leaves exactly the projected output waveform that IEEE 1076 defines: pending transactions at or after the new time are deleted, and of the earlier ones inside the rejection window only those remain that belong to the unbroken run of equal transactions before the new one. "
  "Each remaining transaction has its time, its value or null, and an event that wakes the driver when it is due. When a transaction is due the driver takes its value (or is disconnected by a null one), the signal gets that value, an event occurs exactly when the value changes with the previous value kept as the last value, and later transactions stay. "
  "This holds for values of any size and also for the shortcut taken by undelayed assignments to signals with one driver. A part of a signal is compared as one value.",
  ["inputs", "histories"],
  "all delays, rejection limits, pending times, values and null transactions, for up to two pending transactions and values of 1, 3 and 12 bytes",
  "Pulse rejection depends on the relative order and equality of several pending transactions; the regression tests walk a few fixed schedules.",
  ["src/rt/model.c"],
  [("insert_transaction", "src/rt/model.c"), ("sched_driver", "src/rt/model.c"), ("update_driver", "src/rt/model.c")],
  state=[("waveforms", "the list of pending transactions of a driver", "src/rt/structs.h")],
  observe=["x_sched_waveform", "x_sched_waveform_s", "x_disconnect", "driver update tasks"],
  note="Bounded: up to two pending transactions and one new one, or two assignments in a row for the undelayed shortcut; values of 1, 3 and 12 bytes. One signal with one driver that is not split. Event queue, byte comparison and copying are replaced by their specifications.")

prop("C02", "Time-ordered queue loses nothing and yields earliest first",
  "For any sequence of insertions, removals and deletions, the simulator's time-ordered queue contains exactly the entries inserted and not yet removed, each once, whatever their keys. "
  "Extracting the minimum returns an entry whose key is not greater than any other entry's, and reading the minimum changes nothing. Growing the queue keeps every entry.",
  ["inputs", "histories"],
  "all queue contents satisfying the ordering invariant, all keys and payloads; each operation preserves the invariant, so all histories",
  "The unit test inserts one fixed sequence; a sift step that is wrong only for one shape of tree or for equal keys reorders simulation events silently.",
  ["src/rt/heap.c"],
  [("heap_insert", "src/rt/heap.c"), ("heap_extract_min", "src/rt/heap.c"), ("heap_delete", "src/rt/heap.c")],
  state=[("nodes/size", "array-embedded binary heap", "src/rt/heap.c")],
  observe=["heap_insert", "heap_extract_min", "heap_min", "heap_min_key", "heap_delete", "heap_walk"],
  note="Bounded: every obligation is discharged for all keys and payloads for each queue size up to the stated bound; larger queues are not covered. Locks assumed uncontended, allocation never fails.")

prop("C03", "Operating on part of a signal leaves every other element alone",
  "Assigning, disconnecting, forcing, releasing or depositing part of a signal affects exactly the elements of that part. Whatever division of the signal into pieces the simulator makes for this, every element keeps its driver's value and connection, its pending transactions with their times and values, "
  "a pending undelayed assignment, an active or pending force or release, and is woken for all of them; the pieces always cover the signal exactly, and a range is found again wherever it starts. After the next update each element has the value that its own sources give it, with an event on every part that changed.",
  ["inputs", "histories"],
  "all element values, for each kind and order of one or two operations on the head, middle or tail of a signal, in each state of its driver and force, for values held in place and in separate storage",
  "Each combination of what was pending when a signal was divided is a separate path; the regression tests reach few of them, and a lost element shows only when it is later read.",
  ["src/rt/model.c"],
  [("clone_nexus", "src/rt/model.c"), ("clone_source", "src/rt/model.c"), ("split_value", "src/rt/model.c"), ("split_nexus_slow", "src/rt/model.c")],
  state=[("nexus chain", "the pieces of a signal", "src/rt/structs.h")],
  observe=["x_sched_waveform", "x_disconnect", "force_signal", "release_signal", "deposit_signal", "driver update tasks"],
  note="Bounded: a signal of 3 to 6 elements with one driver, one pending transaction, one or two operations; delays take representative values (zero, before and after the pending transaction) and the rejection limit is zero. Ports, conversions and wake-ups of processes are not covered. The piece index is checked for 4 (thorough: 5) pieces.")

prop("C04", "A signal's value is determined by its sources",
  "After any change of its sources, a signal takes the value IEEE 1076 prescribes: the forced value while a force is active, otherwise a value deposited in this cycle, otherwise the value of its only connected driver, the resolution of all its connected drivers, or with no source its initial value (its previous value for a disconnected register). "
  "The resolution function, or the table computed from it, is applied to exactly the connected drivers' values in order, for every element. A deposit takes effect only in its own cycle and never over a force; an event occurs exactly when the value changes, keeping the previous value as the last value, and the signal is active in that cycle.",
  ["inputs", "histories"],
  "all values, tables and force states; every subset of connected drivers, order of sources and pair of operations in one cycle",
  "Precedence among drivers, forces and deposits depends on the order in which the sources came to exist; the regression tests use one order.",
  ["src/rt/model.c"],
  [("calculate_driving_value", "src/rt/model.c"), ("call_resolution", "src/rt/model.c"), ("force_signal", "src/rt/model.c"), ("deposit_signal", "src/rt/model.c")],
  state=[("sources", "drivers and pseudo sources of a signal", "src/rt/structs.h")],
  observe=["force_signal", "release_signal", "deposit_signal", "driver and pseudo source update tasks"],
  note="Bounded: up to three drivers, one force and one deposit, two elements of one byte. Ports, composite resolution and resolution functions of wider elements are not covered. The call of the resolution function is a stub that records its arguments.")

prop("C06", "Bit sets behave as mathematical sets",
  "Every operation on a bit set of any size has exactly its set-theoretic effect: adding, removing or testing an element or a contiguous range, union, intersection, difference, copy, equality, cardinality, and setting or clearing everything. "
  "Scanning backwards returns the greatest member not above the start, counting a clear run returns its exact maximal length, and iteration visits every member once in increasing order. No operation touches any other element or anything outside the set's storage.",
  ["inputs"],
  "all sizes, all contents, all element positions and ranges inside the set",
  "Word boundaries, partial last words and the small-size representation give a combinatorial space of alignments; the unit tests sample a few.",
  ["src/mask.c", "src/mask.h"],
  [("mask_set_range", "src/mask.c"), ("mask_count_clear", "src/mask.c"), ("mask_iter", "src/mask.c")],
  state=[("bits/ptr", "one inline word up to 64 elements, an array of words above", "src/mask.h")],
  observe=["every mask_* function"],
  note="Range set/clear, union, intersection, difference, copy, scanning, clear runs and iteration: proved for every size up to 2^40 by loop contracts written in place (LOOP_CONTRACT). Exactness of range test, equality and cardinality: bounded to 256 elements.")

prop("C09", "Interpreted bytecode has the arithmetic meaning of each instruction",
  "Executing one instruction of the simulator's bytecode with any operand values, operand forms (register, immediate, memory with displacement) and operand size leaves in the result register exactly the mathematically defined value of that instruction at that size, "
  "and leaves in the flag exactly whether a checked addition, subtraction, multiplication or exponentiation overflowed the signed or unsigned size, or whether the comparison (combined with the previous flag where the instruction says so) holds. "
  "Loads extend as specified, stores and block operations change exactly the addressed bytes, real to integer conversion rounds to nearest with ties away from zero, conditional jumps and case dispatch go to the target exactly when their condition holds, and no other register or flag changes.",
  ["inputs"],
  "all 64-bit operand values, previous flag states, sizes and condition codes; exponentiation complete for 8 and 16 bit, per base or exponent above that",
  "VHDL overflow, rounding and conversion rules live at extreme operand values and narrow sizes; the regression tests execute a few hand-picked values through each operator.",
  ["src/jit/jit-interp.c", "src/jit/jit-priv.h"],
  [("interp_loop", "src/jit/jit-interp.c"), ("interp_exp", "src/jit/jit-interp.c"), ("interp_fcvtns", "src/jit/jit-interp.c")],
  state=[("regs/flags/pc", "the interpreter's machine state", "src/jit/jit-interp.c")],
  observe=["jit_interp"],
  note="Proved for all operand values except: exponentiation at 32/64 bits (bounded by base or exponent), block copies and fills (bounded length), division of the minimum by -1 (recorded known finding). FEXP, GALLOC/LALLOC, EXIT, CALL, PUTPRIV are not specified here.")

prop("C10", "Bytecode optimisation preserves what the function computes",
  "Running the optimisation passes over a function's bytecode (promotion of stack variables to registers, local value numbering and constant folding, copy propagation, dead code elimination and removal of empty instructions, in that order) leaves a function with the same observable behaviour for every argument value: "
  "it stores the same values in the result slots and the same bytes in memory, makes the same calls with the same arguments, and returns or stops at the same exit. "
  "This holds for functions in which a value is in range for the size of the operation that consumes it, flags are read in the block that sets them, and a result slot is not written twice without a call or exit in between.",
  ["inputs", "histories"],
  "all 64-bit argument values in the stated range, for every program of the listed families (arithmetic and logic with every operand form, flag chains, joins, loops, case dispatch, calls, stack variables, block fills and copies)",
  "An unsound rewrite fires only for particular register reuse, constants and control flow; the unit tests check a handful of instruction patterns and the regression tests run a few programs.",
  ["src/jit/jit-optim.c"],
  [("jit_do_lvn", "src/jit/jit-optim.c"), ("jit_do_cprop", "src/jit/jit-optim.c"), ("jit_do_dce", "src/jit/jit-optim.c"), ("jit_do_mem2reg", "src/jit/jit-optim.c")],
  state=[("regvn/hashtab", "value numbers of registers and available expressions", "src/jit/jit-optim.c")],
  observe=["jit_do_mem2reg", "jit_do_lvn", "jit_do_cprop", "jit_do_dce", "jit_delete_nops"],
  note="Bounded: the programs are a fixed list (about 250), each decided for all argument values in its range; programs outside the list are not covered. Floating point operations and register allocation are not covered.")

prop("C11", "Native library operators agree with their VHDL definitions",
  "The built-in native implementations used in place of VHDL package bodies return exactly what those bodies define, for operands of any lengths (null and different lengths included), either direction and any of the nine values of each element: "
  "and, or, xor, To_X01 and vector equality of std_logic_1164 (also in their vector instruction form); To_01, resize, addition, subtraction, multiplication and ordering, addition of a natural and conversion from integers of numeric_std; "
  "addition, subtraction, multiplication and equality of std_logic_arith; and removing characters from a textio line. The result has the elements, length and bounds of the definition, weak values count as their strong ones, "
  "metavalues give the defined result (all 'X', or FALSE), the operands are unchanged, and nothing outside the operands and the result is touched beyond the documented overrun of vector loads.",
  ["inputs"],
  "all element values for each listed pair of lengths; all natural and integer operands",
  "The native forms work eight or sixteen elements at a time and special-case equal lengths and strong values; errors hide in particular lengths, positions and weak or metavalues, which the regression tests sample thinly.",
  ["src/jit/jit-intrin.c"],
  [("__ieee_packed_add", "src/jit/jit-intrin.c"), ("__resize_signed", "src/jit/jit-intrin.c"), ("__conv_signed", "src/jit/jit-intrin.c"), ("ieee_and_vector_sse41", "src/jit/jit-intrin.c")],
  state=[("tlab", "temporary storage of results", "src/rt/mspace.h")],
  observe=["entries of the native operator table"],
  note="Bounded: lengths up to 33 (multiplication up to 6 by 5) as listed. Vector instructions are replaced for the verifier by definitions in C (shim/cbmc/x86intrin.h); loads past the end of a vector are given the documented slack. Operands of std_logic_arith are not null (those raise the error of the definition in the interpreter). Warnings, the real functions of math_real and the table that binds names to implementations are not covered.")

prop("C12", "Verilog numbers keep every bit",
  "A four-state Verilog number made from a vector of bits or from the text of a literal has exactly the denoted width and bits, whatever the width, the digits and the representation chosen for it: every bit reads back as it was given (0, 1, x or z, without strength), "
  "the number is defined exactly if no bit is x or z, and the integer value of a defined number of up to 64 bits is that of its bits. Two numbers are equal exactly if their bits are, the shorter one extended with zeros. "
  "A number written to a library file reads back as the same number. This is stated for binary, decimal and hexadecimal literals whose digits fit the width (and fill it, if the first digit is x or z).",
  ["inputs"],
  "all contents of vectors of the listed widths; literals: all values of short ones, fixed texts of long ones, and the shift that adds a digit for all contents",
  "The representation changes with width and content (integer, 28-bit packed, array of words); a wrong word or bit position shows only for widths that are not a multiple of 32 or contents that are undefined.",
  ["src/vlog/vlog-number.c", "src/vlog/vlog-number.h"],
  [("number_new", "src/vlog/vlog-number.c"), ("number_pack", "src/vlog/vlog-number.c"), ("number_bit", "src/vlog/vlog-number.c"), ("number_equal", "src/vlog/vlog-number.c")],
  state=[("number_t", "tagged 64-bit word or pointer to an array of words", "src/vlog/vlog-number.h")],
  observe=["every number_* function except number_print"],
  note="Bounded: widths from 1 to 97 (thorough 129) as listed, every content of each. Long literals: three fixed texts each, completed by the digit shift proved for all contents. Each representation is taken separately (the tag is assumed to be the one the width and content imply; otherwise the unit is undecided and falls back to random inputs). The file is a sequence of words; strtoll is modelled; allocation never fails. number_print is not covered.")
