P('C01', '8-bit arithmetic and logic: result and every flag bit',
  'For every operand, accumulator and incoming flag value, each 8-bit ADD/ADC/SUB/SBC/AND/XOR/OR/CP/INC/DEC/NEG/CPL/DAA form (register, immediate, '
  '(HL), (IX+d), index halves) leaves exactly the Z80 result and all eight flag bits, including undocumented bits 3 and 5, in the right registers or '
  'memory cell. It changes no other register and touches no other address.',
  ['inputs'], 'all operand bytes, flags and register contents; all opcodes of the group with and without DD/FD; NMOS, CMOS, BM1', CANT,
  CPUFILES, [('ops::* helpers', 'src/z80/ops.rs'), ('CpuFlags masks', 'src/cpu/flags.rs'), ('instr_*_op macros', 'src/z80/instructions.rs')],
  [('af, bc, de, hl, ix, iy', 'register file', 'src/z80.rs')], ['Cpu getters after execute_instruction', 'Memory::write_mem'], how=REF)
P('C02', 'Rotates, shifts and bit operations: result and every flag bit',
  'Every rotate, shift, RLD/RRD, BIT, RES and SET form, including SLL and the undocumented DD/FD CB forms that also copy the result into a register, '
  'produces exactly the Z80 result and all eight flag bits (bits 3 and 5 of BIT n,(HL) and BIT n,(IX+d) come from the internal address register) for '
  'every operand and flag value. It writes the result to exactly the register and/or memory cell named and changes nothing else.',
  ['inputs'], 'all operand bytes, displacements, flags; all 256 CB opcodes unprefixed and with DD/FD; three flavours', CANT, CPUFILES,
  [('rlc..srl, bit_*', 'src/z80/ops.rs'), ('BitOps decoding', 'src/cpu/parse.rs'), ('bit op macros', 'src/z80/instructions.rs')],
  observe=['Cpu getters', 'Memory::write_mem'], how=REF)
P('C03', '16-bit arithmetic: result and flags',
  'ADD HL/IX/IY,rr, ADC HL,rr, SBC HL,rr, INC rr and DEC rr give the exact 16-bit result modulo 65536 and the exact Z80 flags (INC/DEC rr leave F '
  'unchanged, ADD leaves S, Z, P/V unchanged) for all register and flag values. No other register changes.',
  ['inputs'], 'all 16-bit operands and flags, every register pair, unprefixed and DD/FD, three flavours', CANT, CPUFILES,
  [('add16/adc16/sbc16', 'src/z80/ops.rs')], observe=['Cpu getters'], how=REF)
P('C04', 'Loads, exchanges, stack transfers and no-ops move exactly the right data',
  'Every LD, EX, EXX, PUSH, POP and no-operation (including undefined ED opcodes) transfers exactly the documented bytes between exactly the documented '
  'registers, immediate operands and memory cells for all values, with 16-bit addresses wrapping modulo 65536 and little-endian order. Flags and every '
  'register that is not a destination keep their values.',
  ['inputs'], 'all register contents, immediates, displacements and memory bytes; all load/exchange/stack opcodes, unprefixed, ED, DD/FD', CANT, CPUFILES,
  [('LD/EX/PUSH/POP mnemonics', 'src/z80/instructions.rs'), ('push16/pop16, ld helpers', 'src/z80/internal.rs')],
  observe=['Cpu getters', 'Memory reads and writes'], how=REF)
P('C05', 'Jumps, calls, returns and restarts set PC and the stack exactly',
  'For every flag combination, each JP, JR, DJNZ, CALL, RET, RST, RETN and RETI form is taken exactly when its condition holds, and then sets PC to the '
  'exact target (relative targets from the following instruction, modulo 65536) and pushes or pops exactly the right return address. When not taken it '
  'continues at the next instruction with the stack untouched, and nothing but PC, SP, the B counter of DJNZ (and the interrupt flip-flop of '
  'RETN/RETI) changes.',
  ['inputs'], 'all flags, PC, SP, displacement, target and stack bytes; all flow opcodes, unprefixed, ED, DD/FD', CANT, CPUFILES,
  [('Condition::is_satisfied', 'src/cpu/parse.rs'), ('jump/call/ret mnemonics', 'src/z80/instructions.rs'), ('jump helpers', 'src/z80/internal.rs')],
  observe=['Cpu::get_pc, get_sp', 'Memory accesses'], how=REF)
P('C06', 'Block transfer, search and I/O instructions: one exact iteration per step',
  'Each LDI/LDD/LDIR/LDDR, CPI/CPD/CPIR/CPDR, INI/IND/INIR/INDR, OUTI/OUTD/OTIR/OTDR step moves, compares or transfers exactly one byte, updates HL, DE, '
  'BC and all flag bits exactly as the Z80 does, and rewinds PC to the instruction exactly when it must repeat. This holds for all register contents '
  '(including BC=0 and B=0) and all data values.',
  ['inputs'], 'all BC, DE, HL, A, F, memory and port bytes; all 16 opcodes; three flavours', CANT, CPUFILES,
  [('block_* operations', 'src/z80/internal.rs'), ('block mnemonics', 'src/z80/instructions.rs')], observe=['Cpu getters', 'Memory and Io calls'], how=REF)
P('C07', 'I/O instructions: exact port, data, flags, wait states and break requests',
  'Every IN and OUT form (including block I/O) accesses exactly one port with the full 16-bit port address and data the Z80 puts on the bus, sets the '
  'flags it must and no others, and stores the byte read exactly where documented. Wait states requested by the device are added to the clock exactly '
  'once after the access, and a break requested by a device stops execution with exactly that cause after the instruction has completed.',
  ['inputs'], 'all A, BC, F, port and data bytes, wait states 0..65535, break requests; all I/O opcodes; three flavours', CANT, CPUFILES,
  [('IN/OUT mnemonics', 'src/z80/instructions.rs'), ('read_io/write_io plumbing', 'src/z80/macros.rs'), ('CONSTANT_OUT_DATA', 'src/z80/flavours.rs')],
  observe=['Io::read_io, Io::write_io', 'Clock::add_io, add_wait_states', 'BreakCause::WriteIo'], how=REF)
P('C08', 'Exact bus-cycle timing of every instruction',
  'For every instruction and every data-dependent path through it, the clock receives exactly the Z80 sequence of machine cycles (opcode fetch, memory, '
  'I/O, internal cycles, wait states), each with the address that is on the bus during it. The timestamp given to each memory or port access is the one '
  'the clock returned for that access\'s own cycle.',
  ['inputs'], 'all opcodes of all tables and prefixes, all register/flag/memory values (both outcomes of every condition)', CANT, CPUFILES,
  [('add_m1/add_mreq/add_no_mreq/add_io calls', 'src/z80/macros.rs'), ('fetch and stack helpers', 'src/z80/internal.rs')],
  observe=['Clock method calls in order', 'timestamps passed to Memory and Io'], how=REF)
P('C09', 'DD/FD prefix chains: last prefix wins, no interrupt in between',
  'After any chain of DD and FD prefix bytes the following instruction behaves as if only the last prefix had been present, and as an unprefixed '
  'instruction when it does not involve HL, H or L. Each prefix byte by itself is one fetch step that changes nothing but PC, R and the pending prefix, '
  'reports the pending prefix, and no interrupt is accepted or polled between a prefix and the instruction it belongs to.',
  ['inputs', 'histories'], 'chains of up to two (thorough: three) prefixes followed by every opcode, from every CPU state, with interrupts possibly pending', CANT,
  CPUFILES, [('prefix handling in the dispatch macro', 'src/z80/macros.rs'), ('is_int_allowed', 'src/z80/internal.rs')],
  [('prefix', 'pending DD/FD', 'src/z80.rs')], ['Cpu::get_prefix, is_after_prefix', 'Io::is_irq polls'], how=REF + ', multi-step')
P('C10', 'Memory and port accesses: exactly the documented ones, in order',
  'Every instruction performs exactly the memory reads, memory writes, opcode fetches and port accesses that the Z80 performs, in the same order, with '
  'the same addresses and data, each exactly once. Operand bytes are read as data, opcode bytes as opcode fetches, and 16-bit accesses wrap modulo 65536.',
  ['inputs'], 'all opcodes of all tables and prefixes, all register, flag and memory values', CANT, CPUFILES,
  [('read/write macros', 'src/z80/macros.rs'), ('fetch and stack helpers', 'src/z80/internal.rs')], observe=['Memory and Io calls in order'], how=REF)
P('C11', 'The internal MEMPTR (WZ) register after every instruction',
  'After every instruction the internal address register that leaks into bits 3 and 5 of BIT n,(HL) holds exactly the value documented for that '
  'instruction, or is unchanged where the instruction does not update it. Flavours differ only in its upper byte after LD (nn),A, LD (BC),A, LD (DE),A and '
  'OUT (n),A.',
  ['inputs'], 'all opcodes of all tables and prefixes, all register and memory values, both outcomes of every condition', CANT, CPUFILES,
  [('memptr updates', 'src/z80/internal.rs'), ('memptr_mix', 'src/z80/flavours.rs')], [('memptr', 'MEMPTR/WZ', 'src/z80.rs')], ['Cpu::get_memptr'], how=REF)
P('C12', 'Memory refresh register: R counts opcode fetches and drives the refresh bus',
  'Every opcode fetch and prefix byte increments the low seven bits of R by one and preserves bit 7 (DDCB/FDCB count two), no other access changes R, and '
  'the refresh address passed with each fetch is I and the incremented R. Reading R back, also after LD R,A or after advancing it by an arbitrary amount '
  'through the API, gives exactly that counter.',
  ['inputs', 'histories'], 'all opcodes of all tables and prefixes, all I, R and advance values', CANT, CPUFILES,
  [('inc_r, add_r, set_r, get_r', 'src/z80.rs'), ('fetch_next_opcode', 'src/z80/internal.rs')], [('r, ir', 'refresh counter', 'src/z80.rs')],
  ['Cpu::get_r, get_ir', 'Memory::read_opcode ir argument'], how=REF)
P('C13', 'Maskable interrupt acceptance in all three interrupt modes',
  'A maskable interrupt is accepted exactly when IFF1 is set and the CPU is not right after EI or a prefix; acceptance clears both flip-flops, ends HALT '
  '(continuing after it), increments R and adds the acknowledge cycle with the device\'s wait states. Then IM 0 executes the instruction given on the data '
  'bus, IM 1 calls 0038h, and IM 2 calls the address stored at I*256+vector, with exactly the documented stack contents, cycles and state; when it '
  'cannot be accepted nothing changes.',
  ['inputs', 'schedules'], 'all CPU states (running, halted, after EI, after prefix), all three modes, every vector/opcode byte, wait states', CANT, CPUFILES,
  [('irq, irq_no_check', 'src/z80.rs, src/z80/internal.rs'), ('is_irq_allowed', 'src/z80.rs')], [('iff1, iff2, im, halt, last_ei', 'interrupt state', 'src/z80.rs')],
  ['Cpu::irq', 'Cpu::execute_next with is_irq', 'Io::irq_data'], how=REF)
P('C14', 'Non-maskable interrupt acceptance',
  'A non-maskable interrupt is accepted unless the CPU is right after EI or a prefix; then it clears IFF1, keeps IFF2, ends HALT, pushes the return '
  'address, continues at 0066h and takes exactly the documented cycles with one R increment. When it is not accepted nothing changes, and every other '
  'register is preserved in both cases.',
  ['inputs', 'schedules'], 'all CPU states: running, halted, after EI, after a prefix', CANT, CPUFILES,
  [('nmi, nmi_no_check', 'src/z80.rs, src/z80/internal.rs')], observe=['Cpu::nmi result', 'Cpu getters', 'Clock and Memory calls'], how=REF)
P('C15', 'EI, DI, HALT, IM, RETN and RETI govern interrupt enabling exactly',
  'EI enables interrupts only after the following instruction, DI disables them at once, RETN and RETI restore IFF1 from IFF2, RETI notifies the '
  'devices exactly once, and every IM form selects exactly its mode. HALT stops at its own address, reports the break, then idles with one fetch cycle and '
  'R increment per step until an interrupt is accepted, and every sequence of such instructions with interrupt requests at any point yields exactly the Z80 '
  'interrupt state and order of events.',
  ['histories', 'schedules'], 'sequences of up to 4 steps over the interrupt-related instructions with a request possible at every poll', CANT, CPUFILES,
  [('EI/DI/HALT/IM/RETN/RETI', 'src/z80/instructions.rs'), ('execute_next', 'src/z80.rs')], [('iff1, iff2, last_ei, halt', 'interrupt state', 'src/z80.rs')],
  ['Cpu::get_iffs, is_after_ei, is_halt, get_im', 'Io::reti', 'BreakCause'], how=REF + ', multi-step')
P('C16', 'Running to a limit is the same as stepping instruction by instruction',
  'Running until a clock limit gives exactly the same result, CPU state, bus accesses, clock cycles and interrupt polls as executing one step at a time '
  'and stopping when the limit is reached before a step or a break is requested. This includes interrupts accepted on the way, EI shadows, prefixes, HALT '
  'and a limit that is already past at the call.',
  ['histories', 'schedules'], 'every opcode alone, every unprefixed opcode followed by state-sensitive ones, all pairs of interrupt-related instructions, with '
  'a symbolic interrupt line and a symbolic limit', CANT, CPUFILES,
  [('execute_with_limit and its loop', 'src/z80.rs'), ('execute_next', 'src/z80.rs')], observe=['execute_with_limit vs execute_next'],
  how='equivalence of two entry points of the real code')
P('C17', 'SCF/CCF bits 3 and 5: the flag modification history',
  'SCF and CCF take flag bits 3 and 5 from the accumulator, and on NMOS and BM1 also from the old flags exactly when the previous instruction did not '
  'modify the flags; the CPU tracks that history exactly through every instruction, prefix, idle HALT cycle and accepted interrupt. All other flag bits '
  'of SCF and CCF follow the Z80 whatever the history.',
  ['histories'], 'every opcode followed by SCF or CCF, with arbitrary registers, flags and previous history; three flavours', CANT,
  CPUFILES, [('Flavour::get_q, begin_instruction, clear_q', 'src/z80/flavours.rs'), ('flags_op/scf/ccf', 'src/z80/ops.rs')],
  [('flags_modified, last_flags_modified', 'Q history', 'src/z80/flavours.rs')], ['Cpu::get_flags after SCF/CCF'], how=REF + ', two-step')
P('C18', 'LD A,I, LD A,R, LD I,A and LD R,A',
  'LD A,I and LD A,R load exactly I or R, set P/V to IFF2 (on NMOS to 0 when an interrupt is accepted right after the instruction), and set every other '
  'flag exactly. LD I,A and LD R,A change only their register, in any context of EI, DI, prefixes and interrupt requests.',
  ['inputs', 'schedules'], 'all register, flag and interrupt states; sequences of up to 4 steps with a request possible at every poll; three flavours', CANT,
  CPUFILES, [('ld_a_i/ld_a_r', 'src/z80/internal.rs'), ('ACCEPTING_INT_RESETS_IFF2_EARLY', 'src/z80/flavours.rs')],
  observe=['Cpu::get_acc, get_flags, get_i, get_r'], how=REF + ', multi-step')
P('C19', 'The CPU flavours differ only where documented',
  'NMOS, CMOS and BM1 CPUs started in the same state and given the same bus answers make the same accesses in the same cycles and end in the same state, '
  'except: the byte written by OUT (C),0 (0 on NMOS and BM1, FFh on CMOS), SCF/CCF bits 3 and 5, MEMPTR\'s upper byte after LD (nn),A, LD (BC),A, LD (DE),A '
  'and OUT (n),A on BM1, and P/V after LD A,I/R interrupted on NMOS.',
  ['inputs'], 'all opcodes of all tables and prefixes and interrupt acceptance in all modes, all CPU states; pairs of flavours', CANT,
  CPUFILES, [('Flavour impls', 'src/z80/flavours.rs')], observe=['Cpu getters', 'Memory, Io and Clock calls'],
  how='equivalence of two instantiations of the real code')
P('C20', 'A debugger never changes what is executed',
  'Executing an instruction, a step or an interrupt with a debugger closure gives exactly the same result, CPU state, memory and port accesses, clock '
  'cycles and timestamps as executing it without one.',
  ['inputs'], 'all opcodes of all tables and prefixes and all interrupt modes, all CPU states', CANT, CPUFILES + ['src/z80/debug.rs'],
  [('cpu_debug! macro', 'src/z80/macros.rs')], observe=['execute_instruction/execute_next/irq with Some and None debug'],
  how='equivalence of two entry points of the real code')
P('C21', 'The debugger is told exactly what was executed',
  'For every instruction the debugger closure is called exactly once with the address of its first byte (prefix included), all of its bytes in order, its '
  'prefix if it uses one, its mnemonic and its operands (registers, immediates, displacements, addresses, absolute jump targets, bit numbers, ports, '
  'conditions) as a Z80 assembler would name them. It is not called for a prefix byte alone.',
  ['inputs'], 'all opcodes of all tables and prefixes, all operand bytes and addresses', CANT, CPUFILES + ['src/z80/debug.rs', 'src/cpu/debug.rs'],
  [('cpu_debug! macro', 'src/z80/macros.rs'), ('debug_instruction', 'src/z80/debug.rs')], observe=['CpuDebug argument of the closure'],
  how='differential against an independent reference decoder')
P('C22', 'The disassembler reports exactly the instructions of the memory given',
  'disasm_memory, for every CPU type, start address and chunk, calls the closure in order once for each instruction with its address (wrapping modulo 65536), bytes, '
  'prefix, mnemonic and operands, skips prefixes that no instruction uses, and ends silently at an instruction that does not fit in the chunk, never '
  'reading beyond it. It returns the closure\'s first Err at once and Ok otherwise; disasm_memory_once returns the first instruction, or None.',
  ['inputs'], 'every instruction of every table and prefix, alone, truncated and in sequences, with arbitrary operand bytes and start address', CANT,
  CPUFILES + ['src/disasm.rs', 'src/z80/debug.rs', 'src/cpu/debug.rs'],
  [('disasm_memory', 'src/disasm.rs'), ('debug_instruction', 'src/z80/debug.rs')], observe=['closure argument of disasm_memory, its result'],
  how='differential against an independent reference decoder')
P('C23', 'Z80Any behaves as the CPU it wraps, and flavour conversions keep the state',
  'Every Cpu method called on Z80Any has exactly the effects and result of calling it on the wrapped CPU, whichever flavour it holds, and the tags, '
  'predicates and fallible unwrapping name exactly that flavour. Converting between flavours, directly or through Z80Any, preserves every register, '
  'flip-flop and pending state; only the SCF/CCF history is reset when converting from CMOS.',
  ['inputs'], 'all CPU states of each flavour; every Cpu method; execute_* over the opcode tables; every ordered pair of flavours; all short tags', CANT,
  ['src/z80/any.rs', 'src/z80/flavours.rs', 'src/z80.rs'], [('cpu_dispatch! macros', 'src/z80/any.rs'), ('From<Z80<..>> conversions', 'src/z80/flavours.rs')],
  observe=['Cpu methods of Z80Any', 'Z80::into_flavour / from_flavour', 'Z80Any::tag, with_tag, is_*, into_*'],
  how='equivalence of the wrapped and the direct calls of the real code')
P('C24', 'Serialized CPU state survives every round trip and the old formats',
  'A Z80 of any flavour, or Z80Any, is serialized as the struct of 18 named fields in fixed order (RegisterPair as u16) and deserializes, from self-describing and compact '
  'formats, to an equal CPU, or to the same state in another flavour. Map keys may come in any order, in camelCase or snake_case, without type (NMOS), memptr (0), r (low byte of ir) or '
  'flavour (default), and sequences may lack the type; missing, repeated or unknown fields and tags are errors. RegisterPair deserializes from exactly the integers -32768 to 65535, '
  '[lo, hi] and hex strings.',
  ['inputs'], 'all CPU states; a format model with map, struct, sequence and compact forms; all integers, and texts of up to 6 characters for RegisterPair', CANT,
  ['src/z80/serde.rs', 'src/cpu/registers.rs', 'src/z80/flavours.rs', 'src/cpu/parse.rs', 'src/host.rs'],
  [('Serialize/Deserialize for Z80', 'src/z80/serde.rs'), ('RegisterPairVisitor', 'src/cpu/registers.rs')],
  observe=['Serialize and Deserialize impls'], how='round trip, and differential against a model of the format')
P('C25', 'Register accessors read and write exactly the named register',
  'Every getter returns and every setter changes exactly the register, flip-flop or mode it names (8-bit halves, pairs, alternate and index registers, '
  'PC, SP, I, R, IM, IFFs, MEMPTR, halt), leaving all other state as it was, for every register, prefix and value. exx, ex_af_af, inc_r, add_r, '
  'enable_interrupts, disable_interrupts, restore_iff1 and halt make exactly the state change they name.',
  ['inputs'], 'all CPU states and values, every register/prefix/mode selector; three flavours', CANT,
  ['src/z80.rs', 'src/cpu.rs', 'src/cpu/registers.rs'], [('impl Cpu for Z80', 'src/z80.rs')], observe=['Cpu getters and setters'],
  how='differential against a record-of-registers model')
P('C26', 'Codes, flags, conditions and names of the value types are exact',
  'Prefix, InterruptMode, Reg8, Reg16, StkReg16 and Condition convert to and from every byte exactly by the Z80 encoding (rejecting invalid bytes where '
  'the conversion can fail) and to and from their names, and Condition::is_satisfied agrees with the flags for all 256 flag values. CpuFlags accessors and '
  'mask constructors give exactly the named bits, parity included, for every byte.',
  ['inputs'], 'every input byte and flag value; every text of up to 4 bytes for Condition', CANT,
  ['src/cpu/parse.rs', 'src/cpu/flags.rs', 'src/host.rs'], [('code conversions', 'src/cpu/parse.rs'), ('CpuFlags methods', 'src/cpu/flags.rs')],
  observe=['TryFrom/From/FromStr impls', 'CpuFlags methods', 'BreakCause text'], how='differential against tables and formulas of the Z80 encoding')
P('C27', 'TsCounter counts exactly the T-states of each cycle',
  'For every counter value, TsCounter adds exactly 6, 4, 3 and 4 T-states for interrupt acknowledge, M1, memory and I/O cycles and exactly the given number '
  'for internal cycles and wait states, modulo the counter width, and returns the timestamps of the cycle (interrupt: 2 after start, M1 and memory: '
  'end of the cycle, I/O: 1 after start). is_past_limit is true exactly when the counter is at or above the limit.',
  ['inputs'], 'all counters, limits and counts of u16, u32, i32, u64 and i64', CANT, ['src/host.rs'], [('impl Clock for TsCounter', 'src/host.rs')],
  [('0', 'T-state counter', 'src/host.rs')], ['Clock methods of TsCounter'], how='differential against modular arithmetic')
P('C28', 'Host trait defaults and forwarding macros are transparent',
  'Each method generated by the forward_host_* macros calls the same method of the wrapped object exactly once with exactly the given arguments and '
  'returns its answer unchanged, however wrappers are written and nested. The provided Io and Memory methods give the documented defaults: an idle bus '
  'for I/O and IRQ data, and memory reads through read_debug, 16-bit reads low byte first with wrapping addresses.',
  ['inputs'], 'all arguments and all answers of the wrapped object, every forwarded method and macro form', CANT,
  ['src/macros.rs', 'src/host.rs'], [('forward_host_clock/io/memory_methods!', 'src/macros.rs'), ('provided methods', 'src/host.rs')],
  observe=['Clock, Io and Memory methods of wrapper types'], how='equivalence with the direct call; defaults against a model')
P('C29', 'Reset, construction and cloning give exactly the documented state',
  'reset() from any state, new() and the Z80Any constructors leave AF, AF\' and SP all ones and every other register, flip-flop, mode, pending prefix and '
  'flag history zero. A clone equals its original and is unaffected by later changes of the original.',
  ['inputs'], 'all CPU states; three flavours and Z80Any', CANT, ['src/z80.rs', 'src/z80/any.rs', 'src/z80/flavours.rs'],
  [('reset, new', 'src/z80.rs')], observe=['Cpu::reset', 'Z80::new', 'Z80Any::new_*', 'Clone'], how='differential against the documented state')
P('C31', 'RegisterPair: 8-bit halves and 16-bit value stay consistent',
  'Every RegisterPair constructor, getter, setter, pointer, increment, decrement and closure operation is exact modulo 2^16 for all values, with the high '
  'and low halves always the two bytes of the 16-bit value. dec16_is_zero reports exactly whether the result is zero.',
  ['inputs'], 'all register contents and arguments', CANT, ['src/cpu/registers.rs'], [('RegisterPair methods', 'src/cpu/registers.rs')],
  [('RegisterPair', 'two bytes', 'src/cpu/registers.rs')], ['RegisterPair methods'], how='differential against bit concatenation')
P('C30', 'No input makes the emulator panic, overflow, hang or touch memory it must not',
  'Every entry point of the library (execute_instruction, execute_next, execute_with_limit, irq, nmi, all with and without a debugger, every accessor, the '
  'disassembler), through each CPU type and through Z80Any, returns for every CPU state, memory content and behaviour of the host. On the way it does not panic, '
  'overflow an integer, fail a debug assertion, reach code declared unreachable or access memory outside its objects.',
  ['inputs'], 'all CPU states, all opcodes, every answer of the bus, the clock and the host; all chunks of up to 4 bytes for the disassembler', CANT,
  CPUFILES + ['src/disasm.rs', 'src/cpu/debug.rs', 'src/z80/debug.rs', 'src/z80/any.rs'], [('execution of instructions', 'src/z80/instructions.rs'), ('disasm', 'src/disasm.rs'), ('dispatch', 'src/z80/macros.rs')],
  observe=['return of every public function'], how='reachability of a panic, an unreachable or an invalid access on any path, overflow checks compiled in')
P('C32', 'CPUs compare equal exactly when they are in the same state',
  'After normalize_r two CPUs of the same flavour, bare or in Z80Any, are equal exactly when every observable part of their state (registers, flip-flops, mode, MEMPTR, '
  'pending prefix, EI shadow, flag history of the flavour) is the same; two Z80Any of different flavours are never equal. Without normalize_r two CPUs whose '
  'observable states differ are never equal.',
  ['inputs'], 'all pairs of CPU states; three flavours and Z80Any', CANT, ['src/z80.rs', 'src/z80/any.rs', 'src/z80/flavours.rs'],
  [('PartialEq, normalize_r', 'src/z80.rs'), ('flavour state', 'src/z80/flavours.rs')], observe=['==', 'normalize_r'], how='== against equality of the observed states')
P('C33', 'The text of every instruction is exact in every format',
  'The text of a CpuDebug (Display, LowerHex and UpperHex, plain and alternate) and of its arguments, and the lines of disasm_memory_write_text, show exactly the address, '
  'mnemonic, operands in assembler order (registers, signed displacements, numbers in the base asked for, memory and port addresses in parentheses, conditions) and code bytes '
  'of the instruction, for every operand value. Columns are padded as documented and no instruction\'s text is cut or fails to be written.',
  ['inputs'], 'every opcode of every table and all operand values; plain, x, X, #x and #X formats, with and without a width', CANT,
  ['src/cpu/debug.rs', 'src/cpu/parse.rs', 'src/disasm.rs'], [('fmt implementations', 'src/cpu/debug.rs'), ('names of registers and conditions', 'src/cpu/parse.rs')],
  observe=['Display, LowerHex, UpperHex of CpuDebug and CpuDebugArgs', 'disasm_memory_write_text'], how='the executed text, byte by byte, against a model of the documented format')
P('C34', 'The interrupt line is sampled exactly when an interrupt could be taken',
  'execute_next samples the interrupt line (Io::is_irq) exactly once, with the clock value before any other access, when IFF1 is set and neither EI nor a prefix has just been '
  'executed, and otherwise not at all; execute_with_limit samples it at exactly the same points as stepping. The only other sample is the one LD A,I and LD A,R take on '
  'NMOS with IFF1 set; irq(), nmi() and every other instruction take none.',
  ['histories', 'schedules'], 'every opcode alone, every interrupt-related sequence of up to 3 steps, with every answer of the interrupt line', CANT, CPUFILES,
  [('execute_next, execute_with_limit', 'src/z80.rs'), ('LD A,I and LD A,R', 'src/z80/instructions.rs')], [('iff1, last_ei, prefix', 'interrupt state', 'src/z80.rs')],
  observe=['number, order and timestamp of the calls of Io::is_irq'], how=REF + ', multi-step')
P('C35', 'The accessors show the whole CPU state: nothing is hidden',
  'After every instruction, NMI or interrupt from any state, a new CPU given the values the accessors report (registers, MEMPTR, R, flip-flops, mode, HALT, pending prefix, '
  'EI shadow, flag history of the flavour) through the public setters reports the same values and is equal to the first after normalize_r. So no instruction leaves '
  'state behind that saving and restoring through the accessors loses, and the future of a program depends on the shown state only.',
  ['inputs', 'histories'], 'every opcode of every table, NMI and every kind of interrupt, all CPU states and bus answers; three flavours', CANT, CPUFILES,
  [('struct Z80', 'src/z80.rs'), ('get_*/set_* of Cpu', 'src/z80.rs')], [('struct Z80', 'the CPU state', 'src/z80.rs')],
  observe=['all getters and setters', '==', 'normalize_r'], how='equality of the CPU with the one rebuilt from its accessors')
P('C36', 'Opcode and cycle constants match exactly the documented instructions',
  'For every byte, `(code & MASK) == BASE` of each mask and base pair in opconsts holds exactly for the opcodes of that instruction family (RET cc, CALL cc, JP cc, '
  'JR cc, RST, RETN/RETI), and BASE combined with the code of a condition or restart address is exactly that instruction. Every other opconsts constant is the Zilog '
  'opcode it names and every host::cycles constant the documented number of T-states.',
  ['inputs'], 'every byte, condition and restart address', 'tests try the valid codes only: a mask that also matches other instructions passes them',
  ['src/lib.rs', 'src/host.rs'], [('opconsts', 'src/lib.rs'), ('cycles', 'src/host.rs')], observe=['opconsts', 'host::cycles'], how='differential against the Zilog encoding')
