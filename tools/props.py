"""The properties, in one place: python3 tools/props.py writes properties.jsonl and MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'semantic_codec/architecture/'
C = 'semantic_codec/corruption/'
M = 'semantic_codec/metadata/'
S = 'semantic_codec/solution/'
SA = 'semantic_codec/static_analysis/'
P = []


def p(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files.split(),
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state])))


p('C01', 'Bit primitives select, set, clear and copy exactly the bits asked for',
  'For every 32-bit word and every range of bits, the mask of a range has exactly the bits of that range, testing a bit '
  'answers that bit, clearing a range changes exactly the bits of that range to zero, and copying a range moves exactly '
  'those bits to the destination and leaves every other bit of the destination word alone. Ranges that are reversed, '
  'negative or beyond the word are rejected.',
  'inputs', 'every 32-bit word and every bit range, including the limits 0 and 31',
  'The tests use a handful of words; a mask wrong for one range or one bit is only visible over all words and ranges.',
  A + 'bits.py', [('Bits', A + 'bits.py')])

p('C02', 'A bit queue is a first-in first-out stream of fixed-size chunks',
  'Whatever the chunk size and however additions and removals alternate, a bit queue returns its chunks in the order '
  'they were added and unaltered, also when a chunk crosses a word boundary. Removing a chunk writes exactly the chunk at the '
  'requested bit of the given word and nothing else, the queue says it is empty exactly when every chunk was taken, and its '
  'byte form is the packed stream.',
  'inputs histories', 'every chunk size, every chunk value and source/destination bit, every order of additions and removals',
  'The tests use chunks that divide a word and a few values; chunks crossing words and long histories are not reached.',
  A + 'bits.py semantic_codec/interleaver/interleaver2d.py', [('BitQueue', A + 'bits.py')],
  [('words of the queue', 'packed stream and read/write positions', A + 'bits.py')])

p('C03', 'An instruction means the same 32-bit word however it is written',
  'An instruction built from hexadecimal text (any case, any spacing), from decimal text or from the number has that '
  'number as its encoding, and the address it was given. Reversing the endianness of a word reverses its four bytes, '
  'both for text and for numbers, and doing it twice gives the word back.',
  'inputs', 'every 32-bit word, every split of its text by blanks, upper and lower case',
  'The tests parse a few words of one program; the statement is about all words and all spellings.',
  A + 'instruction.py ' + A + 'capstone_instruction.py', [('Instruction.__init__, reverse_endianess', A + 'instruction.py')])

p('C04', 'A branch jumps where the processor would jump',
  'The target computed for a branch-immediate instruction is address + 8 + the sign-extended 24-bit offset times four, '
  'modulo 2^32, for every offset and every address, and instructions that are not such branches have no target. Looking the target up '
  'in a program returns the instruction at that address, or nothing when there is none.',
  'inputs programs', 'every offset, address, condition; every program of a few instructions',
  'The tests check a few forward and backward branches with small offsets.',
  A + 'instruction.py ' + A + 'capstone_instruction.py',
  [('jumping_address, branch_to', A + 'instruction.py'), ('CAPSInstruction.jumping_address', A + 'capstone_instruction.py')])

p('C05', 'Register and memory usage of an instruction is that of its operands',
  'For data processing, memory, multiply, branch, push/pop and block transfer instructions, with any registers, condition and flags, the registers '
  'reported as used are exactly those that the operands name, shift amounts included (and the stack pointer for a push or pop), each once. The first operand is '
  'reported as written and the other ones as read, except that a pop writes all its registers and reads the stack pointer, and a push '
  'reads all and writes none. In addition stores write the memory, loads read it, branches write the program counter, and an instruction that uses nothing '
  'uses the no-register storage. Flag-setting instructions say so, the condition and kind are recognized, and asking twice, in any order, gives the same answer.',
  'inputs', 'every register, condition, immediate and flag of each instruction form',
  'The tests look at a few instructions; a wrong rule for one register or one form is invisible there.',
  A + 'capstone_instruction.py ' + A + 'instruction.py',
  [('registers_used/read/written', A + 'capstone_instruction.py'), ('storages_used/read/written', A + 'instruction.py')])

p('C06', 'Reading a disassembly keeps every instruction and every function',
  'Reading a disassembly listing, of either supported format, returns one instruction per instruction line, in order, '
  'with the address and the word printed on that line, grouped under the function it belongs to. Headers, blank lines, '
  'data and comments do not create, drop or change instructions.',
  'inputs', 'every address and word printed in a listing, every arrangement of a few functions, instructions and noise lines',
  'The tests read fixed example files and look at a few lines of them.',
  A + 'disassembler_readers.py ' + A + 'functions.py',
  [('TextDisassembleReader, ElfioTextDisassembleReader', A + 'disassembler_readers.py')])

p('C07', 'Program maps hold every instruction once, in address order',
  'Flattening functions gives every instruction exactly once in ascending address order, and the range of each '
  'function that has instructions goes from its first to its last instruction; functions without instructions get no range. Turning a list of instructions into a map by '
  'address and a map back into a list keeps every address once, sorted, with its candidates.',
  'inputs programs', 'every placement and order of a few functions and instructions',
  'The tests flatten one program with functions already in order.',
  M + 'probabilistic_rules/rules.py ' + A + 'functions.py',
  [('from_functions_to_list_and_addr and friends', M + 'probabilistic_rules/rules.py')])

p('C08', 'Corruption candidates are exactly the words reachable by the allowed bit flips',
  'Generating the candidates for a range (or several ranges) of corrupted bits yields every word that agrees with the '
  'original outside the ranges, each once, with the original first. Random corruption of n bits yields the 2^n distinct '
  'words over n distinct bits inside the allowed range, original first, and field-wise corruption only touches the condition, '
  'register or opcode bits it was allowed to touch, never exceeding the total amount of errors and never dropping the original; every bit of the range, and every distribution of the errors, is possible.',
  'inputs', 'every original word, every bit range, every outcome of the random draws',
  'The tests draw at random and check a few counts for one word.',
  C + 'corruption.py', [('corrupt_all_bits, corrupt_all_bits_tuples, corrupt_bits, corrupt_instruction', C + 'corruption.py')])

p('C09', 'Corrupting a program hits exactly the requested share of instructions',
  'Corrupting p percent of a program corrupts exactly the requested share of its instructions (rounded up, at least one), wherever they '
  'are in memory; the rest of the program is untouched. Each corrupted address keeps its original '
  'instruction first, and has only candidates at that address that differ from it in at most the allowed number of bits; percentages outside 0..100 are rejected. Every instruction may be hit or spared, in any of its bits, with one error or as many as allowed.',
  'inputs fault_sequences', 'every random draw, program size and layout, percentage and amount of errors',
  'The tests corrupt one program once with random draws, and cannot see addresses never reached.',
  C + 'corruption.py ' + C + 'corruptors.py', [('corrupt_program', C + 'corruption.py')])

p('C10', 'Predicted errors are exactly the bits carried by the lost packets',
  'For every packet order and every set of lost packets, the predicted corrupted bits are exactly the bits of the data '
  'that the lost packets carry, up to the last word of the data, each reported once and none beyond. Losing more packets never removes a predicted bit.',
  'inputs fault_sequences', 'every interleaving order of a number of packets, every set of lost packets, chunk and data sizes',
  'The tests list the expected errors of a few hand-made cases.',
  C + 'corruption.py', [('predict_corruption', C + 'corruption.py')])

p('C11', 'Packet loss turns each word into all words it could have been, original included',
  'After simulating the loss of packets, every address holds each word that agrees with the original on all bits that '
  'were not lost, each once, sorted by encoding and at the same address, so the original is always among them; words '
  'whose bits all arrived keep only the original. Without lost packets to simulate the corruptor refuses to run.',
  'inputs fault_sequences', 'every program content and address layout, packet order and set of lost packets',
  'The tests check the number of candidates of one program and one loss.',
  C + 'corruptors.py ' + C + 'corruption.py', [('PacketCorruptor', C + 'corruptors.py')])

p('C12', 'A corrupted program survives being saved and loaded',
  'Saving a program with its candidates and loading it again gives the same addresses, each with the same candidates in '
  'the same order, as decoded instructions at that address. Corruptors that save to or load from a file use the '
  'file they were given and refuse to run without one.',
  'inputs', 'every address and encoding, every shape of candidate lists up to a small size',
  'The tests save one example, and never the limits of addresses or encodings.',
  C + 'corruption.py ' + C + 'corruptors.py',
  [('save_corrupted_program_to_json, load_corrupted_program_from_json', C + 'corruption.py'), ('JSONCorruptor', C + 'corruptors.py')])

p('C13', 'The two-dimensional interleaving order sends every packet exactly once',
  'For every number of packets, the flat interleaving order contains each packet number from 0 to the number of packets minus one exactly '
  'once, and flat and matrix forms list the same order. Successive packing of a power-of-four square holds every number once and '
  'puts numbers that differ in their lowest base-4 digit in different quadrants.',
  'configurations', 'every number of packets up to the bound',
  'The tests compare three packet counts with literal lists.',
  'semantic_codec/interleaver/interleaver2d.py', [('build_2d_interleave_sp, sucesive_packing', 'semantic_codec/interleaver/interleaver2d.py')])

p('C14', 'Interleaving and deinterleaving without losses returns the data',
  'Splitting data into packets with any order and any chunk size that divides a word, and putting the packets back '
  'together with the same order, returns the same words (at most one word of zero padding follows) and reports no errors. Every packet carries '
  'exactly the chunks assigned to it by the order, and the caller\'s data and order are not modified.',
  'inputs', 'every data, every order of the packets, several chunk sizes, packet counts and data lengths',
  'The tests interleave a few fixed lists with one order.',
  'semantic_codec/interleaver/interleaver2d.py ' + A + 'bits.py', [('interleave, deinterleave', 'semantic_codec/interleaver/interleaver2d.py')])

p('C15', 'Losing packets damages and reports exactly the chunks they carried',
  'When packets are missing, deinterleaving returns every other chunk of the data intact, a zero in place of each lost chunk, and '
  'reports the word and bit of exactly the lost chunks, in order, as long as at least one packet arrived, whichever it is and however the loss is expressed. '
  'When every packet is lost it says so.',
  'inputs fault_sequences', 'every data, order and set of lost packets',
  'The tests lose one given packet of one example.',
  'semantic_codec/interleaver/interleaver2d.py', [('deinterleave', 'semantic_codec/interleaver/interleaver2d.py')])

p('C16', 'Program metadata counts what the program contains',
  'The metadata of a program counts, over its defined instructions, how many use each condition, each opcode and each '
  'storage, and gives for each storage the minimum, maximum and mean distance between a write and the next read of it. The list of distinct instructions '
  'holds each encoding once in descending order; undefined instructions count nowhere, and the totals are consistent with each other.',
  'programs', 'every sequence of a few instructions with any condition, opcode and storages',
  'The tests count one program.',
  M + 'metadata_collector.py', [('MetadataCollector.collect', M + 'metadata_collector.py')])

p('C17', 'Candidate metadata counts addresses, not candidates',
  'For a program with several candidates per address, the metadata counts for each condition, opcode and storage the number '
  'of addresses with at least one defined candidate that has it, once per address. Collecting again starts from zero, and the count '
  'never exceeds the number of addresses.',
  'programs', 'every program of a few addresses and candidates with any fields',
  'The tests look at a single corrupted program.',
  M + 'metadata_collector.py', [('CorruptedProgramMetadataCollector.collect', M + 'metadata_collector.py')])

p('C18', 'Recovery never discards the original instruction',
  'Whatever a program is corrupted into, as long as every address still lists its original instruction, a pass of the '
  'probabilistic recovery gives no original defined instruction a score of zero, nor a lower score than one that eliminates it, and removing the '
  'bad candidates keeps the original at every address.',
  'programs fault_sequences', 'every small program, every set of candidates per address that contains the original, functions and branches included',
  'The tests run the recovery on one program and look at a number of candidates.',
  M + 'recuperator.py recover_program.py', [('ProbabilisticRecuperator.recover', M + 'recuperator.py'), ('remove_bad_candidates_at_addr', 'recover_program.py')])

p('C19', 'Recovery scores are probabilities, for every program',
  'Scoring a corrupted program never fails and gives every candidate a score between zero and one, both with the '
  'discarding and with the continuous scoring function, and every individual rule score is between zero and one; undefined candidates score zero when discarding. The scores of condition, opcode '
  'and storages are the share of the addresses that may have it and do have it in the original (for storages, the lowest); a candidate whose condition, opcode or '
  'storages do not exist in the metadata scores zero.',
  'programs', 'every small program with any candidates',
  'The tests score one program.',
  M + 'recuperator.py', [('ProbabilisticRecuperator', M + 'recuperator.py'), ('probabilistic_rules, probabilistic_rules_remove_step', M + 'recuperator.py')])

p('C20', 'Removing bad candidates keeps the certain ones',
  'Removing the bad candidates of an address drops exactly those with score zero and, when some candidate is certain '
  '(score one), all others that are not; the order of the rest is kept and the number returned is the number removed. Doing it again removes nothing.',
  'inputs', 'every list of candidates and every score between zero and one',
  'The existing tests do not call it with chosen scores.',
  'recover_program.py', [('remove_bad_candidates_at_addr', 'recover_program.py')])

p('C21', 'Counting and control-flow rules score by the remaining candidates',
  'The rule scores of the first recovery method depend only on the defined candidates: the control-flow rule rewards a candidate '
  'by the share of neighbours with its condition and punishes unconditional ones by the share that sets flags; the counting rules give each '
  'value the remaining count over its number of candidates. Scores are stored per rule and pass, and a rule reports a change exactly when a score changed.',
  'programs', 'every small program with any candidates and metadata',
  'The tests compare a few scores of a fixed program.',
  M + 'probabilistic_rules/rules.py ' + M + 'probabilistic_rules/counting_rules.py',
  [('ControlFlowBehavior', M + 'probabilistic_rules/rules.py'), ('CountingRule', M + 'probabilistic_rules/counting_rules.py')])

p('C22', 'Unions and intersections of independent events follow probability theory',
  'The probability of the union of independent events equals one minus the product of the complements, and that of the '
  'intersection equals the product, for every list of probabilities. Both lie between zero and one, the order of the '
  'events does not matter, and an empty union is rejected.',
  'inputs', 'every list of probabilities up to the bound',
  'The tests use two fixed lists.',
  'semantic_codec/probability/probabilities.py', [('indep_events_union, indep_intersection', 'semantic_codec/probability/probabilities.py')])

p('C23', 'The exact-count constraint accepts exactly the programs with the right counts',
  'A complete choice of instructions satisfies the constraint exactly when the number of occurrences of every field '
  'value equals the metadata; a partial choice is rejected exactly when some value occurs more often than allowed. Looking ahead only '
  'hides values that no completion can use, and never fails.',
  'inputs histories', 'every metadata, assignment and candidate domain of a few variables',
  'The tests solve two small problems.',
  S + 'solution_builders.py', [('ExactFieldSumConstraint', S + 'solution_builders.py'), ('ProblemBuilder', S + 'solution_builders.py')])

p('C24', 'The forward-constraint solution identifies the original program',
  'Building the constrained solution keeps the original instruction of every address among its candidates, and the '
  'solution decodes to it: the position stored for each ambiguous address is that of the original, stored in enough bits, and the reported size is the '
  'number of bits stored. A program that lost an original is rejected.',
  'programs', 'every small program and set of candidates with the original among them',
  'The tests build the solution of one program.',
  S + 'solution_builders.py', [('ForwardConstraintSolutionBuilder, ForwardConstraintSolutionEnumerator', S + 'solution_builders.py')])

p('C25', 'A solution file gives back the original program and its candidates',
  'Writing a solution and reading it back returns, for every address, the candidates up to and including the original '
  'in their order, and the original itself, for every address and encoding. A file that does not start with the magic '
  'word is rejected on reading, and a program without its original is rejected on writing.',
  'inputs', 'every address and encoding, every position of the original among a few candidates',
  'The tests write and read one program.',
  S + 'solution_io.py', [('SolutionWriter, SolutionReader', S + 'solution_io.py')])

p('C26', 'Solution quality counts the programs that remain possible',
  'The number of solutions is the product of the numbers of candidates per address, the size is its logarithm in base two, and the '
  'distribution counts how many addresses have each number of candidates. The highest depth is the worst relative '
  'position of an original among its candidates sorted by score, and evaluating does not change the other answers.',
  'programs', 'every small program with any number of candidates and any scores',
  'The tests look at one program with a fixed number of candidates.',
  S + 'solution_quality.py', [('SolutionQuality', S + 'solution_quality.py')])

p('C27', 'The control-flow graph holds every instruction once and every possible transfer',
  'In the control-flow graph every defined instruction lies in exactly one block, in address order; consecutive instructions that run in '
  'sequence are joined, a branch with a known target leads to the block that starts with the target, a branch to an unknown '
  'target leads to the end, and conditional instructions can be skipped. No unconditional branch falls through.',
  'programs', 'every program of a few instructions with any conditions and branches',
  'The tests draw the graph of a few fixed programs.',
  SA + 'cfg.py', [('ARMControlFlowGraph', SA + 'cfg.py')])

p('C28', 'Immediate dominators are correct for every flow graph',
  'The immediate dominator computed for every node reachable from the root is the closest node that lies on all paths '
  'from the root to it; the children lists are exactly the inverse relation, and the root has none. The result does not '
  'depend on the order in which nodes and edges were added.',
  'inputs', 'every rooted directed graph up to a number of nodes',
  'The tests use a handful of graphs from textbooks.',
  SA + 'dominators.py', [('build_dominator_tree', SA + 'dominators.py')])

p('C29', 'SSA form gives every use the definition that reaches it',
  'The dominance frontier of a node holds exactly the nodes where its dominance ends, and phi functions are placed for '
  'every variable defined in several places exactly at the iterated frontier. After renaming, every definition has its own version and every '
  'use carries the version of the definition that reaches it on each path.',
  'programs', 'every small flow graph with any definitions and uses of variables',
  'The tests rename two fixed programs.',
  SA + 'ssa.py', [('build_dominance_frontier, build_phi_functions, build_ssa', SA + 'ssa.py')])

p('C30', 'Huffman codes are prefix-free and of minimal size',
  'For every set of symbol frequencies the codes assigned are prefix-free, one per symbol, and their total weighted '
  'length is the minimum of all prefix-free codes; the reported size is that total. Counting frequencies counts each field of each instruction of the program once per occurrence.',
  'inputs', 'every frequency of a few symbols',
  'The tests encode one text and never check optimality.',
  'semantic_codec/compressor/huffman.py', [('encode, huffman_size', 'semantic_codec/compressor/huffman.py')])

p('C31', 'Compression drops exactly the bits announced as lost',
  'The shift compressor output is the data (little-endian words, lowest bit first) with exactly the bits of the listed groups removed, all others '
  'in order, padded to bytes; the swap compressor output is the data with exactly those bits zeroed. Every listed group inside the data is handled, '
  'with its own size when it has one, whatever the order of the list, and the input data is not modified.',
  'inputs', 'every data and every list of distinct bit groups in it',
  'No test runs the compressors; one group left out or shifted by a bit goes unnoticed.',
  'semantic_codec/compressor/shiftcompressor.py', [('ShiftCompressor, SwapCompressor', 'semantic_codec/compressor/shiftcompressor.py')])

p('C32', 'Editing an instruction field changes that field only',
  'With the field operations of the instruction modifier, setting the condition, opcode, a register or the immediate of an instruction word sets exactly that field to the new value and keeps '
  'every other bit, for every word and value; reading the field back from the instruction gives the value set. Setting it again '
  'to the old value restores the word.',
  'inputs', 'every instruction word and every field value',
  'The tests do not cover it: the module needs a disassembler library that is not shipped.',
  A + 'instruction_modifier.py ' + A + 'instruction.py', [('InstructionModifier', A + 'instruction_modifier.py')])

R = M + 'recuperator.py'

p('C33', 'Branch candidates are scored by where they lead',
  'When a program is recovered, every defined branch candidate has exactly one branch score: that of a branch inside its own function when it leads into the '
  'range of the function that contains it (the last function that starts at or before it), else that of a call when it leads to the '
  'start of a known function, else that of any jump, doubled when the target is inside the program or unknown. Candidates that '
  'are not branches, and undefined candidates, have no branch score.',
  'inputs programs', 'every target and address; every list of functions (known, unknown, partial, overlapping) of a few addresses',
  'The tests recover one program; targets exactly at the limits of functions and of the program are not there.',
  R, [('ProbabilisticRecuperator', R)])

p('C34', 'Push and pop candidates are scored by their counterparts in the same function',
  'When a program is recovered, every defined push or pop candidate has a push/pop score: the highest of the rules that apply to it. A push at the start of a '
  'function is rewarded when the last address of that function has a pop candidate, more when one of those pops has the same registers '
  '(the link register pushed is the program counter popped), and when a pop in the middle is directly followed by a branch; a pop is rewarded by the pushes at '
  'the start of its function in the same way; otherwise the score is one divided by the number of instructions that the address may hold. Candidates that are not '
  'instructions count for nothing.',
  'inputs programs', 'every mix of pushes, pops, branches and undefined candidates, register lists and function ranges of a few addresses',
  'The tests recover one program and compare only the quality at the end; wrong rules change scores that no test looks at.',
  R, [('ProbabilisticRecuperator', R)])

p('C35', 'Candidates are scored by the conditions and flags of their neighbours',
  'When a program is recovered, the condition score of every defined candidate (but for the first address) is that of the shares of defined '
  'candidates in the previous address that have its condition or write the flags, and of those in the next address that have its '
  'condition, combined with the probabilities of the model; it is never zero, and candidates that are not instructions count for nothing.',
  'inputs programs', 'every condition and flag of a few neighbouring candidates, gaps and undefined candidates',
  'The tests recover one program; shares are wrong only where undefined candidates or gaps are near.',
  R, [('ProbabilisticRecuperator', R)])

p('C36', 'The register distance score is the probability of a write at a recorded distance',
  'When a program is recovered, the register distance score of a defined candidate that reads a storage is the probability that one of the addresses before it, at a '
  'distance between the recorded minimum and maximum for that storage, wrote it, taking the share of defined candidates that write it as the '
  'probability of each address; the lowest score of the model when nothing may have written it, never zero and never beyond one. Branches, pushes and pops have no such score.',
  'inputs programs', 'every placement of writes, gaps, undefined candidates and recorded distances of a few addresses',
  'The tests recover one program; a distance off by one changes scores that no test looks at.',
  R, [('ProbabilisticRecuperator', R)])

p('C37', 'The report counts every ambiguous address once, as recovered only if it is',
  'Reporting a program counts as errors the addresses with more than one candidate, each once: as recovered exactly when the original scores '
  'better than every other candidate, as lost when another candidate scores better than it. The depths are the places of the originals in the '
  'order of scores. It replaces what the file held, keeps all candidates (best first) and restores the standard output; it works when nothing is ambiguous.',
  'inputs programs', 'every score, the original anywhere or missing, discarded candidates and rule scores present or not, of a few addresses',
  'No test reads the report: the share of recovered instructions is the result of the experiments.',
  'recover_program.py', [('print_report', 'recover_program.py')])

p('C38', 'Recovering a program ends, keeps the original and writes both solutions',
  'For every program and every corruption of it whose candidates include the original, running the recovery terminates without failing, restores the '
  'standard output, keeps at every address a part of the candidates that includes the original, sorted by score, and writes the initial and the final '
  'solution, each listing per address the candidates in their order and ending with the original. It ends with a pass that leaves nothing to discard.',
  'inputs programs', 'every condition, opcode, storage, branch target and register list of a few candidates, in one or two functions, and real instructions',
  'No test runs the whole recovery: it failed after a complete recovery.',
  'recover_program.py', [('run_recovery', 'recover_program.py')])

p('C39', 'Blaum interleaving keeps the cells of a packet apart',
  'The two-dimensional interleaving matrix has the size asked for and a packet of the message in every cell. As many cells in a row as there are packets are all of different '
  'packets, and for (t*t+1)/2 packets, t odd, two cells of the same packet are at least t steps apart.',
  'inputs', 'every pair of cells of matrices of up to 24 x 20 cells and up to 25 packets',
  'No test looks at it: losing a packet is harmless only if what is lost is not together.',
  'semantic_codec/interleaver/interleaver2d.py', [('build_2d_interleave_matrix_blaum', 'semantic_codec/interleaver/interleaver2d.py')])

p('C40', 'The simulation of packet loss gives the candidates the receiver would have',
  'When interleaved data loses packets, what deinterleaving returns and reports as lost leaves the receiver a set of words each of its words could have been. The original is '
  'always one of them, and they are exactly the candidates the simulated loss of the same packets gives the program, apart from losses at the end of a word (C10).',
  'inputs fault_sequences', 'every data and choice of lost packets within a few words and up to 40 packets',
  'Each side is tested alone, on samples; that both agree is what makes the experiments valid.',
  'semantic_codec/interleaver/interleaver2d.py semantic_codec/corruption/corruptors.py',
  [('interleave', 'semantic_codec/interleaver/interleaver2d.py'), ('PacketCorruptor.corrupt', 'semantic_codec/corruption/corruptors.py')])

p('C41', 'Storing a program writes all of it, and all of it but the lost packets',
  'store_packets reads a disassembly and writes two files: one holds every instruction of the program in order, four bytes each, least significant first; the other is the same '
  'with the bits carried by the lost packets (the first fifth of the packets, in the interleaving order) cleared and every other bit left alone, apart from the bits at the limit of '
  'two words (C10). It works for programs of any length and reports a file that is missing.',
  'inputs programs', 'every program of every length within the bounds, with every encoding',
  'No test runs the script: it failed with most lengths.',
  'store_packets.py semantic_codec/compressor/shiftcompressor.py semantic_codec/corruption/corruption.py semantic_codec/architecture/disassembler_readers.py',
  [('main program', 'store_packets.py'), ('SwapCompressor', 'semantic_codec/compressor/shiftcompressor.py')])

p('C42', 'The first recovery method scores every ambiguous address, rule by rule',
  'The first recovery method (Recuperator) scores the candidates of every address with several candidates once per rule and pass, and leaves all other addresses and the order of the '
  'candidates alone; with several passes it sets aside exactly the candidates of those addresses that some rule scored zero or less. Its register distance rule looks at the addresses '
  'at a recorded distance (between the least minimum and the largest maximum of the storages read): for each storage read it takes the best, over the defined '
  'candidates there that write it, of one divided by the number of storages written and the number of defined candidates of that address, and the score is the mean '
  'over the storages read, never zero and never beyond one. Undefined candidates score zero, and a rule reports a change exactly when a score changed.',
  'inputs programs', 'every placement of writes among a few addresses, every recorded distance, every mix of fields of the candidates',
  'The only test of the distance rule does not pass, and no test checks a value: the rule looked one instruction too near.',
  M + 'probabilistic_rules/distance_rule.py ' + M + 'recuperator.py',
  [('RegisterReadDistance.recover', M + 'probabilistic_rules/distance_rule.py'), ('Recuperator.recover', M + 'recuperator.py')])

NA = {}
LEVELS = {}


def main():
    import importlib
    import sys
    sys.path.insert(0, VERIF)
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    checks, na = [], []
    for q in P:
        i = q['id']
        if os.path.exists(os.path.join(VERIF, 'harness', i.lower() + '.py')) and i not in NA:
            m = importlib.import_module('harness.' + i.lower())
            checks.append(dict(property=i, quick_cmd='python3-vt run_check.py %s quick' % i,
                               thorough_cmd='python3-vt run_check.py %s thorough' % i,
                               technique='symbolic execution of the real source; SMT solver (z3) decides each assertion',
                               level='model_checking',
                               level_note='bounded: %s. Outside: %s' % (m.BOUNDS, m.OUTSIDE)))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
    man = dict(version=1, setup_cmd='python3-vt -c "import z3, capstone_probe" 2>/dev/null || python3-vt -c "import z3"',
               checks=checks, not_applicable=na,
               notes='Every check symbolically executes the current sources of /repo; see DESIGN.md')
    man['setup_cmd'] = 'python3-vt -c "import z3"'
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
