"""Writes DESIGN.md: the prose below, and per property what its harness declares (bounds, outside, assumptions)."""
import importlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

INTRO = '''# Design

Solver-based checking of marcelinorc/semantic-recovery: the real Python functions are executed symbolically from their source, the property is an
assertion over the symbolic inputs, z3 decides it for all values of each path, and every counterexample is replayed on the real code before it is
reported. (This file is written by `tools/design.py`; properties.jsonl and MANIFEST.json by `tools/props.py`.)

## How a check works

`python3-vt run_check.py C07 quick` (or `thorough`):

1. **Encode.** `sx/env.py` reads the sources of /repo at that moment; `sx/transform.py` rewrites their syntax tree so that every operator, comparison,
   branch, loop test, subscript, call of a builtin and literal container goes through `sx/rt.py`. The harness (`harness/c07.py`) is rewritten in the same way. Nothing of
   the code under test is copied into /verif: a check sees any change of the source, and a refactoring that keeps the behaviour encodes to an equivalent formula.
2. **Execute on symbolic values.** `sx/values.py`: integers as bit-vectors with tracked ranges (widened so that they never wrap), booleans, reals; `sx/strs.py`:
   strings and bytes whose characters may be symbolic; `sx/cont.py`: dictionaries and sets with symbolic keys. A branch on an undecided condition asks z3
   which sides are feasible and forks; simple if-statements and conditional expressions are merged into if-then-else terms. Loops are unrolled as far as the path condition allows. `sx/driver.py`
   explores all paths, depth first, on all cores, every path in freshly loaded modules.
3. **Decide.** `h.check(cond, msg)` asks z3 whether the negation of `cond` is satisfiable together with the path condition. Unsatisfiable: the assertion holds for
   every value of the path. Satisfiable: the model is a candidate counterexample. An unexpected exception or a path that exceeds its time is a candidate too. `unknown` ends the check with exit 3 (no answer), never with a pass.
4. **Replay.** Candidates run on the unmodified code under /opt/venv (`replay.py`), with the same harness and concrete values. Only a candidate that fails there is reported
   (`VIOLATION property=.. replay=..`, exit 1); an assertion that fails symbolically but not in the replay ends the check with exit 3, because then the encoding is wrong. A few models of passing paths of every configuration are
   replayed as well, which validates the encoding on each run (`traces_validated_against_impl` in the evidence).
5. **Possibilities.** `h.reach(cond, label)` asks the opposite question: some input of some path must make `cond` true (every instruction may be hit by random corruption, every bit flipped).
   When the solver finds it unsatisfiable on every path, that is a violation; since there is no input to replay, the replay runs the real code on many random inputs and draws and confirms only if it never happens there either.
6. **Again.** Some configurations of each harness run a second time ("... again"), after the same harness ran in the same process with fixed, other inputs: what an
   earlier use leaves behind (a memo, a shared list, a default argument) must not change what holds of the next one.
7. **Evidence.** evidence/CNN.json: functions encoded, bounds, paths, assertions, queries, solver time, paths cut at a bound and why, configurations without any assertion (`vacuous`, must be empty).

The quantification is the solver's: inputs, random draws, losses, orders, graph edges, instruction fields are solver variables. Sizes (how many addresses, candidates, packets, nodes) are
fixed per configuration, and the configurations of a harness enumerate them up to the bound. Where a value selects structure (an index of a list, a dictionary key) execution forks on
the values the solver finds feasible, up to `max_conc`; the fork is exhaustive or the path is counted as cut.

### Stand-ins

| outside the repository | stand-in | why it is right |
|---|---|---|
| capstone | `sx/capstub.py` with encoding templates `sx/armtpl.py`: word layout and decoded operands of 73 forms from the ARM manual | `tools/validate_templates.py` compares every template with the real decoder for all register values and a spread of immediates; replays use the real capstone |
| instructions, where only the interface matters | `harness/fakes.py`: subclass of the real Instruction with arbitrary fields | every consumer of the interface is checked for arbitrary fields, which includes those that decoding produces |
| random | `sx/rndmodel.py`: each draw is a fresh symbolic value of its range; bounded number of draws | any outcome of the generator; the same model replaces random in the replay |
| struct, math, json, re, collections, open, bitarray | symbolic versions in `sx/env.py`, `sx/bitstub.py` | replays use the real ones |
| pygraph, constraint | the installed library, executed as it is | third party, trusted |
| libs.darm | a module that cannot be called | not shipped with the repository, so nothing that needs it can run (modify_register, DARMInstruction): outside |

Floating point: reals are exact in the encoding, so a property about probabilities is decided over real numbers, and comparisons of results that rounding can affect use a tolerance in the replay. Float rounding itself is outside
(one rounding defect was found by the concrete-percentages configurations of C09, which compute with floats).

### Quiet on refactorings

Assertions speak of inputs and results of public functions and classes only; private helpers are not called. Encoding failures (a Python feature that the engine does not support, met only in changed code) do not raise alarms: the path is
reported as not encoded and the check stays quiet if everything else holds; on the unchanged tree `SX_STRICT=1` makes such a path an error, and none exists.

'''

ENTRIES = {
 'C01': ('masks and copies compared with shifts and masks written per bit', 'over all words and ranges at once; the existing tests sample a few'),
 'C02': ('the list of chunks put in; a one-step check of every queue position; drains after every history', 'chunks crossing a word boundary at every offset'),
 'C03': ('the value whose digits are the symbolic characters of the text', 'every word, case and layout of blanks'),
 'C04': ('address + 8 + 4 * signed offset modulo 2^32', 'every offset and address, and that other instructions have no target'),
 'C05': ('per encoding form, the sets that the operands give: registers, stack pointer, memory, flags, program counter', 'every register choice of every form'),
 'C06': ('the lines the text was generated from', 'symbolic addresses, words and file arrangements'),
 'C07': ('the multiset of the instructions given; first and last by comparison', 'every placement, including interleaved functions and gaps'),
 'C08': ('the set of words equal to the original outside the ranges, each once', 'every word, range and outcome of the draws'),
 'C09': ('number of changed addresses against the ceiling of the share; Hamming distance of every candidate', 'every outcome of the draws; addresses that could never be reached were found this way'),
 'C10': ('position arithmetic: chunk k of the data travels in packet order[k mod n]', 'every order and set of losses; the known finding at the end of a word'),
 'C11': ('all words that agree with the original on the bits that arrived', 'every content and layout; original included for every loss'),
 'C12': ('the program that was saved', 'every address and encoding, including the limits'),
 'C13': ('two symbolic positions never hold the same packet; every number in range; the recursive definition of the square', 'every packet count of the bound, not three'),
 'C14': ('the data that was interleaved; the chunks the order assigns to each packet', 'every data and order'),
 'C15': ('the data with zeros in place of the chunks of lost packets, and their positions', 'every set of losses, including first, last and all but one'),
 'C16': ('counting over the list of stand-ins; distances by a scan per storage', 'every sequence of reads and writes'),
 'C17': ('number of addresses with some defined candidate with the field', 'any fields on any candidate'),
 'C18': ('the original of each address', 'every original position and every field variation of the bound: this is where four elimination defects were found'),
 'C19': ('range of every score; shares computed from the two collectors\' definition', 'no exception for any program of the bound'),
 'C20': ('the list of candidates filtered by its definition', 'every combination of scores, including exactly 0 and 1'),
 'C21': ('the rule computed from shares of defined candidates', 'neighbours with any fields, gaps, undefined candidates anywhere'),
 'C22': ('one minus the product of complements; permutations; range', 'every list of reals'),
 'C23': ('counts of the chosen candidates; for hidden values, every completion', 'any assignment, including partial ones and repeated use of the solver'),
 'C24': ('decoding of the stored bits', 'original anywhere, any number of candidates'),
 'C25': ('the program written, read back from the bytes', 'every address, encoding and position'),
 'C26': ('product of lengths; ranks by comparison of scores', 'any scores and order of the questions asked'),
 'C27': ('a reference semantics of "which instruction may run after which", computed per program by the harness from the fields', 'every combination of kinds, conditions and targets'),
 'C28': ('dominance by definition: reachability without a node', 'every graph of the bound (edges are solver variables)'),
 'C29': ('dominance frontier and iterated frontier by definition; reaching definitions along the paths', 'every graph, definitions and uses'),
 'C30': ('every assignment of code lengths that satisfies the Kraft equality', 'every frequencies, ties included'),
 'C31': ('the list of bits of the data without (or with zeros at) the positions of the groups', 'every position of the groups, overlapping, crossing words and beyond the end'),
 'C32': ('the word with the field replaced, and the tables of the manual', 'every word and value'),
 'C33': ('the rule computed from the list of functions and the target', 'targets at, before and beyond every limit'),
 'C34': ('the rules computed from the lists of candidates by definition', 'every mix, with gaps and undefined candidates: five defects were found'),
 'C35': ('shares counted over the defined neighbours', 'every condition and flag'),
 'C37': ('the figures recomputed from the scores by definition', 'every order and tie of scores; the report failed when nothing was ambiguous'),
 'C38': ('the solution files decoded by their format, the candidates given and the original', 'the whole run from functions to files, on every program within the bounds'),
 'C40': ('each of the two sides for the other, with the original data', 'every choice of lost packets and every data at once'),
 'C41': ('the bits of the program, and the interleaving order', 'the whole script, from the text to the bytes of both files'),
 'C42': ('the rule computed from the lists of candidates by definition', 'every placement of writes and every recorded distance: three defects were found'),
 'C39': ('the distance between two cells whose position is a solver variable', 'every pair of cells, for every number of packets within the bounds'),
 'C36': ('one minus the product of complements over the addresses in the distance', 'every placement of writes and every recorded distance'),
}

OUTRO = open(os.path.join(VERIF, 'tools', 'design_notes.md')).read()


def cost(i):
    f = os.path.join(VERIF, 'tools', 'costs.json')
    c = json.load(open(f)) if os.path.exists(f) else {}
    return c.get(i)


def main():
    from tools.props import P
    out = [INTRO, '## Properties\n\nEach line names the oracle, why the check reaches what the tests cannot, and what the harness declares.\n']
    for q in P:
        i = q['id']
        out.append('\n### %s %s\n' % (i, q['title']))
        try:
            m = importlib.import_module('harness.' + i.lower())
        except ImportError:
            out.append('Not claimed yet.\n')
            continue
        o, w = ENTRIES.get(i, ('', ''))
        out.append('- Decided by: symbolic execution of %s.\n' % ', '.join('`%s`' % x['name'] for x in q['anchors']['mechanism']))
        if o:
            out.append('- Oracle: %s.\n- Reaches: %s.\n' % (o, w))
        out.append('- Bounds: %s.\n- Outside: %s.\n' % (m.BOUNDS, m.OUTSIDE))
        if m.ASSUMES:
            out.append('- Assumes: %s.\n' % '; '.join(m.ASSUMES))
        if cost(i):
            out.append('- Cost (8 cores): %s.\n' % cost(i))
    out.append('\n' + OUTRO)
    sd = os.path.join(VERIF, 'seeded')
    out.append('\n## Planted bugs\n\nKept under seeded/ (patch, demonstration, meta.json). "Caught" is the quick check of the property named.\n\n'
               '| bug | property | needs | caught |\n|---|---|---|---|\n')
    res = json.load(open(os.path.join(VERIF, 'tools', 'caught.json')))
    for d in sorted(os.listdir(sd)):
        meta = json.load(open(os.path.join(sd, d, 'meta.json')))
        out.append('| %s | %s | %s | %s |\n' % (d, meta['property'], meta['needs'].replace('|', '/').replace('\n', ' '), res.get(d, 'not run')))
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
        f.writelines(out)


main()
