"""Rewrites the "fixed:" lines of known_findings.txt from the fix commits of /repo; the property of each commit is listed here."""
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [('the report failed', 'C37'), ('BitQueue corrupted', 'C02'), ('registers_used dropped', 'C05'), ('store instructions were', 'C05'), ('jumping_address was', 'C04'),
        ('functions without instructions', 'C07'), ('corrupt_bits did', 'C08'), ('corrupt_program', 'C09'), ('predict_corruption', 'C10'),
        ('PacketCorruptor', 'C11'), ('corrupt_all_bits_tuples', 'C08'), ('deinterleave', 'C15'), ('the discarding score elim', 'C18'),
        ('the discarding score could', 'C19'), ('candidates were taken', 'C18'), ('the push/pop probability', 'C19'),
        ('scoring a', 'C19'), ('counting rules', 'C21'), ('the exact sum', 'C23'), ('solutions were stored', 'C24'),
        ('the number of solutions', 'C26'), ('evaluating the quality', 'C26'), ('candidates were not sorted', 'C26'),
        ('the range of a function', 'C07'), ('the dominators', 'C28'), ('computing the dominators', 'C28'), ('the control-flow', 'C27'),
        ('jumps to conditional', 'C27'), ('branches to undefined', 'C27'), ('bx and other', 'C05'), ('the register with the amount', 'C05'), ('the names given', 'C29'),
        ('the SSA form', 'C29'), ('the first lost group', 'C31'), ('the compressors', 'C31'),
        ('pops were never found', 'C34'), ('a push was rewarded', 'C34'), ('candidates that are not instructions changed the score of pushes', 'C34'),
        ('candidates that are not instructions changed the score of the', 'C35'), ('writes at less than', 'C36'),
        ('instructions that write the flags', 'C35'), ('the Blaum', 'C39'), ('store_packets', 'C41'), ('the register distance rule', 'C42')]


def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
    lines = []
    for l in log:
        h, s = l.split(' ', 1)
        if s.startswith('fix: '):
            s = s[5:]
            p = [q for k, q in PROP if s.startswith(k)]
            if not p:
                raise SystemExit('no property for: ' + s)
            lines.append('fixed: property=%s %s %s\n' % (p[0], h, s))
    f = os.path.join(VERIF, 'known_findings.txt')
    keep = [l for l in open(f) if not l.startswith('fixed:')]
    open(f, 'w').writelines(keep + lines)


main()
