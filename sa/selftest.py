"""Setup: check that the analyser loads and that it tells right from wrong on a
tiny positive example (a rule that can never fire would pass forever)."""
import sys
import threading
from . import scenario as SC
from .run import ROOT, bigstack


def main():
    def good(S):
        n = S.int('n')
        S.expect(S.call('V', n), [S.ip.tostr(n)], 'V(int)')

    def bad(S):
        S.expect(S.call('V', S.str('s')), ["'", S.str('s'), "'"], 'V(str) without escaping')
    r1 = SC.explore('selftest good', good, root=ROOT)
    r2 = SC.explore('selftest bad', bad, root=ROOT)
    print(r1.to_json())
    print(r2.to_json())
    return 0 if (r1.status, r2.status) == ('ok', 'violation') else 1


if __name__ == '__main__':
    sys.exit(bigstack(main))
