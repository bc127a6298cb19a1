"""Sanity of the engine: one provable and one refutable obligation, both back ends present."""


def main():
    from . import core
    from .core import z3, Session, explore, cur, Int
    s = Session()

    def run():
        a = Int('a')
        cur().prove('t', (a * a).t >= 0)
        cur().prove('f', a.t > 0)
    explore(s, run)
    assert [o.status for o in s.obls] == ['discharged', 'refuted'], s.obls
    x = z3.Int('x')
    assert core._cvc5_check([x > 0, x < 0], 2000) == 'unsat'
    print('selftest ok')
    return 0
