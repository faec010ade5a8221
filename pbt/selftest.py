"""The oracle against sympy (an independent implementation).  Not a property check; run by hand or from setup."""
import random
import sys

import sympy

from . import exact as X


def main(n=300):
    rnd = random.Random(7)
    x = sympy.Symbol('x')
    for i in range(n):
        def rp(d):
            while True:
                p = X.norm([rnd.randint(-5, 5) for _ in range(rnd.randint(1, d) + 1)])
                if len(p) > 1:
                    return p
        p, q = rp(3), rp(3)
        if rnd.random() < 0.5:
            p = X.mul(p, rp(2))
            q = X.mul(q, p) if rnd.random() < 0.3 else q
        sp = sympy.Poly([sympy.Rational(c.numerator, c.denominator) for c in reversed(p)], x)
        sq = sympy.Poly([sympy.Rational(c.numerator, c.denominator) for c in reversed(q)], x)
        rr = X.roots(p)
        assert len(rr) == len(set(sp.real_roots())) == sp.count_roots(), p
        want = 0
        for lo_hi, r in zip(sorted(set(sp.real_roots()), key=lambda r: r.evalf(50)), rr):
            v = sq.as_expr().subs(x, lo_hi)
            e = v.evalf(80)
            g = sympy.gcd(sp, sq)
            z = g.degree() > 0 and abs(g.as_expr().subs(x, lo_hi).evalf(80)) < 1e-40
            s = 0 if z else (1 if e > 0 else -1)
            want += s
            assert r.sign(q) == s, (p, q)
        assert X.tarski(p, q) == want
    print('selftest: %d polynomial pairs agree with sympy' % n)


if __name__ == '__main__':
    main(int(sys.argv[1]) if len(sys.argv) > 1 else 300)
