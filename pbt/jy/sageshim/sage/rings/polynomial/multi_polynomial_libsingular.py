from sagelite import Poly as MPolynomial_libsingular
