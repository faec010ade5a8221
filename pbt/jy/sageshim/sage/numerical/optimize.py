def minimize(*a, **k):
    from sagelite import Missing
    raise Missing('sage.numerical.optimize.minimize')
