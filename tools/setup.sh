#!/bin/bash
# Nothing to build: checks the interpreters are there and compares the oracle with sympy.
cd "$(dirname "$0")/.." || exit 2
mkdir -p evidence
test -x /usr/lib/jvm/java-21-openjdk-amd64/bin/java && PYTHONDONTWRITEBYTECODE=1 /opt/veriftools/pyvenv/bin/python -m pbt.selftest 60
