#!/usr/bin/env python3
"""Checks that everything the checks need is here, by building both monitors."""
import os, shutil, sys, types
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
for pkg in ("mon", "monu"):
    for race in (False, True):
        work = os.path.join(HERE, ".build", "setup-%s-%s-%d" % (pkg, race, os.getpid()))
        os.makedirs(work)
        try:
            check.build(types.SimpleNamespace(repo="/repo"), dict(bin=pkg, race=race), work, check.goenv())
            print("built", pkg, "race" if race else "plain")
        finally:
            shutil.rmtree(work, ignore_errors=True)
