#!/usr/bin/env python3
"""Builds the harness once, so that the Go build cache is warm; checks rebuild it from /repo's tree."""
import lib, shutil, sys
c = lib.Check("setup")
try:
    c.build(), c.build(race=True)
finally:
    shutil.rmtree(c.dir, ignore_errors=True)
