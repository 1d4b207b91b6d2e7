#!/usr/bin/env python3
"""Builds the driver and the third-party crates the witnesses need, so that the checks only rebuild the analysed crates."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/analyzer")
import build
try:
    build.driver()
    build.dump(build.stage("wcore"), ["wcore"], features="const_generics", tag="wcore")
except build.BuildError as e:
    # the checks build what is missing themselves and report what it means
    print("setup: %s\n%s" % (e.what, e.log[-2000:]))
