#!/usr/bin/env python3
"""Decides one property of /repo's current working tree: check.py <id> [--tier quick|thorough]"""
import os, sys, time, json, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/analyzer")
import runner

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
