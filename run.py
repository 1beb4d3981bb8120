#!/usr/bin/env python3
"""python3 /verif/run.py <property id> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import vlib, checks
if __name__ == '__main__':
    sys.exit(vlib.main(sys.argv, checks.REGISTRY))
