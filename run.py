#!/usr/bin/env python3
"""run.py CNN [--tier quick|thorough] [--seed N] [--replay FILE] [-v]"""
import os,sys
sys.dont_write_bytecode=True
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"lib"))
import harness
sys.exit(harness.main())
