#!/usr/bin/env python3-vt
"""setup_cmd: nothing to build; check that the tools the checks need are there."""
import sys, z3
print('python', sys.version.split()[0], 'z3', z3.get_version_string())
