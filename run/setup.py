"""Builds everything once so a missing tool is noticed early."""
import sys

sys.dont_write_bytecode = True

import lib

lib.build_driver()
lib.build_python()
print("ready")
