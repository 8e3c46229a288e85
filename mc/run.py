"""Entry point: run.py <property id> [--tier quick|thorough] [--replay FILE]"""

import importlib
import sys

import core

core.bootstrap()
mod = importlib.import_module("props." + sys.argv[1].lower())
sys.exit(core.main(mod, sys.argv[2:]))
