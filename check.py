"""python check.py C01 [--tier quick|thorough] [--replay FILE]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mc import env
if __name__ == "__main__":
    env.reexec()
    from mc import engine
    sys.exit(engine.main(sys.argv[1:]))
