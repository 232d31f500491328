"""python run.py <property> [--tier quick|thorough] [--replay file]"""
import sys, os, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    mod = importlib.import_module('mc.checks.' + sys.argv[1].lower())
    sys.exit(mod.run())
