"""setup.py : builds the framework from the committed files (the checks build again what changed)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
try:
    print("built in %.0f s" % lib.build()[1])
except lib.BuildError as e:
    print(e)
    sys.exit(1)
