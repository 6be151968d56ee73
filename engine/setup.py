"""sanity of the tool chain; nothing is built"""
import sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, HERE)
import z3, cvc5, numpy, scipy
import contracts
from engine import contract as K
contracts.load_all()
print("z3", z3.get_version_string(), "contracts", len(K.CONTRACTS))
