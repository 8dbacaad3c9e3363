import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)      # z3, cvc5: appended, so numpy/pandas stay the target's own
