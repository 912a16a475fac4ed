import os
import sys

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)  # appended, so the project venv's numpy & co win
