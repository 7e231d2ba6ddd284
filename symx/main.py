import sys
import logging
logging.disable(logging.CRITICAL)
# z3 lives in the verification venv (same CPython 3.12); numpy & co. must come from /opt/venv
sys.path[:] = [p for p in sys.path if not p.endswith('/symx')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from symx.runner import main
sys.exit(main())
