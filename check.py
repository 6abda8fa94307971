#!/opt/venv/bin/python
"""python check.py <property> [--tier quick|thorough]   (VERIF_SEED, VERIF_TIER)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import env  # noqa: F401,E402
from harness.main import main  # noqa: E402
sys.exit(main())
