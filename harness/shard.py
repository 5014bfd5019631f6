# -*- coding: utf-8 -*-
"""One Jython process of a check: shard.py PROP TIER SEED SHARD NSHARDS OUT [CASE]"""
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, ROOT)

from harness import core  # noqa: E402

if __name__ == '__main__':
  core.main(sys.argv[1:], ROOT, REPO)
