"""Nothing to build: verifies that the interpreter, Hypothesis and the code under test import."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt"))
import core, hypothesis, torch
print("setup ok: hypothesis %s, torch %s, gradslam from %s" % (hypothesis.__version__, torch.__version__, core.REPO))
