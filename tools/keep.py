"""keep.py <id> <dir>: write the tree of one rewrite"""
import shutil
import sys
import refactorings
from refactor import apply
e = [x for x in refactorings.ALL if x[0] == sys.argv[1]][0]
shutil.rmtree(sys.argv[2], ignore_errors=True)
shutil.copytree('/repo', sys.argv[2], ignore=shutil.ignore_patterns('.git'))
apply(sys.argv[2], e)
