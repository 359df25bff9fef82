"""Nothing to compile: verify that the interpreter and the code under test are usable."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
core.import_repo()
os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
print("setup ok:", sys.version.split()[0])
