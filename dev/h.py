import sys, json, time
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/checks')
from prog import Program
import interp as IP
from interp import *
import lin as L
def prog(f='/tmp/o.json'): return Program(json.load(open(f)))
