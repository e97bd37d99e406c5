"""setup_cmd: nothing persistent is needed (every check builds what it uses);
verify that the tools are there and that the Java override of module Rat agrees
with its pure TLA+ definition."""
import sys, shutil
from check import Ctx, model_job, VERIF
c = Ctx('setup', 'quick')
try:
    r = model_job(c, 'RatTest', open(VERIF + '/spec/RatTest.cfg').read(), 'Rat')
    print('Rat override agrees with RatPure on', r['distinct'], 'pairs')
finally:
    shutil.rmtree(c.work, ignore_errors=True)
