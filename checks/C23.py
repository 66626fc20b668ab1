"""C23: bounded stand-in only so far."""
import os
from kvc.driver import REPO
ID = 'C23'
HARNESS = {'src': ['C23.cc'] + [REPO + '/cli/' + f for f in sorted(os.listdir(REPO + '/cli')) if f.endswith('.cc')], 'srcflags': {'main.cc': ['-Dmain=kigumi_main']}, 'seconds': 60, 'link': ['-lboost_program_options']}
LEVEL = 'exploration'
TECHNIQUE = 'bounded execution of the real functions against an exact oracle (stand-in, not a proof)'
NOTE = 'Bounded: seeded cases only; nothing is claimed as proved.'
