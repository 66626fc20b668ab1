"""C25: bounded stand-in only so far."""
ID = 'C25'
HARNESS = {'src': ['C25.cc'], 'seconds': 60}
LEVEL = 'exploration'
TECHNIQUE = 'bounded execution of the real functions against an exact oracle (stand-in, not a proof)'
NOTE = 'Bounded: seeded cases only; nothing is claimed as proved.'
