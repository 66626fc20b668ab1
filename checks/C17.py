"""C17: bounded stand-in only so far."""
ID = 'C17'
HARNESS = {'src': ['C17.cc'], 'seconds': 60}
LEVEL = 'exploration'
TECHNIQUE = 'bounded execution of the real functions against an exact oracle (stand-in, not a proof)'
NOTE = 'Bounded: seeded cases only; nothing is claimed as proved.'
