"""C14: bounded stand-in only so far."""
ID = 'C14'
HARNESS = {'src': ['C14.cc'], 'seconds': 60}
LEVEL = 'exploration'
TECHNIQUE = 'bounded execution of the real functions against an exact oracle (stand-in, not a proof)'
NOTE = 'Bounded: seeded cases only; nothing is claimed as proved.'
