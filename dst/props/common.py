HIST_REAL = ['causetevent.py', 'causet.py (all code called by the operations)',
             'numpy']
HIST_STUB = ['CausetEvent.__hash__ (seeded instead of id based, so that set '
             'iteration order is a simulator decision)']
HIST_ASSUME = [
    'Sampling: a clean run is evidence over the explored histories, not proof.',
    'Histories respect the documented preconditions (see the quantifier of '
    'the property).',
    'Event pools of up to a few dozen events.']
STATE = 'distinct reference orders (labelled past masks) reached'
