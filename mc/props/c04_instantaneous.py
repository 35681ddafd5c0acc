"""C04: instantaneous aggregation picks the right message."""
from .. import aggcheck as ac

PROPERTY, LEVEL = 'C04', 'exploration'
TECHNIQUE = 'bounded exhaustive exploration of message histories, compared with an executable reference model'
NOTE = 'Complete within bounded message sets, steps, periods and orders; values are unit fields so each output reveals its exact linear form.'
RULE = ('every set of message steps within the horizon x message order x missing-value variant, and inside each: every start, '
        'end, aggregation step, and step type; each message is a unit field, so the whole linear operator and '
        'its dependence on missing values are compared with the reference; plus executions of the command line tool. '
        'non-trivial: at least one expected output map')
ASSUMPTIONS = ['start is 0 or at least one aggregation step; end does not exceed the last message',
               'the reference model mc/ref.py restates the property']
CHUNK = 8


def cases(tier):
    return ac.cases(tier, 'instantaneous')


def setup(ws):
    ac.setup(ws, 'instantaneous')


def check(case, ws):
    return ac.check(case, ws)
