"""C02: accumulation equals the difference of the accumulated field, for every layout of messages within a horizon."""
from .. import aggcheck as ac

PROPERTY, LEVEL = 'C02', 'exploration'
TECHNIQUE = 'bounded exhaustive exploration of message histories, compared with an executable reference model'
NOTE = 'Complete within bounded message sets, steps, periods and orders; values are unit fields so each output reveals its exact linear form.'
RULE = ('every set of message steps within the horizon x message order x missing-value variant, and inside each: every start, '
        'end, aggregation step, unit time and forced zero array; each message is a unit field, so the whole linear operator and '
        'its dependence on missing values are compared with the reference; plus executions of the command line tool. '
        'non-trivial: at least one expected output map')
ASSUMPTIONS = ['start is 0 or at least one aggregation step; end does not exceed the last message',
               'the reference model mc/ref.py restates the property']
CHUNK = 8


def cases(tier):
    return ac.cases(tier, 'accumulation')


def setup(ws):
    ac.setup(ws, 'accumulation')


def check(case, ws):
    return ac.check(case, ws)
