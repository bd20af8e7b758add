"""C10: Adams-Bashforth steps against the formula over histories."""
import numpy as np
from sympl import AdamsBashforth
from mon.steppers import Run, history
from mon.model import Model

CASES = {'quick': 2800, 'thorough': 20000}
REQUIRED = ('monitor:formula', 'monitor:failed step', 'monitor:changed timestep',
            'unit change', 'transposed', 'values replaced', 'written in place', 'old arrays reused', 'failed step at 0',
            'failed step at 2', 'timestep changed', 'order')
RULE = ('random histories of up to 11 steps of one or two Adams-Bashforth instances '
        '(orders 1 to 4, also sharing components) with component failures, refused '
        'timestep changes, unit changes, transpositions and outside changes of the state '
        'in between, next to a reference integrator in base units. Distinct by model '
        'shape, orders, sharing and numbers of steps.')
ASSUMPTIONS = ['components give tendencies without dimensions the quantity lacks',
               'units without offset for stepped quantities']


def case(ctx):
    dtype = ctx.pick([np.float64] * 5 + [np.float32])
    for run, diagnostics, new_state in history(ctx, 'ab', dtype):
        pass
    if ctx.chance(0.1):
        comps = Model(ctx).components()
        ctx.refuses('order', (ValueError, TypeError), 'bad order', AdamsBashforth, *comps,
                    order=ctx.pick([0, 5, -1, 2.5, '3', None, 17]))
        ctx.saw('order')
