"""C11: leapfrog steps against the formula over histories."""
import numpy as np
from mon.steppers import history

CASES = {'quick': 3200, 'thorough': 24000}
REQUIRED = ('monitor:formula', 'monitor:failed step', 'monitor:changed timestep',
            'monitor:filtered current', 'unit change', 'transposed', 'values replaced', 'written in place', 'old arrays reused',
            'failed step at 0', 'failed step at 1', 'failed step at 2')
RULE = ('random histories of up to 11 steps of one or two leapfrog instances (several '
        'filter strengths and alpha, also sharing components) with component failures, '
        'refused timestep changes, unit changes, transpositions and outside changes of '
        'the state in between, next to a reference integrator in base units. Distinct by '
        'model shape, parameters, sharing and numbers of steps.')
ASSUMPTIONS = ['stepped quantities are writable floating point arrays without offset units']


def case(ctx):
    for run, diagnostics, new_state in history(ctx, 'leapfrog'):
        for n in run.model.stepped:
            now = run.state[n]
            if n in run.filtered:
                ctx.check('filtered current',
                          run.filtered[n].matches(now, 1e-9, run.size[n]),
                          'current {} after step {} is not filtered as documented'.format(
                              n, run.steps), run.kwargs, now.values.tolist(),
                          run.filtered[n].values.tolist())
        ignore = set(run.filtered)
        changes = run.before.changes(run.state, ignore)
        ctx.check('filtered current', not changes, 'other changes: {}'.format(changes))
        for n in run.filtered:
            old = run.before.items[n]
            ctx.check('filtered current', run.state[n].attrs == old[3] and
                      run.state[n].dims == old[2], 'metadata of {} changed'.format(n))
