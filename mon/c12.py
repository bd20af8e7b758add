"""C12: strong stability preserving Runge-Kutta steps against the formula."""
import numpy as np
from sympl import SSPRungeKutta
from mon.model import Model
from mon.steppers import history

CASES = {'quick': 2200, 'thorough': 16000}
REQUIRED = ('monitor:formula', 'monitor:once per stage', 'monitor:first-stage diagnostics',
            'monitor:failed step', 'timestep changed', 'unit change', 'values replaced', 'written in place', 'old arrays reused',
            'monitor:stages', 'unrelated state')
RULE = ('random histories of up to 11 steps of one or two SSPRungeKutta instances (2 or 3 '
        'stages, also sharing components) with component failures, timestep changes, unit '
        'changes, transpositions and outside changes of the state in between, next to a '
        'reference integrator in base units. Distinct by model shape, stages, sharing and '
        'numbers of steps.')
ASSUMPTIONS = ['stepped quantities have units without offset']


def case(ctx):
    dtype = ctx.pick([np.float64] * 5 + [np.float32])
    rtol = 1e-9 if dtype == np.float64 else 2e-5
    for run, diagnostics, new_state in history(ctx, 'ssprk', dtype):
        for p in run.model.processes:
            ctx.check('once per stage', len(p.calls) == run.stages,
                      '{} was evaluated {} times in {} stages'.format(
                          p.name, len(p.calls), run.stages))
        want = run.reference_diagnostics
        ctx.check('first-stage diagnostics', set(diagnostics) == set(want),
                  'diagnostics {} instead of {}'.format(sorted(diagnostics), sorted(want)))
        for n in want:
            ctx.check('first-stage diagnostics', want[n].matches(diagnostics[n], rtol),
                      'diagnostic {} is not that of the first stage'.format(n))
    if ctx.chance(0.1):
        ctx.refuses('stages', (ValueError, TypeError), 'bad stages', SSPRungeKutta,
                    *Model(ctx).components(), stages=ctx.pick([0, 1, 4, '3', None, 2.5]))
