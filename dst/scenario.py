"""Plans and their execution: one plan + one decision script = one run."""
import hashlib
import importlib
import os
import random
import sys
import traceback

from . import core

MODULES = {
    'C01': 'scen_net', 'C02': 'scen_net', 'C03': 'scen_net',
    'C04': 'scen_net', 'C05': 'scen_net', 'C06': 'scen_net',
    'C07': 'scen_wire', 'C14': 'scen_iso', 'C15': 'scen_net',
    'C19': 'scen_thr',
    'C08': 'scen_scan', 'C09': 'scen_scan', 'C10': 'scen_scan',
    'C11': 'scen_comp', 'C12': 'scen_comp', 'C13': 'scen_compat',
    'C18': 'scen_disc',
    'C16': 'scen_cli', 'C17': 'scen_cli', 'C22': 'scen_net',
    'C23': 'scen_sel', 'C24': 'scen_mdiff', 'C20': 'scen_mdiff',
}


def module(prop):
    return importlib.import_module('dst.' + MODULES[prop])


def preload():
    for m in sorted(set(MODULES.values())):
        try:
            importlib.import_module('dst.' + m)
        except ModuleNotFoundError as e:
            if 'dst.' not in str(e):
                raise


def make_plan(prop, seed, tier):
    r = random.Random('plan/%s/%s' % (prop, seed))
    plan = {'prop': prop, 'seed': seed}
    plan.update(module(prop).plan(prop, r, tier))
    return plan


class Run:
    """What a scenario sees."""

    def __init__(self, sim, plan, tmp):
        self.sim = sim
        self.plan = plan
        self.cfg = plan.get('cfg', {})
        self.tmp = tmp
        self.evals = 0
        self.probes = {}
        self.seen = set()
        self.samples = []
        self.facts = None

    def rng(self, label):
        return random.Random('%s/%s' % (self.plan['seed'], label))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def saw(self, *what):
        """A distinct non-trivial case was evaluated."""
        self.evals += 1
        h = hashlib.md5(repr(what).encode('utf-8', 'replace')).hexdigest()[:12]
        self.seen.add(h)

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:600])

    def check(self, cond, kind, detail=''):
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)

    def fail(self, kind, detail=''):
        self.sim.note('VIOLATION', kind)
        raise core.Violation(
            kind, str(detail() if callable(detail) else detail)[:3000])


def from_repo(exc):
    """Did the exception come out of the code under test?"""
    from . import boot
    root = os.path.realpath(os.path.join(boot.REPO, 'src'))
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def short_tb(exc):
    return ''.join(traceback.format_exception(exc))[-1800:]


def execute(plan, script, tmp, want_log=False):
    from . import boot
    mod = module(plan['prop'])
    cfg = plan.get('cfg', {})
    random.seed('global/%s' % plan['seed'])
    sim = core.Sim(plan['seed'], script=script,
                   preempt=cfg.get('preempt', 0),
                   max_lines=cfg.get('max_lines', 20000000),
                   max_steps=cfg.get('max_steps', 300000),
                   stall_p=cfg.get('stall_p', 0.0))
    boot.HOLD = bool(cfg.get('preempt'))
    if cfg.get('stall_d'):
        sim.stall_d = tuple(cfg['stall_d'])
    run = Run(sim, plan, tmp)
    violation = None
    error = None

    def fail_exc(e):
        nonlocal violation, error
        if isinstance(e, core.Violation):
            violation = {'kind': e.kind, 'detail': e.detail}
        elif isinstance(e, core.SimAbort):
            violation = {'kind': 'no-progress',
                         'detail': '%s; waiting: %s' % (
                             sim.aborted,
                             getattr(sim, 'blocked_info', ''))}
            if str(sim.aborted).startswith('harness'):
                error = str(sim.aborted)
                violation = None
        elif from_repo(e):
            violation = {'kind': 'unexpected ' + type(e).__name__,
                         'detail': short_tb(e)}
        elif isinstance(e, (AttributeError, TypeError, KeyError, IndexError,
                            ValueError, AssertionError)):
            # the scenario stumbled over something the code under test
            # returned; never happens on a tree where the property holds
            violation = {'kind': 'malformed result (%s)' % type(e).__name__,
                         'detail': short_tb(e)}
        else:
            error = short_tb(e)

    def top(sim):
        try:
            mod.run(run)
        except BaseException as e:
            fail_exc(e)
    sim.run(top)
    if sim.harness_error and not error:
        error = sim.harness_error
    res = {
        'digest': sim.digest(), 'violation': violation, 'error': error,
        'deviations': sim.deviations, 'evals': run.evals,
        'probes': run.probes, 'seen': sorted(run.seen),
        'samples': run.samples, 'faults': sim.faults,
        'lines': sim.lines, 'steps': sim.steps, 'switches': sim.switches,
        'simtime': round(sim.now - 1000.0, 3),
        'sched': sim.schedhash.hexdigest()[:12],
        'tasks': len(sim.tasks), 'facts': run.facts,
    }
    if want_log:
        res['log'] = sim.log
    return res
