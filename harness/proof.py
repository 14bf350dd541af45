"""Running of proofs: obligations of every path, discharged one by one."""
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

import z3

from pyvc.core import Ctx, Infeasible, PathEnd, Unsupported
from pyvc.interp import Interp

CVC5 = 'cvc5'


class Proof:
    """
    Contract of a function: ``setup`` makes the symbolic input satisfying
    the precondition and returns the call, ``post`` gives the obligations of
    an outcome, ``covers`` - situations the precondition has to allow.
    """
    name = None
    functions = ()
    assumptions = ()
    budget = 60.
    query_timeout = 6000

    def setup(self, interp):
        raise NotImplementedError

    def post(self, interp, kind, value):
        raise NotImplementedError

    def covers(self, interp):
        return []

    def expect_kinds(self):
        return ()


class Outcome:
    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.backends = {}
        self.failed = []       # definite: the solver has a model
        self.undecided = []    # unknown or unsupported
        self.paths = 0
        self.queries = 0
        self.seconds = 0.
        self.used = set()
        self.notes = set()
        self.wall = 0.

    @property
    def proved(self):
        return (self.obligations > 0
                and self.obligations == self.discharged
                and not self.failed and not self.undecided)


def isolated(function, limit):
    """Calls the function in own group of processes, ended at the limit."""
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        try:
            os.setpgid(0, 0)
            function()
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(1)
        os._exit(0)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    started = time.monotonic()
    try:
        pause = .001
        while time.monotonic() - started < limit:
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                pid = None
                return status == 0
            time.sleep(pause)
            pause = min(.05, pause * 1.3)
        return False
    finally:
        if pid is not None:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)


def prove(ctx, goal, timeout):
    """proved, refuted or unknown with the text of a model or a reason."""
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return 'proved', 'simplifier', ''
    negated = z3.Not(goal)
    result, solver = ctx.check((negated,), min(timeout, 3000), mbqi=False)
    if result == z3.unsat:
        return 'proved', 'z3', ''
    if result == z3.sat:
        return 'refuted', 'z3', model_text(solver)
    result, solver = ctx.check((negated,), timeout)
    if result == z3.unsat:
        return 'proved', 'z3', ''
    if result == z3.sat:
        return 'refuted', 'z3', model_text(solver)
    reason = solver.reason_unknown()
    verdict = second_opinion(solver, timeout)
    if verdict == 'unsat':
        return 'proved', 'cvc5', ''
    return 'unknown', 'z3', f'z3: {reason}, cvc5: {verdict}'


def second_opinion(solver, timeout):
    text = '(set-logic ALL)\n' + solver.to_smt2()
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2') as file:
            file.write(text)
            file.flush()
            process = subprocess.run(
                    [CVC5, f'--tlimit={timeout}', file.name],
                    stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                    text=True, timeout=timeout / 1000 + 5)
        return process.stdout.strip().splitlines()[0]
    except (OSError, subprocess.TimeoutExpired, IndexError):
        return 'no answer'


def model_text(solver):
    try:
        text = str(solver.model())
    except z3.Z3Exception:
        return ''
    return text[:2500]


def run_proof(proof, jobs=8, scale=1.):
    outcome = Outcome(proof.name)
    started = time.monotonic()
    ctx = Ctx(deadline=started + proof.budget * scale)
    try:
        interp = Interp(ctx)
        call = proof.setup(interp)
        for label, formula in proof.covers(interp):
            result, _ = ctx.check((formula,), 2000, mbqi=False)
            if result == z3.unsat:
                raise Unsupported(f'precondition excludes: {label}')
    except Unsupported as error:
        outcome.undecided.append({'label': 'setup', 'reason': str(error)})
        outcome.wall = time.monotonic() - started
        return outcome
    except Exception as error:
        import traceback
        outcome.undecided.append({
            'label': 'setup', 'reason': 'verifier error: ' + ''.join(
                    traceback.format_exception(error))[-1500:]})
        outcome.wall = time.monotonic() - started
        return outcome

    def at_end(kind, value):
        result, _ = ctx.check((), 1000, mbqi=False)
        if result == z3.unsat:
            raise Infeasible
        obligations = []
        own = isinstance(value, PathEnd)
        for label, goal in (value.obligations if own
                            else proof.post(interp, kind, value)):
            if not z3.is_expr(goal):
                goal = z3.BoolVal(goal)
            status, backend, text = prove(ctx, goal, proof.query_timeout)
            if status == 'refuted' and ctx.invariant_used:
                # the invariant may be one of other program
                status = 'unknown'
            obligations.append({'label': label, 'status': status,
                                'backend': backend, 'text': text})
        trace = ''.join(map(str, ctx.explorers[0].trace))
        return {'kind': kind, 'trace': trace, 'obligations': obligations,
                'value': repr(getattr(value, 'cls', value)
                              if kind == 'raise' else value)[:200]}

    descriptor, path = tempfile.mkstemp(suffix='.jsonl')
    os.close(descriptor)
    try:
        ended = isolated(lambda: ctx.explore_forked(call, at_end, path, jobs),
                         proof.budget * scale + 10.)
        with open(path) as file:
            records = [json.loads(line) for line in file
                       if line.endswith('\n')]
    finally:
        os.unlink(path)
    if not ended:
        records.append({'kind': 'unsupported',
                        'reason': 'time budget of the proof is over'})
    kinds = set()
    for record in records:
        outcome.queries += record.get('queries', 0)
        outcome.seconds += record.get('seconds', 0.)
        outcome.used.update(record.get('used', ()))
        outcome.notes.update(record.get('havocs', ()))
        kind = record['kind']
        if kind == 'infeasible':
            continue
        if kind == 'unsupported':
            outcome.undecided.append({'label': 'path',
                                      'reason': record['reason'][-1500:]})
            continue
        kinds.add(kind)
        outcome.paths += 1
        for o in record['obligations']:
            outcome.obligations += 1
            where = {'label': o['label'], 'path': record['trace'],
                     'outcome': f'{kind} {record["value"]}',
                     'reason': o['text']}
            if o['status'] == 'proved':
                outcome.discharged += 1
                outcome.backends[o['backend']] = outcome.backends.get(
                        o['backend'], 0) + 1
            elif o['status'] == 'refuted':
                outcome.failed.append(where)
            else:
                outcome.undecided.append(where)
    for kind in proof.expect_kinds():
        if kind not in kinds and not outcome.undecided:
            outcome.undecided.append({
                'label': 'vacuity', 'reason': f'no path ends with {kind}'})
    outcome.wall = time.monotonic() - started
    return outcome
