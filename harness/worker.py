"""Runs the proofs and the bounded checks of a property."""
import pyvc  # noqa: path of the solver bindings
import contextlib
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
from pathlib import Path


# seconds
PROBE_LIMITS = {'quick': 150, 'thorough': 400}
PROOFS_LIMITS = {'quick': 240, 'thorough': 400}


class Hang(BaseException):
    pass


@contextlib.contextmanager
def limited(seconds):
    def stop(number, frame):
        raise Hang

    previous = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, previous)


class Report:
    """Findings of bounded checks."""

    def __init__(self, tier, seed, scratch):
        self.tier, self.seed = tier, seed
        self.scratch = Path(scratch)
        self.random = random.Random(seed)
        self.violations = []
        self.counts = {}
        self.samples = {}
        self.notes = []
        self.last = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, name, sample=None, by=1):
        self.counts[name] = self.counts.get(name, 0) + by
        self.last = sample or self.last
        if sample is not None and len(self.samples.setdefault(name, [])) < 2:
            self.samples[name].append(sample)

    def violation(self, key, input_, expected, actual, **extra):
        if len(self.violations) < 40:
            self.violations.append({
                'key': key, 'input': str(input_)[:1500],
                'expected': str(expected)[:1000],
                'actual': str(actual)[:1000], **extra})

    @property
    def full(self):
        return len(self.violations) >= 40


def main():
    property_id, scratch, output = sys.argv[1:]
    import paradigm
    if not Path(paradigm.__file__).is_relative_to(scratch):
        raise SystemExit(f'wrong package: {paradigm.__file__}')
    sys.setrecursionlimit(20000)
    tier = os.environ['VERIF_TIER']
    seed = int(os.environ['VERIF_SEED'])
    module = importlib.import_module(f'properties.{property_id.lower()}')
    from check import load_known
    from .proof import run_proof

    report = Report(tier, seed, scratch)
    outcomes = []
    timings = {}
    for probe in (() if os.environ.get('VERIF_SKIP') == 'probes'
                  else getattr(module, 'PROBES', ())):
        started = time.time()
        try:
            with limited(PROBE_LIMITS[tier]):
                probe(report)
        except Hang:
            report.violation('time', f'one of the cases of {probe.__name__} '
                             f'after {report.last}', 'an answer',
                             f'none in {PROBE_LIMITS[tier]} seconds')
        except Exception as error:
            report.notes.append(f'bounded check {probe.__name__} stopped: '
                                + ''.join(traceback.format_exception(
                                        error))[-1500:])
            if getattr(probe, 'strict', True):
                print(report.notes[-1])
        timings[probe.__name__] = round(time.time() - started, 2)
    known = load_known(property_id)
    fresh = [violation for violation in report.violations
             if violation['key'] not in known]
    deadline = time.monotonic() + (30 if fresh else PROOFS_LIMITS[tier])
    if os.environ.get('VERIF_SKIP') != 'proofs':
        for make in getattr(module, 'PROOFS', ()):
            started = time.time()
            proof = make()
            left = deadline - time.monotonic()
            if left < 1:
                proof.budget = 1.
            else:
                scale = 3. if tier == 'thorough' else 1.
                proof.budget = min(proof.budget * scale, left)
            outcome = run_proof(proof)
            outcome.functions = proof.functions
            outcome.assumptions = proof.assumptions
            outcomes.append(outcome)
            timings[proof.name] = round(time.time() - started, 2)
    violations = list(report.violations)
    proved, undecided, refuted = [], [], []
    for outcome in outcomes:
        if outcome.proved:
            proved.append(outcome)
        elif outcome.failed:
            refuted.append(outcome)
        else:
            undecided.append(outcome)
    for outcome in refuted:
        entry = {'key': f'obligation:{outcome.name}',
                 'obligation': [f['label'] for f in outcome.failed[:5]],
                 'contract': outcome.name,
                 'functions': list(outcome.functions),
                 'verifier': outcome.failed[:3]}
        if fresh:
            fresh[0].setdefault('failed_obligations',
                                     []).append(entry)
        else:
            violations.append({**entry, 'input': ''})
    sources = {}
    for path in sorted(Path(scratch).glob('paradigm/**/*.py')):
        relative = str(path.relative_to(scratch))
        if relative in getattr(module, 'SOURCES', ()):
            sources[relative] = hashlib.sha256(
                    path.read_bytes()).hexdigest()[:16]
    obligations = sum(o.obligations for o in outcomes)
    discharged = sum(o.discharged for o in outcomes)
    backends = {}
    for outcome in outcomes:
        for name, count in outcome.backends.items():
            backends[name] = backends.get(name, 0) + count
    level = getattr(module, 'LEVEL', 'proof')
    used = sorted(set().union(*[o.used for o in outcomes]))
    assumptions = [*getattr(module, 'ASSUMPTIONS', ()),
                   *dict.fromkeys(a for o in outcomes
                                  for a in o.assumptions),
                   *[f'callee represented by its contract: {name}'
                     for name in used]]
    coverage = {
        'obligations': obligations, 'discharged': discharged,
        'trusted_base': list(TRUSTED_BASE),
        'backends': backends,
        'contracts': [{
            'contract': o.name, 'functions': list(o.functions),
            'verdict': ('proved' if o.proved else 'refuted' if o.failed
                        else 'undecided'),
            'paths': o.paths, 'obligations': o.obligations,
            'discharged': o.discharged, 'queries': o.queries,
            'solver_seconds': round(o.seconds, 2),
            **({'undecided': o.undecided[:4]} if o.undecided else {}),
            **({'failed': o.failed[:4]} if o.failed else {})}
            for o in outcomes],
        'solver_seconds': round(sum(o.seconds for o in outcomes), 2),
        'functions_under_contract': sorted({f for o in outcomes
                                            for f in o.functions}),
        'functions_only_bounded': sorted(
                {f for o in undecided for f in o.functions}
                | set(getattr(module, 'BOUNDED', ()))),
        'bounded_checks': report.counts,
        'evaluations': sum(report.counts.values()),
        'samples': [f'{name}: {sample}'
                    for name, samples in report.samples.items()
                    for sample in samples][:12],
        'sources': sources,
        'timings': timings,
        'notes': report.notes,
    }
    if level != 'proof':
        coverage['explanation'] = getattr(module, 'EXPLANATION', '')
        coverage['distinct_nontrivial'] = sum(report.counts.values())
        coverage['rule'] = getattr(module, 'RULE', '')
    summary = (f'{property_id}: {discharged} of {obligations} obligations '
               f'discharged, contracts proved: {len(proved)}, '
               f'refuted: {len(refuted)}, undecided: {len(undecided)}; '
               f'bounded cases: {sum(report.counts.values())}, '
               f'violations: {len(violations)}')
    for outcome in undecided:
        summary += (f'\n  undecided {outcome.name}: '
                    + json.dumps(outcome.undecided[:2])[:600])
    if report.notes:
        summary += '\n  ' + '\n  '.join(n[-800:] for n in report.notes)
    summary += f'\n  seconds: {timings}'
    with open(output, 'w') as file:
        json.dump({'violations': violations, 'coverage': coverage,
                   'level': level, 'assumptions': assumptions,
                   'summary': summary}, file)


TRUSTED_BASE = (
    'pyvc: the generator of obligations from the Python source '
    '(/verif/pyvc), including its loop rule and its models of builtins and '
    'library functions; cross-checked against CPython by the bounded checks',
    'z3 5.3 (and cvc5 1.1.2 where it gave the answer)',
    'CPython 3.12: the package is imported to resolve global names of the '
    'verified functions',
)


if __name__ == '__main__':
    main()
