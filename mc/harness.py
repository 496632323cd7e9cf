"""Bounded exhaustive explorer shared by every check.

A check is a module `mc.cXX` exposing

    PROPERTY = 'CXX'
    SPACES   = [Space(...), ...]

A Space enumerates a finite set of cases (a case is a JSON value: an input, or an operation history) and
checks each of them by executing the real library and comparing with an independent reference model.
The explorer runs *every* case of every space of the tier, spread over worker processes, counts distinct
abstract states, transitions (operations executed on the real code) and reference comparisons, and turns
each disagreement into a replay file.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, 'replays')
KNOWN = os.path.join(ROOT, 'known_findings.txt')
CASE_TIMEOUT = int(os.environ.get('MC_CASE_TIMEOUT', '240'))
MAX_REPORT = 3
STOP_AFTER = 400    # seconds after which an exploration that has found something is cut short


class Violation(Exception):
    def __init__(self, tag, message):
        super().__init__('{}: {}'.format(tag, message))
        self.tag = tag
        self.message = message


class Timeout(Exception):
    pass


def fail(tag, message=''):
    raise Violation(tag, message)


def require(cond, tag, message=''):
    if not cond:
        raise Violation(tag, message() if callable(message) else message)


class Recorder(object):
    """Counts what one worker actually executed"""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.compared = 0
        self.outcomes = {}
        self.problems = []

    def state(self, *key):
        """a distinct abstract state / input reached (canonical form supplied by the caller)"""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.states.add(h)

    def step(self, n=1):
        """n operations executed on the implementation"""
        self.transitions += n

    def trace(self, n=1):
        """n complete executions compared with the reference model"""
        self.compared += n

    def outcome(self, key, n=1):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + n

    def check(self, cond, tag, message=''):
        """record a violation without stopping at it (so that one known deviation hides nothing else)"""
        if not cond:
            self.problems.append((tag, message() if callable(message) else message))

    def attempt(self, tag, f, *args, **kwargs):
        """run f; an exception is a violation with the given tag; returns (ok, value)"""
        try:
            return True, f(*args, **kwargs)
        except Timeout:
            raise
        except Exception as e:
            self.problems.append((tag, short_trace(e)))
            return False, None


class Space(object):
    """One bounded space: `cases(tier)` yields JSON cases simplest first; `check(case, rec)` judges one"""

    def __init__(self, name, cases, check, bound='', expect=(), chunk=None):
        self.name = name
        self.cases = cases
        self.check = check
        self.bound = bound
        self.expect = expect
        self.chunk = chunk


def short_trace(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ' <- '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
    return '{}: {} [{}]'.format(type(e).__name__, str(e)[:300], where)


def _alarm(signum, frame):
    raise Timeout()


_MODULE = None
_STATE = None


def _run_case(space, case, rec):
    """returns list of (tag, message)"""
    rec.problems = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        space.check(case, rec)
    except Violation as v:
        rec.problems.append((v.tag, v.message))
    except Timeout:
        rec.problems.append(('timeout', 'no answer within {} s'.format(CASE_TIMEOUT)))
    except Exception as e:
        rec.problems.append(('exception', short_trace(e)))
    finally:
        signal.alarm(0)
    problems, rec.problems = rec.problems, []
    return problems


def _worker(args):
    si, start, cases = args
    space = _MODULE.SPACES[si]
    rec = Recorder()
    found = []
    for k, case in enumerate(cases):
        if _STATE is not None:
            slot = int(multiprocessing.current_process()._identity[0] - 1) % len(_STATE)
            _STATE[slot] = time.time()
        for tag, message in _run_case(space, case, rec):
            if len(found) < 50:
                found.append((start + k, case, tag, message))
        # keep what is sent back bounded, without forgetting that there was more
    if _STATE is not None:
        _STATE[slot] = 0.0
    return si, len(cases), rec.states, rec.transitions, rec.compared, rec.outcomes, found


def load_known(prop):
    """known:  lines 'known: {json}' with property, space, case, tag, what"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known:'):
                d = json.loads(line[len('known:'):])
                if d['property'] == prop:
                    out.append(d)
    return out


def match_known(known, space, case, tag):
    c = json.dumps(case, sort_keys=True)
    for d in known:
        if d['space'] == space and d['tag'] == tag and json.dumps(d['case'], sort_keys=True) == c:
            return d
    return None


def setup_env():
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')


def check_import():
    """the code under test must come from /repo's working tree"""
    import pycomplex
    return os.path.dirname(os.path.abspath(pycomplex.__file__))


def explore(module, tier, procs, only=None, limit=None):
    global _MODULE, _STATE
    _MODULE = module
    t0 = time.time()
    jobs = []
    per_space = []
    for si, space in enumerate(module.SPACES):
        n = 0
        if only and space.name not in only:
            per_space.append(None)
            continue
        cases = list(space.cases(tier))
        if limit:
            cases = cases[:limit]
        n = len(cases)
        chunk = space.chunk or max(1, min(64, n // (procs * 6) or 1))
        # interleaved rather than contiguous chunks would balance better, but contiguous keeps the order simple
        for s in range(0, n, chunk):
            jobs.append((si, s, cases[s:s + chunk]))
        per_space.append(dict(name=space.name, bound=space.bound, cases=n, done=0, states=set(), transitions=0,
                              compared=0, outcomes={}, violations=0))
    found = []
    if procs <= 1:
        results = map(_worker, jobs)
        for r in results:
            _collect(r, per_space, found)
    else:
        _STATE = multiprocessing.Array('d', procs, lock=False)
        with multiprocessing.get_context('fork').Pool(procs) as pool:
            it = pool.imap_unordered(_worker, jobs)
            pending = len(jobs)
            while pending:
                try:
                    r = it.next(timeout=10)
                except multiprocessing.TimeoutError:
                    now = time.time()
                    stuck = [s for s in _STATE if s and now - s > CASE_TIMEOUT + 60]
                    if stuck:
                        # a case that cannot even be interrupted: report it as non-termination
                        found.append((0, -1, None, 'hang', 'a case did not answer within {} s'.format(CASE_TIMEOUT + 60)))
                        pool.terminate()
                        break
                    continue
                pending -= 1
                _collect(r, per_space, found)
                if found and time.time() - t0 > STOP_AFTER:
                    # something is wrong already; the rest of the space only takes time
                    pool.terminate()
                    break
    found.sort(key=lambda f: (f[0], f[1]))
    return per_space, found, time.time() - t0


def _collect(r, per_space, found):
    si, n, states, transitions, compared, outcomes, bad = r
    p = per_space[si]
    p['done'] += n
    p['states'] |= states
    p['transitions'] += transitions
    p['compared'] += compared
    for k, v in outcomes.items():
        p['outcomes'][k] = p['outcomes'].get(k, 0) + v
    p['violations'] += len(bad)
    for b in bad:
        found.append((si,) + b)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--space', action='append')
    ap.add_argument('--procs', type=int, default=int(os.environ.get('MC_PROCS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--limit', type=int)
    ap.add_argument('--profile', action='store_true')
    args = ap.parse_args(argv)
    setup_env()
    prop = args.property
    try:
        module = importlib.import_module('mc.' + prop.lower())
    except Exception as e:
        # the harness imports the library; a library that cannot be imported breaks every property
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '{}-import.json'.format(prop))
        json.dump(dict(property=prop, space=None, case=None, tag='import', message=traceback.format_exc()), open(path, 'w'))
        traceback.print_exc()
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1

    if args.replay:
        d = json.load(open(args.replay))
        space = [s for s in module.SPACES if s.name == d['space']][0]
        problems = _run_case(space, d['case'], Recorder())
        for tag, message in problems:
            print('{} {} case={} [{}] {}'.format(prop, space.name, json.dumps(d['case']), tag, message))
        if problems:
            print('VIOLATION property={} replay={}'.format(prop, args.replay))
            return 1
        print('replay: the case passes')
        return 0

    if args.profile:
        args.procs = 1
    print('library under test: {}'.format(check_import()))
    per_space, found, wall = explore(module, args.tier, args.procs, args.space, args.limit)
    known = load_known(prop)
    fresh = []
    seen_known = []
    for si, k, case, tag, message in found:
        d = match_known(known, module.SPACES[si].name, case, tag)
        if d is None:
            fresh.append((si, k, case, tag, message))
        elif d not in seen_known:
            seen_known.append(d)
            print('KNOWN-FINDING: property={} {}'.format(prop, d['what']))

    os.makedirs(REPLAYS, exist_ok=True)
    paths = []
    for i, (si, k, case, tag, message) in enumerate(fresh[:MAX_REPORT]):
        path = os.path.join(REPLAYS, '{}-{}.json'.format(prop, i))
        json.dump(dict(property=prop, space=module.SPACES[si].name, case=case, tag=tag, message=message,
                       how='./run.sh {} --replay {}'.format(prop, path)), open(path, 'w'), indent=1)
        paths.append(path)
        print('{} {} case={} [{}] {}'.format(prop, module.SPACES[si].name, json.dumps(case)[:400], tag, message))

    active = [(s, p) for s, p in zip(module.SPACES, per_space) if p is not None]
    for s, p in active:
        print('  {:<34} cases={:<8} states={:<8} transitions={:<9} compared={:<8} outcomes={}'.format(
            s.name, p['done'], len(p['states']), p['transitions'], p['compared'],
            dict(list(p['outcomes'].items())[:8])))

    vacuous = []
    if not args.space and not args.limit and not fresh:
        for s, p in active:
            for e in s.expect:
                if not p['outcomes'].get(str(e)):
                    vacuous.append('{}: outcome {} never reached'.format(s.name, e))

    complete = all(p['done'] == p['cases'] for s, p in active)
    n_states = sum(len(p['states']) for s, p in active)
    evidence = dict(
        property=prop, tier=args.tier if args.tier in ('quick', 'thorough') else 'quick',
        seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
        coverage=dict(
            states=n_states,
            transitions=sum(p['transitions'] for s, p in active),
            traces_validated_against_impl=sum(p['compared'] for s, p in active),
            exhaustive=bool(complete),
            samples=[dict(space=s.name, bound=p['bound'], cases=p['done'], states=len(p['states']),
                          transitions=p['transitions'], traces=p['compared'], outcomes=p['outcomes'],
                          example=next(iter(s.cases(args.tier)), None)) for s, p in active],
            rule='every case of every listed space is executed on the code in /repo and compared with the reference model; '
                 'states are distinct canonical inputs/histories, transitions are library operations executed, '
                 'traces are executions compared with the model',
        ),
        assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
        violations=len(fresh), wall_s=round(wall, 2))
    if not args.space and not args.limit:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(evidence, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    tags = {}
    for f in fresh:
        key = '{}/{}'.format(module.SPACES[f[0]].name, f[3])
        tags[key] = tags.get(key, 0) + 1
    if tags:
        print('violations by tag: {}'.format(tags))
    print('{}: {} states, {} transitions, {:.1f} s, {} violation(s), {} known'.format(
        prop, n_states, evidence['coverage']['transitions'], wall, len(fresh), len(seen_known)))
    if fresh:
        print('VIOLATION property={} replay={}'.format(prop, paths[0]))
        return 1
    if vacuous:
        print('VACUOUS: ' + '; '.join(vacuous))
        return 2
    return 0


