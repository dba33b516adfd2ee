"""
Shared machinery of every check: locating the code under test, counting, reporting, replays, known findings.
"""
import hashlib, json, os, signal, sys, time as _time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

_real_monotonic = _time.monotonic


class VirtualClock:
    """Replaces `time.monotonic` before the code under test is imported; passes through until activated."""
    def __init__(self):
        self.active = False
        self.now = 0.0

    def __call__(self):
        if self.active:
            return self.now
        return _real_monotonic()


CLOCK = VirtualClock()
_time.monotonic = CLOCK


_real_time = _time.time


class VirtualWallClock:
    """Replaces `time.time` before the code under test is imported; passes through until activated."""
    def __init__(self):
        self.active = False
        self.now = 0.0

    def __call__(self):
        if self.active:
            return self.now
        return _real_time()


WALL = VirtualWallClock()
_time.time = WALL


def import_target():
    sys.path.insert(0, REPO)
    import scarletio
    origin = os.path.realpath(scarletio.__file__)
    if not origin.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'wrong scarletio imported: {origin}')
    return scarletio


class Violation(Exception):
    """
    The property does not hold.

    key : identifies the failing input / history (used to match known findings).
    message : human readable.
    """
    def __init__(self, key, message, artefact = None):
        Exception.__init__(self, f'{key}: {message}')
        self.key = key
        self.message = message
        self.artefact = artefact


class Hang(BaseException):
    """Raised by the watchdog alarm."""


class Stats:
    """Counters of one job; merged over jobs."""
    def __init__(self):
        self.evaluations = 0      # complete executions / cases
        self.nontrivial = 0       # executions which are non-trivial by the rule of the check
        self.transitions = 0      # steps executed
        self.states = set()       # hashes of distinct states / cases
        self.outcomes = {}        # distinct observed outcomes -> count
        self.samples = []
        self.violations = []      # (key, message, artefact)
        self.capped = []
        self.extra = {}

    def outcome(self, value):
        key = value if isinstance(value, str) else repr(value)
        if len(key) > 200:
            key = key[:160] + '#' + hashlib.md5(key.encode('utf-8', 'surrogatepass')).hexdigest()[:8]
        outcomes = self.outcomes
        if key in outcomes:
            outcomes[key] += 1
        elif len(outcomes) < 20000:
            outcomes[key] = 1

    def state(self, value):
        """Counts a distinct state (or distinct case)."""
        if not isinstance(value, (str, bytes)):
            value = repr(value)
        if isinstance(value, str):
            value = value.encode('utf-8', 'surrogatepass')
        digest = hashlib.blake2b(value, digest_size = 8).digest()
        if digest in self.states:
            return False
        self.states.add(digest)
        return True

    def sample(self, value, limit = 4):
        if len(self.samples) < limit:
            self.samples.append(value)

    def count(self, name, amount = 1):
        self.extra[name] = self.extra.get(name, 0) + amount

    def violate(self, key, message, artefact = None):
        if len(self.violations) < 50:
            self.violations.append((key, message, artefact))

    def merge(self, other):
        self.evaluations += other.evaluations
        self.nontrivial += other.nontrivial
        self.transitions += other.transitions
        self.states |= other.states
        for key, value in other.outcomes.items():
            self.outcomes[key] = self.outcomes.get(key, 0) + value
        for sample in other.samples:
            if len(self.samples) < 8:
                self.samples.append(sample)
        self.violations.extend(other.violations)
        self.capped.extend(other.capped)
        for key, value in other.extra.items():
            self.extra[key] = self.extra.get(key, 0) + value


def _alarm(signum, frame):
    raise Hang('watchdog')


def arm(seconds):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


class Check:
    """
    One property's check. Subclasses (in /verif/checks) define:

    jobs(tier) -> list of picklable job descriptions
    run_job(job, stats, only = None) -> explores the job's whole space; `stats.violate(...)` on violations
    """
    id = None
    level = 'model_checking'
    rule = ''
    assumptions = []
    job_timeout = {'quick': 300.0, 'thorough': 3000.0}
    workers = 8

    def setup(self):
        pass

    def jobs(self, tier):
        raise NotImplementedError

    def run_job(self, job, stats, tier):
        raise NotImplementedError

    def replay(self, job, artefact, stats):
        """Re-runs one recorded violation. Default: re-run the whole job."""
        self.run_job(job, stats, 'quick')


def _run_one(check, job, tier):
    stats = Stats()
    timeout = check.job_timeout[tier]
    try:
        arm(timeout)
        try:
            check.run_job(job, stats, tier)
        finally:
            disarm()
    except Violation as violation:
        stats.violate(violation.key, violation.message, violation.artefact)
    except Hang:
        where = traceback.format_exc().splitlines()[-7:-1]
        stats.violate(
            'hang', f'execution did not finish within {timeout} s (job {job!r}); last at: {" | ".join(where)}', None
        )
    except Exception as exception:
        stats.violate(
            'crash:' + type(exception).__name__,
            f'unexpected exception escaped the code under test (job {job!r}): ' + traceback.format_exc(),
            None,
        )
    stats.violations = [(job, *violation) for violation in stats.violations]
    return stats


def _worker(check, jobs, tier, queue_in, connection):
    sys.stdin.close()
    while True:
        index = queue_in.get()
        if index is None:
            break
        stats = _run_one(check, jobs[index], tier)
        connection.put((index, stats))
    connection.put((None, None))


def run_jobs(check, jobs, tier):
    import multiprocessing
    if check.workers <= 1 or len(jobs) <= 1:
        total = Stats()
        for job in jobs:
            total.merge(_run_one(check, job, tier))
        return total

    context = multiprocessing.get_context('fork')
    queue_in = context.SimpleQueue()
    queue_out = context.Queue()
    count = min(check.workers, len(jobs))
    for index in range(len(jobs)):
        queue_in.put(index)
    for _ in range(count):
        queue_in.put(None)

    processes = [
        context.Process(target = _worker, args = (check, jobs, tier, queue_in, queue_out), daemon = True)
        for _ in range(count)
    ]
    for process in processes:
        process.start()

    total = Stats()
    done = set()
    finished = 0
    import queue as module_queue
    deadline = _real_monotonic() + check.job_timeout[tier] * 2 + 60.0
    # when something is violated already, there is no point in exploring for long
    enough = _real_monotonic() + (0.0 if os.environ.get('VERIF_FAIL_FAST') else 300.0)
    stopped = False
    while finished < count and len(done) < len(jobs):
        if total.violations and _real_monotonic() > enough:
            stopped = True
            break
        try:
            index, stats = queue_out.get(timeout = 5.0)
        except module_queue.Empty:
            if all(not process.is_alive() for process in processes):
                try:
                    index, stats = queue_out.get(timeout = 1.0)
                except module_queue.Empty:
                    break
            elif _real_monotonic() > deadline:
                break
            else:
                continue
        if index is None:
            finished += 1
            continue
        done.add(index)
        total.merge(stats)

    missing = [] if stopped else [index for index in range(len(jobs)) if index not in done]
    for index in missing:
        total.violations.append(
            (jobs[index], 'no-result', f'the process exploring job {jobs[index]!r} died or never finished', None)
        )
    for process in processes:
        if process.is_alive():
            process.terminate()
    for process in processes:
        process.join(5.0)
        if process.is_alive():
            process.kill()
    return total


def load_known_findings(property_id):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as file:
            data = json.load(file)
    except FileNotFoundError:
        return {}
    return {
        entry['key']: entry for entry in data.get('known', ()) if entry['property'] == property_id
    }


def main(check, argv):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('--tier', default = os.environ.get('VERIF_TIER', 'quick'), choices = ('quick', 'thorough'))
    parser.add_argument('--replay', default = None)
    parser.add_argument('--job', default = None, help = 'only run jobs whose repr contains this')
    parser.add_argument('--serial', action = 'store_true')
    parser.add_argument('-v', action = 'store_true')
    options = parser.parse_args(argv)
    tier = options.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    start = _real_monotonic()

    check.setup()

    if options.replay is not None:
        with open(options.replay) as file:
            recorded = json.load(file)
        stats = Stats()
        job = _untuple(recorded['job'])
        try:
            check.replay(job, recorded.get('artefact'), stats)
        except Violation as violation:
            stats.violate(violation.key, violation.message, violation.artefact)
        hit = [violation for violation in stats.violations if violation[-3] == recorded['key']] or stats.violations
        if hit:
            print('REPRODUCED', hit[0][-3], hit[0][-2])
            sys.exit(1)
        print('not reproduced')
        sys.exit(0)

    jobs = list(check.jobs(tier))
    if options.job is not None:
        jobs = [job for job in jobs if options.job in repr(job)]
    if options.serial:
        check.workers = 1

    total = run_jobs(check, jobs, tier)
    wall = _real_monotonic() - start

    known = load_known_findings(check.id)
    by_key = {}
    for job, key, message, artefact in total.violations:
        by_key.setdefault(key, []).append((job, message, artefact))

    unknown = {key: value for key, value in by_key.items() if key not in known}
    for key in sorted(by_key):
        if key in known:
            print(f'KNOWN-FINDING: property={check.id} {known[key]["what"]}')

    coverage = {
        'samples': total.samples,
        'rule': check.rule,
        'distinct_outcomes': len(total.outcomes),
        'jobs': len(jobs),
        'exhaustive': not total.capped,
    }
    if check.level == 'model_checking':
        coverage['states'] = len(total.states)
        coverage['transitions'] = total.transitions
        coverage['traces_validated_against_impl'] = total.evaluations
    else:
        coverage['evaluations'] = total.evaluations
        coverage['distinct_nontrivial'] = len(total.states)
        coverage['nontrivial_executions'] = total.nontrivial
        coverage['transitions'] = total.transitions
    if total.capped:
        coverage['caps_hit'] = total.capped[:20]
    coverage.update(total.extra)
    coverage['top_outcomes'] = dict(sorted(total.outcomes.items(), key = lambda item: -item[1])[:12])

    evidence = {
        'property': check.id,
        'tier': tier,
        'seed': seed,
        'level': check.level,
        'coverage': coverage,
        'assumptions': list(check.assumptions),
        'wall_s': round(wall, 3),
        'violations': sum(len(value) for value in unknown.values()),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok = True)
    with open(os.path.join(VERIF, 'evidence', f'{check.id}.json'), 'w') as file:
        json.dump(evidence, file, indent = 1, default = repr)
        file.write('\n')

    print(
        f'{check.id} tier={tier} jobs={len(jobs)} evaluations={total.evaluations} states={len(total.states)} '
        f'transitions={total.transitions} outcomes={len(total.outcomes)} capped={len(total.capped)} wall={wall:.1f}s'
    )
    if options.v:
        for key, value in sorted(total.extra.items()):
            print(f'   {key} = {value}')
        for key, value in sorted(total.outcomes.items(), key = lambda item: -item[1])[:30]:
            print('  ', value, key)

    if not unknown:
        if not total.evaluations:
            print(f'{check.id}: nothing was explored', file = sys.stderr)
            sys.exit(2)
        sys.exit(0)

    directory = os.path.join(VERIF, 'replays')
    os.makedirs(directory, exist_ok = True)
    shown = 0
    for key in sorted(unknown, key = lambda key: min(len(repr(item[2])) for item in unknown[key])):
        job, message, artefact = min(unknown[key], key = lambda item: len(repr(item[2])))
        digest = hashlib.md5(key.encode('utf-8', 'surrogatepass')).hexdigest()[:10]
        path = os.path.join(directory, f'{check.id}-{digest}.json')
        with open(path, 'w') as file:
            json.dump(
                {'property': check.id, 'key': key, 'message': message, 'job': job, 'artefact': artefact},
                file, indent = 1, default = repr,
            )
            file.write('\n')
        print(f'  [{len(unknown[key])}x] {key}: {message}')
        print(f'VIOLATION property={check.id} replay={path}')
        shown += 1
        if shown >= 12:
            break
    sys.exit(1)


def _untuple(value):
    if isinstance(value, list):
        return tuple(_untuple(item) for item in value)
    return value
