"""A small property-based testing engine.

Every case is a pure function of a choice sequence (list of ints).  In
generation mode the choices come from a PRNG seeded from (VERIF_SEED, property,
sub-test, case index); in replay/shrink mode they come from a recorded list.
Cases run in a pool of worker processes; the number of cases is fixed per tier,
so a run is a function of the code and the seed and not of the clock.
"""
import hashlib, json, multiprocessing as mp, os, queue, random, resource, shutil
import signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORKERS = int(os.environ.get('VERIF_JOBS', '8'))


class Violation(Exception):
    """The property is broken. key identifies the kind of failure."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key or 'generic'


class Discard(Exception):
    """The case is outside the domain of the property (counted)."""


class Resource(Exception):
    """The sandbox could not run the case (never a violation)."""


class Choices:
    def __init__(self, seed=None, prefix=None, limit=200000):
        self.rng = random.Random(seed) if seed is not None else None
        self.prefix = prefix
        self.out = []
        self.limit = limit

    def draw(self, n):
        """an int in [0,n)"""
        if n <= 1:
            return 0
        i = len(self.out)
        if i >= self.limit:
            raise Discard('too many choices')
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.out.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks to False"""
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; shrinks to the first"""
        t = sum(w for w, _ in pairs)
        r = self.draw(t)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def small(self, hi, p=2):
        """geometric in [0,hi]"""
        k = 0
        while k < hi and self.draw(p + 1) > 0 if p > 1 else False:
            k += 1
        return k

    def geo(self, hi, num=1, den=2):
        k = 0
        while k < hi and self.bool(num, den):
            k += 1
        return k

    def shuffle(self, seq):
        l = list(seq)
        for i in range(len(l) - 1, 0, -1):
            j = i - self.draw(i + 1)
            l[i], l[j] = l[j], l[i]
        return l

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.bool(num, den)]


class Proc:
    __slots__ = ('rc', 'out', 'err', 'timeout')

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def outs(self):
        return self.out.decode('latin-1')

    @property
    def errs(self):
        return self.err.decode('latin-1')


ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
       'LC_ALL': 'C', 'HOME': '/nonexistent',
       'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=3000:handle_abort=1',
       'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=99:print_stacktrace=1'}


class Ctx:
    """What a case sees besides its choices."""

    def __init__(self, scratch, tier='quick'):
        self.scratch = scratch
        self.tier = tier
        self.evals = 0
        self.labels = {}
        self.nontriv = set()
        self.samples = []
        self.files = {}      # name -> content, written next to the replay
        self._n = 0

    def fresh(self):
        for e in os.scandir(self.scratch):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path, ignore_errors=True)
            else:
                try:
                    os.unlink(e.path)
                except OSError:
                    pass
        self.files = {}
        self._n = 0

    def dir(self, name=None):
        self._n += 1
        d = os.path.join(self.scratch, name or 'd%d' % self._n)
        os.makedirs(d, exist_ok=True)
        return d

    def write(self, d, name, data):
        p = os.path.join(d, name)
        if isinstance(data, str):
            data = data.encode('latin-1')
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def ev(self, n=1):
        self.evals += n

    def nontrivial(self, key):
        if not isinstance(key, bytes):
            key = repr(key).encode()
        self.nontriv.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s if len(s) < 3000 else s[:3000] + '...')

    def run(self, cmd, cwd=None, inp=None, timeout=60, env=None, stdin_path=None, mem=0):
        """run a command; output goes to files so that runaway output is bounded by RLIMIT_FSIZE; mem bounds its address space"""
        self._n += 1
        base = os.path.join(self.scratch, '.io%d' % self._n)
        if stdin_path:
            fin = open(stdin_path, 'rb')
        elif inp is not None:
            if isinstance(inp, str):
                inp = inp.encode('latin-1')
            with open(base + 'i', 'wb') as f:
                f.write(inp)
            fin = open(base + 'i', 'rb')
        else:
            fin = open('/dev/null', 'rb')
        e = ENV
        if env:
            e = dict(ENV)
            e.update(env)
        fo = open(base + 'o', 'w+b')
        fe = open(base + 'e', 'w+b')
        to = False
        try:
            p = subprocess.Popen(cmd, cwd=cwd or self.scratch, stdin=fin, stdout=fo, stderr=fe,
                                 env=e, close_fds=False)
            if mem:
                try:
                    resource.prlimit(p.pid, resource.RLIMIT_AS, (mem, mem))
                except (OSError, ValueError):
                    pass
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = p.wait()
                to = True
        except (OSError, MemoryError) as ex:
            raise Resource('cannot run %s: %s' % (cmd[0], ex))
        finally:
            fin.close()
        fo.seek(0)
        out = fo.read()
        fo.close()
        fe.seek(0)
        err = fe.read()
        fe.close()
        for s in ('i', 'o', 'e'):
            try:
                os.unlink(base + s)
            except OSError:
                pass
        if rc == -signal.SIGKILL and not to:
            raise Resource('killed')
        return Proc(rc, out, err, to)

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)


def case_seed(seed, prop, test, idx):
    h = hashlib.blake2b(('%d|%s|%s|%d' % (seed, prop, test, idx)).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big')


def run_case(fn, choices, ctx):
    """returns (status, message, key); status ok|discard|violation|resource"""
    ctx.fresh()
    try:
        fn(choices, ctx)
        return ('ok', '', '')
    except Discard as d:
        return ('discard', str(d), '')
    except Violation as v:
        return ('violation', str(v), v.key)
    except Resource as r:
        return ('resource', str(r), '')
    except (MemoryError, OSError) as r:
        return ('resource', traceback.format_exc(), '')
    except RecursionError:
        return ('resource', traceback.format_exc()[-1500:], '')
    except Exception:
        # the oracle never fails on the output of a correct tool
        return ('violation', 'the output could not be interpreted:\n' + traceback.format_exc(), 'uninterpretable')


def _limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _worker(wid, prop, tests, tier, seed, scratch, jobs, outq, stop, deadline, knownkeys):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _limits()
    sys.setrecursionlimit(20000)
    d = os.path.join(scratch, 'w%d' % wid)
    os.makedirs(d, exist_ok=True)
    ctx = Ctx(d, tier)
    st = {'ok': 0, 'discard': 0, 'resource': 0, 'skipped': 0, 'known': 0, 'per': {}}
    viol = []
    kviol = []
    seenknown = set()
    bugs = []
    try:
        while True:
            with jobs[0].get_lock():
                k = jobs[0].value
                jobs[0].value += 1
            if k >= len(jobs[1]):
                break
            name, lo, hi = jobs[1][k]
            fn = tests[name]
            for idx in range(lo, hi):
                if stop.is_set() or time.time() > deadline:
                    st['skipped'] += 1
                    continue
                c = Choices(seed=case_seed(seed, prop, name, idx))
                t0 = time.time()
                r, msg, key = run_case(fn, c, ctx)
                if r == 'violation' and key in knownkeys:
                    # listed in KNOWN_FINDINGS.txt: noted once per worker, the search goes on
                    st['known'] += 1
                    if key not in seenknown:
                        seenknown.add(key)
                        kviol.append((name, idx, c.out, msg, key, dict(ctx.files)))
                elif r == 'violation':
                    viol.append((name, idx, c.out, msg, key, dict(ctx.files)))
                    if len(viol) >= 3:
                        stop.set()
                elif r == 'bug':
                    bugs.append((name, idx, msg))
                    stop.set()
                else:
                    st[r] += 1
                    if r == 'resource':
                        bugs.append((name, idx, msg)) if st['resource'] > 20 else None
                p = st['per'].setdefault(name, [0, 0.0, 0])
                p[0] += 1
                p[1] += time.time() - t0
                if r == 'discard':
                    p[2] += 1
                    ctx.label('discard: ' + msg[:60])
            if viol:
                stop.set()
    except BaseException:
        bugs.append(('worker', wid, traceback.format_exc()))
    outq.put((wid, st, ctx.evals, ctx.labels, ctx.nontriv, ctx.samples, viol + kviol, bugs))


def _try(args):
    fn_name, choices, scratch, tier = args
    c = Choices(prefix=choices)
    d = os.path.join(scratch, 's%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    ctx = Ctx(d, tier)
    r, msg, key = run_case(_TESTS[fn_name], c, ctx)
    return (r, msg, key, c.out, dict(ctx.files))


_TESTS = {}


def shrink(name, choices, key, tier, scratch, budget_s):
    """shrink a failing choice sequence; candidates are evaluated in parallel"""
    t_end = time.time() + budget_s
    best = None

    def cands(cur):
        n = len(cur)
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while i < n:
                yield cur[:i] + cur[i + size:]
                i += size
            size //= 2
        for size in (16, 4, 1):
            for i in range(0, n, size):
                if any(cur[i:i + size]):
                    yield cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]
        for i in range(n):
            if cur[i] > 1:
                yield cur[:i] + [cur[i] // 2] + cur[i + 1:]
            if cur[i] > 0:
                yield cur[:i] + [cur[i] - 1] + cur[i + 1:]

    with mp.Pool(NWORKERS, initializer=_limits) as pool:
        cur = list(choices)
        improved = True
        while improved and time.time() < t_end:
            improved = False
            gen = cands(cur)
            seen = set()
            done = False
            while not done and time.time() < t_end:
                batch = []
                for cnd in gen:
                    if (len(cnd), cnd) < (len(cur), cur):
                        t = tuple(cnd)
                        if t not in seen:
                            seen.add(t)
                            batch.append(cnd)
                    if len(batch) >= NWORKERS:
                        break
                if not batch:
                    break
                try:
                    res = pool.map_async(_try, [(name, b, scratch, tier) for b in batch], chunksize=1).get(
                        max(5, t_end - time.time() + 30))
                except mp.TimeoutError:
                    pool.terminate()
                    return best
                for r in res:
                    if r[0] == 'violation' and r[2] == key and (len(r[3]), r[3]) < (len(cur), cur):
                        cur = r[3]
                        best = r
                        improved = True
                        done = True
                        break
    return best


def load_known():
    known = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = {}
                rest = line[7:]
                for part in rest.split(' ', 2):
                    k, _, v = part.partition('=')
                    d[k] = v if v else d.get(k, '')
                d['text'] = rest.split(' ', 2)[2] if rest.count(' ') >= 2 else ''
                known.append(d)
    return known


def main(prop, spec, argv):
    """spec: dict(tests={name:(fn, quick_n, thorough_n)}, rule=str, assumptions=[..], setup=callable)"""
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    replay = None
    only = None
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    i = 0
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]; i += 2
        elif argv[i] == '--replay':
            replay = argv[i + 1]; i += 2
        elif argv[i] == '--only':
            only = argv[i + 1]; i += 2
        elif argv[i] == '--scale':
            scale = float(argv[i + 1]); i += 2
        else:
            sys.exit('unknown argument ' + argv[i])
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if spec.get('setup'):
        spec['setup'](tier)
    tests = {n: t[0] for n, t in spec['tests'].items()}
    _TESTS.update(tests)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.chmod(scratch, 0o755)
    try:
        if replay:
            return do_replay(prop, tests, replay, scratch, tier)
        return do_run(prop, spec, tests, tier, seed, scratch, t0, only, scale)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(prop, tests, path, scratch, tier):
    r = json.load(open(path))
    d = os.path.join(scratch, 'r')
    os.makedirs(d)
    _limits()
    sys.setrecursionlimit(20000)
    ctx = Ctx(d, r.get('tier', tier))
    res = run_case(tests[r['test']], Choices(prefix=r['choices']), ctx)
    print('replay: %s\n%s' % (res[0], res[1]))
    if res[0] == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def do_run(prop, spec, tests, tier, seed, scratch, t0, only, scale):
    deadline = t0 + (float(os.environ.get('VERIF_DEADLINE', '600')) if tier == 'quick' else float(os.environ.get('VERIF_DEADLINE', '7200')))
    known = [k for k in load_known() if k.get('property') == prop]
    total = 0
    chunks = []
    for n, t in spec['tests'].items():
        if only and n != only:
            continue
        cnt = int((t[1] if tier == 'quick' else t[2]) * scale)
        cnt = max(cnt, 1) if t[1] else cnt
        total += cnt
        step = max(1, min(8, cnt // (NWORKERS * 8) or 1))
        cs = [(n, lo, min(cnt, lo + step)) for lo in range(0, cnt, step)]
        for j, x in enumerate(cs):
            chunks.append((j / max(1, len(cs)), n, x))
    chunks.sort(key=lambda x: (x[0], x[1]))
    jobs = (mp.Value('i', 0), [x for _, _, x in chunks])
    outq = mp.Queue()
    stop = mp.Event()
    procs = [mp.Process(target=_worker, args=(w, prop, tests, tier, seed, scratch, jobs, outq, stop, deadline, {k.get('key') for k in known}))
             for w in range(NWORKERS)]
    for p in procs:
        p.start()
    agg = {'ok': 0, 'discard': 0, 'resource': 0, 'skipped': 0, 'known': 0}
    evals, labels, nontriv, samples, viols, bugs = 0, {}, set(), [], [], []
    per = {}
    left = len(procs)
    while left:
        try:
            wid, st, ev, lb, nt, sm, vi, bg = outq.get(timeout=5)
        except queue.Empty:
            dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
            if dead:
                bugs.append(('worker', 0, 'a worker died: %r' % [p.exitcode for p in dead]))
                break
            continue
        left -= 1
        for k in agg:
            agg[k] += st[k]
        for k, v in st['per'].items():
            q = per.setdefault(k, [0, 0.0, 0])
            for j in range(3):
                q[j] += v[j]
        evals += ev
        for k, v in lb.items():
            labels[k] = labels.get(k, 0) + v
        nontriv |= nt
        samples += sm
        viols += vi
        bugs += bg
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    wall = time.time() - t0
    rc = 0
    reported = []
    findings = []
    # confirm: replay three times, then shrink
    viols.sort(key=lambda v: (len(v[2]), v[0], v[1]))
    seen_keys = set()
    for name, idx, ch, msg, key, files in viols:
        if (name, key) in seen_keys:
            continue
        with mp.Pool(3, initializer=_limits) as pool:
            res = pool.map(_try, [(name, ch, scratch, tier)] * 3, chunksize=1)
        if not all(r[0] == 'violation' for r in res):
            print('note: %s/%s case %d did not reproduce (%s); not reported: %s' % (
                prop, name, idx, [r[0] for r in res], msg[:300]))
            labels['unreproduced'] = labels.get('unreproduced', 0) + 1
            continue
        key = res[0][2]
        seen_keys.add((name, key))
        kn = [k for k in known if k.get('key') == key]
        if kn:
            findings.append((key, kn[0]['text']))
            continue
        best = shrink(name, ch, key, tier, scratch, 60 if tier == 'quick' else 180)
        if best is None:
            best = res[0]
        r, msg, key, ch2, files = best
        rd = os.path.join(os.environ.get('VERIF_REPLAY_DIR', os.path.join(VERIF, 'replays')))
        os.makedirs(rd, exist_ok=True)
        h = hashlib.blake2b(repr(ch2).encode(), digest_size=4).hexdigest()
        path = os.path.join(rd, '%s-%s-%s.json' % (prop, name, h))
        json.dump({'property': prop, 'test': name, 'tier': tier, 'seed': seed, 'case': idx, 'key': key,
                   'choices': ch2, 'message': msg,
                   'files': {k: (v if isinstance(v, str) else v.decode('latin-1')) for k, v in files.items()}},
                  open(path, 'w'), indent=1)
        print('--- %s/%s [%s] (seed %d case %d, shrunk %d -> %d choices)' % (prop, name, key, seed, idx, len(ch), len(ch2)))
        print(msg[:6000])
        for k, v in files.items():
            v = v if isinstance(v, str) else v.decode('latin-1')
            print('--- %s:\n%s' % (k, v[:4000]))
        reported.append(path)
        rc = 1
        break
    for k in known:
        # every listed finding is demonstrated by the check's own probe
        probe = spec.get('probes', {}).get(k.get('key'))
        if probe:
            d = os.path.join(scratch, 'probe')
            os.makedirs(d, exist_ok=True)
            r = run_case(lambda c, x: probe(x), Choices(prefix=[]), Ctx(d, tier))
            if r[0] == 'violation':
                findings.append((k['key'], k['text']))
    for key, text in dict(findings).items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(nontriv), 'rule': spec['rule'],
                       'samples': samples[:4] or ['(none)'],
                       'cases': {k: {'run': v[0], 'discarded': v[2], 'cpu_s': round(v[1], 1)} for k, v in sorted(per.items())},
                       'cases_total': total, 'cases_ok': agg['ok'], 'cases_discarded': agg['discard'],
                       'cases_not_run': agg['skipped'], 'cases_with_a_known_finding': agg['known'], 'resource_errors': agg['resource'],
                       'distribution': dict(sorted(labels.items()))},
          'assumptions': spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(reported)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for p in reported:
        print('VIOLATION property=%s replay=%s' % (prop, p))
    if rc == 0 and bugs:
        for b in bugs[:3]:
            print('check error in %s case %s:\n%s' % b, file=sys.stderr)
        return 2
    print('%s %s: %d cases (%d ok, %d discarded, %d not run), %d evaluations, %d distinct non-trivial, %.1fs' % (
        prop, tier, total, agg['ok'], agg['discard'], agg['skipped'], evals, len(nontriv), time.time() - t0))
    return rc
