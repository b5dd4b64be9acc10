"""Seeded search, minimisation, replay and evidence.

The parent imports the package once and forks one child per simulated run, so a
run starts from the same process image every time and its outcome is a function
of the scenario alone."""
import gc
import importlib
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import time
from collections import Counter

from dst import core
from dst.core import Run, dumps, execute_guarded, rng_for

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get('DST_SCRATCH') or '/tmp'

WORLDS = {'C01': 'campaign:Download', 'C02': 'campaign:Merge', 'C03': 'qc:QC',
          'C04': 'campaign:CommandLine', 'C05': 'nrcan:Convert',
          'C06': 'sensors:TrueMotion', 'C07': 'sensors:FaultySensors',
          'C08': 'plant:Locate', 'C09': 'remap:Remap', 'C10': 'delays:Delays',
          'C11': 'callers:Concurrent', 'C12': 'callers:Interrupted',
          'C13': 'draws:Reproducible', 'C14': 'draws:Downscale', 'C15': 'draws:CloudField', 'C18': 'filters:Filters', 'C22': 'repair:Repair', 'C21': 'stream:DailyQuantile',
          'C17': 'season:Variability', 'C19': 'season:Diverse', 'C20': 'season:Index', 'C23': 'spectra:Spectra', 'C16': 'survey:Survey'}


def load(prop):
    mod, cls = WORLDS[prop].split(':')
    world = getattr(importlib.import_module('dst.worlds.' + mod), cls)()
    gc.collect()
    gc.freeze()              # children need not touch the pages of old objects
    return world


class Pool:
    """At most n forked children, each executing one batch of scenarios."""

    def __init__(self, world, tier, n):
        self.world, self.tier, self.n = world, tier, n
        self.live = {}          # fd -> record of a child
        self.count = 0

    def full(self):
        return len(self.live) >= self.n

    def submit(self, jobs):
        """jobs: list of (tag, scenario)."""
        self.count += 1
        d = os.path.join(SCRATCH, f'r{self.count % 100000:05d}')
        os.mkdir(d)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            status = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                null = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                for k, (_, sc) in enumerate(jobs):
                    sub = os.path.join(d, str(k))
                    os.mkdir(sub)
                    run = Run(self.world.prop, self.tier, sub)
                    data = dumps(execute_guarded(self.world, sc, run)).encode() + b'\n'
                    view = memoryview(data)
                    while view:
                        view = view[os.write(w, view):]
            except BaseException:
                status = 9
            os._exit(status)
        os.close(w)
        self.live[r] = {'pid': pid, 'jobs': jobs, 'buf': bytearray(), 'dir': d, 'why': 'run died without a result',
                        'end': time.monotonic() + self.world.timeout * (1 + len(jobs) / 10)}

    def wait(self):
        """List of (tag, scenario, result, predecessors) of children that finished."""
        done = []
        ready, _, _ = select.select(list(self.live), [], [], 0.5)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                self.live[fd]['buf'] += chunk
            else:
                done.append(fd)
        now = time.monotonic()
        for fd, rec in self.live.items():
            if fd not in done and now > rec['end']:
                rec['why'] = 'run timed out'
                done.append(fd)
                self._kill(rec['pid'])
        out = []
        for fd in done:
            rec = self.live.pop(fd)
            os.close(fd)
            try:
                os.waitpid(rec['pid'], 0)
            except ChildProcessError:
                pass
            self._kill(rec['pid'])
            shutil.rmtree(rec['dir'], ignore_errors=True)
            lines = bytes(rec['buf']).split(b'\n')[:-1]
            before = []
            for k, (tag, sc) in enumerate(rec['jobs']):
                if k < len(lines):
                    res = json.loads(lines[k].decode())
                else:
                    res = {'violation': None, 'hash': '', 'lines': [], 'faults': {}, 'probes': {},
                           'states': [], 'sim': 0, 'steps': 0, 'nontrivial': False, 'known': [],
                           'error': rec['why'] if k == len(lines) else 'not run'}
                    if k > len(lines):
                        continue
                out.append((tag, sc, res, list(before)))
                before.append(sc)
        return out

    @staticmethod
    def _kill(pgid):
        try:
            os.killpg(pgid, signal.SIGKILL)
        except OSError:
            pass


def run_one(world, tier, sc):
    return run_many(world, tier, [sc], 1)[0]


def run_many(world, tier, scs, n):
    """Run a list of scenarios, each in its own process; results in order."""
    pool, out, i = Pool(world, tier, n), [None] * len(scs), 0
    while i < len(scs) or pool.live:
        while i < len(scs) and not pool.full():
            pool.submit([(i, scs[i])])
            i += 1
        for tag, _, res, _ in pool.wait():
            out[tag] = res
    return out


def minimise(world, tier, sc, like, budget, n):
    """Greedy: take the first smaller scenario that still fails the same way."""
    end, tried, progress = time.monotonic() + budget, 0, True
    seen = {dumps(sc)}
    while progress and time.monotonic() < end and tried < 3000:
        progress = False
        batch = []
        for cand in shrinks(world, sc):
            key = dumps(cand)
            if key in seen:
                continue
            seen.add(key)
            batch.append(cand)
            if len(batch) >= n:
                hit = _first(world, tier, batch, like, n)
                tried += len(batch)
                batch = []
                if hit is not None:
                    sc, progress = hit, True
                    break
                if time.monotonic() > end:
                    break
        if not progress and batch and time.monotonic() < end:
            tried += len(batch)
            hit = _first(world, tier, batch, like, n)
            if hit is not None:
                sc, progress = hit, True
    return sc, tried


def shrinks(world, sc):
    if '__seq__' not in sc:
        yield from world.shrink(sc)
        return
    seq = sc['__seq__']
    for i in range(len(seq) - 1):
        yield {'__seq__': seq[:i] + seq[i + 1:]}
    for i, one in enumerate(seq):
        for cand in world.shrink(one):
            yield {'__seq__': seq[:i] + [cand] + seq[i + 1:]}


def _first(world, tier, batch, like, n):
    for cand, res in zip(batch, run_many(world, tier, batch, n)):
        v = res['violation']
        if v and v['cls'] == like['cls'] and v['key'] == like['key']:
            return cand
    return None


def known_findings(prop):
    out = {}
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                if line.startswith('finding: ') and f'property={prop} ' in line:
                    rest = line.split('key=', 1)[1].strip()
                    key, _, what = rest.partition(' ')
                    out[key] = what
    except FileNotFoundError:
        pass
    return out


def seeds(seed, prop, i):
    return rng_for(seed, prop, i)


def decide(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    print(f'{prop} {tier}: VERIF_SEED={seed}', flush=True)
    world = load(prop)
    n = int(os.environ.get('DST_WORKERS') or min(8, os.cpu_count() or 4))
    total = int(os.environ.get('DST_RUNS') or world.runs[tier])
    wall = float(os.environ.get('DST_WALL') or world.wall[tier])
    known = known_findings(prop)
    directed = world.directed(tier)
    pool = Pool(world, tier, n)
    agg = dict(faults=Counter(), probes=Counter())
    states, hashes, nontrivial = set(), set(), set()
    sim = steps = 0
    results, bad, errors, known_hit, samples, twins = 0, [], [], {}, [], {}
    twin_bad = []
    i = 0
    tstart = time.monotonic()
    queue_twins = []
    stop = False
    while True:
        while not stop and not pool.full():
            jobs = []
            while queue_twins and len(jobs) < world.batch:
                jobs.append(queue_twins.pop())
            while len(jobs) < world.batch and i < len(directed) + total \
                    and time.monotonic() - tstart < wall:
                if i < len(directed):
                    sc, tag = directed[i], ('d', i)
                else:
                    k = i - len(directed)
                    sc, tag = world.generate(seeds(seed, prop, k), tier), ('g', k)
                    sc['run'] = k
                i += 1
                jobs.append((tag, sc))
            if not jobs:
                break
            pool.submit(jobs)
        if not pool.live:
            break
        for tag, sc, res, before in pool.wait():
            if tag[0] == 't':
                if res['hash'] != tag[2]:
                    twin_bad.append((tag, sc, res))
                continue
            results += 1
            agg['faults'].update(res['faults'])
            agg['probes'].update(res['probes'])
            sim += res['sim']
            steps += res['steps']
            states.update(res['states'])
            hashes.add(res['hash'])
            if res['nontrivial']:
                nontrivial.add(res['hash'])
            if len(samples) < 4 and res['nontrivial'] and not res['violation']:
                samples.append({'scenario': clip(sc), 'log': [x[:200] for x in res['lines'][:15]]})
            for key in res['known']:
                known_hit[key] = known_hit.get(key, 0) + 1
            if res['error']:
                errors.append((tag, sc, res['error']))
                if len(errors) >= 5:
                    stop = True
            elif res['violation']:
                key = res['violation']['key']
                if key and key in known:
                    known_hit[key] = known_hit.get(key, 0) + 1
                else:
                    bad.append((tag, sc, res, before))
                    if len(bad) >= 8:
                        stop = True
            elif tag[0] == 'g' and tag[1] % 25 == 3:
                queue_twins.append((('t', tag[1], res['hash']), sc))
                twins[tag[1]] = 1
        if bad and time.monotonic() - tstart > 20:
            stop = True
    search_s = time.monotonic() - tstart
    for key in known:
        if key in known_hit:
            print(f'KNOWN-FINDING: property={prop} {known[key]}', flush=True)
    out_lines, seen_cls = [], set()
    os.makedirs(os.path.join(HERE, 'out', 'replays'), exist_ok=True)
    for tag, sc, res, before in sorted(bad, key=lambda b: len(dumps(b[1]))):
        v = res['violation']
        if v['cls'] in seen_cls:
            continue
        seen_cls.add(v['cls'])
        if len(seen_cls) > 3:
            break
        if before:       # did it need what ran before it in the same process?
            alone = run_one(world, tier, sc)
            if not alone['violation']:
                sc = {'__seq__': before + [sc]}
                again = run_one(world, tier, sc)
                res = again if again['violation'] else res
            else:
                res = alone
            v = res['violation']
        budget = 45 if tier == 'quick' else 200
        small, tried = minimise(world, tier, sc, v, budget, n)
        fin = run_one(world, tier, small)
        if not fin['violation']:
            small, fin = sc, res
        path = write_replay(prop, tier, seed, tag, sc, small, fin, tried)
        rc = subprocess.run([os.path.join(HERE, 'run.sh'), 'replay', path],
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        exact = 'REPRODUCED exact' in rc.stdout
        print(f'  {fin["violation"]["cls"]}: {fin["violation"]["msg"]}')
        print(f'  replay in a fresh process: {"exact" if exact else rc.stdout.strip()[-300:]}')
        for line in fin['lines'][-25:]:
            print('   |', line[:220])
        out_lines.append(f'VIOLATION property={prop} replay={path}')
    rate = results / max(search_s, 1e-9) * 3600
    cov = {
        'evaluations': results,
        'distinct_nontrivial': len(nontrivial),
        'rule': world.rule,
        'samples': samples,
        'simulated_runs_per_hour': round(rate),
        'seeds_per_hour': round(rate),
        'simulated_seconds': round(sim, 3),
        'simulated_steps': steps,
        'faults_fired': dict(sorted(agg['faults'].items())),
        'probes': dict(sorted(agg['probes'].items())),
        'distinct_states': len(states),
        'distinct_states_measure': world.measure,
        'distinct_event_logs': len(hashes),
        'directed_scenarios': len(directed),
        'twin_runs_compared': len(twins),
        'twin_runs_differing': len(twin_bad),
        'components_real': world.real_parts,
        'components_stub': world.stub_parts,
        'known_findings_seen': known_hit,
        'workers': n,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': cov, 'assumptions': world.assumptions,
          'wall_s': round(time.monotonic() - t0, 2), 'violations': len(out_lines)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(json.loads(dumps(ev)), f, indent=1)
    os.replace(path + '.tmp', path)
    print(f'{prop} {tier}: {results} runs, {len(nontrivial)} distinct non-trivial, '
          f'{sum(agg["faults"].values())} faults fired, {len(states)} states, {search_s:.1f}s')
    if os.environ.get('DST_VERBOSE'):
        print(json.dumps({'faults': cov['faults_fired'], 'probes': cov['probes']}, indent=1))
    for line in out_lines:
        print(line, flush=True)
    if out_lines:
        return 1
    if errors:
        for tag, sc, e in errors[:3]:
            print('HARNESS ERROR', tag, dumps(sc)[:600])
            print(e)
        return 2
    if twin_bad:
        for tag, sc, res in twin_bad[:3]:
            print('NONDETERMINISTIC RUN', tag, dumps(sc)[:600])
            print('\n'.join(res['lines'][-10:]))
        return 2
    floor = max(1, min(20, total))
    if results < floor:
        print(f'only {results} runs finished within the wall limit')
        return 2
    return 0


def clip(o, depth=0):
    """A readable cut of a scenario for the evidence file."""
    if isinstance(o, dict):
        return {k: clip(v, depth + 1) for k, v in list(o.items())[:25]}
    if isinstance(o, list):
        return [clip(v, depth + 1) for v in o[:12]] + (['...'] if len(o) > 12 else [])
    if isinstance(o, str) and len(o) > 200:
        return o[:200] + '...'
    return o


def write_replay(prop, tier, seed, tag, orig, small, res, tried):
    rec = {'property': prop, 'tier': tier, 'verif_seed': seed, 'run': list(tag),
           'violation': res['violation'], 'hash': res['hash'], 'scenario': small,
           'original_scenario': orig, 'minimiser_runs': tried, 'trace': res['lines'][-400:]}
    name = f'{prop}-{core.h64(dumps(small)):016x}.json'
    path = os.path.join(HERE, 'out', 'replays', name)
    with open(path, 'w') as f:
        json.dump(json.loads(dumps(rec)), f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    world = load(rec['property'])
    res = run_one(world, rec['tier'], rec['scenario'])
    for line in res['lines'][-60:]:
        print('  |', line[:240])
    if res['error']:
        print(res['error'])
        return 2
    if not res['violation']:
        print('NOT REPRODUCED: the scenario now passes')
        return 0
    same = res['violation']['cls'] == rec['violation']['cls']
    exact = same and res['hash'] == rec['hash']
    print('REPRODUCED', 'exact' if exact else ('same class' if same else 'other class'))
    print(f"  {res['violation']['cls']}: {res['violation']['msg']}")
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def digests(prop, tier, count):
    """Print one log hash per scenario (used by the determinism self-test)."""
    seed = int(os.environ.get('VERIF_SEED') or 1)
    world = load(prop)
    n = int(os.environ.get('DST_WORKERS') or 8)
    scs = world.directed(tier) + [dict(world.generate(seeds(seed, prop, k), tier), run=k)
                                  for k in range(count)]
    for k, res in enumerate(run_many(world, tier, scs, n)):
        print(k, res['hash'], (res['error'] or '')[-200:].replace('\n', ' '))
    return 0


def selftest(props):
    """Same seeds twice, with other worker counts and other hash seeds."""
    rc = 0
    for prop in props or sorted(WORLDS):
        base = None
        for workers, hs in ((8, '0'), (8, '0'), (3, '7'), (1, '12345')):
            env = dict(os.environ, DST_WORKERS=str(workers), DST_HASHSEED=hs)
            got = subprocess.run([os.path.join(HERE, 'run.sh'), 'digests', prop,
                                  os.environ.get('DST_RUNS') or '60'],
                                 env=env, stdout=subprocess.PIPE, text=True).stdout
            if base is None:
                base = got
            elif got != base:
                rc = 1
                diff = [a for a, b in zip(base.splitlines(), got.splitlines()) if a != b]
                print(f'{prop}: DIVERGED workers={workers} hashseed={hs}: '
                      f'{len(diff)} runs, e.g. {diff[:2]}')
        print(f'{prop}: {len(base.splitlines())} runs x 4 compared', flush=True)
    return rc


def main(argv):
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == 'digests':
        return digests(argv[1], os.environ.get('VERIF_TIER') or 'quick', int(argv[2]))
    if argv[0] == 'selftest':
        return selftest(argv[1:])
    tier = argv[1] if len(argv) > 1 else (os.environ.get('VERIF_TIER') or 'quick')
    return decide(argv[0], tier)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
