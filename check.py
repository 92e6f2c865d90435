#!/usr/bin/env python3
"""Decides one property: discharges its contract obligations against /repo's current source.

  check.py <PROPERTY>            run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py --setup               build the verification crates
  check.py --replay <file>       re-run a counterexample natively against the real code

Exit 0: every obligation discharged.  Exit 1: violation (see the VIOLATION line).  Exit 2: the check could not decide.
"""
import fcntl, hashlib, json, os, re, resource, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
from mirror import mirror

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.join(os.path.dirname(VERIF), 'repo')
KANI = os.path.join(VERIF, 'kani')
BUILD = os.path.join(VERIF, '.build')
LIMIT = 860  # seconds for the whole check
HARNESS_LIMIT = 480  # seconds for one harness
MEMORY = 14 << 30  # bytes of address space for one verifier process


def die(msg):
    print('ERROR ' + msg)
    sys.exit(2)


def load(name):
    with open(os.path.join(VERIF, name)) as f:
        return json.load(f)


def source_hash():
    h = hashlib.sha256()
    for top in ('common', 'pallets', 'runtime'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            if 'target' in ds:
                ds.remove('target')
            for f in sorted(fs):
                if f.endswith('.rs'):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
                    h.update(b'\0')
    return h.hexdigest()[:16]


def short(n):
    """Name of a harness in the native driver."""
    return n.split('::')[-1]


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', REPO_SRC_HASH=source_hash(), CARGO_TERM_COLOR='never')
    e.pop('RUSTFLAGS', None)
    return e


def run(cmd, timeout, log):
    """Runs in its own process group so that a timeout leaves nothing behind."""
    with open(log, 'w') as out:
        p = subprocess.Popen(cmd, cwd=KANI, stdout=out, stderr=subprocess.STDOUT, env=env(), start_new_session=True,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY)))
        try:
            return p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return None


def kani_cmd(crate, extra):
    return ['cargo', 'kani', '-p', crate, '--target-dir', os.path.join(BUILD, 'kani'), '-Z', 'stubbing',
            '-Z', 'unstable-options'] + extra


def compile_errors(log):
    with open(log, errors='replace') as f:
        lines = f.read().splitlines()
    out = []
    for i, l in enumerate(lines):
        if re.match(r'error(\[E\d+\])?:', l):
            out += lines[i:i + 6]
    return out[:40]


def build_native(crate, timeout, log):
    cmd = ['cargo', '+nightly', 'build', '-q', '-p', crate, '--bin', 'replay-' + crate[len('proofs-'):],
           '--target-dir', os.path.join(BUILD, 'native')]
    if run(cmd, timeout, log) != 0:
        return None
    return os.path.join(BUILD, 'native', 'debug', 'replay-' + crate[len('proofs-'):])


def playback_vectors(text):
    """Concrete values of the failing obligations (cover statements are listed too: the caller replays them all)."""
    res = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', text, re.S):
        vals = [bytes(int(x) for x in v.split(',') if x.strip()) for v in re.findall(r'vec!\[([\d,\s]*)\]', m.group(1))]
        res.append(vals)
    return res


def classify(check):
    d, c = check['description'], check['category']
    if d.startswith('MODEL-GAP') or c in ('unwind', 'unsupported_construct', 'unwinding') or 'unwinding assertion' in d:
        return 'gap'
    return 'violation'


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    plan = load('plan.json')
    common = plan['assumptions']
    p = plan['properties'].get(prop)
    if not p:
        die('no check for ' + prop)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evidence = os.path.join(VERIF, 'evidence', prop + '.json')
    if os.path.exists(evidence):
        os.remove(evidence)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    mirror()
    logs = os.path.join(BUILD, 'log', prop)
    os.makedirs(logs, exist_ok=True)
    left = lambda: LIMIT - (time.time() - t0)

    hs = [h for h in p['harnesses'] if tier == 'thorough' or h.get('tier') != 'thorough']
    hit = refute(prop, p, hs, logs, left, seed)
    if hit:
        n, what = hit
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': p['level'], 'assumptions': common + p.get('assumptions', []),
              'wall_s': round(time.time() - t0, 2), 'violations': 1,
              'coverage': {'obligations': 1, 'discharged': 0, 'checker_cmd': 'native run of contract %s' % n,
                           'trusted_base': p.get('trusted', []), 'functions_under_contract': p.get('functions', []),
                           'explanation': 'a concrete input breaks the contract: ' + what + '; the verifier was not asked'}}
        with open(evidence, 'w') as f:
            json.dump(ev, f, indent=1)
        print('  failed: %s: %s' % (n, what))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.join(BUILD, 'replay', prop + '.replay')))
        sys.exit(1)
    obligations, results, per = [], [], {}
    groups = {}
    for h in hs:
        groups.setdefault((h.get('crate', p.get('crate')), bool(h.get('memory_safety'))), []).append(h['name'])
    cmds, lost = [], []
    for (crate, memory), names in sorted(groups.items()):
        out = os.path.join(logs, crate + ('-m' if memory else '') + '.json')
        if os.path.exists(out):
            os.remove(out)
        log = out[:-5] + '.log'
        extra = ['-j', '8', '--output-format', 'terse', '--export-json', out, '--exact',
                 '--harness-timeout', str(HARNESS_LIMIT)]
        if not memory:
            extra.append('--no-memory-safety-checks')
        for n in names:
            extra += ['--harness', n]
        cmd = kani_cmd(crate, extra)
        cmds.append(' '.join(cmd))
        rc = run(cmd, left() - 120, log)
        if rc is not None and not os.path.exists(out) and not compile_errors(log):
            # killed from outside, most likely for lack of memory: once more with fewer verifiers at a time
            cmd[cmd.index('-j') + 1] = '3'
            rc = run(cmd, left() - 120, log)
        if rc is None:
            lost += [(crate, memory, n) for n in names]
            continue
        if not os.path.exists(out):
            for l in compile_errors(log):
                print(l)
            die('%s: the verification crate %s did not build (log %s)' % (prop, crate, log))
        with open(out) as f:
            d = json.load(f)
        stats = {c['harness_id']: c.get('cbmc_stats') or {} for c in d.get('cbmc', [])}
        got = {r['harness_id']: r for r in d['verification_results']['results']}
        for n in names:
            if n not in got or not got[n].get('checks'):
                lost.append((crate, memory, n))
                continue
            results.append((crate, memory, n, got[n], stats.get(n, {})))

    meta = {h['name']: h for h in hs}
    total = discharged = 0
    named, covers, gaps, bad, vacuous = [], 0, [], [], []
    solver_s = 0.0
    known_hit = {}
    replay, confirmed = None, False
    undecided = [(c, m, n, 'the verifier gave no result within its limits') for c, m, n in lost]
    gaps += ['%s: %s' % (n, d) for _, _, n, d in undecided]
    for crate, memory, n, r, st in results:
        ok = tot = cov = 0
        solver_s += float(st.get('runtime_decision_procedure_s') or 0)
        for c in r['checks']:
            d, s = c['description'], c['status'].lower()
            if c['category'] == 'cover' or d.startswith('REACH '):
                if not d.startswith('REACH '):
                    continue
                if s == 'satisfied':
                    cov += 1
                else:
                    vacuous.append('%s: %s (%s)' % (n, d, s))
                continue
            tot += 1
            if s in ('success', 'unreachable'):
                ok += 1
                if d.startswith('ENS '):
                    named.append(d[4:] + ' [%s]' % n)
            elif s == 'failure':
                k = next((k for k in p.get('known', []) if k['harness'] == n and d == 'ENS ' + k['obligation']), None)
                if k:
                    known_hit[k['text']] = n
                elif classify(c) == 'gap':
                    gaps.append('%s: %s' % (n, d))
                    undecided.append((crate, memory, n, d))
                else:
                    bad.append((crate, memory, n, c))
            else:
                gaps.append('%s: %s (%s)' % (n, d, s))
        if meta[n].get('bounded'):
            per[n] = {'bounded': meta[n]['bounded'], 'checked': ok, 'of': tot}
        else:
            total += tot
            discharged += ok
            per[n] = {'obligations': tot, 'discharged': ok}
        per[n]['verifier_s'] = round(r.get('duration_ms', 0) / 1000, 2)
        per[n]['reachability_witnesses'] = cov
        covers += cov
    if undecided and not bad:
        # the verifier could not decide these; a concrete failing run of the real code still counts
        replay, confirmed = look(prop, undecided, logs, left, seed)
    if not named and not bad and not gaps and not known_hit:
        die('%s: no named obligation was generated' % prop)

    if bad:
        replay, confirmed = explain(prop, bad, {n: r.get('duration_ms', 0) / 1000 for _, _, n, r, _ in results}, logs, left,
                                    seed)

    bounded = sorted({h['bounded'] for h in hs if h.get('bounded')})
    cov = {
        'obligations': total, 'discharged': discharged,
        'checker_cmd': '; '.join(cmds),
        'trusted_base': ['Kani 0.68 (rustc MIR to goto), CBMC 6.11 symbolic execution, CaDiCaL'] + p.get('trusted', []),
        'functions_under_contract': p.get('functions', []),
        'named_contract_clauses_discharged': sorted(set(named)),
        'backend': 'CBMC/CaDiCaL through Kani', 'solver_s': round(solver_s, 2),
        'harnesses': per, 'reachability_witnesses': covers,
    }
    if bounded:
        cov['bounded_not_counted_as_proved'] = bounded
    if total == 0:
        cov['explanation'] = 'bounded checks only: ' + '; '.join(bounded)
        cov['obligations'] = cov['discharged'] = 0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': p['level'], 'coverage': cov,
          'assumptions': common + p.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if bad or confirmed else 0}
    with open(evidence, 'w') as f:
        json.dump(ev, f, indent=1)

    for t in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    print('%s: %d harnesses, %d/%d obligations discharged, %d named clauses, %d reachability witnesses, %.0f s' %
          (prop, len(results), discharged, total, len(set(named)), covers, time.time() - t0))
    if bad or confirmed:
        for _, _, n, c in bad[:10]:
            print('  failed: %s: %s (%s)' % (n, c['description'], c['function']))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if confirmed else ' no-failing-input-found'))
        sys.exit(1)
    if gaps:
        for g in gaps[:10]:
            print('  undecided: ' + g)
        die('%s: outside what the check covers' % prop)
    if vacuous:
        for g in vacuous[:10]:
            print('  not reachable: ' + g)
        die('%s: vacuous contract' % prop)
    sys.exit(0)


def refute(prop, p, hs, logs, left, seed):
    """A short native search for an input of the real code that breaks a contract, before the verifier is asked."""
    known = {k['harness'] for k in p.get('known', [])}
    hs = [(h.get('crate', p.get('crate')), h['name']) for h in hs if h['name'] not in known]
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    bins = {c: build_native(c, left() - 60, os.path.join(logs, 'native.log')) for c in sorted({c for c, _ in hs})}

    def one(crate, n):
        hit = os.path.join(rdir, '%s.%s.search' % (prop, short(n)))
        if os.path.exists(hit):
            os.remove(hit)
        try:
            r = subprocess.run([bins[crate], short(n), 'search', str(seed), '1', hit], capture_output=True, text=True, timeout=20)
        except subprocess.TimeoutExpired:
            return None
        if r.returncode != 1 or not os.path.exists(hit):
            return None
        with open(hit) as f:
            return crate, n, r.stdout.strip(), f.read()

    with ThreadPoolExecutor(8) as pool:
        found = [f for f in pool.map(lambda a: one(*a), [a for a in hs if bins[a[0]]]) if f]
    for _, n in hs:
        hit = os.path.join(rdir, '%s.%s.search' % (prop, short(n)))
        if os.path.exists(hit):
            os.remove(hit)
    if not found:
        return None
    crate, n, what, body = found[0]
    with open(os.path.join(rdir, prop + '.replay'), 'w') as f:
        f.write('# property %s\n# crate %s\n# harness %s\n# failed obligation: %s\n# found by native search (seed %d)\n%s' %
                (prop, crate, n, what, seed, body))
    return n, what


def look(prop, undecided, logs, left, seed):
    """Native search on the harnesses the verifier could not decide."""
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    path, hit = os.path.join(rdir, prop + '.replay'), os.path.join(rdir, prop + '.search')
    bins, seen = {}, set()
    for crate, memory, n, d in undecided:
        if n in seen or len(seen) >= 8 or left() < 40:
            continue
        seen.add(n)
        if crate not in bins:
            bins[crate] = build_native(crate, left(), os.path.join(logs, 'native.log'))
        if not bins[crate]:
            continue
        if os.path.exists(hit):
            os.remove(hit)
        try:
            r = subprocess.run([bins[crate], short(n), 'search', str(seed), '6', hit], capture_output=True, text=True, timeout=30)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 1 and os.path.exists(hit):
            with open(hit) as f:
                body = f.read()
            with open(path, 'w') as f:
                f.write('# property %s\n# crate %s\n# harness %s\n# the verifier left undecided: %s\n'
                        '# found by native search (seed %d): %s\n%s' % (prop, crate, n, d, seed, r.stdout.strip(), body))
            return path, True
    return None, False


def explain(prop, bad, took, logs, left, seed):
    """Turns failed obligations into a concrete input replayed natively on the real code, if one can be had."""
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, prop + '.replay')
    head = lambda crate, n, ds: '# property %s\n# crate %s\n# harness %s\n%s' % (
        prop, crate, n, ''.join('# failed obligation: %s in %s\n' % (c['description'], c['function']) for c in ds))
    by = {}
    for crate, memory, n, c in bad:
        by.setdefault((crate, memory, n), []).append(c)
    bins = {}

    def attempt(crate, n, ds, vals):
        txt = head(crate, n, ds) + '\n'.join(v.hex() if v else '-' for v in vals) + '\n'
        with open(path, 'w') as f:
            f.write(txt)
        try:
            r = subprocess.run([bins[crate], short(n), 'file', path], capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode == 1:
            with open(path, 'w') as f:
                f.write('# natively observed: %s\n' % r.stdout.strip() + txt)
            return True
        return False

    for crate in {k[0] for k in by}:
        b = build_native(crate, left(), os.path.join(logs, 'native.log'))
        if b:
            bins[crate] = b
    out = ''
    order = sorted(by, key=lambda k: (took[k[2]], k[2]))

    def search(secs):
        hit = os.path.join(rdir, prop + '.search')
        for crate, memory, n in order[:4]:
            if crate not in bins or left() < 30:
                continue
            if os.path.exists(hit):
                os.remove(hit)
            try:
                r = subprocess.run([bins[crate], short(n), 'search', str(seed), str(secs), hit], capture_output=True,
                                   text=True, timeout=60)
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1 and os.path.exists(hit):
                with open(hit) as f:
                    body = f.read()
                with open(path, 'w') as f:
                    f.write(head(crate, n, by[(crate, memory, n)]) + '# found by native search (seed %d)\n' % seed + body)
                return True
        return False

    # the verifier's own counterexample first, unless having it written out costs another long run
    if took[order[0][2]] > 60 and search(4):
        return path, True
    for crate, memory, n in order[:3]:
        if crate not in bins or left() < 60:
            continue
        log = os.path.join(logs, n + '.playback.log')
        extra = ['-Z', 'concrete-playback', '--concrete-playback=print', '--exact', '--harness', n]
        if not memory:
            extra.append('--no-memory-safety-checks')
        run(kani_cmd(crate, extra), min(300, left() - 30), log)
        with open(log, errors='replace') as f:
            text = f.read()
        out += text[-4000:]
        for vals in playback_vectors(text):
            if attempt(crate, n, by[(crate, memory, n)], vals):
                return path, True
    if search(10):
        return path, True
    with open(path, 'w') as f:
        for (crate, memory, n), ds in by.items():
            f.write(head(crate, n, ds))
        f.write('# verifier output\n' + ''.join('# ' + l + '\n' for l in out.splitlines()[-200:]))
    return path, False


def replay(path):
    with open(path) as f:
        txt = f.read()
    crate = re.search(r'^# crate (\S+)', txt, re.M).group(1)
    n = re.search(r'^# harness (\S+)', txt, re.M).group(1)
    mirror()
    b = build_native(crate, 600, os.path.join(BUILD, 'replay.log'))
    if not b:
        die('native build failed')
    sys.exit(subprocess.run([b, short(n), 'file', path]).returncode)


def setup():
    os.makedirs(BUILD, exist_ok=True)
    mirror()
    plan = load('plan.json')
    crates = sorted({h.get('crate', p.get('crate')) for p in plan['properties'].values() for h in p['harnesses']})
    bad = 0
    for c in crates:
        log = os.path.join(BUILD, 'setup-%s.log' % c)
        rc = run(kani_cmd(c, ['--only-codegen']), 800, log)
        print(c, 'verification build', 'ok' if rc == 0 else 'failed (see %s)' % log)
        bad |= rc != 0
        b = build_native(c, 400, log)
        print(c, 'native build', 'ok' if b else 'failed (see %s)' % log)
        bad |= not b
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    if len(sys.argv) == 2 and sys.argv[1] == '--setup':
        setup()
    elif len(sys.argv) == 3 and sys.argv[1] == '--replay':
        replay(sys.argv[2])
    elif len(sys.argv) == 2 and re.match(r'^[A-Z]\d\d+$', sys.argv[1]):
        main(sys.argv[1])
    else:
        print(__doc__)
        sys.exit(2)
