#!/usr/bin/env python3
"""Runs one property's simulation check.

  check.py build                       build the simulator from /repo
  check.py PROP [--tier T] [--seed N]  seeded search; exit 0 held, 1 violated, 2 no answer
  check.py --replay FILE               re-execute a replay file; exit 1 if it violates again
"""
import collections, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
KNOWN = os.path.join(HERE, 'known_findings.txt')
META = json.load(open(os.path.join(HERE, 'sim', 'checks.json')))


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def inputs():
    fs = sorted(glob.glob(os.path.join(REPO, 'src', '*.[ch]')) + glob.glob(os.path.join(HERE, 'sim', '*')))
    return [f for f in fs if os.path.isfile(f) and not f.endswith('.json')]


def build():
    h = hashlib.sha256()
    for f in inputs():
        h.update(os.path.basename(f).encode() + b'\0')
        h.update(open(f, 'rb').read() + b'\0')
    out = os.path.join(BUILD, h.hexdigest()[:20])
    exe = os.path.join(out, 'sim')
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='b', dir=BUILD)
    env = dict(os.environ, REPO=REPO)
    r = subprocess.run(['bash', os.path.join(HERE, 'sim', 'build.sh'), tmp], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        die('the simulator does not build:\n' + r.stdout[-4000:])
    for o in glob.glob(os.path.join(tmp, '*.o')):
        os.unlink(o)
    # Keep a few old builds only.
    old = sorted((d for d in glob.glob(os.path.join(BUILD, '*')) if os.path.isdir(d) and d != tmp
                  and re.fullmatch('[0-9a-f]{20}', os.path.basename(d))), key=os.path.getmtime)
    for d in old[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def unesc(s):
    return s.replace('\\n', '\n').replace('\\t', '\t').replace('\\\\', '\\')


def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) class=/(.*)/ what=(.*)$', l.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def replay(exe, prop, tapefile, log=False):
    r = subprocess.run([exe, 'replay', prop, tapefile] + (['log'] if log else []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    m = re.search(r'^CLASS (.*)\nMSG (.*)\nHASH (\S+)', r.stdout, re.M)
    if not m:
        return None
    return m.group(1), m.group(2), m.group(3), r.stdout[m.end():].lstrip('\n')


def do_replay(path):
    exe = build()
    d = json.load(open(path))
    with tempfile.TemporaryDirectory() as td:
        tf = os.path.join(td, 'tape')
        open(tf, 'w').write(' '.join(map(str, d['tape'])) + '\n')
        r = replay(exe, d['property'], tf, True)
    if not r:
        die('replay gave no result')
    print(r[3][:20000])
    if not r[0]:
        print('the replay file no longer violates property %s' % d['property'])
        return 0
    print('class: %s\nmessage: %s\nevent hash: %s (recorded %s)' % (r[0], r[1], r[2], d.get('hash')))
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1


def main():
    a = sys.argv[1:]
    if a and a[0] == 'build':
        print(build())
        return 0
    if len(a) == 2 and a[0] == '--replay':
        return do_replay(a[1])
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    secs = None
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]
        elif a[i] == '--seed': seed = int(a[i + 1])
        elif a[i] == '--secs': secs = float(a[i + 1])
        else: die('unknown argument ' + a[i])
        i += 2
    meta = META[prop]
    t0 = time.time()
    exe = build()
    built = time.time() - t0
    runs = meta['quick_runs'] if tier == 'quick' else 0xffffffff
    limit = secs or (meta.get('quick_secs', 150) if tier == 'quick' else meta.get('thorough_secs', 720))
    print('property=%s tier=%s seed=%d runs<=%d secs<=%g' % (prop, tier, seed, runs, limit))
    sys.stdout.flush()
    jobs = min(16, os.cpu_count() or 8)
    td = tempfile.mkdtemp(prefix='run', dir=BUILD)
    try:
        return search(prop, tier, seed, meta, exe, runs, limit, jobs, td, t0, built)
    finally:
        shutil.rmtree(td, ignore_errors=True)


def search(prop, tier, seed, meta, exe, runs, limit, jobs, td, t0, built):
    t1 = time.time()
    r = subprocess.run([exe, 'check', prop, str(seed), str(jobs), str(runs), str(limit), td],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        die('search failed: ' + r.stdout[-2000:])
    searched = time.time() - t1
    total = nontrivial = instrs = events = 0
    counters = collections.Counter()
    sigs = set()
    vios = []
    errors = []
    for f in sorted(glob.glob(os.path.join(td, 'w*.txt'))):
        for l in open(f, errors='replace'):
            k = l[:2]
            if l.startswith('AGG '):
                p = l.split()
                total += int(p[1]); nontrivial += int(p[2]); instrs += int(p[3]); events += int(p[4])
            elif k == 'C ':
                p = l.split()
                counters[p[1]] += int(p[2])
            elif k == 'S ':
                sigs.add(l[2:].strip())
            elif k == 'V ':
                p = l[2:].rstrip('\n').split('\t')
                vios.append((int(p[0]), p[1], p[2], p[3], p[4].split()))
            elif k == 'E ':
                errors.append(l[2:].strip())
    total += sum(1 for v in vios if v[1] == '0')    # runs whose process died
    if errors:
        die('; '.join(errors))
    classes = collections.OrderedDict()
    for v in sorted(vios, key=lambda v: (len(v[4]), v[0])):
        classes.setdefault(v[2], []).append(v)
    kn = [k for k in known() if k[0] == prop]
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    reported = []
    outdir = os.path.join(HERE, 'replays')
    mindiv = max(1, min(3, len(classes)))
    for cls, vs in list(classes.items())[:3]:
        done = False
        last = None
        for v in vs[:3]:
            tf, mf = os.path.join(td, 'tape'), os.path.join(td, 'min')
            open(tf, 'w').write(' '.join(v[4]) + '\n')
            m = subprocess.run([exe, 'min', prop, tf, mf, str((45 if tier == 'quick' else 120) / mindiv)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if m.returncode != 0:
                last = m.stdout.strip()
                continue
            a, b = replay(exe, prop, mf, True), replay(exe, prop, mf)
            if not a or not b or not a[0] or a[0] != b[0] or a[2] != b[2]:
                last = 'the minimised tape does not replay'
                continue
            done = True
            break
        if not done:
            errors.append('run %d seed %d reported "%s" which does not reproduce (%s)' % (vs[0][0], seed, cls, last))
            continue
        hit = [k for k in kn if k[1].search(a[0] + ' ' + a[1])]
        if hit:
            continue
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, '%s-%s.json' % (prop, hashlib.sha1(cls.encode()).hexdigest()[:10]))
        json.dump({'property': prop, 'class': a[0], 'message': a[1], 'hash': a[2], 'seed': seed, 'run': v[0],
                   'tape': [int(x) for x in open(mf).read().split()], 'log': a[3][:30000],
                   'original_tape_length': len(v[4])}, open(path, 'w'), indent=1)
        reported.append((a[0], a[1], path, len(vs)))
    samples = []
    for k in range(3):
        s = subprocess.run([exe, 'sample', prop, str(seed), str(k)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors='replace')
        samples.append({'run': k, 'log': s.stdout[:2500]})
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith('fault.')}
    cov = {
        'evaluations': total,
        'distinct_nontrivial': len(sigs),
        'rule': meta['rule'],
        'samples': samples,
        'nontrivial_runs': nontrivial,
        'runs_per_hour': int(total / max(searched, 0.001) * 3600),
        'seeds_per_hour': int(total / max(searched, 0.001) * 3600),
        'simulated_instructions': instrs,
        'logged_events': events,
        'faults_injected': faults,
        'actions': {k[7:]: v for k, v in sorted(counters.items()) if k.startswith('action.')},
        'probes': {k[6:]: v for k, v in sorted(counters.items()) if k.startswith('probe.')},
        'distinct_measure': 'hash of the scenario, the schedule and the full event log of each run',
        'real_components': 'all of /repo/src (compiler, VM, collector, serializer, coroutines) under ASan and UBSan',
        'simulated_components': meta.get('stubs', 'host process, host allocator, snapshot stream, host functions, external types and subsystem'),
        'build_s': round(built, 1), 'search_s': round(searched, 1), 'workers': jobs,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'], 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(reported)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('runs=%d nontrivial=%d distinct=%d instructions=%d faults=%s wall=%.0fs' %
          (total, nontrivial, len(sigs), instrs, json.dumps(faults), time.time() - t0))
    for cls, msg, path, n in reported:
        print('violation (%d runs): %s: %s' % (n, cls, msg[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if reported:
        return 1
    if errors:
        die('; '.join(errors))
    if total == 0:
        die('no run finished')
    return 0


if __name__ == '__main__':
    sys.exit(main())
