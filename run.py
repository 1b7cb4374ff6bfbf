#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] : build the harness against /repo's working tree, explore, report.
   run.py --replay <file>                    : rebuild and run one recorded execution."""
import json, os, subprocess, sys, tempfile, shutil, time, glob, struct, signal
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS, TU

MAT = ['matslise/matslise', 'matslise/sector', 'matslise/matslise_formulas', 'util/sectorbuilder',
       'matslise/abstract_matslise']

KNOWN = {'matslise/matslise', 'matslise/sector', 'matslise/matslise_formulas', 'matslise/abstract_matslise', 'matslise/halfrange',
         'matslise/periodic', 'liouville/liouville', 'liouville/sturm_liouville', 'util/sectorbuilder', 'matscs/matscs', 'matscs/sector', 'matscs/matscs_formulas'}


def sh(cmd, timeout=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout


def build(spec, scratch, variant=None):
    v = spec if variant is None else {**spec, **variant}
    cxx = v.get('cxx', 'g++')
    flags = ['-std=' + v.get('std', 'c++17'), v.get('opt', '-O2'), '-w', '-DNDEBUG', '-isystem', '/usr/include/eigen3', '-I', REPO,
             '-I', os.path.join(HERE, 'lib')] + v.get('flags', [])
    tag = v.get('tag', 'm')
    jobs, objs = [], []
    libs = list(v['libs'])
    if libs: # sources that did not exist when the lists in checks.py were made
        for d in ('matslise', 'liouville', 'util', 'matscs'):
            if d == 'matscs' and '-DWITH_MATSCS' not in v.get('flags', []): continue
            for f in sorted(glob.glob(os.path.join(REPO, 'matslise', d, '*.cpp'))):
                f = d + '/' + os.path.basename(f)[:-4]
                if f not in KNOWN: libs.append(f)
    for f in libs:
        o = os.path.join(scratch, tag + '_' + f.replace('/', '_') + '.o')
        # the pre-include lets a harness own a macro of the library's sources
        jobs.append([cxx] + flags + v.get('libflags', []) + ['-c', os.path.join(REPO, 'matslise', f + '.cpp'), '-o', o])
        objs.append(o)
    for h in v['harness'] if isinstance(v['harness'], list) else [v['harness']]:
        o = os.path.join(scratch, tag + '_h_' + os.path.basename(h) + '.o')
        jobs.append([cxx] + flags + v.get('harnessflags', []) + v.get('perfile', {}).get(h, []) + ['-c', os.path.join(HERE, 'harness', h), '-o', o])
        objs.insert(0, o)
    jobs.sort(key=lambda j: -TU.get('/'.join(j[-3].split('/')[-2:]), 1))
    with ThreadPoolExecutor(8) as ex:
        for (rc, out), j in zip(ex.map(sh, jobs), jobs):
            if rc != 0:
                print('BUILD FAILED:', ' '.join(j)); print(out[-4000:])
                sys.exit(3)
    exe = os.path.join(scratch, tag + '_harness')
    rc, out = sh([cxx] + flags + objs + ['-o', exe, '-lpthread', '-ldl'] + v.get('ldflags', []))
    if rc != 0:
        print('LINK FAILED'); print(out[-4000:]); sys.exit(3)
    return exe


def explore(exe, scratch, spec, tier, extra=(), tag='x'):
    out = os.path.join(scratch, 'out_' + tag)
    os.makedirs(out, exist_ok=True)
    dl = spec.get('deadline', {}).get(tier, 150 if tier == 'quick' else 780)
    cmd = [exe, '--out', out, '--deadline', str(dl), '--leaf-seconds', str(spec.get('leaf', 60))] + list(extra)
    if tier == 'thorough': cmd.append('--thorough')
    env = dict(os.environ); env.update(spec.get('env', {}))
    with open(os.path.join(out, 'log'), 'w') as log:
        try:
            rc = subprocess.run(cmd, stdout=log, stderr=log, env=env, timeout=dl + 400).returncode
        except subprocess.TimeoutExpired:
            rc = 6
    recs = []
    for f in sorted(glob.glob(out + '/*.jsonl')):
        for line in open(f, errors='replace'):
            try: recs.append(json.loads(line))
            except ValueError: pass
    outcomes = set()
    for f in glob.glob(out + '/*.outcomes'):
        data = open(f, 'rb').read()
        outcomes.update(struct.unpack('<%dQ' % (len(data) // 8), data))
    return rc, recs, outcomes, open(os.path.join(out, 'log'), errors='replace').read()


def replay_leaf(exe, spec, trail, tier, leaf=None):
    cmd = [exe, '--replay', ','.join(map(str, trail)), '--leaf-seconds', str(leaf or spec.get('leaf', 60) * 3)]
    if tier == 'thorough': cmd.append('--thorough')
    env = dict(os.environ); env.update(spec.get('env', {}))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, timeout=600)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 7, 'timeout'


def known(prop):
    r = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: '):
                d = dict(t.split('=', 1) for t in line.split()[1:3])
                if d.get('property') == prop:
                    r[d['key']] = line.split(None, 3)[3].strip()
    return r


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier'); tier = args[i + 1]; del args[i:i + 2]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    scratch = tempfile.mkdtemp(prefix='mv_')
    try:
        if args and args[0] == '--replay':
            r = json.load(open(args[1]))
            spec = CHECKS[r['property']]
            var = next((v for v in spec.get('variants', [{}]) if v.get('tag', 'm') == r['variant']), {})
            exe = build(spec, scratch, var)
            if r.get('external'):
                print(r['what']); return 1
            rc, out = replay_leaf(exe, spec, r['trail'], r['tier'])
            print(out)
            return 1 if rc else 0
        return check(args[0], tier, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, scratch):
    t0 = time.time()
    spec = CHECKS[prop]
    viol, leaves, states, transitions, checks, configs, conftotal = [], 0, 0, 0, 0, 0, 0
    capped, samples, outcomes, counters, maxima, err = False, [], set(), {}, {}, None
    variants = [v for v in spec.get('variants', [{}]) if tier == 'thorough' or not v.get('thorough_only')]
    exes = {}
    with ThreadPoolExecutor(4) as ex:
        futs = {v.get('tag', 'm'): ex.submit(build, spec, scratch, v) for v in variants}
        exes = {k: f.result() for k, f in futs.items()}
    t_build = time.time() - t0
    for v in variants:
        tag = v.get('tag', 'm')
        vs = {**spec, **v}
        if v.get('external'):  # a free-running companion run (race detector), not an exploration
            cmd = [exes[tag]] + v.get('args', [])
            env = dict(os.environ); env.update(v.get('env', {}))
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, timeout=400)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, out = 7, 'timeout'
            counters[v['external'] + '_runs'] = counters.get(v['external'] + '_runs', 0) + 1
            if rc != 0:
                viol.append(dict(key=v['external'], what=out[-3000:], where='free-running companion run', trail=[], variant=tag, external=True))
            continue
        rc, recs, oc, log = explore(exes[tag], scratch, vs, tier, v.get('args', []), tag)
        outcomes |= oc
        if rc != 0: err = 'explorer exit %d: %s' % (rc, log[-800:])
        done = 0
        for r in recs:
            if r['type'] == 'violation': viol.append({**r, 'variant': tag})
            elif r['type'] == 'sample': samples.append(r['text'])
            elif r['type'] == 'done':
                done += 1
                leaves += r['leaves']; states += r['states']; transitions += r['transitions']; checks += r['checks']
                configs += r['configs']; capped |= r['capped']; conftotal = max(conftotal, r['confTotal'])
                for k, n in r['counters'].items(): counters[k] = counters.get(k, 0) + n
                for k, n in r['maxima'].items(): maxima[k] = max(maxima.get(k, 0), n)
    # confirm, de-duplicate and split into known findings and violations
    kn = known(prop)
    rd = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    seen, real, unconfirmed, knownseen = {}, [], [], {}
    for r in viol:
        key = r['key']
        if key in kn: knownseen[key] = kn[key]; continue
        if seen.get(key, 0) >= (1 if key == 'hang' else 2): continue
        vs = {**spec, **next(v for v in variants if v.get('tag', 'm') == r['variant'])}
        if not r.get('external'):
            rc, out = replay_leaf(exes[r['variant']], vs, r['trail'], tier)
            r['replay_output'] = out[-3000:]
            if rc == 0 and r.get('confs'):
                # not reproduced alone: replay the history of the worker that saw it
                rc2, recs2, _, _ = explore(exes[r['variant']], scratch, vs, tier,
                                           ['--only', ','.join(map(str, r['confs']))] + vs.get('args', []), 'h%d' % len(real))
                if any(q['type'] == 'violation' and q['key'] == key for q in recs2):
                    rc = 1; r['replay_output'] += '\nreproduced only after the history of configurations %s' % r['confs']
            if rc == 0: unconfirmed.append(r); continue
        seen[key] = seen.get(key, 0) + 1
        path = os.path.join(rd, '%s-%d.json' % (prop, len(real)))
        json.dump(dict(property=prop, tier=tier, **{k: r[k] for k in r if k != 'type'}), open(path, 'w'), indent=1)
        real.append((path, r))
    wall = time.time() - t0
    cov = dict(samples=samples[:8] or ['(none)'])
    if spec['level'] == 'fault_enumeration':
        cov.update(evaluations=leaves, distinct_nontrivial=len(outcomes), rule=spec['rule'], fault_points=states, transitions=transitions)
    else:
        cov.update(states=states, transitions=transitions, traces_validated_against_impl=leaves)
    cov.update(distinct_outcomes=len(outcomes), oracle_comparisons=checks, configurations=configs, exhaustive=not capped and not err,
               bound=spec['bound'], build_s=round(t_build, 1), counters=counters,
               largest_error_over_tolerance={k: v for k, v in sorted(maxima.items())})
    if capped: cov['cap'] = 'stopped early (time cap or violations): %d of at least %d configurations were explored' % (configs, conftotal)
    if unconfirmed: cov['unconfirmed'] = ['%s: %s' % (r['key'], r['what'][:300]) for r in unconfirmed[:5]]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=spec['level'], coverage=cov,
                   assumptions=spec.get('assumptions', []), wall_s=round(wall, 1), violations=len(real)),
              open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: executions=%d states=%d transitions=%d comparisons=%d outcomes=%d configs=%d capped=%s build=%.0fs wall=%.0fs'
          % (prop, tier, leaves, states, transitions, checks, len(outcomes), configs, capped, t_build, wall))
    for k, d in knownseen.items(): print('KNOWN-FINDING: property=%s %s' % (prop, d))
    for path, r in real:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   key=%s where: %s\n   %s' % (r['key'], r.get('where', '')[:600], r['what'][:600]))
    if real: return 1
    if err:
        print('ERROR', err); return 4
    return 0


if __name__ == '__main__':
    sys.exit(main())
