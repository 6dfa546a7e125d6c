#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] : decide one property from /repo's current source."""
import os, sys, json, time, signal, importlib, traceback, hashlib, subprocess, multiprocessing
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
import build
from props import PROPS

JOBS = 8
FLOOR_MSG = 'fewer obligations than the floor'


def fingerprint():
    h = hashlib.sha256()
    for top in ('validators', 'validators-derive'):
        for d, ds, fs in os.walk(os.path.join(build.REPO, top)):
            ds.sort()
            if 'target' in ds: ds.remove('target')
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


START = time.time()
LIMIT = 640                     # seconds; a task beyond it counts as undecided
FOUND = 120                     # once there is a violation, the other tasks get this much more
DEADLINE = multiprocessing.Value('d', START + LIMIT)


class OutOfTime(BaseException): pass


def out_of_time(*a):
    if time.time() >= DEADLINE.value: raise OutOfTime()


def task(a):
    modname, path, i = a
    import wit, interp
    mod = importlib.import_module(modname)
    w, e = TASKS[modname][i]
    key = '%s::%s' % (w.name, e)
    t = time.time()
    signal.signal(signal.SIGALRM, out_of_time)
    signal.setitimer(signal.ITIMER_REAL, max(0.1, min(5, DEADLINE.value - t)), 5)
    try:
        r = mod.run_one(PROGS[modname], w, e)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except build.BuildError:
        raise
    except wit.Enough as ex:
        r = ex.rep
        r.entries.append(key)
    except OutOfTime:
        r = wit.Report('')
        r.add(False, key + ':time', ['not analysed within the time budget'], True)
    except (interp.Unsupported, RecursionError) as ex:
        r = wit.Report('')
        r.add(False, key + ':analysis', ['not analysable: %s' % ex], True)
    except Exception as ex:
        r = wit.Report('')
        r.add(False, key + ':analysis', ['internal: ' + traceback.format_exc(limit=-4)], True)
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    r.wall = time.time() - t
    r.witness = '%s  #[validator(%s)] struct X%s' % (key, w.attr, w.body)
    r.viol = [(k, [r.witness] + d) for k, d in r.viol]
    return r


PROGS, TASKS = {}, {}


def run_module(modname, tier, rep):
    import wit, interp
    from multiprocessing import Pool
    mod = importlib.import_module(modname)
    if hasattr(mod, 'check'):
        try: mod.check(rep, tier)
        except wit.Enough: pass
        return
    ws = mod.witnesses(tier) if mod.witnesses.__code__.co_argcount else mod.witnesses()
    try: path = build.dump(modname, wit.source(ws, getattr(mod, 'HEAD', '')), mod.FEATURES, getattr(mod, 'DEPS', ''), getattr(mod, 'STD', ()))
    except build.WitnessError as ex:
        rep.add(False, modname + ':compiles', ['a documented configuration no longer compiles:'] + str(ex).splitlines()[:60])
        rep.entries.append(modname + ':compiles')
        return
    PROGS[modname] = interp.Prog(path)
    TASKS[modname] = [(w, e) for w in ws for e in (mod.entries(w) if hasattr(mod, 'entries') else w.entries)]
    with multiprocessing.get_context('fork').Pool(JOBS) as p:
        for r in p.imap_unordered(task, [(modname, path, i) for i in range(len(TASKS[modname]))]):
            rep.merge(r)
            if r.viol: DEADLINE.value = min(DEADLINE.value, time.time() + FOUND)


def known(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid): out.append(line.split(' ', 2)[2])
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    if tier == 'thorough':
        DEADLINE.value = START + 6000
    t0 = time.time()
    import wit
    os.makedirs(build.BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    rep = wit.Report(pid)
    for m in P['modules']: run_module(m, tier, rep)
    # known findings are identified by obligation key
    kn = known(pid)
    viol = []
    seen_known = set()
    for k, d in rep.viol:
        m = next((x for x in kn if x.split(' ')[0] == k), None)
        if m: seen_known.add(m)
        else: viol.append((k, d))
    for m in sorted(seen_known): print('KNOWN-FINDING: property=%s %s' % (pid, m))
    floor = P.get('floor', 1)
    cov = {
        'obligations': rep.obl, 'discharged': rep.ok, 'undecided': len(rep.incon),
        'checker_cmd': 'python3 run.py %s' % pid,
        'trusted_base': P.get('trusted', TRUSTED),
        'rule': P['rule'], 'explanation': P['rule'],
        'functions_analysed': sorted(rep.fns)[:400], 'function_count': len(rep.fns),
        'abstract_blocks': rep.blocks, 'abstract_states': rep.states,
        'entry_points': len(rep.entries), 'samples': sorted(rep.entries)[:8] + rep.samples[:8],
        'undecided_obligations': [{'key': k, 'why': d[:12]} for k, d in rep.incon[:20]],
        'unmodelled': sorted(rep.notes)[:40],
        'repo_fingerprint': fingerprint(),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov,
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %d functions, %.1fs' % (
        pid, rep.obl, rep.ok, len(rep.incon), len(viol), len(rep.fns), time.time() - t0))
    if rep.obl < floor and not viol:
        print('ERROR: %s (%d < %d): the analysis lost its anchors' % (FLOOR_MSG, rep.obl, floor))
        sys.exit(2)
    if viol:
        rp = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rp, exist_ok=True)
        out = os.path.join(rp, pid + '.txt')
        groups = {}
        for k, d in viol: groups.setdefault(k, []).append(d)
        with open(out, 'w') as f:
            f.write('property %s (%s)\nreplay: python3 run.py %s\n\n' % (pid, P['title'], pid))
            for k in sorted(groups):
                f.write('== %s (%d)\n' % (k, len(groups[k])))
                for d in groups[k][:5]: f.write('\n'.join('   ' + x for x in d) + '\n\n')
        for k in sorted(groups)[:10]:
            print('  %s' % k)
            for x in groups[k][0][:14]: print('      ' + x[:220])
        print('VIOLATION property=%s replay=%s' % (pid, out))
        sys.exit(1)
    sys.exit(0)


TRUSTED = ['rustc nightly front end: macro expansion, type checking and MIR construction',
           'driver/ (MIR to JSON) and engine/ (abstract interpreter, library models of core/alloc)',
           'the semantics of core/alloc functions as modelled in engine/models.py']

if __name__ == '__main__':
    try:
        main()
    except build.BuildError as ex:
        print('ERROR: ' + str(ex)[-4000:])
        sys.exit(2)
