"""The check of one property:  run.py <property> [quick|thorough]

Rebuilds the extractor and the MIR of /repo's current tree, generates the obligations of the property and lets Z3
discharge them.  Exit 0: all discharged; 1: an obligation fails (VIOLATION line); 2: no answer."""
import collections, fnmatch, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
os.environ.setdefault('Z3_DEBUG', '0')
REPO = os.environ.get('VERIF_REPO', '/repo')


def build(out):
    t = time.time()
    r = subprocess.run(['bash', os.path.join(VERIF, 'tools/dump.sh'), out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout[-4000:])
        print('ERROR: the extraction of %s failed' % REPO)
        sys.exit(2)
    return time.time() - t


def known_findings(pid):
    """[(obligation pattern, task pattern, description)] of the listed findings that are not repaired"""
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) obligation=(\S+) path=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    dump = os.environ.get('VERIF_DUMP')
    tb = 0.0
    if not dump:
        dump = os.path.join(VERIF, 'build', 'dump.json')
        if os.path.exists(dump):
            os.unlink(dump)
        tb = build(dump)
    import z3
    import engine, driver, props, props_fn, trust, replay, contracts
    if seed:
        z3.set_param('smt.random_seed', seed % 1000)
    prog = engine.Program(dump)
    sha = hashlib.sha256(open(dump, 'rb').read()).hexdigest()
    thorough = tier == 'thorough'
    driver.CROSS = thorough
    tasks = props.TASKS[pid]
    limit = (3600 if thorough else 800) - tb
    tot, late, helpers = contracts.run(prog, tasks, stop_on_violation=not thorough, deadline=t0 + tb + limit)
    prog.contracts = {}
    obl, cover, viol, errors, unknown = collections.Counter(), collections.Counter(), [], [], []
    fns, modelled, bounded, used = set(prog.contract_fns), set(prog.contract_modelled), set(), set()
    stats = [0, 0.0, 0]
    cross = collections.Counter()
    paths = collections.Counter()
    for t, r in zip(tasks, tot):
        obl.update(r['obl'])
        cover.update(r['cover'])
        viol += r['viol']
        errors += r['errors']
        unknown += r['unknown']
        fns |= r['fns']
        modelled |= r['modelled']
        bounded |= r['bounded']
        used |= r['used']
        paths.update(r['paths'])
        cross.update(r['cross'])
        for i in range(3):
            stats[i] += r['stats'][i]
        if not r['errors'] and not r['viol'] and not r['unknown']:
            if not sum(r['paths'].values()):
                errors.append('%s: no path reaches an outcome (vacuous)' % t.name)
            elif not sum(r['obl'].values()):
                errors.append('%s: no obligation was generated (vacuous)' % t.name)
    if late:
        errors.append('out of time')
    if cross.get('disagree'):
        errors.append('the two solvers disagree on %d obligation sets' % cross['disagree'])
    known = known_findings(pid)
    hits = collections.OrderedDict()
    fresh = []
    for v in viol:
        for o, pth, what in known:
            if fnmatch.fnmatch(v['obligation'], o) and fnmatch.fnmatch(v['path'], pth):
                hits[what] = v
                break
        else:
            fresh.append(v)
    names = sorted(set(cover))
    report = {}
    for t, r in zip(tasks, tot):
        n, i = t.name, 2
        while n in report:
            n, i = '%s (%d)' % (t.name, i), i + 1
        report[n] = dict(paths=dict(r['paths']), obligations=sum(r['obl'].values()), solver_calls=r['stats'][0], solver_s=round(r['stats'][1], 2),
                         cpu_s=round(r['cpu'], 1), contracts_in_use=not r.get('inlined', False))
    inner, lib, ext = trust.split(prog, fns, modelled)
    failed = len(viol) + len(unknown)
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=seed, level='proof', wall_s=0.0, violations=len(fresh),
              coverage=dict(
                  obligations=sum(obl.values()) + failed, discharged=sum(obl.values()),
                  checker_cmd='Z3_DEBUG=0 python3-vt /verif/vcgen/run.py %s %s' % (pid, tier),
                  trusted_base=trust.BASE + ['assumed contract (external function): ' + e for e in ext],
                  back_end='Z3 %s' % z3.get_version_string() + (' and cvc5, each obligation set by both' if thorough else ''),
                  named_obligations=len(names), obligation_names=names[:400],
                  paths=dict(paths), tasks=report,
                  solver_calls=stats[0], solver_s=round(stats[1], 2), solver_unknown=stats[2], undecided=sorted(set(unknown)),
                  cross_checked=dict(cross),
                  functions_under_contract=inner, library_functions_executed=lib, helper_contracts={n: d for n, d in helpers.items()}, replaced_by_contract=sorted(used), bounded=sorted(bounded), extraction_sha256=sha, extraction_s=round(tb, 1),
                  errors=errors[:10], known_findings=list(hits)),
              assumptions=trust.ASSUMPTIONS + (['bounded: ' + b for b in sorted(bounded)]))
    if thorough and not fresh and not errors and not unknown:
        import differ
        d = differ.run(prog, [(t.name, t.start) for t in tasks], 900, 1, seed, REPO)
        ev['coverage']['semantics_validation'] = dict(
            what='a model of the path condition of every explored path, run on the compiled program: outcome, invocations and final accounts compared with the prediction',
            paths=d['paths'], inputs_run=d['run'], as_predicted=d['agree'], no_concrete_input=sum(d['no_input'].values()), stopped_early=d['late'],
            differences=[dict(task=q['task'], path=q['path'], difference=str(q['why_not'])[:600]) for q in d['differ'][:10]])
        print('%s: %d inputs of %d paths run natively, %d as predicted' % (pid, d['run'], d['paths'], d['agree']))
        if d['differ']:
            errors.append('the verifier and the compiled program disagree on %d inputs' % len(d['differ']))
    ev['wall_s'] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations (%d names) over %s paths of %d tasks, %d discharged; %d solver calls, %.1f s in the solver, %.1f s in all' % (
        pid, sum(obl.values()) + failed, len(names), sum(paths.values()), len(tasks), sum(obl.values()), stats[0], stats[1], time.time() - t0))
    for what in hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if fresh:
        t1 = time.time()
        for v in fresh[:12]:
            if time.time() - t1 < 60 or not any(v.get('replayed') for v in fresh):
                left = t0 + tb + limit + 60 - time.time()
                if left > 20 and replay.confirm(v, REPO, left):
                    break
        fresh.sort(key=lambda v: (v.get('replayed') is not True, v['obligation']))
        rp = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rp, exist_ok=True)
        rp = os.path.join(rp, pid + '.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, extraction_sha256=sha, violations=fresh[:10]), f, indent=1)
        for v in fresh[:5]:
            for nm in ('not_reproduced', 'no_case'):
                if v.get(nm):
                    print('(%s: %s)' % (nm, v[nm][:500]))
            print('failed obligation %s (task %s, outcome %s %s)%s' % (v['obligation'], v['task'], v['outcome'], v['why'][:200], ' -- replayed natively' if v.get('replayed') else ''))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if fresh[0].get('replayed') else ' no-failing-input-found'))
        sys.exit(1)
    if errors or unknown:
        for e in errors[:5]:
            print('ERROR: ' + e[:3000])
        for u in sorted(set(unknown))[:5]:
            print('UNDECIDED: ' + u)
        sys.exit(2)
    print('%s holds' % pid)
    sys.exit(0)


if __name__ == '__main__':
    main()
