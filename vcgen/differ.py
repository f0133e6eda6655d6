"""Validation of the verifier against the compiled program.

Every explored path of every instruction predicts an outcome.  Here some model of its path condition becomes a concrete
input, the real code runs on it natively (replay/src/bin/ix.rs), and outcome, invocations and the final state of every
account must be what the path predicts.  A difference means the symbolic semantics (a library model, the treatment of
the runtime, the engine) is wrong.

differ.py [instruction,...] [seconds] [unusual inputs per path]"""
import collections, json, os, random, sys, time
import z3
from values import *
import driver, engine, explore, replay
from driver import Task

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def path_sample(wild, seed):
    def spec(s):
        x = s.x
        x.relink()
        if x.check() != z3.sat:
            return
        path = ''.join('TF'[not d] for d in x.trace)
        for i in range(1 + wild):
            rnd = random.Random('%s/%s/%d/%d' % (x.task, path, seed, i)) if i else None
            d = dict(task=x.task, path=path, kind=s.kind, why=s.why)
            try:
                d['case'] = replay.case(s, '', False, rnd)
            except (replay.Fail, z3.Z3Exception, Unsupported, AttributeError, IndexError, KeyError, TypeError, ValueError, RecursionError) as e:
                d['no_case'] = '%s: %s' % (type(e).__name__, e)
                if not isinstance(e, replay.Fail):
                    import traceback
                    d['no_case'] += traceback.format_exc()[-800:]
            s.res['samples'].append(d)
    return spec


def instructions(names):
    return [('V/' + n, (lambda n: lambda x, prog: explore.start_instruction(x, prog, n))(n)) for n in names]


def run(prog, starts, seconds, wild=1, seed=1, repo='/repo'):
    tasks = [Task(n, st, path_sample(wild, seed)) for n, st in starts]
    tot, late = driver.run(prog, tasks, stop_on_violation=False, deadline=time.time() + seconds)
    out = dict(paths=0, run=0, agree=0, no_input=collections.Counter(), differ=[], errors=[], late=late, kinds=collections.Counter())
    for t, r in zip(tasks, tot):
        out['errors'] += r['errors']
        out['paths'] += sum(r['paths'].values())
        for d in r['samples']:
            if 'case' not in d:
                out['no_input'][d['no_case'][:160]] += 1
                continue
            v = dict(case=d['case'])
            out['run'] += 1
            if replay.confirm(v, repo):
                out['agree'] += 1
                out['kinds'][t.name + ' ' + d['kind']] += 1
            else:
                d['why_not'] = v.get('not_reproduced') or v.get('native')
                d['native'] = v.get('native')
                out['differ'].append(d)
    return out


if __name__ == '__main__':
    repo = os.environ.get('VERIF_REPO', '/repo')
    prog = engine.Program(os.environ.get('VERIF_DUMP', os.path.join(VERIF, 'build', 'dump.json')))
    names = sys.argv[1].split(',') if len(sys.argv) > 1 and sys.argv[1] != 'all' else list(explore.INS)
    t0 = time.time()
    if names and names[0][0] == 'C' and names[0] not in explore.INS:
        import props, props_fn
        starts = [(t.name, t.start) for n in names for t in props.TASKS[n]]
    else:
        starts = instructions(names)
    o = run(prog, starts, int(sys.argv[2]) if len(sys.argv) > 2 else 600, int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(os.environ.get('VERIF_SEED', '1')), repo)
    print('%.0fs: %d paths, %d inputs run, %d as predicted, late=%s' % (time.time() - t0, o['paths'], o['run'], o['agree'], o['late']))
    for k, n in sorted(o['kinds'].items()):
        print('   ', n, k)
    for k, n in o['no_input'].most_common(20):
        print('  no input', n, k)
    for e in o['errors'][:5]:
        print('  error', e[:1500])
    json.dump(o['differ'], open('/tmp/differ.json', 'w'), indent=1)
    for d in o['differ'][:20]:
        print('  DIFFERS', d['task'], d['kind'], d['why'], d['path'][-30:], str(d['why_not'])[:600])
