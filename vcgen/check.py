import sys, time, json, collections
sys.path.insert(0, '/verif/vcgen')
import driver, props, props_fn, engine, contracts

if __name__ == '__main__':
    pids = sys.argv[1].split(',')
    t0 = time.time()
    prog = engine.Program(sys.argv[2] if len(sys.argv) > 2 else '/verif/build/dump.json')
    tasks = [t for p in pids for t in props.TASKS[p]]
    if len(sys.argv) > 3:
        tasks = [t for t in tasks if t.name.split('/')[1] in sys.argv[3].split(',')]
    tot, to, rep = contracts.run(prog, tasks)
    print('contracts', [n for n, d in rep.items() if d['status'] != 'verified'], 'retried', [(t.name, r['why_inlined']) for t, r in zip(tasks, tot) if r.get('inlined')])
    for t, r in zip(tasks, tot):
        print(t.name, dict(r['paths']), 'obl', sum(r['obl'].values()), 'names', len(r['obl']), 'cpu %.1f' % r['cpu'], r['stats'], 'unk', r['unknown'][:3], 'bounded', r['bounded'])
        for e in r['errors'][:2]:
            print('  ERROR', e)
        for v in r['viol'][:4]:
            print("  VIOL", json.dumps(v)[:1200])
        z = [n for n in r['cover'] if n not in r['obl']]
    print('wall %.1f' % (time.time() - t0))
