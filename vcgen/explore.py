"""Path exploration of an entry function and the outcome record of one path."""
import time, traceback
import z3
from values import *
import engine, models, world
from engine import Program, X, Machine, Panic, Abort, Infeasible, Stats
from world import World, InsCtx, TopSigner, TopWritable, DLP, SYSTEM, LOADER

INS = {
    'delegate': (0, 7), 'commit': (1, 9), 'finalize': (2, 8), 'undelegate': (3, 12),
    'init_protocol_vault': (5, 3), 'init_validator_vault': (6, 6), 'validator_claim': (7, 3),
    'whitelist': (8, 7), 'top_up': (9, 4), 'delegate_ephemeral': (10, 8), 'close_ephemeral': (11, 3),
    'protocol_claim': (12, 3), 'commit_from_buffer': (13, 10), 'close_validator_vault': (14, 5),
}

from spec import Payload, Hi, PLen, NAcc, MAXACC, acc


class Outcome:
    """result of one path: kind 'ok' | 'err' | 'panic' | 'abort'"""

    def __init__(self, kind, x, ret=None, why=''):
        self.kind = kind
        self.x = x
        self.ret = ret
        self.why = why


def start_instruction(x, prog, name, init=None, escrow_signs=False):
    """run process_instruction with the tag of `name` on arbitrary accounts and payload"""
    tag = INS[name][0]
    w = World(x, escrow_signs=escrow_signs)
    w.ctx = InsCtx(lambda k: TopSigner(x.canon(k)), lambda k: TopWritable(x.canon(k)))
    x.assume(z3.And(PLen >= 0, PLen <= world.MAX_LEN, NAcc >= 0, NAcc <= 255))
    for k in (DLP, SYSTEM, LOADER):
        x.assume(z3.Not(TopSigner(k)))
    x.assume(z3.Distinct(DLP, SYSTEM, LOADER))
    if init:
        init(x, w)
    data = Rope((('c', bytes([tag])), ('o', Hi, 0, 7), ('o', Payload, 0, PLen)))
    accs = AccArr([acc(i) for i in range(MAXACC)], NAcc)
    x.inputs = dict(data=data, keys=[acc(i) for i in range(MAXACC)], n=NAcc, pid=DLP)
    m = Machine(prog, x, models)
    x.machine = m
    w.machine = m
    fid = prog.fn('dlp::process_instruction')
    return m.run(fid, [Ptr(Cell(DLP, 'program_id')), Ptr(Cell(accs, 'accounts'), (), NAcc), Ptr(Cell(data, 'data'), (), data.len())])


def explore(prog, start, handle, stats=None, prefixes=None, limit=None, max_paths=None):
    """depth-first over all feasible paths; `handle(outcome)` for each.  Returns the number of paths."""
    stats = stats or Stats()
    todo = list(prefixes) if prefixes is not None else [[]]
    n = 0
    while todo:
        prefix = todo.pop()
        x = X(prog, prefix, stats)
        out = None
        try:
            r = start(x)
            out = Outcome('ok' if (not isinstance(r, Adt) or r.v == 0) else 'err', x, r)
        except Panic as e:
            out = Outcome('panic', x, None, str(e))
        except Abort as e:
            out = Outcome('abort', x, None, str(e))
        except Infeasible:
            out = None
        except (Unsupported, AttributeError, IndexError, TypeError, KeyError, AssertionError, z3.Z3Exception) as e:
            if isinstance(e, Unsupported):
                raise
            raise Unsupported('%s: %s at %s' % (type(e).__name__, e, x.where())) from e
        todo.extend(x.alts)
        if out is not None:
            n += 1
            handle(out)
        if max_paths and n >= max_paths:
            return n, todo
    return n, []


if __name__ == '__main__':
    import sys, collections
    prog = Program(sys.argv[2] if len(sys.argv) > 2 else '/verif/build/dump.json')
    st = Stats()
    cnt = collections.Counter()
    oks = []
    t0 = time.time()

    def h(o):
        cnt[o.kind] += 1
        if o.kind in ('ok',):
            oks.append((len(o.x.trace), o.x.steps, o.x.flags[:3], [(str(k), str(n)[:100]) for k, _, n in o.x.world.lamlog]))
    explore(prog, lambda x: start_instruction(x, prog, sys.argv[1]), h, st, max_paths=int(sys.argv[3]) if len(sys.argv) > 3 else None)
    print(sys.argv[1], dict(cnt), 'time %.1f' % (time.time() - t0), 'checks', st.checks, 'solver %.1f' % st.time, 'unknown', st.unknown)
    for o in oks:
        print(o)
