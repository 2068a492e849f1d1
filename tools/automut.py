"""automut.py [-j N] [--stride K --offset I] [--out LOG] FILES...: systematic mutants (operators, constants, conditions, deleted
statements) of coax source files, each judged by the properties mapped to the file. Prints the survivors for review.
Only used while developing the checks."""
import ast, os, queue, random, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 'coax/utils/_segment_tree.py': 'P01 P02', 'coax/experience_replay/_simple.py': 'P03', 'coax/experience_replay/_prioritized.py': 'P04',
 'coax/reward_tracing/_nstep.py': 'P05', 'coax/reward_tracing/_montecarlo.py': 'P06', 'coax/reward_tracing/_base.py': 'P05 P06', 'coax/reward_tracing/_transition.py': 'P07 P03',
 'coax/proba_dists/_base.py': 'P08 P09 P24', 'coax/proba_dists/_categorical.py': 'P08 P09', 'coax/proba_dists/_composite.py': 'P08 P09 P16', 'coax/proba_dists/_normal.py': 'P08 P09 P10',
 'coax/proba_dists/_squashed_normal.py': 'P08 P09', 'coax/proba_dists/_discretized_interval.py': 'P10 P09', 'coax/proba_dists/_empirical_quantile.py': 'P10 P16',
 'coax/value_transforms/_base.py': 'P11', 'coax/value_transforms/_log_transform.py': 'P11', 'coax/utils/_array.py': 'P13 P12 P08', 'coax/utils/_misc.py': 'P32 P13 P19 P30', 'coax/utils/_jit.py': 'P32 P19',
 'coax/utils/_quantile_funcs.py': 'P30', 'coax/utils/_action_noise.py': 'P30', 'coax/utils/_rolling.py': 'P13',
 'coax/_core/base_func.py': 'P17 P14', 'coax/_core/v.py': 'P14', 'coax/_core/q.py': 'P14', 'coax/_core/reward_function.py': 'P14', 'coax/_core/policy.py': 'P15', 'coax/_core/base_stochastic_func_type1.py': 'P16',
 'coax/_core/base_stochastic_func_type2.py': 'P15 P16', 'coax/_core/stochastic_q.py': 'P16', 'coax/_core/stochastic_v.py': 'P16', 'coax/_core/stochastic_reward_function.py': 'P16',
 'coax/_core/stochastic_transition_model.py': 'P16', 'coax/_core/transition_model.py': 'P16', 'coax/_core/successor_state_q.py': 'P16', 'coax/_core/value_based_policy.py': 'P18', 'coax/_core/random_policy.py': 'P18',
 'coax/_core/worker.py': 'P31', 'coax/_base/mixins/_random_state.py': 'P17', 'coax/_base/mixins/_copy.py': 'P17 P07', 'coax/_base/mixins/_logger.py': 'P28',
 'coax/_base/mixins/_add_orig_to_info.py': 'P27', 'coax/td_learning/_base.py': 'P20 P21 P22 P24', 'coax/policy_objectives/_base.py': 'P23 P22', 'coax/model_updaters/_model_updater.py': 'P26 P22',
 'coax/regularizers/_base.py': 'P24', 'coax/regularizers/_entropy.py': 'P24', 'coax/regularizers/_kl_div.py': 'P24', 'coax/regularizers/_nstep_entropy.py': 'P24',
 'coax/value_losses/_losses.py': 'P25', 'coax/wrappers/_box_spaces.py': 'P27', 'coax/wrappers/_frame_stacking.py': 'P27', 'coax/wrappers/_meta_policy.py': 'P27', 'coax/wrappers/_train_monitor.py': 'P28',
 'coax/envs/_connect_four.py': 'P29'}
for f in '_vanilla_pg _ppo_clip _deterministic_pg _soft_pg'.split():
    MAP[f'coax/policy_objectives/{f}.py'] = 'P23'
for f in '_clippeddoubleqlearning _doubleqlearning _expectedsarsa _qlearning _qlearning_mode _sarsa _simple_td _softclippeddoubleqlearning _softqlearning'.split():
    MAP[f'coax/td_learning/{f}.py'] = 'P20 P21'

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&'}
BOOL = {ast.And: 'or', ast.Or: 'and'}


def mutants(src):
    """[(lineno, old text, start, end, new text)]"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    b = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def add(n, new):
        s, e = pos(n)
        out.append((n.lineno, b[s:e].decode(), s, e, new))

    def visit(n):
        if isinstance(n, (ast.Assert,)):
            pass
        if isinstance(n, ast.Raise):
            add(n, 'pass')
            return
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__', 'tree_repr'):
            return
        if isinstance(n, (ast.JoinedStr, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f'({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            add(n, f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})')
        if isinstance(n, ast.BoolOp):
            add(n, '(' + f' {BOOL[type(n.op)]} '.join(f'({seg(v)})' for v in n.values) + ')')
            if len(n.values) > 2:
                for k in range(len(n.values)):
                    op = 'and' if isinstance(n.op, ast.And) else 'or'
                    add(n, '(' + f' {op} '.join(f'({seg(v)})' for j, v in enumerate(n.values) if j != k) + ')')
            else:
                add(n, f'({seg(n.values[0])})'); add(n, f'({seg(n.values[1])})')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(n, f'({seg(n.operand)})')
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value))
            elif isinstance(n.value, int):
                add(n, str(n.value + 1))
                if n.value > 0:
                    add(n, str(n.value - 1))
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.5 + (n.value == 0) * .5))
        if isinstance(n, ast.IfExp):
            add(n, f'({seg(n.body)})'); add(n, f'({seg(n.orelse)})')
        if isinstance(n, ast.If):
            add(n.test, f'(not ({seg(n.test)}))') if not isinstance(n.test, ast.Compare) else None
        if isinstance(n, (ast.AugAssign, ast.Delete)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, 'pass')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, 'pass')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            sw = {'minimum': 'maximum', 'maximum': 'minimum', 'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'sum': 'mean', 'mean': 'sum', 'argmax': 'argmin', 'log_softmax': 'softmax',
                  'zeros': 'ones', 'zeros_like': 'ones_like', 'ones_like': 'zeros_like', 'append': 'insert0', 'all': 'any', 'any': 'all'}
            if n.func.attr in sw and sw[n.func.attr] != 'insert0':
                add(n.func, f'{seg(n.func.value)}.{sw[n.func.attr]}')
            if n.func.attr in ('clip', 'stop_gradient', 'square', 'abs', 'asarray', 'copy', 'deepcopy') and n.args:
                add(n, f'({seg(n.args[0])})')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            pass
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg and len(n.keywords) + len(n.args) > 1:
                    keep = [seg(a) for a in n.args] + [(f'{x.arg}=' if x.arg else '**') + seg(x.value) for j, x in enumerate(n.keywords) if j != k]
                    add(n, f'{seg(n.func)}({", ".join(keep)})')
        for ch in ast.iter_child_nodes(n):
            visit(ch)
    visit(tree)
    seen, res = set(), []
    for m in out:
        if (m[2], m[3], m[4]) not in seen:
            seen.add((m[2], m[3], m[4])); res.append(m)
    return res


def judge(d, prop, limit):
    p = subprocess.Popen(['./run', prop], cwd=V, env=dict(os.environ, COAX_REPO=d, VERIF_OUT=d, VERIF_FAST='1', VERIF_JOBS='2'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    hit, t0 = None, time.time()
    timer = threading.Timer(limit, lambda: os.killpg(p.pid, 9))
    timer.start()
    tail = []
    for ln in p.stdout:
        tail.append(ln)
        if ln.startswith('---') or ln.startswith('VIOLATION'):
            hit = ln.strip()
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            break
    rc = p.wait()
    timer.cancel()
    if hit:
        return 'caught'
    if rc == 0:
        return 'MISSED'
    return f'caught(error rc={rc} {time.time() - t0:.0f}s)'


def main():
    a = sys.argv[1:]
    def opt(n, d, conv=str):
        if n in a:
            i = a.index(n); v = conv(a[i + 1]); del a[i:i + 2]; return v
        return d
    jobs, stride, offset, out = opt('-j', 6, int), opt('--stride', 1, int), opt('--offset', 0, int), opt('--out', '/tmp/am/log')
    q, todo = queue.Queue(), []
    for f in a:
        src = open(f'/repo/{f}').read()
        ms = mutants(src)
        for k, m in enumerate(ms):
            if k % stride == offset:
                todo.append((f, k, m))
    random.Random(0).shuffle(todo)
    for t in todo: q.put(t)
    print(len(todo), 'mutants', flush=True)
    log = open(out, 'a')
    lock = threading.Lock()

    def work(w):
        d = f'/tmp/am/w{os.getpid()}_{w}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(['cp', '-a', '/repo/coax', d + '/coax'])
        while True:
            try: f, k, (ln, old, s, e, new) = q.get_nowait()
            except queue.Empty: break
            b = open(f'/repo/{f}', 'rb').read()
            nb = b[:s] + new.encode() + b[e:]
            try: compile(nb, f, 'exec')
            except SyntaxError: continue
            open(f'{d}/{f}', 'wb').write(nb)
            res = []
            for p in MAP[f].split():
                r = judge(d, p, 400)
                res.append(f'{p}:{r}')
                if r.startswith('caught'): break
            open(f'{d}/{f}', 'wb').write(b)
            with lock:
                surv = all(':MISSED' in r for r in res)
                print(f'{"**" if surv else "  "} {f}:{ln} #{k} {old!r:.120} -> {new!r:.120} | {" ".join(res)}', file=log, flush=True)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()


if __name__ == '__main__':
    main()
