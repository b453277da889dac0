"""Run infrastructure: goals in parallel, evidence, replay files, verdict."""
import os, sys, json, time, traceback, multiprocessing as mp, re, random
import build, ir as IR, sym, qtmodels
from sym import Engine, Unsupported, Budget, State

VERIF = build.VERIF

class Goal:
    def __init__(self, name, fn, level=0, contract=None, prop=None, budget=None):
        self.name = name; self.fn = fn; self.level = level; self.contract = contract; self.prop = prop; self.budget = budget

def _run_goal(args):
    """a goal that does not go through with list loops cut at their iterators is tried again with index loops cut too; either proof decides"""
    r, seen = _attempt(args, False)
    if r['status'] != 'proved' and seen:
        r2, _ = _attempt(args, True)
        if r2['status'] == 'proved': return r2
        if os.environ.get('VERIF_VERBOSE'): print('  second attempt of %s: %s %s %s' % (args[1].name, r2['status'], r2['reason'], [(f['name'], f['info'][:200], f['where']) for f in r2['failed'][:3]]), flush=True)
    return r
def _attempt(args, idx):
    run, g, enabled = args
    t = time.time()
    eng = run.engine(enabled, skip=g.contract); eng.idx_loops = idx; eng.idx_seen = False
    eng.deadline = t + (min(120, g.budget or run.goal_budget) if idx else (g.budget or run.goal_budget))
    reason = None
    try:
        g.fn(eng)
    except Unsupported as e: reason = 'unsupported: %s' % e
    except Budget as e: reason = 'budget: %s' % e
    except RecursionError as e: reason = 'recursion'
    except build.BuildError as e: reason = 'build: %s' % e
    except Exception as e:
        reason = 'internal: %r %s' % (e, ''.join(traceback.format_tb(e.__traceback__)[-3:]))
    obls = {}
    rep = []
    for o in eng.obls:
        k = (o.name, o.status)
        obls[k] = obls.get(k, 0) + 1
        if o.status != 'proved' and len(rep) < 12:
            rep.append(dict(name=o.name, status=o.status, info=str(o.info), model=o.model, where=str(o.where)))
    failed = [o for o in eng.obls if o.status == 'failed']
    unk = [o for o in eng.obls if o.status == 'unknown']
    if failed: status = 'refuted'
    elif reason or unk: status = 'undecided'; reason = reason or 'solver returned unknown on %s' % unk[0].name
    elif eng.posts == 0: status = 'undecided'; reason = 'vacuous: no path reached the postcondition'
    else: status = 'proved'
    return dict(goal=g.name, status=status, reason=reason, obligations=len(eng.obls), discharged=sum(1 for o in eng.obls if o.status == 'proved'),
                failed=rep, kinds={k[0]: v for k, v in obls.items() if k[1] == 'proved'}, trusted=sorted(eng.trusted), executed=sorted(eng.executed),
                contracts=sorted(eng.used_contracts), queries=eng.queries, solver_s=round(eng.solver_time, 3), wall=round(time.time() - t, 3),
                posts=eng.posts, paths=eng.paths, assumptions=sorted(eng.assumptions), notes=eng.notes), eng.idx_seen

_CUR = None
def _child(i):
    run, goals, enabled = _CUR
    return _run_goal((run, goals[i], enabled))

class Run:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.mods = {}
        self.models = []          # installers
        self.contracts = {}       # name -> (regex, apply)
        self.goal_budget = 240 if tier == 'quick' else 600
        self.results = []
        self.rng = random.Random(seed)
        self.native_info = []
        self.native_fail = []
        self.native_runs = 0
        self.assumptions = []
        self.undecided_native = None
        self.timeout_ms = 20000 if tier == 'quick' else 60000
        self.jobs = 8
        self.crosscheck = tier == 'thorough'
    # -------------------------------------------------------------- modules
    def load(self, *specs):
        """specs: (key, src, flags)"""
        ps = []
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [(k, ex.submit(build.ir, s, os.path.join(build.scratch(), k + '.ll'), f)) for k, s, f in specs]
            for k, f in fs: ps.append((k, f.result()))
        for k, p in ps: self.mods[k] = IR.Module(p)
        return [self.mods[k] for k, _ in ps]
    def engine(self, enabled=(), skip=None):
        e = Engine(list(self.mods.values()), repo=build.REPO, timeout_ms=self.timeout_ms)
        qtmodels.install(e)
        for f in self.models: f(e)
        for n in enabled:
            if n == skip: continue
            rx, ap = self.contracts[n]
            e.contract_rx.append((re.compile(rx), ap))
        e.run_ctx = self
        return e
    # -------------------------------------------------------------- goals
    def prove(self, goals, enabled=()):
        global _CUR
        out = []
        if not goals: return out
        _CUR = (self, goals, list(enabled))
        order = sorted(range(len(goals)), key=lambda i: -(goals[i].budget or 0))
        if os.environ.get('VERIF_SERIAL'):
            out = [_child(i) for i in range(len(goals))]
        else:
            with mp.get_context('fork').Pool(min(self.jobs, len(goals)), maxtasksperchild=1) as pool:
                rs = [(i, pool.apply_async(_child, (i,))) for i in order]
                got = {}
                for i, r in rs:
                    try: got[i] = r.get(timeout=(goals[i].budget or self.goal_budget) + 260)
                    except Exception as e:
                        got[i] = dict(goal=goals[i].name, status='undecided', reason='worker: %r' % (e,), obligations=0, discharged=0, failed=[], kinds={},
                                      trusted=[], executed=[], contracts=[], queries=0, solver_s=0, wall=0, posts=0, paths=0, assumptions=[], notes=[])
                out = [got[i] for i in range(len(goals))]
        for g, r in zip(goals, out):
            r['kind'] = 'contract' if g.contract else 'property'
            if os.environ.get('VERIF_VERBOSE'):
                print('  [%s] %-60s %-9s obl=%d/%d posts=%d %.1fs q=%d %s' % (r['kind'][:4], g.name[:60], r['status'], r['discharged'], r['obligations'], r['posts'], r['wall'], r['queries'], (r['reason'] or '')[:1200]), flush=True)
                for f in r['failed'][:3]: print('       ', f['name'], f['status'], f['info'][:200], f['where'], json.dumps(f['model'], default=str)[:600], flush=True)
        self.results += out
        return out
    def prove_contracts(self, cgoals, ok=()):
        """level by level; a contract that is not proved is not used (its body is used instead)"""
        ok = list(ok)
        for lv in sorted(set(g.level for g in cgoals)):
            gs = [g for g in cgoals if g.level == lv]
            rs = self.prove(gs, ok)
            good = {}
            for g, r in zip(gs, rs):
                good[g.contract] = good.get(g.contract, True) and r['status'] == 'proved'
            ok = ok + [c for c, v in good.items() if v]
        return ok
    # -------------------------------------------------------------- verdict
    def finish(self, level='proof', extra=None, trusted_extra=()):
        pg = [r for r in self.results if r['kind'] == 'property']
        refuted = [r for r in pg if r['status'] == 'refuted']
        und = [r for r in pg if r['status'] == 'undecided']
        known = dict((m.group(1), m.group(2)) for m in re.finditer(r'^known: property=%s key=(\S+) (.*)$' % self.pid, open(os.path.join(VERIF, 'known-findings.txt')).read(), re.M)); found = {}
        for r in pg:
            for n in r['notes']:
                if not (isinstance(n, tuple) and n[0] == 'finding'): continue
                if n[1] in known: found[n[1]] = known[n[1]]
                elif r not in refuted: refuted.append(r); r['status'] = 'refuted'; r['failed'].append(dict(name=n[1], status='failed', info=n[2], model=None, where=''))
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
        viol = 0; line = None
        rp = os.path.join(VERIF, 'out', '%s-replay.json' % self.pid)
        if self.native_fail or refuted:
            viol = max(1, len(self.native_fail))
            rep = dict(property=self.pid, repo=build.REPO,
                       failing_inputs=self.native_fail[:20],
                       failed_obligations=[dict(goal=r['goal'], obligations=r['failed']) for r in refuted],
                       how='failing_inputs: run through the harness built from /repo by this check (%s)' % '; '.join(self.native_info))
            with open(rp, 'w') as f: json.dump(rep, f, indent=1, default=str)
            line = 'VIOLATION property=%s replay=%s' % (self.pid, rp)
            if not self.native_fail: line += ' no-failing-input-found'
        allr = self.results
        cov = dict(
            obligations=sum(r['obligations'] for r in allr), discharged=sum(r['discharged'] for r in allr),
            checker_cmd='python3-vt check.py %s --tier %s (symbolic VC generation over clang-18 LLVM IR of /repo, obligations discharged by z3 %s%s)' % (self.pid, self.tier, __import__('z3').get_version_string(), ', cross-checked by cvc5' if self.crosscheck else ''),
            trusted_base=sorted(set('assumed contract: ' + t for r in allr for t in r['trusted'])) + ['clang 18 front end (C++ to LLVM IR at -O0)', 'engine/*.py VC generator', 'z3'] + list(trusted_extra),
            goals=[dict(goal=r['goal'], kind=r['kind'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'], kinds=r['kinds'], posts=r['posts'], solver_s=r['solver_s'], reason=r['reason']) for r in allr],
            functions_under_contract=sorted(set(c for r in allr for c in r['contracts'])),
            functions_verified=sorted(set(c for r in allr for c in r['executed'])),
            proved_goals=sum(1 for r in pg if r['status'] == 'proved'), refuted_goals=len(refuted), undecided_goals=[dict(goal=r['goal'], reason=r['reason']) for r in und],
            solver_s=round(sum(r['solver_s'] for r in allr), 2), solver_queries=sum(r['queries'] for r in allr),
            replay_harness=dict(purpose='bounded: replay of counterexamples, stand-in for undecided goals, check of the assumed library contracts; never counted as proved', executions=self.native_runs, info=self.native_info, failures=len(self.native_fail)))
        if extra: cov.update(extra)
        if found: cov['known_findings'] = found
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=sorted(set(self.assumptions) | set(a for r in allr for a in r['assumptions'])), wall_s=round(wall, 2), violations=viol)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        print('%s: %d/%d property goals proved, %d refuted, %d undecided; %d/%d obligations discharged; %d harness runs, %d failures; %.1fs' % (
            self.pid, cov['proved_goals'], len(pg), len(refuted), len(und), cov['discharged'], cov['obligations'], self.native_runs, len(self.native_fail), wall))
        for r in und: print('  undecided: %s: %s' % (r['goal'], (r['reason'] or '')[:300]))
        for r in refuted:
            print('  refuted: %s: %s' % (r['goal'], '; '.join('%s [%s] at %s' % (f['name'], f['info'][:160], f['where']) for f in r['failed'][:3])))
        for f in self.native_fail[:5]: print('  failing input: %s' % json.dumps(f, default=str)[:600])
        for k, v in found.items(): print('KNOWN-FINDING: property=%s %s' % (self.pid, v))
        build.cleanup()
        if line:
            print(line); return 1
        return 0
