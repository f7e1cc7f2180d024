"""Check runner: run.py <property> [quick|thorough]"""
import sys, os, time, json, re, resource, traceback, importlib, subprocess, multiprocessing as mp, signal
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build
VERIF = build.VERIF
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NP = min(8, os.cpu_count() or 4)

# ---- running proof jobs in a pool with limits --------------------------------------------------
def _child(conn, mod, fn, args, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgid(0, 0)
        sys.setrecursionlimit(100000)
        r = getattr(importlib.import_module(mod), fn)(*args)
        conn.send(('ok', r))
    except MemoryError: conn.send(('err', 'out of memory'))
    except BaseException as e: conn.send(('err', f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-800:]))
    finally: conn.close()

def slay(p):
    """end a worker and the processes it forked"""
    try: os.killpg(p.pid, signal.SIGKILL)
    except (OSError, ProcessLookupError): pass
    p.kill()

def run_jobs(jobs, deadline, width=NP, mem=6 << 30, on=None):
    """jobs: list of (name, mod, fn, args, limit_s) -> {name: ('ok', result) | ('err', text)}"""
    todo = list(jobs); live = {}; out = {}
    ctx = mp.get_context('fork')
    while todo or live:
        while todo and len(live) < width and time.time() < deadline:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, j[1], j[2], j[3], mem)); p.start(); b.close()
            live[j[0]] = (p, a, time.time() + j[4], j)
        if time.time() >= deadline:
            for j in todo: out[j[0]] = ('err', 'time budget exhausted before it was started')
            todo = []
        got = mp.connection.wait([v[1] for v in live.values()], timeout=0.5) if live else []
        for n in list(live):
            p, c, lim, j = live[n]
            if c in got:
                try: out[n] = c.recv()
                except EOFError: out[n] = ('err', f'worker ended ({p.exitcode})')
                p.join(20); slay(p); c.close(); del live[n]
                if on: on(n, out[n])
            elif time.time() > min(lim, deadline):
                slay(p); p.join(); c.close(); del live[n]; out[n] = ('err', 'time budget exhausted')
                if on: on(n, out[n])
    return out
import multiprocessing.connection

# ---- concrete runs -----------------------------------------------------------------------------
class Conc:
    def __init__(self): self.evals = 0; self.distinct = 0; self.samples = []; self.fails = []; self.errs = []; self.cmds = []
def conc_start(exe, what, profile, seed, ms):
    cmd = [exe, 'run', what, str(profile), str(seed), str(ms)]
    return cmd, subprocess.Popen(cmd, env=dict(os.environ, VP_DICT=os.path.join(build.BUILD, 'dict.txt')), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, text=True, errors='replace', start_new_session=True), time.time() + ms / 1000 + 90
def conc_run(c, exe, specs, seed, ms, width=NP):
    todo = list(specs); live = []
    while todo or live:
        while todo and len(live) < width: live.append((todo[0],) + conc_start(todo[0][2] if len(todo[0]) > 2 else exe, *todo[0][:2], seed, ms)); todo.pop(0)
        for e in list(live):
            spec, cmd, p, lim = e
            try: o, _ = p.communicate(timeout=0.3)
            except subprocess.TimeoutExpired:
                if time.time() > lim:
                    os.killpg(p.pid, signal.SIGKILL); p.communicate(); live.remove(e); c.errs.append('timed out: ' + ' '.join(cmd))
                continue
            live.remove(e); c.cmds.append(' '.join(cmd)); got = False
            for l in o.split('\n'):
                f = l.split('\t')
                if f[0] == 'FAIL' and len(f) >= 3: c.fails.append(dict(what=f[1], case=f[2], detail=f[3] if len(f) > 3 else '', cmd=cmd, profile=spec[1])); got = True
                elif f[0] == 'STATS': c.evals += int(f[1]); c.distinct += int(f[2]); got = True
                elif f[0] == 'SAMPLE' and len(c.samples) < 12: c.samples.append(f[1][:200])
            if not got: c.errs.append(f'no result (rc {p.returncode}): ' + ' '.join(cmd))

# ---- verdict -----------------------------------------------------------------------------------
def known(prop):
    p = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

class Report:
    def __init__(self, prop, tier): self.prop = prop; self.tier = tier; self.t0 = time.time(); self.viol = []; self.und = []; self.notes = []; self.obl = {}; self.fns = set(); self.queries = 0; self.solver = 0.0; self.assume = []; self.trusted = []; self.jobs = []; self.conc = Conc(); self.extra = {}; self.loops = 0; self.contracts = set(); self.covers = 0
    def add(self, r, mine=lambda what: True):
        d = sum(a for a, b in r.obl.values()); n = sum(b for a, b in r.obl.values())
        self.jobs.append(dict(job=r.name, obligations=n, discharged=d, secs=round(r.secs, 2), undecided=[u[:300] for u in r.unsup]))
        for k, (a, b) in r.obl.items():
            o = self.obl.setdefault(k, [0, 0]); o[0] += a; o[1] += b
        self.fns |= r.fns; self.queries += r.queries; self.solver += getattr(r, 'solver_s', 0); self.loops += len(r.loops); self.contracts |= set(r.contracts); self.covers += getattr(r, 'covers', 0)
        for a in sorted(getattr(r, 'assumed', ())):
            if 'assumed contract: ' + a not in self.trusted: self.trusted.append('assumed contract: ' + a)
        for u in r.unsup: self.und.append(f'{r.name}: {u}')
        for f in r.failures:
            if not mine(f['what']): self.notes.append(f"{r.name}: belongs to another property: {f['what']} @ {f['loc']}"); continue
            if f['verdict'] == 'sat' and not f['abstracted'] and not r.weak: self.viol.append(dict(kind='obligation', job=r.name, what=f['what'], loc=f['loc'], model=f['model']))
            else: self.und.append(f"{r.name}: obligation not discharged ({f['verdict']}): {f['what']} @ {f['loc']}")
    def finish(self, level):
        prop = self.prop
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        rc = 0
        kf = known(prop)
        conc = [dict(kind='input', **f) for f in self.conc.fails]
        fresh = []
        for v in conc:
            key = (v['what'] + ' ' + v['case']).strip()
            k = [x for x in kf if x[0] in key]
            if k: self.notes.append('known: ' + k[0][1])
            else: fresh.append(v)
        for k, t in kf: print(f'KNOWN-FINDING: property={prop} {t}')
        obl_fail = self.viol
        n = 0
        if fresh or obl_fail:
            rc = 1
            p = os.path.join(VERIF, 'evidence', 'replay', f'{prop}.json')
            json.dump(dict(property=prop, failing_inputs=fresh[:20], failed_obligations=obl_fail[:20]), open(p, 'w'), indent=1, default=str)
            for v in fresh[:3]: print(f"  failing input: {v['what']} | {v['case'][:400]} | {v['detail'][:400]}")
            for v in obl_fail[:5]: print(f"  failed obligation: {v['job']}: {v['what']} @ {v['loc']} model={str(v['model'])[:300]}")
            print(f'VIOLATION property={prop} replay={p}' + ('' if fresh else ' no-failing-input-found'))
            n = len(fresh) + len(obl_fail)
        for u in self.und[:12]: print('UNDECIDED', u[:400])
        d = sum(a for a, b in self.obl.values()); t = sum(b for a, b in self.obl.values())
        cov = dict(self.extra)
        if t: cov.update(obligations=t, discharged=d, checker_cmd=f'./check {prop} {self.tier}', trusted_base=self.trusted, functions_under_contract=len(self.fns), functions=sorted(self.fns)[:200], contracts_used=sorted(str(c) for c in self.contracts), loops_cut_with_invariants=self.loops, reachable_postconditions=self.covers, obligation_kinds={k: v for k, v in sorted(self.obl.items())}, solver='z3 (python3-vt)', solver_queries=self.queries, solver_s=round(self.solver, 2), jobs=self.jobs)
        if self.conc.evals: cov.update(evaluations=self.conc.evals, distinct_nontrivial=self.conc.distinct, samples=self.conc.samples, commands=self.conc.cmds[:20])
        cov.update(self.extra)
        cov['undecided'] = self.und[:50]
        if not cov.get('rule') and self.conc.evals: cov['rule'] = 'generated cases executed on the real code and compared with an independent reference; distinct = distinct case descriptions'
        ev = dict(property=prop, tier=self.tier, seed=SEED, level=level, coverage=cov, assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=n)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)
        print(f'{prop} {self.tier}: obligations {d}/{t} discharged, {len(self.und)} undecided, {self.conc.evals} concrete evaluations, {len(fresh)} failing inputs, {round(time.time() - self.t0, 1)} s')
        for e in self.conc.errs: print('ERROR', e)
        if rc == 0 and self.conc.errs and not self.conc.evals: return 2
        return rc

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import props
    rep = Report(prop, tier)
    try: level = props.run(rep, prop, tier)
    except build.BuildError as e:
        print('ERROR build:', str(e)[-3000:]); return 2
    except Exception:
        import traceback; print('ERROR', traceback.format_exc()[-3000:]); return 2
    return rep.finish(level)

if __name__ == '__main__':
    sys.exit(main())
