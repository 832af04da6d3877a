"""Common driver of the per-property checks.

A check extracts the resolved program from /repo's current tree, discharges a
list of obligations over it, writes its evidence file and reports.  Exit 0:
every obligation holds (or is a listed known finding); exit 1: VIOLATION;
exit 3: the analysis could not decide (missing anchor, unparsable unit,
construct outside the analysis), which is neither."""
import fnmatch, json, os, shutil, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import extract
from extract import Broken, VERIF, REPO
import program
from program import Program, rel
import absint

EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')


class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.obs = []            # (rule, instance, ok)
        self.viol = {}           # key -> (rule, where, text)
        self.units = []
        self.functions = set()
        self.paths = 0
        self.notes = []
        self.assume = []
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.work = None
        self.mins = {}

    # -------------------------------------------------------------- program
    def load(self, files, witness=(), jobs=8, cflags=(), tolerate=()):
        """files: paths relative to /repo/src/common ('*' allowed); witness: paths under /verif/witness"""
        fs = []
        base = os.path.join(REPO, 'src/common')
        allf = extract.all_tus()
        for pat in files:
            m = [f for f in allf if fnmatch.fnmatch(os.path.relpath(f, base), pat)]
            if not m:
                raise Broken('no source unit matches %s' % pat)
            fs += [f for f in m if f not in fs]
        ws = [os.path.join(VERIF, 'witness', w) for w in witness]
        self.work = tempfile.mkdtemp(prefix='nsx-%s-' % self.pid)
        outs, bad = extract.extract(fs + ws, self.work, jobs, cflags=cflags, extra_prefix=[os.path.join(VERIF, 'witness')])
        if bad:
            raise Broken('units do not parse:\n' + '\n'.join(l for b in bad for l in b.splitlines() if 'error' in l)[:3000])
        P = Program()
        for o in outs:
            P.load(o)
        self.units = [os.path.relpath(f, REPO) for f in fs] + ['witness/' + w for w in witness]
        shutil.rmtree(self.work, ignore_errors=True)
        self.work = None
        return P

    def fn(self, P, qs, nparams=None, ctor=None, pick=None):
        r = [f for f in P.find(qs, nparams, ctor) if f.body is not None or f.inits]
        if pick is not None:
            r = [f for f in r if pick(f)]
        if len(r) != 1:
            raise Broken('anchor %s: %d definitions found, expected 1' % (qs, len(r)))
        return r[0]

    def fns(self, P, qs, least=1, pick=None):
        r = [f for f in P.find(qs) if f.body is not None or f.inits]
        if pick is not None:
            r = [f for f in r if pick(f)]
        if len(r) < least:
            raise Broken('anchor %s: %d definitions found, expected at least %d' % (qs, len(r), least))
        return r

    def interp(self, P, **kw):
        I = absint.Interp(P, **kw)
        self._interps = getattr(self, '_interps', [])
        self._interps.append((P, I))
        return I

    # ---------------------------------------------------------- obligations
    def ob(self, rule, inst, ok, text='', where='', key=None):
        """one obligation; key identifies the instance independently of positions"""
        self.obs.append((rule, inst, bool(ok)))
        if not ok:
            k = key or '%s|%s' % (rule, inst)
            if k not in self.viol:
                self.viol[k] = (rule, where, text or inst)
        return bool(ok)

    def need(self, rule, n):
        """fail as broken when fewer than n instances of a rule were examined"""
        c = sum(1 for r, _, _ in self.obs if r == rule)
        if c < n:
            raise Broken('rule %s matched %d instances, at least %d were confirmed by hand' % (rule, c, n))

    # --------------------------------------------------------------- report
    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return {}
        r = {}
        for e in json.load(open(p)):
            if e['property'] == self.pid and e.get('status') == 'known':
                r[e['key']] = e
        return r

    def finish(self):
        for P, I in getattr(self, '_interps', []):
            for k in I.inlined:
                f = P.funcs.get(k)
                if f is not None:
                    self.functions.add(f.q)
            self.paths += I.stats['paths']
        known = self.known()
        new = {k: v for k, v in self.viol.items() if k not in known}
        old = {k: v for k, v in self.viol.items() if k in known}
        rules = {}
        for r, i, ok in self.obs:
            d = rules.setdefault(r, {'obligations': 0, 'discharged': 0})
            d['obligations'] += 1
            d['discharged'] += ok
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'obligations': len(self.obs), 'discharged': sum(1 for o in self.obs if o[2]),
                'rules': rules,
                'units_analysed': self.units,
                'functions_analysed': sorted(self.functions),
                'paths': self.paths,
                'samples': ['%s: %s: %s' % (r, i, 'holds' if ok else 'FAILS') for r, i, ok in (self.obs[:6] + [o for o in self.obs if not o[2]][:10])],
                'notes': self.notes,
                'known_findings': sorted(old),
                'violations': [{'key': k, 'rule': v[0], 'where': v[1], 'what': v[2]} for k, v in sorted(new.items())],
            },
            'assumptions': self.assume,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]['what']))
        if not self.obs:
            raise Broken('no obligation was generated')
        if new:
            rp = os.path.join(EVID, self.pid + '.replay.txt')
            with open(rp, 'w') as f:
                f.write('re-run: cd /verif && python3 checks/%s.py\n\n' % self.pid)
                for k, v in sorted(new.items()):
                    f.write('%s\n  rule:     %s\n  where:    %s\n  instance: %s\n\n' % (v[2], v[0], v[1], k))
            for k, v in sorted(new.items())[:20]:
                print('  %s: [%s] %s' % (v[1], v[0], v[2]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s obligations=%d functions=%d paths=%d wall=%.1fs' % (self.pid, len(self.obs), len(self.functions), self.paths, time.time() - self.t0))
        return 0


def main(pid, rule, body, assume=()):
    c = Check(pid, rule)
    c.assume = list(assume)
    try:
        body(c)
        rc = c.finish()
    except Broken as e:
        # an alarm already established stands even when another part cannot be decided
        if c.viol:
            try:
                c.notes.append(str(e))
                rc = c.finish()
            except Broken:
                rc = 3
            if rc == 1:
                sys.exit(1)
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        rc = 3
    except (absint.Unsupported, absint.Budget) as e:
        if c.viol:
            rc = c.finish()
            if rc == 1:
                sys.exit(1)
        print('ANALYSIS-BROKEN property=%s: %s: %s' % (pid, type(e).__name__, e))
        if '-v' in sys.argv:
            traceback.print_exc()
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        if c.work:
            shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)
