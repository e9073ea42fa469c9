"""Entry point of every check:  python3 sa/run.py PROPERTY [--tier quick|thorough]"""
import argparse, hashlib, importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import threading


class Ctx:
    """What a check reports to."""

    def __init__(self, prop, tier, seed, F):
        self.prop, self.tier, self.seed, self.F = prop, tier, seed, F
        self.viols = {}            # key -> (message, trace)
        self.cov = {}
        self.samples = []
        self.functions = set()
        self.rules = []

    def viol(self, key, msg, trace=()):
        if key not in self.viols:
            self.viols[key] = (msg, list(trace))

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def rule(self, s):
        self.rules.append(s)

    def sample(self, s, limit=12):
        if len(self.samples) < limit and s not in self.samples:
            self.samples.append(s)

    def floor(self, k, n):
        """The analysis must have seen at least n of k, or it looked at nothing."""
        if self.cov.get(k, 0) < n:
            self.viol('floor:' + k, 'the analysis found %d %s, fewer than the %d it needs to decide anything'
                      % (self.cov.get(k, 0), k.replace('_', ' '), n))

    def absorb(self, I):
        self.functions |= I.stats['functions']
        self.count('basic_blocks_interpreted', I.stats['blocks'])
        self.count('calls_interpreted', I.stats['calls'])
        self.count('exit_states', I.stats['paths'])


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                parts = l[7:].split(' ', 2)
                if len(parts) >= 2 and parts[0] == 'property=' + prop and parts[1].startswith('key='):
                    out[parts[1][4:]] = parts[2] if len(parts) > 2 else ''
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import facts
    ctx, err = None, None
    try:
        F = facts.load(a.repo)
        ctx = Ctx(a.prop, a.tier, seed, F)
        import core
        try:
            mod = importlib.import_module('checks.' + a.prop.lower())
            mod.check(ctx)
        except core.Missing as e:
            ctx.viol('anchor:' + str(e)[:60].replace(' ', '-'), 'an anchor of the analysis is missing: %s' % e)
        except core.engine.Budget as e:
            ctx.viol('budget', 'the analysis did not finish within its step limit (%s); nothing is claimed' % e)
    except facts.FactError as e:
        ctx = Ctx(a.prop, a.tier, seed, None)
        ctx.viol('facts', str(e))
    except Exception:
        ctx = ctx or Ctx(a.prop, a.tier, seed, None)
        ctx.viol('internal', traceback.format_exc())
    known = known_findings(a.prop)
    new, old = {}, {}
    for k, v in ctx.viols.items():
        kk = k.replace(' ', '_')
        (old if kk in known else new)[kk] = v
    for k, v in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s [%s]' % (a.prop, known[k] or v[0], k))
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    for k, v in sorted(new.items()):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-%s.txt' % (a.prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
        with open(rp, 'w') as f:
            f.write('property %s\nkey %s\n%s\n\nbranches taken (latest last):\n%s\n' % (a.prop, k, v[0], '\n'.join(map(str, v[1]))))
        print('%s: %s' % (k, v[0].strip()[-1500:]))
        for l in list(v[1])[-6:]:
            print('      ', str(l)[:220])
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
    cov = {'explanation': 'Static analysis of the MIR of the current tree. ' + ' '.join(ctx.rules)}
    cov.update({k: v for k, v in sorted(ctx.cov.items())})
    cov['functions_analysed'] = len(ctx.functions)
    cov['function_names'] = sorted(ctx.functions)[:400]
    cov['samples'] = ctx.samples
    cov['violations'] = sorted(new)
    cov['known_findings'] = sorted(old)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not new:
        print('%s held: %s' % (a.prop, ', '.join('%s=%s' % x for x in sorted(ctx.cov.items()))))
    sys.stdout.flush()
    os._exit(1 if new else 0)


if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(1)
