"""seed.py FILE [ids]: plant the bugs described in FILE (SEEDS = [(id, property, [(file, old, new)...], demo main.rs, needs, breaks), ...]) one
at a time in /repo, confirm that each builds, passes the stable tests, and that its demonstration fails with it and passes without it,
and keep those that do under /verif/seeded/<id>/. /repo is restored after each."""
import json, os, subprocess, sys
R = '/repo'
BASE = os.environ.get('SEED_BASE', '')
SH = r'''#!/bin/bash
# Runs the program beside this script against /repo's core crate; it exits 0 when the property holds.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1 || true
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src" "$work/tmp"
cp "$here/main.rs" "$work/demo/src/main.rs"
cp /repo/Cargo.lock "$work/demo/Cargo.lock"
cat > "$work/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
polodb_core = { path = "/repo/src/polodb_core" }
[workspace]
T
cd "$work/demo"
export CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet
export TMPDIR="$work/tmp"
timeout 60 "$work/target/debug/demo"
'''
HEAD = '''use polodb_core::bson::{doc, Bson, Document};
use polodb_core::*;

#[allow(dead_code)]
fn fresh() -> (std::path::PathBuf, Database) {
    let path = std::env::temp_dir().join(format!("seed-{}", std::process::id()));
    let db = Database::open_path(&path).unwrap();
    (path, db)
}

#[allow(dead_code)]
fn ids(c: &Collection<Document>, q: Document) -> Vec<Bson> {
    c.find(q).run().unwrap().map(|d| d.unwrap().get("_id").unwrap().clone()).collect()
}

#[allow(dead_code)]
fn i(x: &[i32]) -> Vec<Bson> {
    x.iter().map(|x| Bson::from(*x)).collect()
}

'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def original(patch_files):
    """Every line the change removes comes from the original repository."""
    base = sh('git -C %s log --format=%%H --reverse' % R).stdout.split()[0]
    return base
def main():
    ns = {'HEAD': HEAD}
    exec(open(sys.argv[1]).read(), ns)
    sel = sys.argv[2:]
    for id, prop, edits, demo, needs, breaks in ns['SEEDS']:
        if sel and id not in sel:
            continue
        d = '/verif/seeded/' + id
        os.makedirs(d, exist_ok=True)
        if not demo.startswith('#!'):
            open(d + '/main.rs', 'w').write(demo if 'fn fresh' in demo else HEAD + demo)
            open(d + '/demo.sh', 'w').write(SH)
        else:
            open(d + '/demo.sh', 'w').write(demo)
        os.chmod(d + '/demo.sh', 0o755)
        ok = True
        if os.environ.get('SKIP_CLEAN') is None:
            r = sh('timeout 300 bash %s/demo.sh' % d, cwd=R)
            if r.returncode != 0:
                print(id, 'DEMO FAILS ON THE CLEAN TREE', (r.stdout + r.stderr)[-1200:]); ok = False
        if ok:
            for f, o, n in edits:
                p = os.path.join(R, f); s = open(p).read()
                if s.count(o) != 1:
                    print(id, 'PATTERN x%d: %s' % (s.count(o), o[:60])); ok = False; break
                open(p, 'w').write(s.replace(o, n))
        try:
            if ok:
                diff = sh('git -C %s diff' % R).stdout
                open(d + '/patch.diff', 'w').write(diff)
                root = sh('git -C %s rev-list --max-parents=0 HEAD' % R).stdout.split()[0]
                # the base is the newest commit that is not one of ours
                mine = []
                for l in sh("git -C %s log --format='%%H %%s'" % R).stdout.splitlines():
                    h, m = l.split(' ', 1)
                    if not m.startswith(('fix:', 'hook:')):
                        break
                    mine.append(h)
                for f in {e[0] for e in edits}:
                    removed = [int(x) for x in sh("git -C %s diff -U0 -- %s | grep -oP '^@@ -\\K[0-9]+(,[0-9]+)?' " % (R, f)).stdout.replace(',', ' ').split('\n') if x and ' ' not in x]
                    bl = sh('git -C %s blame -l HEAD -- %s' % (R, f)).stdout.splitlines()
                    for ln in removed:
                        if bl[ln - 1].split()[0].lstrip('^') in mine:
                            print(id, 'NOTE: changes a line of a fix: %s:%d' % (f, ln))
                r = sh('bash /opt/vp/build.sh')
                if r.returncode:
                    print(id, 'BUILD', (r.stdout + r.stderr)[-900:]); ok = False
            if ok:
                r = sh('bash /opt/vp/test.sh /tmp/seed_o.json')
                base = json.load(open('/opt/vp/BASELINE.json'))
                want = base['stable']
                got = json.load(open('/tmp/seed_o.json'))
                gp = set(got.get('passed') or [])
                bad = [t for t in want if t not in gp]
                if bad:
                    print(id, 'TESTS FAIL', bad[:4]); ok = False
            if ok:
                r = sh('timeout 300 bash %s/demo.sh' % d, cwd=R)
                if r.returncode == 0:
                    print(id, 'DEMO PASSES WITH THE BUG'); ok = False
                else:
                    print(id, 'kept:', (r.stdout + r.stderr).strip().splitlines()[-1][:160] if (r.stdout + r.stderr).strip() else r.returncode)
        finally:
            sh('git -C %s checkout -- .' % R)
        if ok:
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        else:
            sh('rm -rf ' + d)
main()
