"""Author's tool: turns tools/seeds_data.py into seeded/<id>/ after confirming each planted bug in a scratch copy of /repo.

    python3-vt tools/mkseed.py [--force] [--all-checks] [ID ...]

For each bug: the edit applies, the tree builds, the stable tests pass, demo.sh fails with the edit and passes without;
then the property's check is run against the scratch copy and its verdict recorded in seeded/RESULTS.json."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import seeds_data
S = "/tmp/seedrepo"
W = "/tmp/seedwork"
ENV = """export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= PROPTEST_RNG_SEED=20250129 PROPTEST_MAX_SHRINK_TIME=10000
cd /tmp/seedrepo
"""
DEMO = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
W=$PWD
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$W"
O=$(mktemp -d)
trap 'rm -rf "$O"' EXIT
L=$(ls -t target/debug/deps/librgeometry-*.rlib | head -1)
B="rustc --edition 2021 -A warnings -C overflow-checks=on -o $O/demo $D/demo.rs --extern rgeometry=$L -L dependency=target/debug/deps"
if grep -q 'ordered_float::' "$D/demo.rs"; then
  for r in target/debug/deps/libordered_float-*.rlib; do $B --extern ordered_float="$r" 2> "$O/log" && break; done
elif grep -q 'rand::' "$D/demo.rs"; then
  for r in target/debug/deps/librand-*.rlib; do $B --extern rand="$r" 2> "$O/log" && break; done
else
  $B
fi
[ -x "$O/demo" ] || { cat "$O/log" 2>/dev/null; exit 0; }
timeout 100 "$O/demo"
"""


def sh(cmd, cwd=S, timeout=900):
    r = subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def fresh():
    if not os.path.isdir(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    subprocess.check_call(["git", "-C", S, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "-f", head])


def build():
    return sh("cargo test --workspace --all-targets --no-run --offline && cargo check --lib --features rug --offline")


def tests():
    sh("rm -rf proptest-regressions.keep; [ -d proptest-regressions ] && cp -a proptest-regressions proptest-regressions.keep; mkdir -p /tmp/seedlog; rm -f /tmp/seedlog/*; "
       "set -f; for g in lib:'--lib --bins' tests:'--test *' doc:--doc; do timeout 300 cargo test --workspace ${g#*:} --no-fail-fast --offline -- --test-threads 8 > /tmp/seedlog/${g%%:*}.log 2>&1; done; set +f; "
       "git checkout -q -- proptest-regressions; git clean -fdq proptest-regressions; rm -rf proptest-regressions.keep; python3 /opt/vp/results.py /tmp/seedlog/out.json 'cargo:/tmp/seedlog/*.log'")
    o = json.load(open("/tmp/seedlog/out.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in stable if t not in set(o["passed"])]


def check(pid):
    env = dict(os.environ, RGA_REPO=S, RGA_WORK=W)
    r = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
    return r.returncode, r.stdout


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    force = "--force" in sys.argv
    rp = os.path.join(HERE, "seeded", "RESULTS.json")
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(os.path.join(W, "target-base")) and os.path.isdir(os.path.join(HERE, ".work")):
        subprocess.call(f"cp -a {HERE}/.work/. {W}/", shell=True)
    for s in seeds_data.SEEDS:
        if args and not any(s["id"].startswith(a) for a in args):
            continue
        d = os.path.join(HERE, "seeded", s["id"])
        confirmed = os.path.exists(os.path.join(d, "patch.diff"))
        if confirmed and not force and not args:
            continue
        fresh()
        for f, old, new in s["edits"]:
            p = os.path.join(S, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT DOES NOT MATCH", f, t.count(old), old[:60])
                break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = subprocess.check_output(["git", "-C", S, "diff"], text=True)
            if not confirmed or force or open(os.path.join(d, "patch.diff")).read() != diff or open(os.path.join(d, "demo.rs")).read() != s["demo"]:
                tmp = "/tmp/seeddemo"
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(tmp)
                open(tmp + "/demo.sh", "w").write(s.get("demo_sh", DEMO))
                open(tmp + "/demo.rs", "w").write(s["demo"])
                rc, out = build()
                if rc:
                    print(s["id"], "DOES NOT BUILD", out[-1500:]); continue
                bad = tests()
                if bad:
                    print(s["id"], "TESTS FAIL", bad[:5]); continue
                rc, out1 = sh(f"bash {tmp}/demo.sh")
                subprocess.check_call(["git", "-C", S, "stash", "-q"])
                rc2, out2 = build()
                rc3, out3 = sh(f"bash {tmp}/demo.sh")
                subprocess.check_call(["git", "-C", S, "stash", "pop", "-q"])
                if rc == 0 or rc3 != 0:
                    print(s["id"], f"DEMO: with patch {rc}, without {rc3}", out1[-600:], out3[-600:]); continue
                os.makedirs(d, exist_ok=True)
                open(d + "/patch.diff", "w").write(diff)
                for f in ("demo.sh", "demo.rs"):
                    shutil.copy(f"{tmp}/{f}", d)
                os.chmod(d + "/demo.sh", 0o755)
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                print(s["id"], "confirmed")
            import importlib.util
            if os.path.exists(os.path.join(HERE, "checks", s["prop"].lower() + ".py")):
                rc, out = check(s["prop"])
                ev = os.path.join(HERE, "evidence", s["prop"] + ".violations.json")
                keys = [v["key"] for v in json.load(open(ev))] if rc == 1 and os.path.exists(ev) else []
                res[s["id"]] = {"property": s["prop"], "exit": rc, "keys": keys[:5]}
                print(s["id"], "check", s["prop"], "exit", rc, keys[:2], "" if rc == 1 else out[-400:])
            if "--all-checks" in sys.argv:
                others = []
                for c in sorted(os.listdir(os.path.join(HERE, "checks"))):
                    if c.startswith("c") and c.endswith(".py") and c[:-3].upper() != s["prop"]:
                        rc, _ = check(c[:-3].upper())
                        if rc == 1:
                            others.append(c[:-3].upper())
                        elif rc:
                            print("   ERROR", c, rc)
                res.setdefault(s["id"], {})["also"] = others
                print("   also caught by", others)
            json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
    fresh()


if __name__ == "__main__":
    main()
