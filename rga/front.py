"""Front end: compile the rustc driver, dump the typed MIR of /repo's working tree, load it."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("RGA_WORK", os.path.join(HERE, ".work"))
REPO = os.environ.get("RGA_REPO", "/repo")
NS = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu"
CARGO_HOME_BIN = "/root/.cargo/bin"
ALLOW = ["core::option::Option", "core::result::Result", "core::cmp::", "core::convert", "core::clone", "core::ops"]
DENY = ["core::fmt"]


class FrontError(Exception):
    pass


def _h(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def repo_sources():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(base, f))
    out.append(os.path.join(REPO, "Cargo.toml"))
    return out


def _env():
    e = dict(os.environ)
    e["PATH"] = CARGO_HOME_BIN + ":" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "1.83.0-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    e.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "RUSTC", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


class Lock:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _run(cmd, env, cwd, what):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise FrontError(f"{what} failed ({r.returncode}):\n{r.stdout[-4000:]}")
    return r.stdout


def build_driver():
    src = os.path.join(HERE, "driver", "main.rs")
    pre = os.path.join(HERE, "prelude", "lib.rs")
    d = os.path.join(WORK, "tool-" + _h([src, pre]))
    drv, dump = os.path.join(d, "rga"), os.path.join(d, "prelude.json")
    if os.path.exists(os.path.join(d, "ok")):
        return drv, dump
    os.makedirs(d, exist_ok=True)
    env = _env()
    _run([NS + "/bin/rustc", "--edition", "2021", "-O", "-o", drv, src, "-C", "link-arg=-Wl,-rpath," + NS + "/lib"], env, d, "driver build")
    allow, deny = os.path.join(d, "allow"), os.path.join(d, "deny")
    open(allow, "w").write("\n".join(ALLOW) + "\n")
    open(deny, "w").write("\n".join(DENY) + "\n")
    env.update(RGA_CRATE="prelude", RGA_OUT=dump, RGA_ALLOW=allow, RGA_DENY=deny)
    _run([drv, "--edition", "2021", "--crate-type", "lib", "--crate-name", "prelude", "--emit=metadata", "-o", os.path.join(d, "libprelude.rmeta"), pre], env, d, "prelude dump")
    open(os.path.join(d, "ok"), "w").close()
    return drv, dump


def dump_repo(features=()):
    """typed-MIR dump of /repo's current working tree"""
    with Lock():
        drv, pre = build_driver()
        tool = os.path.dirname(drv)
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy("/opt/vp/Cargo.lock", lock)
        srcs = repo_sources()
        tag = "-".join(features) or "base"
        hh = _h(srcs + [lock, os.path.join(HERE, "driver", "main.rs")])
        out = os.path.join(WORK, f"dump-{tag}-{hh}.json")
        if os.path.exists(out):
            return out, pre, srcs
        for f in os.listdir(WORK):
            if f.startswith(f"dump-{tag}-"):
                os.unlink(os.path.join(WORK, f))
        target = os.path.join(WORK, "target-" + tag)
        env = _env()
        env["RUSTC"] = NS + "/bin/rustc"
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["RGA_CRATE"] = "rgeometry"
        tmp = out + ".tmp"
        env["RGA_OUT"] = tmp
        env["RGA_ALLOW"] = os.path.join(tool, "allow")
        env["RGA_DENY"] = os.path.join(tool, "deny")
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if f.startswith("rgeometry-"):
                    shutil.rmtree(os.path.join(fp, f), ignore_errors=True)
        cmd = [CARGO_HOME_BIN + "/cargo", "check", "--offline", "--lib", "--target-dir", target]
        if features:
            cmd += ["--features", ",".join(features)]
        txt = _run(cmd, env, REPO, "cargo check of /repo")
        if not os.path.exists(tmp):
            raise FrontError("the driver did not run on rgeometry:\n" + txt[-2000:])
        os.rename(tmp, out)
        return out, pre, srcs


def load(features=()):
    sys.path.insert(0, os.path.join(HERE, "rga"))
    from program import Program
    t = time.time()
    out, pre, srcs = dump_repo(features)
    P = Program().load(out).load(pre, primary=False)
    P.sources = srcs
    P.front_s = time.time() - t
    return P
