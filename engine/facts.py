"""Run the fact driver on the working tree and load what it wrote."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
from .prog import Prog

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RCRYPTO_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
CFGS = {
    "A": ["--cfg", 'rcrypto_aes="support"', "--cfg", 'rcrypto_sse2="support"', "--cfg", 'rcrypto_sha="support"'],
    "B": [],
}


class BuildError(Exception):
    pass


def _sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def ensure_tools():
    drv = os.path.join(BUILD, "driver", "release", "mirfacts")
    rm = sorted(glob.glob(os.path.join(BUILD, "deps", "**", "librmath-*.rmeta"), recursive=True))
    if not os.path.exists(drv) or not rm:
        subprocess.check_call(["bash", os.path.join(ROOT, "setup.sh")], stdout=sys.stderr)
        rm = sorted(glob.glob(os.path.join(BUILD, "deps", "**", "librmath-*.rmeta"), recursive=True))
    return drv, rm[0]


def load(configs=("A", "B")):
    """{config: Prog} for the current working tree"""
    drv, rmeta = ensure_tools()
    sysroot = _sysroot()
    tmp = tempfile.mkdtemp(prefix="facts-", dir=BUILD)
    try:
        procs = []
        for c in configs:
            out = os.path.join(tmp, c + ".json")
            od = os.path.join(tmp, "o" + c)
            os.mkdir(od)
            env = dict(os.environ, LD_LIBRARY_PATH=sysroot + "/lib", MIRFACTS_OUT=out)
            cmd = [drv, "--sysroot", sysroot, "--crate-name", "rcrypto", "--edition=2018", "--crate-type", "lib",
                   "--emit=metadata", "--cap-lints", "allow", "-C", "overflow-checks=on", "-C", "debug-assertions=off",
                   "--extern", "rmath=" + rmeta, "--out-dir", od] + CFGS[c] + [os.path.join(REPO, "src/lib.rs")]
            procs.append((c, out, subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        res = {}
        for c, out, p in procs:
            o, _ = p.communicate()
            if p.returncode != 0 or not os.path.exists(out):
                raise BuildError("configuration %s does not compile:\n%s" % (c, o[-4000:]))
            res[c] = Prog(out, c)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
