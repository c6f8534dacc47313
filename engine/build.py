"""Compile a harness against /repo's current sources to LLVM IR (nothing is linked or run)."""
import hashlib
import json
import os
import subprocess
import tempfile
from . import ir

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = "clang++-18"


class BuildError(Exception):
    pass


def config_header(intr, popcnt, repo=REPO):
    src = open(os.path.join(repo, "succinct_config.hpp.in")).read()
    out = []
    for ln in src.split("\n"):
        if ln.startswith("#cmakedefine01"):
            nm = ln.split()[1]
            v = {"SUCCINCT_USE_INTRINSICS": intr, "SUCCINCT_USE_POPCNT": popcnt}.get(nm, 0)
            out.append("#define %s %d" % (nm, v))
        elif ln.startswith("#cmakedefine"):
            nm = ln.split()[1]
            v = {"SUCCINCT_USE_INTRINSICS": intr, "SUCCINCT_USE_POPCNT": popcnt}.get(nm, 0)
            out.append("#define %s 1" % nm if v else "/* #undef %s */" % nm)
        else:
            out.append(ln)
    return "\n".join(out)


class Work:
    """scratch directory with generated config headers and a virtual include tree"""

    def __init__(self, intr=1, popcnt=0):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.cfg = os.path.join(self.dir, "succinct_config.hpp")
        with open(self.cfg, "w") as f:
            f.write(config_header(intr, popcnt))
        roots = []
        ents = [{"name": "succinct_config.hpp", "type": "file", "external-contents": self.cfg}]
        sub = []
        for f in sorted(os.listdir(REPO)):
            if f.endswith(".hpp") and f != "succinct_config.hpp":
                sub.append({"name": f, "type": "file", "external-contents": os.path.join(REPO, f)})
        sub.append({"name": "succinct_config.hpp", "type": "file", "external-contents": self.cfg})
        roots.append({"name": REPO, "type": "directory", "contents": ents})
        roots.append({"name": "/vroot/succinct", "type": "directory", "contents": sub})
        self.vfs = os.path.join(self.dir, "vfs.yaml")
        with open(self.vfs, "w") as f:
            json.dump({"version": 0, "case-sensitive": "true", "use-external-names": "true", "overlay-relative": "false", "roots": roots}, f)
        self.popcnt = popcnt

    def flags(self):
        fl = ["-ivfsoverlay", self.vfs, "-I" + REPO, "-I/vroot", "-std=gnu++17"]
        if self.popcnt:
            fl += ["-msse4.2", "-mpopcnt"]
        return fl

    def cleanup(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p.returncode, p.stdout, p.stderr


def compile_ir(src, work, extra=(), opt="function(sroa)"):
    out = os.path.join(work.dir, os.path.basename(src) + "." + hashlib.md5(" ".join(extra).encode()).hexdigest()[:6] + ".ll")
    cmd = [CXX] + work.flags() + ["-O0", "-gline-tables-only", "-Xclang", "-disable-O0-optnone",
                                  "-fno-discard-value-names", "-S", "-emit-llvm", "-w"] + list(extra) + [src, "-o", out]
    rc, o, e = run(cmd)
    if rc:
        raise BuildError("does not compile: %s\n%s" % (src, e[-4000:]))
    if opt:
        rc, o, e = run(["opt-18" if os.path.exists("/usr/bin/opt-18") else "opt", "-S", "-passes=" + opt, out, "-o", out])
        if rc:
            raise BuildError(e[-2000:])
    return out


def load(src, work, extra=(), opt="function(sroa)"):
    p = compile_ir(src, work, extra, opt)
    with open(p) as f:
        return ir.parse_module(f.read())
