"""Loads the program dumped by the clang front end (pmdump)."""
import json
import os
import subprocess
import hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PM_REPO", "/repo")
FLAGS = ["-std=c++14", "-DNDEBUG", "-I" + REPO + "/src", "-I/usr/include/eigen3", "-I" + ROOT + "/drivers/stubs", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


class FrontendError(Exception):
    pass


def dump(driver, extra=()):
    """Runs the front end on a driver translation unit over /repo's current sources."""
    src = os.path.join(ROOT, "drivers", driver)
    out_dir = os.path.join(ROOT, "build", "ast")
    os.makedirs(out_dir, exist_ok=True)
    exe = os.path.join(ROOT, "build", "pmdump")
    if not os.path.exists(exe):
        subprocess.check_call([os.path.join(ROOT, "frontend", "build.sh")])
    # a cache keyed by the *content* of everything that is parsed (preprocessed text)
    flags = FLAGS + list(extra)
    pre = subprocess.run(["clang++-18" if _has("clang++-18") else "clang++", "-E", src] + flags, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise FrontendError("driver %s does not preprocess:\n%s" % (driver, pre.stderr.decode()[:3000]))
    h = hashlib.sha256(pre.stdout)
    with open(exe, "rb") as f:
        h.update(f.read())
    out = os.path.join(out_dir, "%s.%s.json" % (os.path.basename(driver), h.hexdigest()[:20]))
    if not os.path.exists(out):
        for f in os.listdir(out_dir):
            if f.startswith(os.path.basename(driver) + ".") and f.endswith(".json"):
                try:
                    os.unlink(os.path.join(out_dir, f))
                except OSError:
                    pass
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([exe, "-o", tmp, "--root=" + REPO + "/src", "--root=" + ROOT + "/drivers", src, "--"] + flags,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(tmp):
            raise FrontendError("driver %s does not compile against the current tree:\n%s" % (driver, r.stdout.decode()[:6000]))
        os.rename(tmp, out)
    with open(out) as f:
        return Program(json.load(f), driver)


def _has(x):
    from shutil import which
    return which(x) is not None


class Program:
    def __init__(self, d, name):
        self.name = name
        self.types = [None] + d["types"]
        self.records = {int(k): v for k, v in d["records"].items()}
        self.functions = {int(k): v for k, v in d["functions"].items()}
        self.globals = {int(k): v for k, v in d["globals"].items()}
        for k, v in self.records.items():
            v["id"] = k
        for k, v in self.functions.items():
            v["id"] = k

    def ty(self, t):
        return self.types[t]

    def deref(self, t):
        o = self.types[t]
        while o["k"] == "ref":
            o = self.types[o["to"]]
        return o

    def rec_of(self, t):
        o = self.deref(t)
        return self.records[o["r"]] if o["k"] == "rec" else None

    def isfloat(self, t):
        return self.deref(t)["k"] == "float"

    def find_records(self, name, **kw):
        return [r for r in self.records.values() if r["name"] == name]

    def bases_closure(self, r):
        out = [r]
        for b in r.get("bases", []):
            out += self.bases_closure(self.records[b])
        return out

    def methods(self, rec, name, nparams=None):
        """methods called `name` of rec or its bases, most derived first"""
        out = []
        for r in self.bases_closure(rec):
            for m in r.get("methods", []):
                f = self.functions.get(m)
                if f and f["name"] == name and (nparams is None or len(f["params"]) == nparams):
                    out.append(f)
        return out

    def tname(self, t, depth=0):
        o = self.types[t]
        k = o["k"]
        if k in ("int", "float", "enum", "other"):
            return o.get("s", k)
        if k == "ref":
            return self.tname(o["to"]) + "&"
        if k == "ptr":
            return self.tname(o["to"]) + "*"
        if k == "rec":
            return self.records[o["r"]]["full"]
        return k
