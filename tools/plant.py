"""Development aid for planted bugs (no check uses it).

plant.py new SPEC.py     create seeded/<id>/ from a spec (ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO)
plant.py verify ID...    confirm a planted bug in scratch copies under /tmp and run its check
plant.py check ID [PROPERTY...]   run checks against the planted bug
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PYTHON = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")


def sh(command, cwd=None, env=ENV, timeout=1200):
    p = subprocess.run(command, cwd=cwd, env=env, shell=isinstance(command, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


class Copy:
    def __enter__(self):
        self.base = tempfile.mkdtemp(prefix="plant", dir="/tmp")
        self.path = os.path.join(self.base, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", self.path], check=True)
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.base)


DEMO = '#!/bin/sh\n# exit 0 if the property holds, 1 otherwise\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nhere=$(CDPATH= cd -- "$(dirname -- "$0")" && pwd)\nPYTHON=/opt/venv/bin/python\n[ -x "$PYTHON" ] || PYTHON=python3\nexec "$PYTHON" -W ignore "$here/demo.py"\n'
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\n"


def new(path):
    spec = {}
    exec(open(path).read(), spec)
    folder = os.path.join(SEEDED, spec["ID"])
    os.makedirs(folder, exist_ok=True)
    with Copy() as repo:
        for file, old, replacement in spec["EDITS"]:
            name = os.path.join(repo, file)
            text = open(name).read()
            assert text.count(old) == 1, (file, text.count(old), old)
            open(name, "w").write(text.replace(old, replacement))
        _, diff = sh("git diff", cwd=repo)
        # every removed line must exist in the original repository
        for file, _, _ in spec["EDITS"]:
            _, original = sh(f"git show 9655f97:{file}", cwd=repo)
            lines = set(original.splitlines())
            _, d = sh(f"git diff -U0 -- {file}", cwd=repo)
            for line in d.splitlines():
                if line.startswith("-") and not line.startswith("---") and line[1:] not in lines:
                    print("WARNING: not an original line:", line)
    open(os.path.join(folder, "patch.diff"), "w").write(diff)
    open(os.path.join(folder, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(folder, "demo.sh"), 0o755)
    open(os.path.join(folder, "demo.py"), "w").write(HEAD + spec["DEMO"].lstrip("\n"))
    json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(os.path.join(folder, "meta.json"), "w"), indent=1)
    return spec["ID"]


def verify(id, properties=()):
    folder = os.path.join(SEEDED, id)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    result = dict(id=id)
    with Copy() as repo:
        code, out = sh(["sh", os.path.join(folder, "demo.sh")], cwd=repo, timeout=300)
        result["demo clean"] = code
        if code:
            print(out[-1500:])
        code, out = sh(["git", "apply", os.path.join(folder, "patch.diff")], cwd=repo)
        assert code == 0, out
        code, out = sh(["sh", os.path.join(folder, "demo.sh")], cwd=repo, timeout=300)
        result["demo bug"] = code
        print("   ", out.strip().splitlines()[-1] if out.strip() else "")
        code, out = sh(f"{PYTHON} -m pytest -q -p no:cacheprovider -W ignore --rootdir={repo} -o 'python_files=*_test.py' --timeout=300 --continue-on-collection-errors test", cwd=repo)
        result["tests"] = out.strip().splitlines()[-1]
        for p in properties or [meta["property"]]:
            code, out = sh([os.path.join(HERE, "check"), p, "quick"], env=dict(ENV, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            lines = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            result[p] = f"{code} {lines[0][:150] if lines else ''}"
            if code not in (0, 1):
                print(out[-800:])
    ok = result["demo clean"] == 0 and result["demo bug"] != 0 and "243 passed" in result["tests"]
    print("OK " if ok else "BAD", result, flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "new":
        for path in sys.argv[2:]:
            verify(new(path))
    elif sys.argv[1] == "verify":
        for id in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            verify(id)
    else:
        verify(sys.argv[2], sys.argv[3:])
