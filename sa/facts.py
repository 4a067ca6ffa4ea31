"""Builds and loads the MIR facts of /repo's current working tree."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
TOOLCHAIN = "nightly"


class BuildError(RuntimeError):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTC", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def build_driver():
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "driver")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("driver build failed:\n" + r.stdout[-4000:])
    return os.path.join(TARGET, "driver", "debug", "factdump")


def source_files():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d != ".git" and not (d == "target" and os.path.abspath(base) == os.path.abspath(REPO)))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock") or base.endswith(".cargo"):
                out.append(os.path.join(base, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in source_files() + [os.path.join(VERIF, "driver", "src", "main.rs")]:
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def facts_dir():
    """Facts for exactly the current source tree (content-addressed; rebuilt whenever a source file differs)."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        d = os.path.join(TARGET, "out", key)
        want = ["csvp.lib.jsonl", "csvpp.lib.jsonl", "csvpp.bin.jsonl"]
        if all(os.path.exists(os.path.join(d, w)) for w in want):
            return d
        drv = build_driver()
        shutil.rmtree(os.path.join(TARGET, "out"), ignore_errors=True)
        tmp = d + ".tmp"
        os.makedirs(tmp)
        e = _env()
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        e["FACTS_DIR"] = tmp
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "facts")
        # both crates are always recompiled: the facts are a by-product of the compilation
        subprocess.run(["cargo", "clean", "--offline", "--quiet", "-p", "csvp", "-p", "csvpp"], cwd=REPO, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "check", "--offline", "--workspace", "--lib", "--bins"], cwd=REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not all(os.path.exists(os.path.join(tmp, w)) for w in want):
            raise BuildError("fact extraction failed:\n" + r.stdout[-60000:])
        if tree_hash() != key:
            raise BuildError("source changed during extraction")
        os.rename(tmp, d)
        return d


class Fn:
    __slots__ = ("j", "key", "path", "kr", "poly", "span", "derive", "trait", "self_ty", "name", "pub", "closure",
                 "nargs", "locals", "blocks", "vars", "proms", "_cfg")

    def __init__(self, j):
        self.key = j["body"]; self.path = j["path"]; self.kr = j["kr"]; self.poly = j["poly"]
        self.span = j["span"]; self.derive = j["derive"]; self.trait = j["trait"]; self.self_ty = j["self"]
        self.name = j["name"]; self.pub = j["pub"]; self.closure = j["closure"]; self.nargs = j["nargs"]
        self.locals = j["locals"]; self.blocks = j["blocks"]; self.vars = j["vars"]; self.proms = j["proms"]
        self._cfg = None

    @property
    def local(self):
        return self.kr in ("csvp", "csvpp")


class Facts:
    def __init__(self, d):
        self.fns = {}
        self.polys = {}
        self.adts = {}
        self.bin_fns = set()
        for name in ("csvp.lib", "csvpp.lib", "csvpp.bin"):
            with open(os.path.join(d, name + ".jsonl")) as f:
                for line in f:
                    j = json.loads(line)
                    if "adt" in j:
                        self.adts.setdefault(j["adt"], j)
                    else:
                        fn = Fn(j)
                        t = self.polys if fn.poly else self.fns
                        if fn.key not in t:
                            t[fn.key] = fn
                            if name == "csvpp.bin":
                                self.bin_fns.add(fn.key)
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f.path, []).append(f)

    def local_fns(self, derive=False):
        """Non-generic local bodies (closures included)."""
        return [f for f in self.fns.values() if f.local and (derive or not f.derive)]


def load():
    return Facts(facts_dir())
