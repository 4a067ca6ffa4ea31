#!/usr/bin/env python3
"""Runs the checks on many one-off edits, in parallel, each in a copy of /repo and of /verif (under /tmp/rf).
usage: batch.py EDITS.py [-c C01,C02] [-n NAMEPART]
EDITS.py calls R(name, (file, old, new)...): the text `old` of file (exactly, once) becomes `new`.
Prints for each edit which checks are not quiet."""
import os, re, subprocess, sys, shutil, glob
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

W = int(os.environ.get("WORKERS", "7"))
edits = []


def R(name, *subs):
    edits.append((name, subs))


def edit(s, a, b):
    """s with the (first) text a replaced by b, whatever comment lines the text has in between; None if it is not there"""
    m = re.search(r"\n(?:[ \t]*//[^\n]*\n)*".join(re.escape(x) for x in a.split("\n")), s)
    return s[:m.start()] + b + s[m.end():] if m else None


args = sys.argv[1:]
checks = sorted("C" + os.path.basename(f)[1:3] for f in glob.glob("/verif/checks/c[0-9][0-9].py"))
part = None
files = []
while args:
    a = args.pop(0)
    if a == "-c":
        checks = args.pop(0).split(",")
    elif a == "-n":
        part = args.pop(0)
    else:
        files.append(a)
for f in files:
    exec(open(f).read())
if part:
    edits = [e for e in edits if part in e[0]]

if os.environ.get("APPLY"):
    # just make an edited copy of /repo there
    d = os.environ["APPLY"]
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", ".git", "/repo/", d + "/"], check=True)
    for name, subs in edits[:1]:
        for f, a, b in subs:
            s = open(d + "/" + f).read()
            n = edit(s, a, b)
            assert n, "no match in " + f
            open(d + "/" + f, "w").write(n)
        print(name)
    sys.exit()

pool = Queue()


def setup(i):
    d = "/tmp/rf/%d" % i
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", ".git", "/repo/", d + "/repo/"], check=True)
    ex = ["--exclude", "/target"] if os.path.exists(d + "/verif/target") else []
    subprocess.run(["rsync", "-a", "--delete"] + ex + ["--exclude", ".git", "--exclude", "/evidence", "/verif/", d + "/verif/"], check=True)
    pool.put(d)


def run(e):
    name, subs = e
    d = pool.get()
    old = {}
    try:
        for f, a, b in subs:
            p = d + "/repo/" + f
            s = open(p).read()
            old.setdefault(p, s)
            n = edit(s, a, b)
            if not n:
                return name, "NO MATCH in %s: %s" % (f, a[:60])
            open(p, "w").write(n)
        env = dict(os.environ, VERIF_REPO=d + "/repo")
        bad = []
        for c in checks:
            try:
                r = subprocess.run(["python3", "run.py", c], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
            except subprocess.TimeoutExpired:
                bad.append("   %s: TIMEOUT" % c)
                continue
            if r.returncode == 2:
                err = [l for l in r.stdout.splitlines() if l.startswith("error")]
                return name, "DOES NOT BUILD " + " ".join(err)[:300]
            if r.returncode:
                ls = [l for l in r.stdout.splitlines() if l.startswith("  ")]
                bad.append("   %s: %s" % (c, " || ".join(x.strip()[:150] for x in (ls[-4:] if "File" in str(ls) else ls[:3]))))
        return name, "\n".join(bad) if bad else "quiet"
    except Exception as x:
        return name, "ERROR %s" % x
    finally:
        for p, s in old.items():
            open(p, "w").write(s)
        pool.put(d)


with ThreadPoolExecutor(W) as ex:
    list(ex.map(setup, range(min(W, len(edits)))))
    for name, out in ex.map(run, edits):
        print("== %s: %s" % (name, out if "\n" not in out and not out.startswith("   ") else "\n" + out), flush=True)
