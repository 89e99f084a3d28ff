#!/usr/bin/env python3
"""Self-test: apply textual changes to scratch copies of /repo and show which rules report them.

  tools/mutants.py bad|good [name-substring] [-p C08,C09]
`bad` changes break a property and should be reported; `good` ones keep the behaviour and must stay quiet.
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SCR = "/tmp/mutants"


def load(kind):
    """blocks:  === name [expect C08,C10]\n--- file\n<<<\nold\n>>>\nnew\n~~~"""
    out = []
    for b in re.split(r"^=== ", open(os.path.join(HERE, "tools", kind + ".txt")).read(), flags=re.M)[1:]:
        head, _, rest = b.partition("\n")
        name, _, exp = head.partition(" expect ")
        eds = []
        for f, old, new in re.findall(r"^--- (\S+)\n<<<\n(.*?)\n>>>\n(.*?)\n?~~~", rest, flags=re.M | re.S):
            eds.append((f, old, new))
        out.append((name.strip(), exp.strip().split(",") if exp.strip() else [], eds))
    return out


def run(m, props):
    name, exp, eds = m
    d = os.path.join(SCR, re.sub(r"\W", "_", name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/src", d + "/src")
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy("/repo/" + f, d)
    if os.path.isdir("/repo/tests"):
        shutil.copytree("/repo/tests", d + "/tests")
    for f, old, new in eds:
        p = d + "/" + f
        s = open(p).read()
        if s.count(old) < 1:
            return name, exp, "NO MATCH in %s: %r" % (f, old[:60]), {}
        open(p, "w").write(s.replace(old, new, 1))
    os.environ["REPO"] = d
    env = dict(os.environ, REPO=d)
    r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0,%r); import check; check.REPO=%r; check.dump(%r)" % (HERE, d, d + "/m.json")],
                       env=env, capture_output=True, text=True)
    if r.returncode:
        e = [l for l in r.stderr.splitlines() if l.startswith("error")][:2]
        return name, exp, "DOES NOT COMPILE " + str(e) + "\n".join(r.stderr.splitlines()[-30:])[:1500], {}
    res = {}
    for p in props:
        q = subprocess.run([sys.executable, HERE + "/check.py", p, "--mir", d + "/m.json", "--no-evidence"], capture_output=True, text=True,
                           env=env)
        res[p] = (q.returncode, q.stdout + q.stderr[-1500:])
    shutil.rmtree(d, ignore_errors=True)
    return name, exp, "", res


def main():
    kind = sys.argv[1]
    sub = [a for a in sys.argv[2:] if not a.startswith("-")]
    import sa.rules
    from sa.base import RULES
    props = sorted(RULES)
    for a in sys.argv[2:]:
        if a.startswith("-p"):
            props = a[2:].split(",")
    ms = [m for m in load(kind) if not sub or any(s in m[0] for s in sub)]
    missed = 0
    with ThreadPoolExecutor(6) as ex:
        for name, exp, err, res in ex.map(lambda m: run(m, [p for p in props if "-e" not in sys.argv or p in m[1]]), ms):
            if err:
                print("%-50s %s" % (name, err))
                continue
            hit = [p for p in res if res[p][0] == 1]
            odd = [p for p in res if res[p][0] not in (0, 1)]
            flag = ""
            if kind == "bad" and not set(hit) & set(exp):
                flag = "  <-- MISSED"
                missed += 1
            if kind == "good" and (hit or odd):
                flag = "  <-- ALARM"
                missed += 1
            unk = [p for p in res if " 0 undecided" not in res[p][1]]
            print("%-50s expect %-12s hit %-20s odd %s undecided %s%s" % (name, ",".join(exp), ",".join(hit), ",".join(odd), ",".join(unk), flag), flush=True)
            if "-v" in sys.argv or flag and "-q" not in sys.argv:
                for p in res:
                    if p in hit and kind == "good" or p in exp and kind == "bad" or p in odd:
                        print("      " + "\n      ".join(l[:260] for l in res[p][1].splitlines()[-6:]))
    print(len(ms), "changes,", missed, "missed or alarming")


main()
