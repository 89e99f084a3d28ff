import sys, time
sys.path.insert(0, '/verif')
from sa.ctx import *
P = load(sys.argv[1])
if __name__ == "__main__":
    A = sys.argv[2]
    names = [p for p in P.bodies if any(p == n or p.endswith("::" + n) for n in sys.argv[2:])] if A != "ALL" else [p for p in P.bodies if P.bodies[p].get("kind") != "closure" and not P.bodies[p].get("coroutine")and "{closure" not in p]
    for n in names:
        e = Eng(P, STD if "-n" not in sys.argv else {})
        e.keep_panics = "-p" in sys.argv
        e.deadline = time.time() + 60
        t = time.time()
        try:
            outs = run_fn(e, n)
        except Exception as ex:
            import traceback
            if A != "ALL": traceback.print_exc()
            print(n, "EXC", repr(ex)[:150], traceback.extract_tb(ex.__traceback__)[-1])
            continue
        if A == "ALL" and "fmt" in n: continue
        print("%-70s outs=%d panics=%d unk=%s notes=%s %.2fs steps=%d" % (n[-70:], len(outs), sum(o[0] == "panic" for o in outs), sorted(set(u for o in outs for u in o[1].unk))[:3], sorted(e.notes)[:4], time.time() - t, e.steps), flush=True)
        if A != "ALL":
            for o in outs[:40]:
                print("   ", o[0], str(o[2])[:1000])
                if "-v" in sys.argv:
                    for ev in o[1].events(): print("        ", str(ev)[:260])
                if "-f" in sys.argv:
                    print("      lin", o[1].lin[:20]); print("      eqs", o[1].eqs); print("     bools", o[1].bools); print("     vars", o[1].vars); print("   alls", o[1].alls)
