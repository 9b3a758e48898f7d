#!/usr/bin/env python3
"""tools/mut.py FILE [PROP ...]: run checks on edited copies of the source (overlay, nothing is written).

FILE defines BUGS = [(name, [props], [(file, old, new)...])] (some listed property must alarm)
and SAME = [(name, [(file, old, new)...])] (no property may alarm).
"""
import glob, os, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def overlay(edits):
    out = {}
    for f, old, new in edits:
        p = os.path.join("/repo", f)
        s = out.get(f) or open(p).read()
        if old is None:
            s = s + new
        else:
            if s.count(old) != 1:
                raise SystemExit(f"{s.count(old)} matches in {f}: {old[:80]!r}")
            s = s.replace(old, new)
        compile(s, p, "exec")
        out[f] = s
    return out


def run(job):
    name, prop, ov = job
    sys.setrecursionlimit(20000)
    import check
    from vlib.program import Program, AnchorError
    t = time.time()
    try:
        prog = Program(overlay=ov)
        mod, ctx = check.decide(prop, "quick", prog=prog)
        kn = check.known(prop)
        bad = [o for o in ctx.obs if not o.ok and (o.rule, o.where) not in kn]
        return name, prop, (1 if bad else 0), (f"[{bad[0].rule}] {bad[0].where}: {bad[0].msg} @{bad[0].loc} (+{len(bad) - 1})" if bad else ""), time.time() - t
    except AnchorError as e:
        return name, prop, 2, "anchor: " + str(e), time.time() - t
    except BaseException:
        return name, prop, 2, traceback.format_exc()[-700:], time.time() - t


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), ns)
    only = sys.argv[2:]
    allp = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HERE, "rules", "C*.py")))
    jobs = []
    for name, props, edits in ns.get("BUGS", []):
        ov = overlay(edits)
        for p in props:
            if not only or p in only:
                jobs.append((("BUG", name), p, ov))
    for name, edits in ns.get("SAME", []):
        ov = overlay(edits)
        for p in (only or allp):
            jobs.append((("SAME", name), p, ov))
    res = {}
    with ProcessPoolExecutor(8) as ex:
        for (name, p, rc, msg, t) in ex.map(run, jobs):
            res.setdefault(name, []).append((p, rc, msg, t))
    nb = 0
    for (kind, name), rs in res.items():
        if kind == "BUG":
            caught = [r for r in rs if r[1] == 1]
            if caught:
                if "-v" in os.environ.get("MUT", ""):
                    print("caught", name, caught[0][0], caught[0][2][:200])
                nb += 1
            else:
                print("MISSED", name, [(r[0], r[1], r[2][-300:]) for r in rs])
        else:
            for p, rc, msg, t in rs:
                if rc:
                    print("ALARM" if rc == 1 else "ERROR", name, p, msg[:400])
    print(f"bugs caught {nb}/{sum(1 for k in res if k[0] == 'BUG')}; refactorings {sum(1 for k in res if k[0] == 'SAME')} x checks; max {max((r[3] for rs in res.values() for r in rs), default=0):.1f}s")


if __name__ == "__main__":
    main()
