"""Command line: python3 -m ffsa.check <property id> [...]

Analyses /repo's current sources (never runs them), writes
evidence/<id>.json, prints `VIOLATION property=<id> replay=<path>` and exits 1
when a construct breaks the property, exits 2 when the analysis itself is broken
(an anchor vanished, a source does not parse).
"""
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def known_findings():
    """entries of known-findings.txt: {property: [construct prefix]} (fixed entries suppress nothing)"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p, encoding="utf-8"):
            ln = ln.strip()
            if ln.startswith("finding:"):
                d = ln[len("finding:"):].strip()
                pid = d.split("property=", 1)[1].split()[0]
                key = d.split("key=", 1)[1].split(" -- ")[0].strip()
                out.setdefault(pid, []).append(key)
    return out


def main(argv):
    from . import props
    from .front import Program
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ids = [a for a in argv if not a.startswith("-")]
    if not ids:
        print("usage: python3 -m ffsa.check <property>...", file=sys.stderr)
        return 2
    rc = 0
    for pid in ids:
        t0 = time.time()
        if pid not in props.PROPS:
            print(f"unknown property {pid}", file=sys.stderr)
            rc = max(rc, 2)
            continue
        prog, perr = None, None
        try:
            prog = Program(extra=os.path.join(HERE, "ref"))
        except (SyntaxError, OSError) as e:
            perr = e
        if prog is None:
            print(f"ANALYSIS-BROKEN property={pid} sources do not parse: {perr}")
            rc = max(rc, 2)
            continue
        ctx = props.Context(prog, tier, seed)
        rep = props.run_property(pid, ctx)
        known = known_findings().get(pid, [])
        viol, listed = [], []
        for f in rep.findings:
            (listed if any(f.key() == k for k in known) else viol).append(f)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = rep.coverage()
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
              "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
            fh.write("\n")
        print(f"{pid}: {rep.summary()}")
        for u in rep.undecided[:12]:
            print(f"  undecided: {u[:300]}")
        for f in listed:
            print(f"KNOWN-FINDING: property={pid} {f.text()}")
        if viol:
            rp = os.path.join("evidence", pid + ".violation.json")
            with open(os.path.join(VERIF, rp), "w", encoding="utf-8") as fh:
                json.dump({"property": pid, "sources": prog.digest, "violations": [f.to_json() for f in viol]}, fh, indent=1)
                fh.write("\n")
            for f in viol:
                print("  " + f.text())
            print(f"VIOLATION property={pid} replay={rp}")
            rc = max(rc, 1)
        elif rep.broken:
            print(f"ANALYSIS-BROKEN property={pid} " + "; ".join(rep.broken))
            rc = max(rc, 2)
    return rc


def entry():
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            box.append(main(sys.argv[1:]))
        except BaseException:
            import traceback
            traceback.print_exc()
            box.append(2)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(box[0] if box else 2)


if __name__ == "__main__":
    entry()
