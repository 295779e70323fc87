"""Developer self-test of the checkers: planted bugs must be reported, refactorings must stay quiet.

    python3 tools/selftest.py seeds [ID ...]        every seeded/<id>/patch.diff against its own property
    python3 tools/selftest.py bugs [KEY ...]        in-memory edits of tools/bank.py that break a property
    python3 tools/selftest.py refactors [KEY ...]   in-memory edits that keep the behaviour, against every property

Nothing is executed: the edits are analysed as source text.
"""
import json
import os
import subprocess
import shutil
import sys
import tempfile
import threading
import time
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, HERE)
REPO = os.environ.get("FFSA_REPO", "/repo")


def deep(fn, *a):
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            box.append(fn(*a))
        except BaseException as e:      # noqa
            import traceback
            box.append("CRASH " + traceback.format_exc()[-600:])
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return box[0]


def analyse(overrides, ids):
    from ffsa import props
    from ffsa.front import Program
    out = []
    prog = Program(root=REPO, extra=os.path.join(VERIF, "ffsa", "ref"), overrides=overrides)
    ctx = props.Context(prog)
    for pid in ids:
        t0 = time.time()
        r = props.run_property(pid, ctx)
        out.append((pid, [f.text() for f in r.findings], list(r.undecided), list(r.broken), time.time() - t0))
    return out


def edits(reps):
    ov = {}
    for f, old, new in reps:
        f = f + ".py"
        src = ov.get(f) or open(os.path.join(REPO, "src/ff", f), encoding="utf-8").read()
        if src.count(old) < 1:
            raise SystemExit(f"bank entry out of date: {old!r} not in {f}")
        ov[f] = src.replace(old, new, 1)
    for f, src in ov.items():
        compile(src, f, "exec")
    return ov


def job(args):
    key, ov, ids = args
    return key, deep(analyse, ov, ids)


def seed_overrides(sid):
    tmp = tempfile.mkdtemp(prefix="ffsa")
    try:
        shutil.copytree(os.path.join(REPO, "src"), tmp + "/src")
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + tmp, os.path.join(VERIF, "seeded", sid, "patch.diff")], check=True, cwd="/")
        out = {}
        for f in os.listdir(tmp + "/src/ff"):
            if f.endswith(".py"):
                out[f] = open(tmp + "/src/ff/" + f, encoding="utf-8").read()
        return out
    finally:
        shutil.rmtree(tmp)


def main():
    from ffsa import props
    mode, keys = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    full = "-v" in sys.argv
    jobs = []
    expect = {}
    if mode == "seeds":
        for sid in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
            if keys and sid not in keys:
                continue
            p = json.load(open(os.path.join(VERIF, "seeded", sid, "meta.json")))["property"]
            if p in props.PROPS:
                jobs.append((sid, seed_overrides(sid), [p]))
                expect[sid] = p
    else:
        import bank
        rows = bank.BUGS if mode == "bugs" else bank.REFACTORS
        for row in rows:
            if mode == "bugs":
                key, pid, reps = row
                ids = [p for p in pid.split(",") if p in props.PROPS]
            else:
                key, reps = row
                ids = sorted(props.PROPS)
            if keys and not any(key.startswith(k) for k in keys):
                continue
            jobs.append((key, edits(reps), ids))
    good = 0
    und = {}
    with ProcessPoolExecutor(8) as ex:
        for key, res in ex.map(job, jobs):
            if isinstance(res, str):
                print("CRASH", key, res)
                continue
            if mode == "refactors":
                bad = [(p, x) for p, fs, u, b, dt in res for x in fs + b]
                us = {x.split(":")[0] + ":" + x[len(x.split(":")[0]):][:140] for p, fs, u, b, dt in res for x in u}
                good += not bad
                print(("quiet   " if not bad else "ALARM   ") + key, f"({len(us)} undecided, {sum(r[4] for r in res):.0f}s)")
                for p, x in bad[:4]:
                    print("     ", p, x[:500])
                if full:
                    for x in sorted(us):
                        print("      u", x)
            else:
                hit = [p for p, fs, u, b, dt in res if fs]
                good += bool(hit)
                print(("caught  " if hit else "MISSED  ") + key, ",".join(p for p, *_ in res))
                for p, fs, u, b, dt in res:
                    if fs and full:
                        print("      ", fs[0][:400])
                    if not fs:
                        for x in (u + b)[:3]:
                            print("       u", p, x[:300])
    print(f"{good}/{len(jobs)}")


if __name__ == "__main__":
    main()
