#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current tree.

exit 0: it holds on everything analysed (findings listed in KNOWN_FINDINGS are
printed as KNOWN-FINDING lines); exit 1 with a VIOLATION line otherwise."""
import json, os, signal, sys, time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from xsa import frontend, groups            # noqa: E402


def known():
    """[(property, key, text)] of the findings that are recorded, not repaired"""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property="):
                head, _, text = l[len("known: property="):].partition(" :: ")
                pid, _, key = head.partition(" key=")
                out.append((pid.strip(), key.strip(), text.strip()))
    return out


class TimeUp(BaseException):
    pass


def alarm(*_):
    raise TimeUp()


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + ".findings.json")
    findings, reports, failed = [], [], None
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(700)
    try:
        reports = groups.run(pid, tier)
        for r in reports:
            findings += [f for f in r.findings if pid in f.props]
    except frontend.FrontendError as e:
        from xsa.judge import Finding
        findings.append(Finding((pid,), "front end", "the sources cannot be analysed: %s" % str(e)[-1500:]))
    except TimeUp:
        failed = "the analysis did not come to an end"
    except Exception as e:
        # a shape of code the analysis has no case for: nothing is decided
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        failed = "%s at %s:%d" % (repr(e)[:300], os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)
    signal.alarm(0)
    n = sum(r.count.get(pid, 0) for r in reports)
    undecided = [o for r in reports for o in r.open if pid in o[1] or pid == "G08"]
    if failed:
        undecided.append(("everything", (pid,), failed))
    if not n and not findings and not undecided:
        from xsa.judge import Finding
        findings.append(Finding((pid,), "coverage", "nothing in the sources was found to carry this property"))
    kn = known()
    new = []
    for f in findings:
        hit = [k for k in kn if k[0] == pid and k[1] == f.key and k[2] in f.msg]
        if hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, f.key, hit[0][2]))
        else:
            new.append(f)
    for name, _, why in undecided[:20]:
        print("UNDECIDED %s: %s" % (name, why[:200]))
    funcs = sorted(set(x for r in reports for x in r.functions_of(pid)))
    samples = [s for r in reports for s in r.samples.get(pid, [])][:12]
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": groups.RULE[pid],
            "obligations_examined": n,
            "obligations_failed": len(findings),
            "paths_evaluated": sum(r.paths for r in reports),
            "functions_analysed": len(funcs),
            "functions": funcs[:120],
            "library_calls_left_uninterpreted": dict(sorted(((k, v) for r in reports for k, v in r.callsites.items() if isinstance(k, str)), key=lambda x: -x[1])[:40]),
            "samples": samples,
            "undecided": ["%s: %s" % (o[0], o[2][:120]) for o in undecided[:60]],
            "sources": groups.SOURCES[pid],
        },
        "assumptions": groups.ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    text = json.dumps(doc, indent=1)
    if len(text) > 60000:
        doc["coverage"]["functions"] = funcs[:20]
        doc["coverage"]["library_calls_left_uninterpreted"] = {}
        doc["coverage"]["samples"] = [s[:300] for s in samples]
        text = json.dumps(doc, indent=1)
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        f.write(text)
    if new:
        with open(replay, "w") as f:
            json.dump([{"construct": x.key, "what": x.msg, "where": x.where} for x in new], f, indent=1)
        for x in new[:20]:
            print("  %s: %s" % (x.key, x.msg[:600]))
        if len(new) > 20:
            print("  ... and %d more" % (len(new) - 20))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    print("%s: holds%s (%d obligations, %d functions, %.1f s)" % (pid, " on what was decided" if undecided else "", n, len(funcs), time.time() - t0))
    return 0


sys.exit(main())
