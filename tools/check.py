#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--keep]

Decides one property: TLC explores the small-scope models of the specification (laws as invariants) and
emits their states as calls; TLC also generates pseudo-random calls and histories within the contract; the
driver, compiled from /repo's current headers, performs them; TLC validates the recorded observations
against the contract.  Exit 0: everything explored conforms; exit 1: VIOLATION."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
CP = ":".join([os.path.join(HERE, "build/classes"), "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])
sys.path.insert(0, os.path.join(HERE, "tools"))
from config import PROPS  # noqa: E402


class Broken(Exception):
    pass


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def setup():
    """compile the Java evaluation of Num.tla when the sources are newer than the classes"""
    src = [os.path.join(HERE, "java/verif", f) for f in sorted(os.listdir(os.path.join(HERE, "java/verif"))) if f.endswith(".java")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    out = os.path.join(HERE, "build/classes")
    stamp = os.path.join(out, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(out, exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    r = sh(["javac", "-nowarn", "-cp", CP, "-d", tmp] + src, 300)
    if r.returncode != 0:
        raise Broken("javac: " + r.stdout)
    shutil.copytree(tmp, out, dirs_exist_ok=True)
    shutil.rmtree(tmp)
    with open(stamp, "w") as f:
        f.write(h)


def compile_driver(fam, work):
    exe = os.path.join(work, "driver")
    inc = ["-I", os.path.join(REPO, "libs/mathlib/include"), "-I", os.path.join(REPO, "libs/testlib/include"), "-I", os.path.join(HERE, "driver")]
    objs = []
    def one(f):
        o = os.path.join(work, f + ".o")
        r = sh(["g++", "-std=c++14", "-O1", "-DNDEBUG", "-w", "-ftrivial-auto-var-init=pattern",
                "-fsanitize=bounds,null,alignment,return,unreachable,bool,integer-divide-by-zero,shift,signed-integer-overflow", "-fsanitize-undefined-trap-on-error"] + inc + ["-c", os.path.join(HERE, "driver", f), "-o", o], 600)
        if r.returncode != 0:
            raise Broken("the driver does not compile against /repo:\n" + r.stdout[-4000:])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, ["main.cpp"] + fam["driver"]))
    r = sh(["g++", "-o", exe] + objs + fam.get("libs", []), 300)
    if r.returncode != 0:
        raise Broken("link: " + r.stdout[-4000:])
    return exe


def tlc(module, cfg, work, tag, defs=(), env=None, timeout=800, xmx="1500m", workers=1):
    d = os.path.join(work, "tlc-" + tag)
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, "m.cfg")
    cfg, consts = cfg
    with open(c, "w") as f:
        f.write(cfg)
    with open(os.path.join(d, "Run.tla"), "w") as f:
        f.write("---- MODULE Run ----\nEXTENDS %s\n" % module + "".join("c_%s == %s\n" % kv for kv in consts.items()) + "====\n")
    cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.Overrides", "-DTLA-Library=" + SPEC]
    cmd += ["-D%s=%s" % kv for kv in defs]
    cmd += ["-cp", CP, "tlc2.TLC", "-config", c, "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
            "-workers", str(workers), "-nowarning", os.path.join(d, "Run.tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    r = sh(cmd, timeout, env=e, cwd=d)
    r.stdout = "\n".join(l for l in r.stdout.split("\n") if not re.match("Parsing file|Semantic proc|Linting", l))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    if r.returncode != 0 or not m:
        b = Broken("TLC %s (%s) failed: %s" % (module, tag, r.stdout[-6000:]))
        # the walk stopped because the next state could not be evaluated: how many states it had reached
        b.reached = int(m.group(2)) if m and r.returncode in (75, 76, 150, 151, 255, 1, 12, 13) else None
        raise b
    return int(m.group(2)), int(m.group(1))


def cfgtext(spec, consts, subst, inv=(), post=None):
    t = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if consts or subst:
        t += "CONSTANTS\n" + "".join("  %s <- c_%s\n" % (k, k) for k in consts) + "".join("  %s <- %s\n" % kv for kv in subst.items())
    if inv:
        t += "INVARIANTS " + " ".join(inv) + "\n"
    if post:
        t += "POSTCONDITION %s\n" % post
    return t, consts


def run_driver(exe, cmds, out, timeout=600):
    """a driver killed by the code under test is restarted behind the fatal command, which is logged as a crash"""
    skip = 0
    with open(out, "w") as o:
        for attempt in range(20):
            part = out + ".part"
            with open(cmds) as i, open(part, "w") as p:
                r = subprocess.run([exe, str(skip)], stdin=i, stdout=p, stderr=subprocess.PIPE, text=True, timeout=timeout)
            txt = open(part, errors="replace").read()
            txt = txt[:txt.rfind("\n") + 1]
            o.write(txt)
            if r.returncode == 0:
                return
            if r.returncode == 3:
                raise Broken("driver: " + r.stderr[-2000:])
            last = txt.rstrip("\n").rsplit("\n", 1)[-1]
            done = int(last[6:last.index(",")]) if last else skip
            skip = done + 1
            o.write('{"id":%d,"op":"crash","w":"driver","p":24,"a":{},"o":{},"b":{},"i":{"signal":[%d]}}\n' % (skip, r.returncode))


def ident(line):
    return line[6:line.index(",")]


def validate(fam, trace_lines, work, tag, chunks):
    """split between ids (histories stay together), validate in parallel; returns {id: set(clauses)}"""
    groups = []
    last = None
    for ln in trace_lines:
        i = ln[6:ln.index(",")]
        if i != last:
            groups.append([])
            last = i
        groups[-1].append(ln)
    n = max(1, min(chunks, len(groups) // 50 + 1))
    total = sum(len(l) for g in groups for l in g)
    parts = [[]]
    acc = 0
    for g in groups:
        if acc > total / n and len(parts) < n:
            parts.append([])
            acc = 0
        parts[-1].extend(g)
        acc += sum(len(l) for l in g)
    def one(k):
        f = os.path.join(work, "trace-%s-%d.ndjson" % (tag, k))
        rej = os.path.join(work, "rej-%s-%d" % (tag, k))
        lines = parts[k]
        rejected = []
        sa = sb = 0
        for attempt in range(4):
            with open(f, "w") as o:
                o.writelines(lines)
            open(rej, "w").close()
            try:
                st = tlc(fam["trace"], cfgtext("TSpec", {}, {"S0": fam["s0"], "Step": fam["step"]}, post="Accepted"), work, "%s-%d" % (tag, k),
                         [("verif.rejects", rej)], {"TRACE": f})
            except Broken as b:
                # An observation on which the contract has no value (a result it speaks of is missing, or is not
                # a number where the contract computes with it) is not one that the contract allows.
                n = getattr(b, "reached", None)
                if not n or n > len(lines):
                    raise
                rejected += [l.rstrip("\n") for l in open(rej)]
                bad = ident(lines[n - 1])
                rejected.append("%s undefined" % bad)
                sa, sb = sa + n, sb + n
                lines = [l for l in lines[n:] if ident(l) != bad]
                continue
            if st[0] != len(lines) + 1:
                raise Broken("trace validation consumed %d of %d lines" % (st[0] - 1, len(lines)))
            rejected += [l.rstrip("\n") for l in open(rej)]
            return (sa + st[0], sb + st[1]), rejected
        return (sa, sb), rejected   # enough violations found
    rejects = {}
    states = trans = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for st, rej in ex.map(one, range(len(parts))):
            states += st[0]
            trans += st[1] - 1
            for l in rej:
                i, what = l.split(" ", 1)
                for w in re.findall(r"[\w.]+", what):
                    rejects.setdefault(int(i), set()).add(w)
    return rejects, states, trans


def known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[prop]
    fam = P["family"]
    setup()
    work = os.path.join(HERE, "build", "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        rc = decide(prop, P, fam, tier, seed, work, t0)
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, P, fam, tier, seed, work, t0):
    cmds = os.path.join(work, "cmds")
    open(cmds, "w").close()
    states = trans = 0
    models = {}
    with cf.ThreadPoolExecutor(8) as ex:
        drv = ex.submit(compile_driver, fam, work)
        jobs = []
        if "--replay" in sys.argv:
            shutil.copy(sys.argv[sys.argv.index("--replay") + 1], cmds)
            lines = [l for l in open(cmds).read().split("\n") if l.strip() and not l.startswith("#")]
        else:
            parts = []
            for k, m in enumerate(P["mc"]):
                if m.get("tier", "quick") == "thorough" and tier == "quick":
                    continue
                consts = dict(m["consts"])
                if tier == "thorough":
                    consts.update(m.get("thorough", {}))
                out = os.path.join(work, "mc%d.cmds" % k)
                open(out, "w").close()
                parts.append(out)
                jobs.append((m["module"] + "(" + ", ".join("%s=%s" % kv for kv in consts.items()) + ")",
                             ex.submit(tlc, m["module"], cfgtext("Spec", consts, m.get("subst", {}), m["inv"]), work, "mc%d" % k,
                                       [("verif.cases", out), ("verif.seed", str(seed))], None, 800, "3g")))
            ngen = 1 if tier == "quick" else 4
            for k in range(ngen):
                out = os.path.join(work, "gen%d.cmds" % k)
                open(out, "w").close()
                parts.append(out)
                cnt = P["count"] if tier == "quick" else P["count"] * 3
                jobs.append((None, ex.submit(tlc, fam["gen"], cfgtext("GenSpec", {"Ops": "<<" + ", ".join('"%s"' % o for o in P["ops"]) + ">>", "Count": cnt}, {"Case": fam["case"]}),
                                             work, "gen%d" % k, [("verif.cases", out), ("verif.seed", str(seed * 1000 + k))])))
            for name, j in jobs:
                s, t = j.result()
                if name:
                    states += s
                    trans += t
                    models[name] = {"distinct_states": s, "transitions": t}
            lines = []
            for p in parts:
                lines += [l for l in open(p).read().split("\n") if l]
        exe = drv.result()
    with open(cmds, "w") as f:
        f.write("\n".join(lines) + "\n")
    trace = os.path.join(work, "trace")
    run_driver(exe, cmds, trace)
    tl = open(trace).readlines()
    rejects, s2, t2 = validate(fam, tl, work, "v", 6)
    states += s2
    trans += t2
    ops = {}
    clauses = {}
    for l in tl:
        op = re.search(r'"op":"([^"]*)"', l).group(1)
        w = re.search(r'"w":"([^"]*)"', l).group(1)
        k = op + (":" + w if w else "")
        ops[k] = ops.get(k, 0) + 1
    findings = known(prop)
    listed = {}
    viol = []
    if rejects:
        # confirm: the same calls again, observed and judged afresh
        ids = sorted(rejects)[:400]
        c2 = os.path.join(work, "cmds2")
        with open(c2, "w") as f:
            f.write("\n".join(lines[i - 1] for i in ids) + "\n")
        trace2 = os.path.join(work, "trace2")
        run_driver(exe, c2, trace2)
        rej2, _, _ = validate(fam, open(trace2).readlines(), work, "c", 6)
        for n, i in enumerate(ids):
            bad = rej2.get(n + 1, set()) & rejects[i]
            if not bad:
                continue
            k = next((k for k in findings if matches(k, lines[i - 1], bad)), None)
            if k is not None:
                listed.setdefault(k["id"], [k, 0])[1] += 1
            else:
                viol.append((lines[i - 1], sorted(bad)))
    for k, n in listed.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    nl = len(lines)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 1),
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": nl,
                       "samples": [lines[i][:300] for i in range(0, nl, max(1, nl // 6))][:6],
                       "models": models, "observed_events": len(tl), "events_per_operation": ops,
                       "rejected": len(viol), "known_findings_hit": {k: v[1] for k, v in listed.items()}}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        rp = os.path.join(HERE, "replay", "%s.cmds" % prop)
        with open(rp, "w") as f:
            for l, bad in viol[:100]:
                f.write("# rejected clauses: %s\n%s\n" % (" ".join(bad), l))
        summ = {}
        for l, bad in viol:
            for b in bad:
                k = l.split(" ")[0] + "." + b
                summ.setdefault(k, [0, l])[0] += 1
        for k, (n, l) in sorted(summ.items()):
            print("  %s: %d rejected, e.g. %s" % (k, n, l[:240]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: %d calls/histories, %d events, %d states, %.1f s" % (prop, nl, len(tl), states, wall))
    return 0


def matches(k, line, bad):
    m = k["match"]
    if not set(bad) <= set(m["clauses"]):
        return False
    return re.fullmatch(m["line"], line) is not None


if __name__ == "__main__":
    try:
        main()
    except Broken as e:
        print("BROKEN: " + str(e))
        sys.exit(2)
