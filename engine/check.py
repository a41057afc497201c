#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property.  Compiles the property's harnesses against /repo's
current headers to LLVM IR, explores them symbolically, replays every counterexample natively
against the real library and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: error of the check."""
import sys, os, json, time, subprocess, shutil, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
REPO = os.environ.get("VERIF_REPO", "/repo")
import explore
import registry

OCC = "/usr/include/opencascade"
IRFLAGS = ["-std=c++17", "-w", "-Wno-c++11-narrowing", "-fpermissive", "-O0", "-Xclang", "-disable-O0-optnone", "-DNDEBUG",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-ffp-contract=off", "-fno-threadsafe-statics"]
PASSES = "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)"
LIBS = ["TKernel", "TKMath", "TKG2d", "TKG3d", "TKGeomBase", "TKBRep", "TKGeomAlgo", "TKTopAlgo", "TKPrim", "TKBO", "TKBool",
        "TKShHealing", "TKFillet", "TKOffset"]
NATIVE = ["-std=c++17", "-w", "-fpermissive", "-DNDEBUG"]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Build:
    def __init__(self, tmp, defs):
        self.tmp = tmp
        self.defs = defs

    @staticmethod
    def incs(fake, io):
        r = []
        if io:
            r.append(os.path.join(ROOT, "stubs", "io"))
        r.append(os.path.join(ROOT, "stubs", "rnd"))
        r.append(os.path.join(ROOT, "stubs", "occ") if fake else OCC)
        return ["-I" + os.path.join(ROOT, "harness")] + ["-I" + x for x in r] + ["-I" + REPO, "-I" + os.path.join(ROOT, "stubs")]

    def ir(self, src, stubs, fake="", io=False):
        """start the compilation, return a function waiting for it"""
        base = os.path.join(self.tmp, os.path.basename(src).replace(".cc", ""))
        parts = []
        procs = []
        for s in [os.path.join(ROOT, "harness", src)] + [os.path.join(ROOT, "stubs", x) for x in stubs]:
            o = base + "." + os.path.basename(s) + ".bc"
            sh = "clang++ %s %s %s -emit-llvm -c %s -o %s && opt -passes='%s' %s -o %s" % (
                " ".join(IRFLAGS), " ".join(self.defs), " ".join(self.incs(fake, io)), s, o, PASSES, o, o)
            procs.append((s, subprocess.Popen(["bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            parts.append(o)

        def wait():
            for s, p in procs:
                out, _ = p.communicate()
                if p.returncode:
                    raise SystemExit2("cannot compile %s for encoding:\n%s" % (s, out[-3000:]))
            bc = base + ".linked.bc"
            r = run(["llvm-link", *parts, "-o", bc])
            if r.returncode:
                raise SystemExit2("llvm-link: " + r.stdout[-2000:])
            return bc
        return wait

    def native(self, src, asan=False, fake="", io=False):
        exe = os.path.join(self.tmp, os.path.basename(src).replace(".cc", "") + (".asan" if asan else "") + ".exe")
        fl = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"] if asan else ["-O1"]
        real = fake != "both"
        cmd = ["g++", *NATIVE, *fl, *self.defs, *self.incs(not real, False), os.path.join(ROOT, "harness", src), os.path.join(ROOT, "harness", "replay.cc"), "-rdynamic", "-o", exe,
               "-Wl,--as-needed"] + (["-l" + l for l in LIBS] if real else []) + ["-ldl"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

        def wait():
            out, _ = p.communicate()
            if p.returncode:
                return None, out
            return exe, ""
        wait.proc = p
        return wait


class SystemExit2(Exception):
    pass


def replay(exe, entry, inputs, path, timeout=30):
    with open(path, "w") as f:
        for n, k, v in inputs:
            f.write("%s %s\n" % (n.replace(" ", "_"), repr(float(v)) if k == "real" else str(v)))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = run([exe, entry, path], timeout=timeout, env=env)
        return r.returncode, r.stdout[-1500:]
    except subprocess.TimeoutExpired:
        return "timeout", ""


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[2:]
    spec = registry.PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="symcheck_")
    try:
        rc = decide(prop, tier, seed, only, spec, t0, tmp)
    except SystemExit2 as e:
        print("ERROR", e)
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, only, spec, t0, tmp):
    defs = ["-DTHOROUGH"] if tier == "thorough" else []
    b = Build(tmp, defs)
    groups = spec["groups"]
    jobs = []
    waits = []
    for g in groups:
        ents = [e for e in g["entries"] if (tier == "thorough" or not e[1].get("thorough")) and (not only or e[0] in only)]
        if ents:
            waits.append((g, ents, b.ir(g["src"], ["rt.cc"] + g.get("stubs", []), g["fake"], g["io"])))
    progs = {}
    for g, ents, w in waits:
        bc = w()
        explore.PROGRAMS[g["src"]] = explore.Program(bc)
        progs[g["src"]] = bc
    natives = {}
    if not spec.get("no_native"):
        for g, ents, w in waits:
            natives[g["src"]] = b.native(g["src"], False, g["fake"], g["io"])
    base = dict(registry.DEFAULTS[tier], seed=seed)
    src_of = {}
    grp_of = {}
    for g, ents, w in waits:
        for e, o in ents:
            jobs.append((g["src"], e, dict(base, **o)))
            src_of[e] = g["src"]
            grp_of[e] = g
    deadline = t0 + (spec.get("time", {}).get(tier) or registry.TIME[tier])
    res = explore.explore(jobs, deadline)

    # -------- native side
    exes = {}
    asan = {}
    viol = []
    known = []
    unconfirmed = []
    kf = load_known(prop)
    validated = mism = 0
    mismlist = []
    rdir = os.path.join(ROOT, "evidence", "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)

    def exe_for(entry):
        s = src_of[entry]
        if s not in exes:
            e, out = natives[s]() if s in natives else (None, "no native build")
            if e is None:
                raise SystemExit2("native build of %s failed: %s" % (s, out[-2500:]))
            exes[s] = e
        return exes[s]

    def asan_for(entry):
        s = src_of[entry]
        if s not in asan:
            e, out = b.native(s, True, grp_of[entry]["fake"], grp_of[entry]["io"])()
            asan[s] = e
        return asan[s] or exe_for(entry)
    rpt = os.path.join(tmp, "in.txt")
    for entry, r in res.items():
        bylabel = {}
        for label, inp, end in r["cands"]:
            bylabel.setdefault(label, []).append(inp)
        for label, inps in bylabel.items():
            ok = False
            if label.startswith("ub:"):
                nm = label.split(" ")[0]
            else:
                nm = label
            inps.sort(key=lambda i: sum(len(repr(v)) for _, _, v in i))
            tried = 0
            for inp in inps[:14]:
                tried += 1
                if label.startswith("ub:nontermination"):
                    rc, out = replay(exe_for(entry), entry, inp, rpt, timeout=20)
                    ok = rc == "timeout"
                elif label.startswith("ub:"):
                    rc, out = replay(asan_for(entry), entry, inp, rpt)
                    ok = rc not in (0, 77)
                else:
                    rc, out = replay(exe_for(entry), entry, inp, rpt)
                    ok = rc == 1 and ("FAILED" in out) and (label in out or label.startswith("uncaught"))
                    if not ok and rc not in (0, 1, 77):
                        ok = True      # crash or hang of the real code on these inputs
                if ok:
                    k = match_known(kf, entry, label)
                    if k is not None:
                        known.append((k, entry, label))
                    else:
                        os.makedirs(rdir, exist_ok=True)
                        path = os.path.join(rdir, "%s-%s.json" % (entry, "".join(c if c.isalnum() else "_" for c in nm)[:60]))
                        with open(path, "w") as f:
                            json.dump(dict(property=prop, harness=entry, source="harness/" + src_of[entry], assertion=label,
                                           inputs=inp, native_exit=str(rc), native_output=out,
                                           replay="bin/replay " + os.path.relpath(path, ROOT)), f, indent=1)
                        viol.append((entry, label, path, out))
                    break
            if not ok:
                unconfirmed.append((entry, label, tried))
                if os.environ.get("SYM_UNCONF"):
                    print("  unconfirmed", entry, label, "exit", rc, out[-600:], inp)
        # witness traces through the native build
        if natives and not spec.get("no_validate"):
            for e, inp in r["traces"][:12]:
                rc, out = replay(exe_for(entry), entry, inp, rpt)
                if rc == 0:
                    validated += 1
                elif rc == 77:
                    pass
                elif bylabel:
                    pass
                else:
                    mism += 1
                    mismlist.append((entry, str(rc), out[:300], inp[:12]))
    for w in natives.values():
        try:
            w.proc.kill()
        except Exception:
            pass

    # -------- report
    tot = dict(discharged=0, trivial=0, failed=0, unknown=0)
    st = dict(queries=0, time=0.0, sat=0, unsat=0, unknown=0)
    paths = 0
    errs = {}
    vac = []
    funcs = set()
    for entry, r in res.items():
        for k in tot:
            tot[k] += r["nassert"][k]
        for k in st:
            st[k] += r["stats"][k]
        paths += r["paths"]
        funcs.update(r["funcs"])
        for e in r["errs"] + r["fatal"]:
            errs[entry + ": " + e] = errs.get(entry + ": " + e, 0) + 1
        for l in r["labels"]:
            if l not in r["wit"] and not any(u == l for u in r["unknown"]):
                vac.append(entry + ":" + l)
        if not r["labels"]:
            vac.append(entry + ": no assertion reached")
    und = sum(len(r["unknown"]) for r in res.values())
    inc = sum(r["incomplete"] for r in res.values())
    dem = demangle(sorted(funcs))
    fr = sorted(set(short(d) for d in dem if "Frackit::" in d.split("(")[0] and not d.startswith("std::")))
    harn = []
    for entry, r in sorted(res.items()):
        harn.append(dict(harness=entry, paths=r["paths"], path_ends=r["ends"], assertions=sorted(r["labels"]),
                         verdicts=r["nassert"], solver=dict(r["stats"], time=round(r["stats"]["time"], 2)),
                         reachability_witness=len(r["wit"]), undecided=sorted(set(r["unknown"]))[:20],
                         incomplete_prefixes=r["incomplete"], bounds=registry.bounds(prop, entry)))
    samples = []
    for entry, r in sorted(res.items()):
        for e, inp in r["traces"][:1]:
            samples.append(dict(harness=entry, reachability_witness_inputs=inp[:16]))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=paths, transitions=st["queries"], traces_validated_against_impl=validated, samples=samples[:12],
                  exhaustive=False,
                  explanation="states = symbolic paths completed; transitions = SMT queries (branch feasibility, assertion, witness)",
                  functions_encoded=fr[:400], functions_encoded_count=len(fr), ir_functions_executed=len(funcs),
                  assertions=dict(discharged_by_solver=tot["discharged"], discharged_by_rewriting=tot["trivial"],
                                  violated=tot["failed"], undecided=tot["unknown"] + und * 0),
                  solver=dict(st, time_s=round(st["time"], 2)), harnesses=harn, stubs=spec.get("stubs_note", []),
                  undecided_total=und, incomplete_prefixes=inc, engine_errors=errs, vacuous=vac,
                  unconfirmed_counterexamples=[list(u) for u in unconfirmed], trace_mismatches=[list(m) for m in mismlist][:10],
                  known_findings=[k["id"] for k, _, _ in known]),
              assumptions=registry.ASSUME + spec.get("assume", []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d harnesses, %d paths, %d queries (%.1f s solver), assertions %s, undecided %d, incomplete %d, "
          "functions %d, validated traces %d, wall %.1f s" % (prop, tier, len(res), paths, st["queries"], st["time"], tot, und, inc,
                                                              len(fr), validated, time.time() - t0))
    if os.environ.get("SYM_VERBOSE"):
        for entry, r in sorted(res.items()):
            print("   ", entry, r["paths"], r["ends"], r["nassert"], "wall %.1f" % r["wall"], "solver %.1f" % r["stats"]["time"],
                  "unkfeas", r["unknown_feas"], "vars", r["maxvars"])
    for e, n in sorted(errs.items())[:20]:
        print("  UNDECIDED (engine) x%d %s" % (n, e))
    for entry, r in res.items():
        for u in sorted(set(r["unknown"])):
            print("  UNDECIDED (solver) x%d %s: %s" % (r["unknown"].count(u), entry, u))
    for v in vac[:20]:
        print("  UNWITNESSED", v)
    for u in unconfirmed:
        print("  UNCONFIRMED counterexample (does not reproduce natively) %s: %s" % (u[0], u[1]))
    for m in mismlist[:10]:
        print("  TRACE-MISMATCH %s exit %s %s %s" % m)
    seen = set()
    for k, entry, label in known:
        if k["id"] not in seen:
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for entry, label, path, out in viol:
        print("  violated: %s [%s]\n    %s" % (label, entry, out.strip().replace("\n", "\n    ")[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if viol else 0


def load_known(prop):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def match_known(kf, entry, label):
    for k in kf:
        if k["harness"] == entry and label.startswith(k["assertion"]):
            return k
    return None


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")


def short(d):
    return d.split("(")[0][:140]


if __name__ == "__main__":
    main()
