#!/usr/bin/env python3
"""Decide one property: build the harnesses from /repo's current tree, execute them
symbolically, replay counterexamples natively, write the evidence file.

  check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [-v]
exit 0: held on everything explored (runs without an answer are listed as UNDECIDED and in the evidence);
1: violated (VIOLATION line); 2: no answer (build failure, or more than a third of the property's own runs undecided;
a run that never reaches what it is about counts as undecided)."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, random, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
sys.path.insert(0, os.path.join(V, "bin"))
import jobs as J  # noqa: E402

CFG = {"api": "--cfg minisign_verif", "kern": "--cfg minisign_verif --cfg minisign_verif_kernels"}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)
ENV.pop("CARGO_ENCODED_RUSTFLAGS", None)


class Fail(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise Fail("%s failed (%d):\n%s" % (" ".join(cmd[:6]), p.returncode, p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout.decode(errors="replace")


def build_symx():
    run(["cargo", "build", "--release", "--offline", "-q", "--target-dir", B + "/symx"], cwd=V + "/symx")
    return B + "/symx/release/symx"


def build_ir(feat):
    t = "%s/ir-%s" % (B, feat)
    shutil.rmtree(t + "/release", ignore_errors=True)
    env = dict(ENV, RUSTFLAGS=CFG[feat] + " -Awarnings")
    run(["cargo", "rustc", "--lib", "--release", "--offline", "-q", "--target-dir", t, "--features", feat,
         "--crate-type", "staticlib", "--", "--emit=llvm-ir", "-C", "save-temps"], env=env, cwd=V + "/harness")
    bc = glob.glob(t + "/release/deps/*lto.after-restriction.bc")
    if len(bc) != 1:
        raise Fail("expected one LTO module, found %r" % bc)
    root = run(["rustc", "--print", "sysroot"]).strip()
    opt = glob.glob(root + "/lib/rustlib/*/bin/opt")[0]
    out = "%s/%s.ll" % (B, feat)
    run([opt, "-S", "-strip-debug",
         "-passes=globaldce,always-inline,function(sroa,early-cse<memssa>,instsimplify,simplifycfg,dce),globaldce", bc[0], "-o", out])
    return out


def build_replay(feat, prof):
    env = dict(ENV, RUSTFLAGS=CFG[feat] + " -Awarnings")
    t = "%s/native-%s" % (B, feat)
    # cargo decides by mtime; the harness and /repo are rebuilt whenever they changed
    run(["cargo", "build", "--bin", "replay", "--profile", prof, "--offline", "-q", "--target-dir", t + "-" + prof,
         "--features", "native," + feat], env=env, cwd=V + "/harness")
    return "%s-%s/%s/replay" % (t, prof, prof)


def write_model(path, job, model):
    with open(path, "w") as f:
        f.write("%s\n%s\n" % (job["entry"], " ".join(map(str, job["params"]))))
        for k, x in sorted(model.items()):
            f.write("%s %s\n" % (k, x))


def native(binp, path, timeout=300, pre=()):
    d = path + ".d"
    os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run(list(pre) + [binp, path], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, out = 124, "timeout"
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


MARK = b" S 7a5a5a5000,8\n"


def steps(binp, path):
    """whether the compiled crate makes the same steps (instructions and memory accesses, as valgrind
    sees them) for the secrets x and y of a model: True, False, or None if that cannot be told"""
    d = path + ".d%d" % random.getrandbits(40)
    os.makedirs(d, exist_ok=True)
    r, w = os.pipe()
    try:
        p = subprocess.Popen(["valgrind", "--tool=lackey", "--trace-mem=yes", "--log-fd=%d" % w, binp, path], cwd=d, pass_fds=[w],
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, env=dict(os.environ, LD_BIND_NOW="1"))
    except OSError:
        os.close(r)
        os.close(w)
        shutil.rmtree(d, ignore_errors=True)
        return None
    os.close(w)
    t = threading.Timer(180, lambda: os.killpg(p.pid, signal.SIGKILL))
    t.start()
    secs, h, tail = [], hashlib.sha256(), b""
    with os.fdopen(r, "rb", 1 << 20) as f:
        while True:
            b = f.read(1 << 20)
            b, end = tail + b, not b
            while True:
                k = b.find(MARK)
                if k < 0:
                    break
                h.update(b[:k])
                secs.append(h.digest())
                h, b = hashlib.sha256(), b[k + len(MARK):]
            if end:
                break
            k = max(0, len(b) - len(MARK))
            h.update(b[:k])
            tail = b[k:]
    rc = p.wait()
    t.cancel()
    shutil.rmtree(d, ignore_errors=True)
    # before, 1st, between, 2nd, between, 3rd, between, 4th
    if rc != 0 or len(secs) != 8 or secs[3] != secs[5]:
        return None
    return secs[5] == secs[7]


def secrets(job, model, other, seed):
    """pairs of secrets for `steps`: of the solver, and two more"""
    n = int(job["params"][1])
    rnd = random.Random(seed)
    x = [model.get("x#0[%d]" % i, "0") for i in range(n)]
    r = [[str(rnd.randrange(256)) for _ in range(n)] for _ in range(3)]
    o = [[(x, [other.get("x#0[%d]" % i, "0") for i in range(n)])] if other else []][0] + [(r[0], r[1]), (x, r[2])]
    return [dict([("x#0[%d]" % i, v) for i, v in enumerate(a)] + [("y#0[%d]" % i, v) for i, v in enumerate(b)]) for a, b in o]


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    verbose = "-v" in a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    lock = open(B + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = [j for j in J.jobs(prop, tier) if only is None or j["entry"] == only]
    feats = sorted(set(j["feat"] for j in jobs))
    with cf.ThreadPoolExecutor(8) as ex:
        fs = ex.submit(build_symx)
        fi = {f: ex.submit(build_ir, f) for f in feats}
        fn = {(f, p): ex.submit(build_replay, f, p) for f in feats for p in ("rdev", "rrel")}
        symx = fs.result()
        irs, nat, broken = {}, {}, {}
        for f in feats:
            try:
                irs[f] = fi[f].result()
                nat.update({(f, p): fn[(f, p)].result() for p in ("rdev", "rrel")})
            except Fail as e:
                # the kernels below a property of the API: without them its own runs still decide
                if all(j.get("below") for j in jobs if j["feat"] == f):
                    broken[f] = str(e)[-300:]
                else:
                    raise
    tb = time.time() - t0
    rd = B + "/replay"
    os.makedirs(rd, exist_ok=True)
    for f in glob.glob("%s/%s-*" % (rd, prop)):
        if os.path.isfile(f):
            os.remove(f)

    def one(i, j):
        out = "%s/%s-%d.json" % (rd, prop, i)
        if j["feat"] in broken:
            return {"error": "build: " + broken[j["feat"]]}
        ll = irs[j["feat"]]
        cmd = [symx, ll, j["entry"]]
        for p in j["params"]:
            cmd += ["--param", str(p)]
        for r in j["redirects"]:
            cmd += ["--redirect", r]
        if j["feat"] == "api":
            cmd += ["--steps", "30000000"]
        cmd += ["--time", str(j["time"]), "--out", out] + j["args"]
        try:
            p = subprocess.Popen(["bash", "-c", 'ulimit -v 14000000; exec "$@"', "x"] + cmd, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE, start_new_session=True)
            err = p.communicate(timeout=j["time"] + 60)[1].decode(errors="replace")[-2000:]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return {"error": "timeout"}
        try:
            r = json.load(open(out))
        except Exception:
            return {"error": "engine: rc %d %s" % (p.returncode, err)}
        os.remove(out)
        if r.get("alg") and r["alg"]["claims"]:
            f = out + ".alg"
            json.dump(r.pop("alg"), open(f, "w"))
            try:
                run(["python3-vt", V + "/bin/alg.py", f, f + ".out", str(seed)], timeout=j["time"] + 120)
                r["ints"] = x = json.load(open(f + ".out"))
                os.remove(f + ".out")
            except (Fail, subprocess.TimeoutExpired) as e:
                return {"error": "integer claims: %s" % str(e)[-500:]}
            os.remove(f)
            r["queries"] += x["queries"]
            r["unsat"] += x["queries"]
            r["solver_seconds"] += x["solver_seconds"]
            r["seconds"] += x["seconds"]
            r["violations"] += [{"kind": "claim", "msg": c["name"], "model": c["model"]} for c in x["cex"]]
            r["incomplete"] += ["claim undecided: " + c for c in x["open"]]
        return r

    order = sorted(range(len(jobs)), key=lambda i: -jobs[i]["weight"])
    res = {}
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_PROCS", "8"))) as ex:
        for i, r in zip(order, ex.map(lambda i: one(i, jobs[i]), order)):
            res[i] = r
    undecided, openruns, viols, validated, tried, samples, mismatched = [], set(), [], 0, 0, [], []
    tot = dict(paths=0, steps=0, queries=0, asserts=0, solver=0.0, trivial=0, small=0, sat=0, unsat=0)
    funcs, aids, reached, used = {}, {}, {}, set()
    vcases, wcases, ints = [], [], {}
    for i, j in enumerate(jobs):
        r = res[i]
        nm = "%s(%s)" % (j["entry"], ",".join(map(str, j["params"])))
        if "error" in r:
            undecided.append("%s: %s" % (nm, r["error"]))
            openruns.add(i)
            continue
        if verbose:
            print("%-28s %7.1fs longest %d paths %6d queries %6d reached %s%s" % (nm, r["seconds"], r.get("longest", 0), r["paths"], r["queries"], r["reached"], " INCOMPLETE %s" % r["incomplete"][:3] if r["incomplete"] else ""))
        tot["paths"] += r["paths"]
        tot["steps"] += r["steps"]
        tot["queries"] += r["queries"]
        tot["sat"] += r["sat"]
        tot["unsat"] += r["unsat"]
        tot["asserts"] += r["asserts"]
        tot["trivial"] += r["asserts_trivial"]
        tot["small"] += r["small_domain"]
        tot["solver"] += r["solver_seconds"]
        for n, k in r["functions"]:
            funcs[n] = funcs.get(n, 0) + k
        for n, k in r["assert_ids"].items():
            aids[n] = aids.get(n, 0) + k
        for n, k in r["reached"].items():
            reached[n] = reached.get(n, 0) + k
        used |= set(r["redirects"].values())
        if "ints" in r:
            for k in ("claims", "proved", "atoms"):
                ints[k] = ints.get(k, 0) + r["ints"][k]
        hard = [x for x in r["incomplete"] if not x.startswith("(soft)")]
        if hard:
            undecided.append("%s: incomplete: %s" % (nm, "; ".join(hard[:3])))
            openruns.add(i)
        elif not r["violations"]:
            miss = [x for x in j["reach"] if not r["reached"].get(x)]
            if miss:
                undecided.append("%s: never reached: %s" % (nm, ", ".join(miss)))
                openruns.add(i)
            if not r["asserts"] and not r["ended"] and not j.get("noassert"):
                undecided.append("%s: no assertion was decided" % nm)
                openruns.add(i)
        for n, v in enumerate(r["violations"]):
            vcases.append((i, j, nm, n, v))
        for n, (rid, m) in enumerate(r["witnesses"]):
            wcases.append((i, j, nm, n, rid, m))

    # undecided: the native run at least tries its own extreme inputs
    lost = [(i, j) for i, j in enumerate(jobs) if j["feat"] not in broken and ("error" in res[i] or [x for x in res[i]["incomplete"] if not x.startswith("(soft)")])]

    def traces(i, j, tag, model, other):
        """(replay file, profile) of a pair of secrets for which the compiled crate's steps differ; how many pairs agree"""
        same = 0
        for q, m in enumerate(secrets(j, model, other, seed)):
            f = "%s/%s-%d-%s%d.model" % (rd, prop, i, tag, q)
            write_model(f, j, m)
            for p in ("rrel", "rdev"):
                s = steps(nat[(j["feat"], p)], f)
                if s is False:
                    return (f, p), same
                same += s is True
            os.remove(f)
        return None, same

    def confirm(c):
        i, j, nm, n, v = c
        f = "%s/%s-%d-%d.model" % (rd, prop, i, n)
        if v["kind"] == "secret":
            d, _ = traces(i, j, "s%d-" % n, v["model"], v.get("other"))
            if d:
                return d[0], [(d[1], 101, "the steps differ for the secrets x and y")]
        write_model(f, j, v["model"])
        rs = [(p,) + native(nat[(j["feat"], p)], f) for p in ("rdev", "rrel")]
        return f, rs

    def wit(c):
        i, j, nm, n, rid, m = c
        f = "%s/%s-%d-w%d.model" % (rd, prop, i, n)
        write_model(f, j, m)
        if j["entry"] == "h_ct":
            d, same = traces(i, j, "t%d-" % n, m, None)
            if d:
                return False, 101, "the steps of the compiled crate (%s) differ for the secrets x and y" % d[1], d[0]
            os.remove(f)
            return same > 0, 0 if same else 1, "", f
        rc, out = native(nat[(j["feat"], "rrel")], f)
        if rc in (101, 102, 103):
            # the input of a symbolic path breaks the assertions on the compiled crate
            return False, rc, out, f
        os.remove(f)
        return rc == 0 and ("REACHED %s\n" % rid) in out, rc, out, f

    def hang(c):
        i, j, n, m = c
        f = "%s/%s-%d-h%d.model" % (rd, prop, i, n)
        write_model(f, j, m)
        return f, native(nat[(j["feat"], "rrel")], f, 60, ["bash", "-c", 'ulimit -v 6000000; ulimit -f 2000000; exec "$@"', "x"])[0]

    with cf.ThreadPoolExecutor(8) as ex:
        for c, (f, rs) in zip(vcases, ex.map(confirm, vcases)):
            i, j, nm, n, v = c
            bad = [r for r in rs if r[1] in (101, 102, 103) or r[1] < 0 or r[1] == 134]
            if bad:
                viols.append((f, "%s: %s: %s [%s]" % (nm, v["kind"], v["msg"], bad[0][2].strip().splitlines()[-1][:200] if bad[0][2].strip() else "rc %d" % bad[0][1])))
            else:
                openruns.add(i)
                undecided.append("%s: counterexample does not reproduce: %s: %s (native: %s)" % (nm, v["kind"], v["msg"], [(r[0], r[1]) for r in rs]))
        if not viols:
            for c, (ok, rc, out, f) in zip(wcases, ex.map(wit, wcases)):
                tried += 1
                if rc in (101, 102, 103):
                    viols.append((f, "%s: input of the path to '%s' fails natively: %s" % (c[2], c[4], out.strip().splitlines()[-1][:200] if out.strip() else rc)))
                validated += ok
                if not ok:
                    mismatched.append("%s: witness for '%s': native rc %d" % (c[2], c[4], rc))
                elif len(samples) < 6:
                    samples.append({"harness": c[2], "reaches": c[4], "values": dict(list(c[5].items())[:12])})
            # a path without end: the same input must not keep the compiled crate running either
            hcases = [(i, j, n, m) for i, j in enumerate(jobs) for n, m in enumerate(res[i].get("hangs", []))][:16] if not viols else []
            for (i, j, n, m), (f, rc) in zip(hcases, ex.map(hang, hcases)):
                if rc in (124, -24, -25, -9):
                    viols.append((f, "%s(%s): does not come to an end" % (j["entry"], ",".join(map(str, j["params"])))))
            for i, j in lost[:24] if not viols else []:
                f = "%s/%s-%d-x.model" % (rd, prop, i)
                write_model(f, j, {})
                for p in ("rdev", "rrel"):
                    rc, out = native(nat[(j["feat"], p)], f, 60)
                    if rc in (101, 102, 103):
                        viols.append((f, "%s(%s): undecided, and fails natively: %s" % (j["entry"], ",".join(map(str, j["params"])), out.strip().splitlines()[-1][:200] if out.strip() else rc)))
                        break
    known = J.known(prop)
    fresh = []
    for f, t in viols:
        k = [x for x in known if x in t]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]))
        else:
            fresh.append((f, t))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
        "assumptions": J.assumptions(prop),
        "coverage": {
            "states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": validated,
            "samples": samples or [{"harness": "%s(%s)" % (j["entry"], ",".join(map(str, j["params"])))} for j in jobs[:3]],
            "rule": "states: symbolic paths completed; transitions: LLVM IR instructions executed symbolically; "
                    "traces: solver models of reached points, re-run on the compiled crate with the same outcome",
            "bounds": J.bounds(prop, tier),
            "harness_runs": len(jobs),
            "assertions_decided": tot["asserts"], "assertions_decided_without_query": tot["trivial"],
            "assertion_kinds": aids, "reached": reached,
            "solver_queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"],
            "integer_claims": ints.get("claims", 0), "integer_claims_proved": ints.get("proved", 0), "integer_atoms": ints.get("atoms", 0),
            "domain_decided_branches": tot["small"], "solver_seconds": round(tot["solver"], 2),
            "stand_ins": sorted(used),
            "functions_encoded": [n for n, _ in sorted(funcs.items(), key=lambda x: -x[1]) if "minisign" in n][:80],
            "functions_encoded_total": len(funcs),
            "witness_traces_tried": tried, "witness_mismatches": mismatched[:5], "build_seconds": round(tb, 1),
            "undecided_runs": len(openruns), "undecided": undecided[:40],
        },
    }
    with open("%s/evidence/%s.json" % (V, prop), "w") as f:
        json.dump(ev, f, indent=1)
    for p in undecided[:10]:
        print("UNDECIDED: " + p)
    for m in mismatched[:3]:
        print("note: " + m)
    shown = set()
    for f, t in fresh:
        if len(shown) < 5:
            print("VIOLATION property=%s replay=%s" % (prop, f))
            print("  " + t)
            shown.add(t)
    print("%s %s: %d runs, %d paths, %d assertions, %d queries, %.1fs solver, %d/%d traces validated, %.1fs" % (
        prop, tier, len(jobs), tot["paths"], tot["asserts"], tot["queries"], tot["solver"], validated, tried, time.time() - t0))
    if fresh:
        return 1
    # the property's own runs must give the answer; the parts below it only add to it
    own = [i for i, j in enumerate(jobs) if not j.get("below")]
    return 2 if len([i for i in own if i in openruns]) * 3 > len(own) else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as e:
        print("ERROR: " + str(e))
        sys.exit(2)
