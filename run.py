#!/usr/bin/env python3
"""Driver: run.py <property> <quick|thorough>      decide a property on /repo's working tree
           run.py --replay <file>                  replay a recorded violation

Builds the explorer against /repo's current working tree in every build
configuration the property quantifies over, enumerates all its spaces in
parallel processes, confirms any violation in fresh processes, writes the
evidence file and exits 0 (held on everything explored) or 1 (VIOLATION)."""
import array, json, os, re, struct, subprocess, sys, tempfile, time, hashlib, shutil, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MC = os.path.join(VERIF, "mc")
NPROC = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, VERIF)
from plan import PLAN, FULL, LEVEL, ASSUMPTIONS  # noqa: E402

T0 = time.time()


class Fatal(Exception):
    pass


def goenv(extra=None):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    for k in ("GOOS", "GOARCH", "GOAMD64", "GOARM", "GO386", "GOEXPERIMENT", "GODEBUG", "GOGC", "GOMEMLIMIT",
              "GORACE", "GOTRACEBACK", "CC", "CXX"):
        e.pop(k, None)
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/cref/*.data")):
        h.update(open(f, "rb").read())
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOENV="off", GOWORK="off", GO111MODULE="on",
             GOSUMDB="off", CGO_ENABLED="1", CGO_CFLAGS="-O2 -g -DVP_DATA_HASH=0x" + h.hexdigest()[:16],
             PATH=e.get("PATH", "") + ":/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin")
    e.update(extra or {})
    return e


def sh(cmd, env=None, cwd=MC, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def overlay(scratch, cfg):
    """Generate the instrumented or adapted sources of a configuration."""
    kind = cfg["overlay"]
    d = os.path.join(scratch, "ov-" + cfg["name"])
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "overlay.json")
    if kind == "clib":
        return clib_overlay(d, out)
    tool = os.path.join(scratch, "mkoverlay")
    if not os.path.exists(tool):
        rc, o = sh(["go", "build", "-o", tool, "./cmd/mkoverlay"])
        if rc:
            raise Fatal("building mkoverlay failed:\n" + o)
    rc, o = sh([tool, "-mode", kind, "-repo", REPO, "-dir", d, "-out", out, "-tags", cfg.get("tags", "")],
               goenv(cfg.get("env")))
    if rc:
        raise Fatal("overlay %s: %s" % (kind, o))
    return out


def clib_overlay(d, out):
    """The C library of the repository, with a digest: the go command does not look into included files."""
    c = os.path.join(REPO, "cref")
    dig = hashlib.sha256()
    for f in sorted(os.listdir(c)):
        if os.path.isfile(os.path.join(c, f)):
            dig.update(f.encode() + b"\0" + open(os.path.join(c, f), "rb").read())
    rep = {}
    for f in ("wrap.c", "wrap.h"):
        rep[os.path.join(MC, "clib", f)] = os.path.join(d, f)
        open(os.path.join(d, f), "w").write("/* %s */\n#include \"%s\"\n" % (dig.hexdigest(), os.path.join(c, "cref" + f[4:])))
    json.dump({"Replace": rep}, open(out, "w"))
    return out


def build(scratch, cfg):
    out = os.path.join(scratch, "bin-" + cfg["name"])
    cmd = [cfg.get("go", "go"), "build", "-o", out]
    if cfg.get("tags"):
        cmd += ["-tags", cfg["tags"]]
    if cfg.get("race"):
        cmd += ["-race"]
    if cfg.get("overlay"):
        cmd += ["-overlay", overlay(scratch, cfg)]
    cmd += cfg.get("flags", [])
    cmd += ["./cmd/" + cfg.get("cmd", "runner")]
    rc, o = sh(cmd, goenv(cfg.get("env")))
    if rc:
        raise Fatal("go build (%s) failed:\n%s" % (cfg["name"], o[-4000:]))
    return out


def runenv(cfg):
    e = goenv(cfg.get("run_env"))
    e["GOMAXPROCS"] = str(cfg.get("gomaxprocs", 2))
    e.setdefault("GOGC", "200")
    return e


def finish_out(p, log):
    try:
        return open(log, errors="replace").read()[-4000:]
    except OSError:
        return ""


def launch(binary, prop, tier, cfg, shard, of, deadline, scratch, extra=(), tag=""):
    base = os.path.join(scratch, "%s-%s-%d%s" % (prop, cfg["name"], shard, tag))
    cmd = [binary, "-prop", prop, "-tier", tier, "-config", cfg["name"], "-shard", str(shard), "-of", str(of),
           "-deadline", str(int(deadline)), "-out", base + ".json", "-states", base + ".st", "-cur", base + ".cur",
           "-digests", base + ".dg", *extra]
    for f in (base + ".json", base + ".cur"):
        if os.path.exists(f):
            os.unlink(f)
    log = open(base + ".log", "w")
    p = subprocess.Popen(cmd, cwd=scratch, env=runenv(cfg), stdout=log, stderr=log)
    log.close()
    return p, base


def result(p, base):
    rc = p.wait()
    rep = None
    if os.path.exists(base + ".json"):
        try:
            rep = json.load(open(base + ".json"))
        except ValueError:
            rep = None
    return rc, rep


def space_names(binary, prop, tier, cfg):
    p = subprocess.run([binary, "-prop", prop, "-tier", tier, "-config", cfg["name"], "-names"], env=runenv(cfg),
                       stdout=subprocess.PIPE, text=True)
    return p.stdout.split()


def crash_case(base, names):
    try:
        si, idx = struct.unpack("<QQ", open(base + ".cur", "rb").read(16))
        return names[si], (-1 if idx >> 63 else idx)
    except Exception:
        return None, None


def replay_once(binary, prop, tier, cfg, v, scratch, k):
    """Returns the error text if the recorded case fails again."""
    if v["mode"] == "case":
        extra = ["-space", v["space"], "-index", str(v["index"])]
        sh_, of = 0, 1
    else:
        extra = ["-space", v["space"], "-upto", str(v["index"])]
        sh_, of = v["shard"], v["of"]
    p, base = launch(binary, prop, tier, cfg, sh_, of, 0, scratch, extra, "-replay%d" % k)
    rc, rep = result(p, base)
    if rc == 1 and rep and rep.get("violations"):
        return rep["violations"][0]["err"]
    if rc in (0, 1) and rep and rep.get("findings"):
        for f in rep["findings"]:
            if f["key"] == v.get("key"):
                return f["err"]
    if rc not in (0, 1, 4):
        return "the process died (status %d): %s" % (rc, finish_out(p, base + ".log")[-1500:])
    return None


def confirm(binary, prop, tier, cfg, v, scratch):
    for mode, n in (("case", 5), ("prefix", 3)):
        if mode == "case" and v["index"] < 0:
            continue
        v = dict(v, mode=mode)
        ok, last = 0, None
        for k in range(n):
            e = replay_once(binary, prop, tier, cfg, v, scratch, k)
            if e:
                ok, last = ok + 1, e
            elif k == 0 and mode == "case":
                break
        if ok:
            v["err"] = last
            v["reproduced"] = "%d of %d" % (ok, n)
            return v
    return None


def digests(prop, cfg, scratch, tag=""):
    """{space: {case: outcome digest}} of a configuration."""
    r = {}
    for f in glob.glob(os.path.join(scratch, "%s-%s-[0-9]*%s.dg.*" % (prop, cfg["name"], tag))):
        m = re.match(re.escape("%s-%s-" % (prop, cfg["name"])) + r"\d+" + tag + r"\.dg\.(.*)$", os.path.basename(f))
        if not m:
            continue
        a = array.array("Q", open(f, "rb").read())
        r.setdefault(m.group(1), {}).update(zip(a[0::2], a[1::2]))
    return r


def outcome_text(binary, prop, tier, cfg, space, index, scratch, tag):
    p, base = launch(binary, prop, tier, cfg, 0, 1, 0, scratch, ["-space", space, "-index", str(index)], tag)
    rc, rep = result(p, base)
    return rep.get("text") if rep else "the process died (status %d)" % rc


def differ(prop, tier, ca, cb, bins, space, index, scratch, n=3):
    """The two outcomes of a case, if they differ in each of n fresh pairs of processes."""
    for k in range(n):
        a = outcome_text(bins[ca["name"]], prop, tier, ca, space, index, scratch, "-cmpa%d" % k)
        b = outcome_text(bins[cb["name"]], prop, tier, cb, space, index, scratch, "-cmpb%d" % k)
        if a == b:
            return None
    return a, b


def compare(pairs, cfgs, bins, prop, tier, scratch, cov):
    """Compare the outcomes of configurations case by case."""
    byname = {c["name"]: c for c in cfgs if c["name"] in bins}
    dg, found = {n: digests(prop, c, scratch) for n, c in byname.items()}, []
    total = 0
    for na, nb, pre in pairs:
        if na not in dg or nb not in dg:
            continue
        for space in sorted(set(dg[na]) | set(dg[nb])):
            if not any(space.startswith(x) for x in pre):
                continue
            a, b = dg[na].get(space, {}), dg[nb].get(space, {})
            if space.startswith("verdict"):
                # only failing cases are recorded; see whether they fail in the other build, too
                ps = [launch(bins[na], prop, tier, byname[na], k, NPROC, 0, scratch, ["-space", space], "-on")
                      for k in range(NPROC)]
                for p, base in ps:
                    p.wait()
                a = digests(prop, byname[na], scratch, "-on").get(space, {})
                common = b.keys()
            else:
                common = a.keys() & b.keys()
                total += len(common)
            bad = sorted(i for i in common if a.get(i) != b[i])
            for i in bad[:4]:
                t = differ(prop, tier, byname[na], byname[nb], bins, space, i, scratch)
                if t is None:
                    cov["notes"].append("UNCONFIRMED difference %s/%s %s #%d" % (na, nb, space, i))
                    continue
                found.append((byname[nb], {"space": space, "index": i, "mode": "compare", "with": na,
                                           "err": "%s: %s\n%s: %s\n(%d of %d cases of this space differ)" % (
                                               na, t[0], nb, t[1], len(bad), len(common))}))
                return found
    cov["outcomes_compared"] = total
    return found


def known():
    r = {}
    f = os.path.join(VERIF, "known-findings.txt")
    for line in open(f) if os.path.exists(f) else []:
        line = line.strip()
        if line.startswith("known: "):
            # known: property=<id> key=<key> <text>
            a = line[7:].split(None, 2)
            r[(a[0].split("=", 1)[1], a[1].split("=", 1)[1])] = a[2] if len(a) > 2 else ""
    return r


def write_replay(prop, tier, cfg, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s-%s.json" % (prop, cfg["name"], v["space"], v["index"]))
    json.dump({"property": prop, "tier": tier, "config": cfg["name"], **v}, open(path, "w"), indent=1)
    return path


def main(prop, command):
    plan = PLAN[prop]
    # the explorer's bounds: where they are cheap the quick command already uses those of "thorough"
    tier = {"quick": "thorough", "thorough": "deep"}[command] if prop in FULL else command
    budget = float(os.environ.get("VERIF_BUDGET_S", 600 if command == "quick" else 840))
    deadline = T0 + budget
    kn = known()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True,
           "spaces": {}, "configurations": [], "notes": []}
    viol, findings = [], {}
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        cfgs = [c for c in plan["configs"] if command == "thorough" or not c.get("thorough_only")]
        bins = {}
        for cfg in cfgs:
            try:
                bins[cfg["name"]] = build(scratch, cfg)
            except Fatal as e:
                if not cfg.get("optional"):
                    raise
                cov["notes"].append("configuration %s skipped: %s" % (cfg["name"], str(e)[:600]))
                cov["exhaustive"] = False
        share = max(1, len(bins))
        reports = {}
        for cfg in cfgs:
            if cfg["name"] not in bins:
                continue
            b = bins[cfg["name"]]
            dl = time.time() + (deadline - time.time()) / share
            share -= 1
            names = space_names(b, prop, tier, cfg)
            n = cfg.get("shards", NPROC)
            ps = [launch(b, prop, tier, cfg, k, n, dl, scratch) for k in range(n)]
            done = [(k, base) + result(p, base) for k, (p, base) in enumerate(ps)]
            cov["configurations"].append(cfg["name"])
            cands = []
            for k, base, rc, rep in done:
                if rc == 4:
                    raise Fatal("reference model self-test failed")
                if rep is None or rc not in (0, 1):
                    sp, idx = crash_case(base, names)
                    if sp is None:
                        raise Fatal("explorer died (status %d): %s" % (rc, finish_out(None, base + ".log")))
                    cands.append({"space": sp, "index": idx, "err": "the process died", "shard": k, "of": n,
                                  "crash": finish_out(None, base + ".log")})
                    continue
                for v in rep["violations"] or []:
                    cands.append(dict(v, shard=k, of=n))
                for v in rep["findings"] or []:
                    key = (prop, v["key"])
                    if key in kn:
                        findings.setdefault(v["key"], (cfg["name"], v))
                    else:
                        cands.append(dict(v, shard=k, of=n))
                for s in rep["spaces"] or []:
                    x = cov["spaces"].setdefault(cfg["name"] + "/" + s["space"],
                                                 {"bound": s["bound"], "size": s["size"], "explored": 0})
                    x["explored"] += s["done"]
                    x["size"] = s["size"]
                    x["cpu_s"] = round(x.get("cpu_s", 0) + s.get("secs", 0), 1)
                cov["transitions"] += rep["transitions"]
                if rep.get("states_capped"):
                    cov["notes"].append("distinct-state counting stopped at its cap in a shard of " + cfg["name"])
                if k == 0 and len(cov["samples"]) < 40:
                    cov["samples"] += [cfg["name"] + " " + s for s in rep["samples"] or []]
                if rep["timed_out"]:
                    cov["exhaustive"] = False
                reports[(cfg["name"], k)] = rep
            cands.sort(key=lambda v: (names.index(v["space"]) if v["space"] in names else 99, v["index"]))
            for v in cands[:4]:
                c = confirm(b, prop, tier, cfg, v, scratch)
                if c is None:
                    cov["notes"].append("UNCONFIRMED (not reproduced in fresh processes): %s %s #%s: %s" % (
                        cfg["name"], v["space"], v["index"], v["err"][:500]))
                    cov["exhaustive"] = False
                else:
                    viol.append((cfg, c, write_replay(prop, tier, cfg, c)))
                    break
            st = glob.glob(os.path.join(scratch, "%s-%s-*.st" % (prop, cfg["name"])))
            if st:
                rc, o = sh([b, "-merge"] + st, runenv(cfg))
                try:
                    cov["states"] += int(o.strip())
                except ValueError:
                    pass
                for f in st:
                    os.unlink(f)
            if viol:
                break
        if plan.get("compare") and not viol:
            for cfg, c in compare(plan["compare"], cfgs, bins, prop, tier, scratch, cov):
                viol.append((cfg, c, write_replay(prop, tier, cfg, c)))
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
    cov["traces_validated_against_impl"] = sum(s["explored"] for s in cov["spaces"].values())
    cov["complete_spaces"] = sum(1 for s in cov["spaces"].values() if s["explored"] >= s["size"])
    if any(s["explored"] < s["size"] for s in cov["spaces"].values()):
        cov["exhaustive"] = False
    cov["samples"] = cov["samples"][:40]
    ev = {"property": prop, "tier": command, "bounds": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": LEVEL[prop],
          "coverage": cov, "assumptions": ASSUMPTIONS[prop], "wall_s": round(time.time() - T0, 2),
          "violations": len(viol),
          "violation_details": [{"config": c["name"], "space": v["space"], "index": v["index"], "error": v["err"][:4000],
                                 "replay": p} for c, v, p in viol],
          "known_findings": sorted(findings)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d executions in %d spaces x configurations, %d calls, %d distinct states, exhaustive=%s, %.1f s" % (
        prop, command, cov["traces_validated_against_impl"], len(cov["spaces"]), cov["transitions"], cov["states"],
        cov["exhaustive"], time.time() - T0))
    for n in cov["notes"]:
        print("note:", n)
    for k in sorted(findings):
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[(prop, k)]))
    for cfg, v, path in viol:
        print("%s space %s case %s: %s" % (cfg["name"], v["space"], v["index"], v["err"][:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if viol else 0


def replay(path):
    v = json.load(open(path))
    prop = v["property"]
    cfg = [c for c in PLAN[prop]["configs"] if c["name"] == v["config"]][0]
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        b = build(scratch, cfg)
        if v["mode"] == "compare":
            other = [c for c in PLAN[prop]["configs"] if c["name"] == v["with"]][0]
            t = differ(prop, v["tier"], other, cfg, {cfg["name"]: b, other["name"]: build(scratch, other)},
                       v["space"], v["index"], scratch, 1)
            e = t and "%s: %s\n%s: %s" % (other["name"], t[0], cfg["name"], t[1])
        else:
            e = replay_once(b, prop, v["tier"], cfg, v, scratch, 0)
        if e:
            print("reproduced:", e)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    """Warm the build cache: build every configuration once."""
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    seen = set()
    try:
        for p in PLAN:
            for cfg in PLAN[p]["configs"]:
                if cfg["name"] in seen:
                    continue
                seen.add(cfg["name"])
                try:
                    build(scratch, cfg)
                    print("built", cfg["name"])
                except Fatal as e:
                    print("not built:", cfg["name"], str(e)[:800])
                    if not cfg.get("optional"):
                        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            sys.exit(setup())
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except Fatal as e:
        print("ERROR:", e)
        sys.exit(2)
