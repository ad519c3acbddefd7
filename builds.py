"""C44: the same results in every build. Builds the workload in builds/ (which needs only `core`) with several
profiles and for a 32-bit target, runs the same seeded cases in each and compares what they log.
Called by ./check, whose helpers (environment, process handling, verdict conventions) it uses."""
import json, os, re, shutil, tarfile, threading, time
from pathlib import Path

DIR = Path(__file__).resolve().parent / "builds"
WASM = "wasm32-unknown-unknown"
# name -> (cargo arguments, RUSTFLAGS, directory of the artefact below the target directory)
NATIVE = {
    "release": (["--release"], "", "release"),
    "debug": ([], "", "debug"),
    "checked": (["--profile", "checked"], "", "checked"),
    "size": (["--profile", "size"], "", "size"),
    "native": (["--release"], "-Ctarget-cpu=native", "release"),
}
ALL = list(NATIVE) + ["wasm32"]
ABOUT = {
    "release": "opt-level 3, no checks",
    "debug": "opt-level 0, debug assertions, overflow checks",
    "checked": "opt-level 1, debug assertions, overflow checks, 256 codegen units",
    "size": "opt-level z, fat LTO",
    "native": "opt-level 3 for this machine's instruction set",
    "wasm32": "opt-level 3 for 32-bit WebAssembly (nightly), run by node",
}
CASES = {"quick": 420_000, "thorough": 7_000_000}


def vendor(C):
    """a directory with the sources the standard library and the crate need, for -Zbuild-std"""
    v = C.TARGET / "vendor"
    r, o, e = C.run(["rustc", "+nightly", "--print", "sysroot"], dict(os.environ), 60)
    lib = Path(o.strip()) / "lib/rustlib/src/rust/library"
    stamp = str(lib)
    if (v / "stamp").exists() and (v / "stamp").read_text() == stamp:
        return v
    shutil.rmtree(v, ignore_errors=True)
    v.mkdir(parents=True)
    for d in (lib / "vendor").iterdir():
        (v / d.name).symlink_to(d)
    home = Path(os.environ.get("CARGO_HOME", Path.home() / ".cargo"))
    lock = (DIR / "Cargo.lock").read_text()
    for name, ver, sum_ in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "[^"]+"\nchecksum = "([^"]+)"', lock):
        crate = next((home / "registry/cache").glob(f"*/{name}-{ver}.crate"))
        with tarfile.open(crate) as t:
            t.extractall(v, filter="data")
        (v / f"{name}-{ver}" / ".cargo-checksum.json").write_text(json.dumps({"files": {}, "package": sum_}))
    (v / "stamp").write_text(stamp)
    return v


def target(C, name):
    return C.TARGET / f"builds-{name}"


def build(C, name, timeout=700):
    env = C.base_env("release")
    env["CARGO_TARGET_DIR"] = str(target(C, name))
    C.forget(target(C, name))
    if name == "wasm32":
        try:
            v = vendor(C)
        except Exception as ex:  # noqa
            return f"sources for {WASM} not found: {ex!r}"
        cmd = ["cargo", "+nightly", "rustc", "--lib", "--crate-type", "cdylib", "--release", "--target", WASM, "-Zbuild-std=core,panic_abort", "--offline", "--locked"]
        cmd += ["--config", 'source.crates-io.replace-with="v"', "--config", f'source.v.directory="{v}"']
    else:
        args, flags, _ = NATIVE[name]
        if flags:
            env["RUSTFLAGS"] = flags
        cmd = ["cargo", "build", "--bins", "--offline", "--locked"] + args
    r, o, e = C.run(cmd, env, timeout, cwd=DIR)
    if r != 0:
        return f"{name} build failed or timed out:\n{(o + e)[-3000:]}"
    return None


# where a run places its buffers (in samples, from an arbitrary start), and on how many threads it works
PLACE = {"release": (0, 8), "release again": (5, 5), "debug": (1, 8), "checked": (2, 7), "size": (8, 8), "native": (3, 6), "wasm32": (7, 8)}


def command(C, run, seed, what):
    """what: ("case", k) or (from, to)"""
    name = run.split()[0]
    place, threads = PLACE[run]
    if name == "wasm32":
        w = target(C, name) / WASM / "release/work.wasm"
        tail = ["case", str(what[1])] if what[0] == "case" else [str(what[0]), str(what[1])]
        return ["node", str(DIR / "wasm.js"), str(w), str(place), str(seed)] + tail
    b = [str(target(C, name) / NATIVE[name][2] / "builds"), "--seed", str(seed), "--place", str(place)]
    return b + (["--case", str(what[1])] if what[0] == "case" else ["--from", str(what[0]), "--to", str(what[1]), "--threads", str(threads)])


def all_cases(C, name, seed, n, timeout):
    """-> (lines, problem)"""
    if name != "wasm32":
        rc, o, e = C.run(command(C, name, seed, (0, n)), dict(os.environ), timeout)
        if rc != 0:
            return None, (f"{name} run timed out" if rc is None else f"{name} run ended with {rc}: {e[-800:]}"), rc
        return o.splitlines(), None, 0
    parts = [None] * 8
    def go(i):
        parts[i] = C.run(command(C, name, seed, (n * i // 8, n * (i + 1) // 8)), dict(os.environ), timeout)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    out = []
    for rc, o, e in parts:
        if rc != 0:
            return None, (f"{name} run timed out" if rc is None else f"{name} run ended with {rc}: {e[-800:]}"), rc
        out += o.splitlines()
    return out, None, 0


def log(C, name, seed, case):
    rc, o, e = C.run(command(C, name, seed, ("case", case)), dict(os.environ), 60)
    return o.splitlines() if rc == 0 else [f"ended with {rc}: {e[-300:]}"]


def difference(C, a, b, seed, case):
    x, y = log(C, a, seed, case), log(C, b, seed, case)
    for i in range(max(len(x), len(y))):
        u = x[i] if i < len(x) else "nothing"
        v = y[i] if i < len(y) else "nothing"
        if u != v:
            return f"result {i} of case {case} (seed {seed}): {a} gives '{u}', {b} gives '{v}'".replace("\t", " ")
    return None


def compare(C, a, la, b, lb, seed):
    """-> list of (case, message), at most three"""
    out = []
    for i in range(max(len(la), len(lb))):
        u = la[i] if i < len(la) else None
        v = lb[i] if i < len(lb) else None
        if u != v:
            case = int((u or v).split()[0])
            d = difference(C, a, b, seed, case) or f"case {case} (seed {seed}): {a} and {b} differ ('{u}', '{v}') in a run of all cases only"
            out.append((case, d))
            if len(out) == 3:
                break
    return out


def main(C, prop, tier, seed):
    t0 = time.time()
    errs = {}
    ts = [threading.Thread(target=lambda m=m: errs.__setitem__(m, build(C, m))) for m in ALL]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for m in ALL:
        if errs[m]:
            C.die(errs[m])
    built = time.time() - t0
    n = CASES[tier]
    logs, secs, viols, problem = {}, {}, [], None
    for m in ["release", "release again"] + ALL[1:]:
        t = time.time()
        lines, bad, rc = all_cases(C, m, seed, n, 200)
        secs[m] = time.time() - t
        if lines is None:
            if rc is not None and m != "release":
                # the first build came through, this one crashed: not the same results
                viols.append((m, -1, f"release runs all cases, {bad}"))
                break
            problem = bad
            break
        logs[m] = lines
        if m != "release":
            for case, msg in compare(C, "release", logs["release"], m, lines, seed):
                viols.append((m, case, msg))
            if viols:
                break
    rel = logs.get("release", [])
    words = {m: sum(int(l.rsplit(" ", 1)[1]) for l in ls) for m, ls in logs.items()}
    names = re.findall(r'"([^"]+)"', re.search(r"NAMES: [^=]*= \[(.*?)\];", (DIR / "src/lib.rs").read_text(), re.S).group(1))
    observed = {f"cases: {nm}": sum(1 for l in rel if int(l.split()[0]) % len(names) == i) for i, nm in enumerate(names)} if rel else {}
    observed["panics"] = sum(1 for l in rel if " panic " in l)
    samples = []
    for i in (0, 4, 13):
        if rel:
            x = log(C, "release", seed, i)
            samples.append(f"case {i} ({names[i % len(names)]}), {len(x) - 1} results: " + ", ".join(x[:6]).replace("\t", " "))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(w for m, w in words.items() if m != "release"),
            "distinct_nontrivial": len({l.split()[1] for l in rel}),
            "rule": "A case is one seeded history over one part of the crate (or a whole voice), run in every build; every result it yields is compared with the release build's. Evaluations are results compared; distinct non-trivial cases are distinct digests of all results of a case.",
            "samples": samples or ["no case finished"],
            "observed": observed,
            "modes": [{"mode": m, "about": ABOUT[m.split()[0]], "cases": len(ls), "results": words[m], "seconds": round(secs[m], 2)} for m, ls in logs.items()],
            "build_seconds": round(built, 2),
        },
        "assumptions": ["which NaN and which sign of zero an operation yields is not compared", "node's WebAssembly engine and the compiler behave as documented"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    (C.EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    if viols:
        d = C.EVID / "replay"
        d.mkdir(exist_ok=True)
        for m, case, msg in viols:
            f = d / f"{prop}-{m.replace(' ', '_')}-{case}.txt"
            f.write_text(json.dumps({"property": prop, "build": m, "seed": seed, "tier": tier, "case": case, "message": msg}, indent=1) + "\n")
            print(f"  {msg[:600]}")
            print(f"VIOLATION property={prop} replay={f}")
        return 1
    if problem:
        C.die(problem)
    if len({l.split()[1] for l in rel}) < n // 2:
        C.die("the workload hardly does anything")
    print(f"{prop}: held in {', '.join(logs)}; {n} cases each, {sum(words.values())} results, {time.time() - t0:.1f} s")
    return 0


def replay(C, path):
    r = json.loads(Path(path).read_text())
    m = r["build"]
    for x in {"release", m.split()[0]}:
        e = build(C, x)
        if e:
            C.die(e)
    if r["case"] >= 0:
        d = difference(C, "release", m, r["seed"], r["case"])
    else:
        lines, d, _ = all_cases(C, m, r["seed"], CASES[r["tier"]], 300)
    print(d or "no difference")
    return 1 if d else 0
