"""Verus units: functions extracted from /repo on every run, proved against contracts.

A unit is described in /verif/verus/<name>.py by a dict UNIT; its models (assumed
contracts of what is outside the unit) and ghost code are in /verif/verus/<name>.rs.
"""
import glob, json, os, re, subprocess, sys, time, importlib.util, resource, signal
import extract
from extract import Missing, Notes, Source, tokenize, render

PROVED_WRONG = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
                "assertion failed", "possible arithmetic", "possible division", "possible bit shift",
                "recommendation not met", "unreachable", "index out of bounds", "decreases not satisfied",
                "could not prove", "precondition not met", "constructed value may fail", "assertion not satisfied",
                "possible overflow", "possible underflow", "failed precondition")


EXPANDED = None


def expand(repo, build):
    """the crate as rustc compiles it, macros and derives expanded"""
    global EXPANDED
    path = os.path.join(build, "expanded.rs")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
    for key in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RTPS_VERIF_DIR", "RUSTUP_TOOLCHAIN"):
        env.pop(key, None)
    p = subprocess.run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--profile", "check", "--target-dir",
                        os.path.join(build, "expanded"), "--", "-Zunpretty=expanded"], cwd=repo, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
    if p.returncode != 0 or not p.stdout.strip():
        raise Missing("the crate is not expanded: %s" % p.stderr[-300:])
    open(path, "w").write(p.stdout)
    EXPANDED = path


def located(path, repo):
    """where a source is: in /repo, in the crate cargo builds it with, or in the standard library"""
    if path == "@expanded":
        return EXPANDED
    kind, _, rest = path.partition(":")
    if kind == "crate":
        name, _, rest = rest.partition("/")
        home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
        version = r"[0-9][^-]*"
        lock = os.path.join(repo, "Cargo.lock")
        if os.path.exists(lock):
            found = re.findall(r'name = "%s"\nversion = "([^"]*)"' % name, open(lock).read())
            if len(found) == 1:
                version = re.escape(found[0])
        folders = [d for d in glob.glob(os.path.join(home, "registry", "src", "*", name + "-*"))
                   if re.fullmatch(name + "-" + version, os.path.basename(d))]
        if not folders:
            raise Missing("the source of the crate %s is not there" % name)
        return os.path.join(sorted(folders)[-1], rest)
    if kind == "std":
        p = subprocess.run(["rustc", "--print", "sysroot"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True)
        return os.path.join(p.stdout.strip(), "lib", "rustlib", "src", "rust", "library", rest)
    return os.path.join(repo, path)


def load(name, verif):
    spec = importlib.util.spec_from_file_location("unit_" + name, os.path.join(verif, "verus", name + ".py"))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module.UNIT


def replace(tokens, rules, notes):
    for old, new, why in rules:
        o, n = tokenize(old), tokenize(new)
        out, i, hits = [], 0, 0
        while i < len(tokens):
            if tokens[i:i + len(o)] == o:
                out += n
                i += len(o)
                hits += 1
            else:
                out.append(tokens[i])
                i += 1
        notes.add("`%s` -> `%s`: %s" % (old, new, why), hits)
        tokens = out
    return tokens


def transform(body, f, unit, notes, made):
    """f: the description of this function"""
    body = extract.strip_attributes(body)
    body = extract.drop_unsafe(body, notes)
    body = extract.drop_inner_use(body, notes)
    body = replace(body, f.get("replace", []) + unit.get("replace", []), notes)
    for hook in f.get("hooks", []):
        body = hook(body, notes)
    if "forms" in f:
        body = extract.lift_or_inline(extract.closure_variables(body, notes), f["forms"], f.get("lifted", []), notes,
                                      made)
    for method, form in f.get("closures", []):
        body = extract.inline_closures(body, method, form, notes)
    body = extract.annotate_closures(body, dict(unit.get("combinators", {}), **f.get("combinators", {})), notes)
    body = extract.rename_methods(body, unit.get("renames", {}), notes)
    body = extract.number_loops(body, f.get("loops", []), notes, f.get("loop_proofs", []))
    return body


def publish(h):
    """every field public: visibility has no meaning inside one file"""
    return ["pub"] + h


def fields_public(tokens):
    out, depth = [], 0
    start = True
    for i, t in enumerate(tokens):
        if t == "pub":
            continue
        if start and depth == 0:
            out.append("pub")
            start = False
        if t in extract.OPEN or t == "<":
            depth += 1
        elif t in extract.CLOSE or t == ">":
            depth -= 1
        elif t == "," and depth == 0:
            start = True
        out.append(t)
    if out and out[-1] == "pub":
        out.pop()
    return out


def generate(unit, repo, verif, probe=None):
    """-> (text, {function: (first line, last line)}, notes, shapes)"""
    notes, shapes, parts, marks = Notes(), {}, [], []
    sources = {}

    def source(path):
        if path not in sources:
            sources[path] = Source(located(path, repo))
        return sources[path]

    prelude = open(os.path.join(verif, "verus", unit["prelude"])).read()
    while "//@ include" in prelude:
        prelude = re.sub(r"//@ include (\S+)\n",
                         lambda m: open(os.path.join(verif, "verus", m.group(1))).read(), prelude)
    emitted = []
    for t in unit.get("types", []):
        h, body = source(t["file"]).type_item(t["name"])
        h = replace(h, t.get("replace", []) + unit.get("type_replace", []), notes)
        if body is None:
            # tuple or unit struct
            k = len(h)
            if "(" in h:
                k = h.index("(")
                end = extract.match(h, k)
                h = h[:k + 1] + fields_public(h[k + 1:end]) + h[end:]
            emitted.append((None, t.get("derive", "") + render(publish(h)) + ";"))
        else:
            body = replace(body, t.get("replace", []) + unit.get("type_replace", []), notes)
            if h[0] == "struct":
                body = fields_public(body)
            emitted.append((None, t.get("derive", "") + render(publish(h) + ["{"] + body + ["}"])))
        notes.add("derives and attributes of types dropped, fields made public")
    for a in unit.get("aliases", []):
        emitted.append((None, render(publish(source(a["file"]).alias(a["name"]))) + ";"))
    for path in unit.get("constants", []):
        for h in source(path).constants():
            emitted.append((None, "pub " + render(extract.expand_repeats(h, notes)) + ";"))
    for f in unit.get("free", []):
        fns = source(f["file"]).inner_function(*f["within"], f["name"]) if "within" in f else {h[h.index("fn") + 1]: (h, extract.strip_attributes(b))
               for h, b in [(extract.plain(h), b) for h, b in source(f["file"]).free_functions()]}
        if f["name"] not in fns:
            raise Missing("no function %s in %s" % (f["name"], f["file"]))
        emit_function(f["name"], fns[f["name"]], f, {}, unit, emitted, notes, shapes, probe)
    for im in unit.get("impls", []):
        if "macro" in im:
            found = source(im["file"]).macro_impls(*im["macro"])
        elif "anywhere" in im:
            found = source(im["file"]).anywhere(im["anywhere"])
        elif "of_trait" in im:
            found = source(im["file"]).trait(im["of_trait"])
        else:
            found = source(im["file"]).impls(im["head"])
        if len(found) < 1:
            raise Missing("no impl like %s in %s" % (im.get("head"), im["file"]))
        for index, (h, body) in enumerate(found):
            fns, others = extract.functions(body)
            head = im.get("as") or render(replace(h, im.get("replace", []) + unit.get("type_replace", []), notes))
            emitted.append((None, head + " {"))
            if im.get("prefix"):
                emitted.append((None, im["prefix"]))
            for oh, ob in others:
                if ob is None and oh and im.get("consts", True) and "const" in oh:
                    oh = extract.expand_repeats(replace(oh, unit.get("type_replace", []), notes), notes)
                    emitted.append((None, "pub " + render(oh) + ";"))
            names = list(fns)
            for name in names:
                if name in im.get("skip", []) or im.get("only") and name not in im["functions"]:
                    continue
                f = im["functions"].get(name, {"contract": "", "helper": True})
                emit_function(name, fns[name], f, im, unit, emitted, notes, shapes, probe)
            missing = [n for n in im["functions"] if n not in fns and not im["functions"][n].get("made")]
            if missing and len(found) == 1:
                raise Missing("no function %s in %s" % (missing[0], im["file"]))
            emitted.append((None, "}"))
    text = "#![feature(allocator_api)]\n#![allow(warnings)]\nuse vstd::prelude::*;\n" + unit.get("uses", "") + \
           "\nverus! {\n"
    before, _, after = prelude.partition("//@ extracted\n")
    text += before
    lines = {}
    for name, part in emitted:
        first = text.count("\n") + 1
        text += part + "\n"
        if name:
            lines[name] = (first, text.count("\n"))
    text += after + "\n}\nfn main() {}\n"
    return text, lines, notes, shapes


def emit_function(name, fn, f, im, unit, emitted, notes, shapes, probe):
    sig, body = fn
    key = f.get("key") or (im.get("label", "") + name)
    shapes[key] = extract.shape(body)
    trait = im.get("trait", False)
    sig = replace(sig, f.get("sig", []) + unit.get("sig", []), notes)
    made = []
    body = transform(body, f, unit, notes, made)
    if len(made) != len(f.get("lifted", [])):
        raise Missing("%d closures that return early, %d expected" % (len(made), len(f.get("lifted", []))))
    for l, inner in made:
        inner = transform(inner, l, unit, notes, [])
        emit_lifted(key + "::" + l["name"], l, inner, emitted, notes, probe)
    ghost = f.get("ghost", "")
    fprobe = "assert(false);\n" if probe == key or probe == "*" and not f.get("helper") else ""
    emitted.append((key, (f.get("attribute", "") + ("" if trait else "pub ") + render(extract.named_return(sig)) +
                          "\n" + f["contract"] + "\n{\n" + ghost + fprobe + render(body) + "\n}")))


def emit_lifted(key, l, inner, emitted, notes, probe):
    """a closure made a function; where its value is a match, each arm is a function too"""
    def emit(key, signature, contract, body):
        emitted.append((key, signature + "\n" + contract + "\n{\n" + l.get("ghost", "") +
                        ("assert(false);\n" if probe else "") + body + "\n}"))

    split = extract.tail_arms(inner) if "arms" in l else None
    names = [t for t in (split[0] or []) if t not in ("(", ")", ",", "mut")] if split else []
    if split and len(names) == len(l["arms"]["types"]):
        pattern, scrutinee, arms = split
        spec = render(scrutinee)
        before, body = [], ""
        for n, (p, arm) in enumerate(arms):
            name = "%s_%d__" % (l["name"], n)
            conditions = ["(" + " || ".join("%s == %s" % (spec, render(q)) for q in split_bars(p)) + ")"] \
                if p != ["_"] else ["!" + c for c in before]
            if p != ["_"]:
                before += conditions
            args = ", ".join("%s: %s" % x for x in zip(names, l["arms"]["types"]))
            requires = [c % tuple(names) for c in l["arms"]["requires"]] + conditions
            contract = "requires " + ", ".join(requires) + ",\nensures " + \
                       ", ".join(c.replace("HEADER", names[0]).replace("LENGTH", names[1])
                                 for c in l["arms"]["ensures"]) + ","
            label = render(p).replace(" ", "").split("::")[-1]
            emit("%s[%s]" % (key, label), l["arms"]["signature"] % (name, args), contract, render(arm))
            body += "%s => %s,\n" % (render(p), l["arms"]["call"] % (name, ", ".join(names)))
        notes.add("an arm of a match in tail position made a function", len(arms))
        emit(key, l["signature"], l["contract"],
             "let %s = arg__;\nmatch %s {\n%s}" % (render(pattern), spec, body))
    else:
        emit(key, l["signature"], l["contract"], render(inner))


def split_bars(pattern):
    parts = [[]]
    for t in pattern:
        if t == "|":
            parts.append([])
        else:
            parts[-1].append(t)
    return [p for p in parts if p]


def run_verus(path, timeout, rlimit):
    cmd = ["verus", path, "--output-json", "--time", "--triggers-mode", "silent", "--rlimit", str(rlimit),
           "--num-threads", "4", "--multiple-errors", "5"]

    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))

    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         cwd=os.path.dirname(path), preexec_fn=limits)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "timeout"
    try:
        return json.loads(out), err
    except ValueError:
        return None, err


def errors_of(err, lines):
    found = []
    for block in re.split(r"\n(?=error)", "\n" + err):
        block = block.strip("\n")
        m = re.match(r"error(\[E\d+\])?: (.*)", block)
        if not m or m.group(2).startswith("aborting due to"):
            continue
        where = [int(x) for x in re.findall(r"--> \S+?:(\d+):", block)] + \
                [int(x) for x in re.findall(r"^\s*(\d+) \|", block, re.M)]
        function = None
        for w in where:
            for name, (a, b) in lines.items():
                if a <= w <= b:
                    function = name
                    break
            if function:
                break
        found.append({"message": m.group(2), "function": function, "text": block[:1500],
                      "code": bool(m.group(1))})
    return found


def recorded_shapes(name, verif):
    """the loops and closures of each function when its contract was written"""
    path = os.path.join(verif, "verus", name + ".shapes.json")
    return json.load(open(path)) if os.path.exists(path) else None


def check(name, repo, verif, build):
    started = time.time()
    r = {"unit": name, "status": "undecided", "why": "", "obligations": 0, "discharged": 0, "errors": [],
         "functions": [], "trusted": [], "solver": "z3 (Verus)"}
    try:
        unit = load(name, verif)
        r["trusted"] = unit.get("trusted", [])
        folder = os.path.join(build, "verus")
        os.makedirs(folder, exist_ok=True)
        if unit.get("expanded"):
            expand(repo, build)
        text, lines, notes, shapes = generate(unit, repo, verif)
        path = os.path.join(folder, name + ".rs")
        open(path, "w").write(text)
        probe_text, probe_lines, _, _ = generate(unit, repo, verif, probe="*")
        probe_path = os.path.join(folder, name + "_probe.rs")
        open(probe_path, "w").write(probe_text)
        r["functions"] = sorted(lines)
        r["extraction"] = notes.counts
        r["shapes"] = shapes
    except Missing as e:
        r["why"] = "not extracted: %s" % e
        return r
    except (IndexError, ValueError, KeyError) as e:
        r["why"] = "not extracted: the source is of another form (%s)" % type(e).__name__
        return r
    data, err = run_verus(path, unit.get("timeout", 300), unit.get("rlimit", 30))
    found = errors_of(err, lines)
    results = (data or {}).get("verification-results") or {}
    verified, failed = results.get("verified", 0), results.get("errors", 0)
    r["obligations"], r["discharged"] = verified + failed, verified
    times = (data or {}).get("times-ms") or {}
    r["solver_seconds"] = ((times.get("smt") or {}).get("smt-run") or (times.get("smt") or {}).get("total") or 0) / 1000.0
    r["seconds"] = round(time.time() - started, 2)
    if results.get("success") and not found and verified:
        # every contracted function must be reachable under its preconditions
        pdata, perr = run_verus(probe_path, unit.get("timeout", 300), unit.get("rlimit", 30))
        reached = {e["function"] for e in errors_of(perr, probe_lines) if "assertion failed" in e["message"]}
        wanted = {n for n in lines if n not in unit.get("unprobed", [])}
        r["reachable_witnesses"] = "%d of %d" % (len(reached & wanted), len(wanted))
        helpers = set(shapes) - set(recorded_shapes(name, verif) or shapes)
        if wanted - reached - helpers:
            r["why"] = "not shown reachable: %s" % sorted(wanted - reached)
        else:
            r["status"] = "held"
        r["seconds"] = round(time.time() - started, 2)
        return r
    if data is None:
        r["why"] = "no answer from Verus: %s" % err[-500:]
        return r
    proof = [e for e in found if not e["code"] and any(p in e["message"] for p in PROVED_WRONG)]
    other = [e for e in found if e not in proof]
    r["errors"] = [{"obligation": "%s: %s" % (e["function"], e["message"]), "function": e["function"],
                    "text": e["text"]} for e in proof]
    expected = recorded_shapes(name, verif)
    if other or not proof:
        r["why"] = "not accepted by Verus: %s" % (other[0]["text"][:600] if other else err[-300:])
    elif any(e["function"] is None for e in proof):
        r["why"] = "an obligation outside the extracted functions failed"
    elif not extract.same_form(expected, shapes):
        r["why"] = "an obligation fails, and the code is no longer of the form its invariants and lemmas were written for"
    else:
        r["status"] = "failed"
    return r


if __name__ == "__main__":
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for n in [a for a in sys.argv[1:] if a != "--record"]:
        r = check(n, os.environ.get("RTPS_REPO", "/repo"), verif, os.path.join(verif, "build"))
        for e in r["errors"]:
            print(e["text"])
        r.pop("errors")
        if "--record" in sys.argv and r["status"] == "held":
            json.dump(r["shapes"], open(os.path.join(verif, "verus", n + ".shapes.json"), "w"), indent=1, sort_keys=True)
        print(json.dumps(r, indent=1))
