"""The names the contracts know private parts of the crate by, where the tree gives them others.

A struct's field is looked for under its recorded name, then as the one field of its type that
has a name not recorded; an enum's variant by its place; a type by the field that has it.
`python3 bin/names.py record` writes the names of /repo's tree to contracts/names.json."""

import json
import os
import re
import sys

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "names.json")


def declared(repo):
    """Each source file's structs with named fields and enums of plain variants"""
    found = {}
    for base, dirs, files in os.walk(os.path.join(repo, "src")):
        for name in sorted(files):
            if not name.endswith(".rs"):
                continue
            path = os.path.join(base, name)
            text = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(path).read(), flags=re.S)
            hooked = "cfg(rtps_verif)" in text
            types = {}
            for m in re.finditer(r"\b(struct|enum)\s+(\w+)\s*(?:<[^>{]*>)?\s*(?:where[^{]*)?\{([^{}]*)\}", text):
                body = re.sub(r"#\[[^\]]*\]", "", m.group(3))
                if m.group(1) == "struct":
                    # what no contract can see keeps its name in them
                    types[m.group(2)] = [[n, re.sub(r"\s+", "", t)] for seen, n, t in
                                         re.findall(r"(pub\b[^:]*?)?\b(\w+)\s*:(?!:)\s*((?:[^,<]|<[^>]*>)+)", body)
                                         if seen or hooked]
                else:
                    types[m.group(2)] = [[v.strip(), ""] for v in body.split(",") if re.fullmatch(r"\s*\w+\s*", v)]
            if types:
                found[os.path.relpath(path, repo)] = types
    return found


def renamed(repo):
    """Recorded name -> name in this tree, where they differ"""
    if not os.path.exists(FILE):
        return {}
    known, now, names = json.load(open(FILE)), declared(repo), {}
    for path, types in known.items():
        here = now.get(path, {})
        strange = {t for t in here if t not in types}
        for t in [t for t in types if t not in here]:
            # the type of a field that has kept its name, or one with as many parts
            alike = {n for o in types if o in here for (f, was), (g, n) in
                     ((a, b) for a in types[o] for b in here[o] if a[0] == b[0]) if was == t and n in strange}
            alike = alike or {s for s in strange if len(here[s]) == len(types[t])}
            if len(alike) == 1:
                names[t] = alike.pop()
        for t, parts in types.items():
            current = here.get(names.get(t, t))
            if current is None:
                continue
            held = {n for n, _ in current}
            fresh = [p for p in current if p[0] not in {n for n, _ in parts}]
            for at, (n, of) in enumerate(parts):
                if n in held:
                    continue
                if of:
                    fits = [p[0] for p in fresh if p[1] == names.get(of, of)]
                    if len(fits) > 1 and len(current) == len(parts) and current[at][0] in fits:
                        fits = [current[at][0]]
                else:
                    fits = [current[at][0]] if len(current) == len(parts) else []
                if len(fits) == 1 and names.get(n, fits[0]) == fits[0]:
                    names[n] = fits[0]
    return names


def apply(text, names):
    if not names:
        return text
    return re.sub(r'"[^"\n]*"|\b(?:%s)\b' % "|".join(map(re.escape, names)),
                  lambda m: names.get(m.group(0), m.group(0)), text)


if __name__ == "__main__":
    repo = os.environ.get("RTPS_REPO", "/repo")
    if sys.argv[1:] == ["record"]:
        json.dump(declared(repo), open(FILE, "w"), indent=1, sort_keys=True)
    print(renamed(repo))
