"""The constants of /repo's source, for the native search to draw from: integers one to a line,
arrays of octets as one line. Those the recorded tree did not have come many times over.
`python3 bin/constants.py record` writes those of /repo's tree to contracts/constants.json."""

import json
import os
import re
import sys

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "constants.json")
INT = r"0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*"
SUFFIX = r"(?:[ui](?:8|16|32|64|128|size))?"


def value(text):
    return int(text.replace("_", ""), 0 if text[:2] in ("0x", "0b", "0o") else 10)


def of(repo):
    found = set()
    for base, dirs, files in os.walk(os.path.join(repo, "src")):
        for name in files:
            if not name.endswith(".rs"):
                continue
            text = open(os.path.join(base, name), errors="replace").read().split("#[cfg(test)]")[0]
            text = re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)
            for a in re.findall(r"\[((?:\s*(?:%s)%s\s*,)+\s*(?:%s)?%s\s*)\]" % (INT, SUFFIX, INT, SUFFIX), text):
                items = tuple(value(i) for i in re.findall(r"\b(%s)%s\b" % (INT, SUFFIX), a))
                if len(items) > 1 and all(i < 256 for i in items):
                    found.add(items)
            # a key and its kind, side by side
            for a, b in re.findall(r"\[([^\[\]]*)\]\s*,\s*\w+\s*:\s*(%s)%s\b" % (INT, SUFFIX), text):
                items = [value(i) for i in re.findall(r"\b(%s)%s\b" % (INT, SUFFIX), a)] + [value(b)]
                if all(i < 256 for i in items) and ";" not in a:
                    found.add(tuple(items))
            for s in re.findall(r'b"((?:[^"\\]|\\.)*)"', text):
                found.add(tuple(s.encode("utf-8", "replace")[:64]))
            for c in re.findall(r"b'(.)'", text):
                found.add((ord(c) & 255,))
            for a, b in re.findall(r"\b(%s)%s\s*(?:as\s+\w+\s*\))?\s*<<\s*(%s)\b" % (INT, SUFFIX, INT), text):
                if value(b) < 64:
                    found.add(((value(a) << value(b)) & (2**64 - 1),))
            # a tuple's or macro's field and a float's parts are not told apart; they do no harm
            for i in re.findall(r"(?<![\w.])(%s)%s\b" % (INT, SUFFIX), text):
                if value(i) < 2**64:
                    found.add((value(i),))
    return found


def write(repo, path):
    known = {tuple(c) for c in json.load(open(FILE))} if os.path.exists(FILE) else set()
    now = of(repo)
    lines = sorted(now & known) + sorted(now - known) * (1 + len(now & known) // max(1, len(now - known)))
    text = "".join(" ".join(map(str, c)) + "\n" for c in lines if c)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


if __name__ == "__main__":
    repo = os.environ.get("RTPS_REPO", "/repo")
    if sys.argv[1:] == ["record"]:
        json.dump(sorted(of(repo)), open(FILE, "w"))
    else:
        write(repo, sys.argv[1])
