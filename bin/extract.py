"""Takes functions and types out of /repo's sources, mechanically, for Verus.

What is taken is the token sequence of the item as it stands in the file; the
transformations below are the only changes made to it, each is counted, and the
counts are reported in the evidence.
"""
import re

TOKEN = re.compile(r"""
    (?P<space>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<string>b?r?"(?:\\.|[^"\\])*"|b?'(?:\\.[^']*|[^'\\])')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<number>\d[\w]*(?:\.\d[\w]*)?)
  | (?P<ident>[A-Za-z_]\w*)
  | (?P<op>(?<=\s)(?:<<=|>>=|<<|>>)|::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.|\+=|-=|\*=|/=|%=|\^=|&=|\|=|[^\w\s])
""", re.X | re.S)
OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


class Missing(Exception):
    """The source is not of the form the extraction knows: nothing is decided."""


def tokenize(text):
    tokens, at = [], 0
    while at < len(text):
        m = TOKEN.match(text, at)
        if not m:
            raise Missing("cannot read the source at %r" % text[at:at + 20])
        if m.lastgroup != "space":
            tokens.append(m.group())
        at = m.end()
    return tokens


def render(tokens):
    out, depth, line = [], 0, []

    def flush():
        if line:
            out.append("    " * depth + " ".join(line))
            line.clear()

    for t in tokens:
        if t == "}":
            flush()
            depth = max(0, depth - 1)
            line.append(t)
        elif t == "{":
            line.append(t)
            flush()
            depth += 1
        elif t == ";":
            line.append(t)
            flush()
        elif "\n" in t:
            flush()
            out.append(t)
        else:
            line.append(t)
    flush()
    text = "\n".join(out)
    for a, b in ((" . ", "."), (" :: ", "::"), (" ;", ";"), ("( ", "("), (" )", ")"), (" ,", ",")):
        text = text.replace(a, b)
    return text


def match(tokens, at):
    """index of the bracket that closes the one at `at`"""
    want = [OPEN[tokens[at]]]
    for i in range(at + 1, len(tokens)):
        if tokens[i] in OPEN:
            want.append(OPEN[tokens[i]])
        elif tokens[i] in CLOSE:
            if tokens[i] != want.pop():
                raise Missing("unbalanced brackets")
            if not want:
                return i
    raise Missing("unbalanced brackets")


def match_back(tokens, at):
    want = [CLOSE[tokens[at]]]
    for i in range(at - 1, -1, -1):
        if tokens[i] in CLOSE:
            want.append(CLOSE[tokens[i]])
        elif tokens[i] in OPEN:
            if tokens[i] != want.pop():
                raise Missing("unbalanced brackets")
            if not want:
                return i
    raise Missing("unbalanced brackets")


def strip_attributes(tokens):
    out, i = [], 0
    while i < len(tokens):
        if tokens[i] == "#" and i + 1 < len(tokens) and tokens[i + 1] in ("[", "!"):
            j = i + 1 if tokens[i + 1] == "[" else i + 2
            i = match(tokens, j) + 1
        else:
            out.append(tokens[i])
            i += 1
    return out


def items(tokens):
    """top-level items: (kind, header tokens, body tokens or None)"""
    out, i = [], 0
    while i < len(tokens):
        start = i
        while i < len(tokens) and tokens[i] not in ("{", ";"):
            if tokens[i] in ("(", "["):
                i = match(tokens, i)
            i += 1
        if i >= len(tokens):
            break
        header = tokens[start:i]
        if tokens[i] == ";":
            out.append((header, None))
            i += 1
        else:
            end = match(tokens, i)
            first = plain(header)
            if first[:1] in (["const"], ["static"], ["type"]) and not {"fn", "trait", "impl"} & set(first[:4]):
                # const X: T = T { .. };
                while tokens[end] != ";":
                    end += 1
                    if tokens[end] in OPEN:
                        end = match(tokens, end)
                out.append((tokens[start:end], None))
            elif header and header[0] == "use" or header[:2] == ["pub", "use"]:
                while tokens[end] != ";":
                    end += 1
                out.append((tokens[start:end], None))
            else:
                out.append((header, tokens[i + 1:end]))
            i = end + 1
            if i < len(tokens) and tokens[i] == ";" and out[-1][1] is None:
                i += 1
    return out


def without_tests(text):
    """the tokens before test modules, attributes removed except cfg(test) ones"""
    tokens = tokenize(text)
    out, i = [], 0
    while i < len(tokens):
        if tokens[i] == "#" and tokens[i + 1] == "[":
            end = match(tokens, i + 1)
            attribute = tokens[i + 2:end]
            i = end + 1
            if attribute[:2] == ["cfg", "("] and ("test" in attribute or "rtps_verif" in attribute):
                while tokens[i] not in ("{", ";"):
                    i += 1
                i = (match(tokens, i) if tokens[i] == "{" else i) + 1
        elif tokens[i] == "#" and tokens[i + 1] == "!":
            i = match(tokens, i + 2) + 1
        else:
            out.append(tokens[i])
            i += 1
    return out


def plain(header):
    """header without visibility"""
    h = list(header)
    if h and h[0] == "pub":
        h = h[1:]
        if h and h[0] == "(":
            h = h[match(h, 0) + 1:]
    return h


def nested(found):
    """the items, those of inner modules among them"""
    out = []
    for header, body in found:
        if body is not None and plain(header)[:1] == ["mod"]:
            out += nested(items(body))
        else:
            out.append((header, body))
    return out


class Source:
    def __init__(self, path):
        try:
            text = open(path).read()
        except OSError:
            raise Missing("%s is not there" % path)
        self.path = path
        self.items = nested(items(without_tests(text)))

    def type_item(self, name):
        for header, body in self.items:
            h = plain(header)
            if len(h) > 1 and h[0] in ("struct", "enum") and h[1] == name:
                if body is None:
                    return h, None
                return h, strip_attributes(body)
        raise Missing("no type %s in %s" % (name, self.path))

    def impls(self, head):
        """bodies of the impls whose header, spaces apart, matches the pattern"""
        found = []
        for header, body in self.items:
            h = plain(header)
            if h[:1] == ["impl"] and body is not None and re.fullmatch(head, "".join(
                    t + " " if t[0].isalnum() or t[0] == "_" else t for t in h).replace(" ", "")):
                found.append((h, strip_attributes(body)))
        return found

    def trait(self, name):
        """the body of the trait of that name, as the only impl it is"""
        for header, body in self.items:
            h = plain(header)
            if body is not None and "trait" in h[:3] and h[h.index("trait") + 1] == name:
                return [(h, strip_attributes(body))]
        raise Missing("no trait %s in %s" % (name, self.path))

    def anywhere(self, names):
        """functions of a macro's text, by name: what an instance of it says, but for its parameters"""
        found = []
        for header, inner in self.items:
            if inner is not None and plain(header)[:2] == ["macro_rules", "!"]:
                for i, t in enumerate(inner):
                    if t == "fn" and inner[i + 1] in names and inner[i + 2] == "<":
                        j = i
                        while inner[j] != "{":
                            j = match(inner, j) + 1 if inner[j] in OPEN else j + 1
                        found += inner[i:match(inner, j) + 1]
        if not found:
            raise Missing("no functions %s in macros of %s" % (", ".join(names), self.path))
        return [([], strip_attributes(found))]

    def inner_function(self, trait, outer, name):
        """a function written inside a method of a trait"""
        fns, _ = functions(self.trait(trait)[0][1])
        if outer not in fns:
            raise Missing("no method %s in %s" % (outer, self.path))
        for h, b in items(strip_attributes(fns[outer][1])):
            h = plain(h)
            if b is not None and h[:2] == ["fn", name]:
                return {name: (h, b)}
        raise Missing("no function %s in %s" % (name, outer))

    def macro_impls(self, name, first):
        """what a macro of the form ($(($a: .., $b: ..)),*) => ($( items )*) says for the
        invocation's tuple that starts with `first`"""
        rules = body = None
        for header, inner in self.items:
            h = plain(header)
            if inner is not None and h[:3] == ["macro_rules", "!", name]:
                rules = inner
            elif inner is not None and h[-2:] == [name, "!"]:
                body = inner
        if rules is None or body is None or rules[:1] != ["("]:
            raise Missing("no macro %s in %s" % (name, self.path))
        end = match(rules, 0)
        names = [rules[i + 1] for i in range(end) if rules[i] == "$" and rules[i + 2] == ":"]
        if rules[end + 1:end + 5] != ["=>", "(", "$", "("]:
            raise Missing("a macro of unknown form")
        made = rules[end + 5:match(rules, end + 4)]
        values = None
        i = 0
        while i < len(body):
            if body[i] == "(":
                j = match(body, i)
                parts = split_params(body[i + 1:j])
                if parts[:1] == [[first]] and len(parts) == len(names):
                    values = dict(zip(names, parts))
                i = j
            i += 1
        if values is None:
            raise Missing("the macro %s is not used for %s" % (name, first))
        out, i = [], 0
        while i < len(made):
            if made[i] == "$":
                if made[i + 1] not in values:
                    raise Missing("a macro of unknown form")
                out += values[made[i + 1]]
                i += 2
            else:
                out.append(made[i])
                i += 1
        return [(plain(h), b) for h, b in items(strip_attributes(out)) if b is not None]

    def alias(self, name):
        for header, body in self.items:
            h = plain(header)
            if h[:2] == ["type", name] and body is None:
                return h
        raise Missing("no type %s in %s" % (name, self.path))

    def constants(self):
        """the file's own constants"""
        return [plain(h) for h, b in self.items if plain(h)[:1] == ["const"] and b is None]

    def free_functions(self):
        return [(h, b) for h, b in self.items if "fn" in plain(h)[:2] and b is not None]


def functions(body):
    """of an impl body: {name: (signature tokens, body tokens)}, other items apart"""
    fns, others = {}, []
    for header, inner in items(body):
        h = plain(header)
        if inner is not None and "fn" in h[:3]:
            fns[h[h.index("fn") + 1]] = (h, inner)
        else:
            others.append((h, inner))
    return fns, others


# ---------------------------------------------------------------- transformations

def start_of_postfix(tokens, dot):
    """start of the expression that the method call at `dot` is made on"""
    i = dot - 1
    while True:
        t = tokens[i]
        if t == "?":
            i -= 1
            continue
        if t in (")", "]"):
            i = match_back(tokens, i) - 1
            t = tokens[i]
            if t == ">":
                i = angle_back(tokens, i) - 1
                if tokens[i] != "::":
                    raise Missing("an expression of unknown form")
                i -= 1
                t = tokens[i]
            if not re.match(r"[A-Za-z_]\w*$", t) or t in KEYWORDS:
                return i + 1
        if t == "}":
            return match_back(tokens, i)
        if re.match(r"\w", t) or t[0] in "\"'":
            if tokens[i - 1] in (".",):
                i -= 2
                continue
            while tokens[i - 1] == "::":
                i -= 2
                if tokens[i] == ">":
                    i = angle_back(tokens, i)
                    if tokens[i - 1] != "::":
                        return i
            if tokens[i - 1] == ".":
                i -= 2
                continue
            return i
        raise Missing("an expression of unknown form")


KEYWORDS = {"match", "if", "while", "return", "in", "let", "else", "for", "loop", "break", "move", "mut", "ref"}


def angle_back(tokens, at):
    depth = 0
    for i in range(at, -1, -1):
        if tokens[i] == ">":
            depth += 1
        elif tokens[i] == "<":
            depth -= 1
            if depth == 0:
                return i
    raise Missing("unbalanced angle brackets")


def closure_at(tokens, i):
    """(parameter tokens, body tokens, end) of the closure literal starting at i"""
    if tokens[i] == "move":
        i += 1
    if tokens[i] == "||":
        params, j = [], i + 1
    elif tokens[i] == "|":
        j = i + 1
        while tokens[j] != "|":
            if tokens[j] in OPEN:
                j = match(tokens, j)
            j += 1
        params = tokens[i + 1:j]
        j += 1
    else:
        return None
    if tokens[j] == "->":
        while tokens[j] != "{":
            j += 1
    end = j
    while end < len(tokens) and tokens[end] not in (",", ")", ";", "]", "}"):
        if tokens[end] in OPEN:
            end = match(tokens, end)
        end += 1
    return params, tokens[j:end], end


def split_params(params):
    out, current, depth = [], [], 0
    for t in params:
        if t in OPEN or t == "<":
            depth += 1
        elif t in CLOSE or t == ">":
            depth -= 1
        if t == "," and depth == 0:
            out.append(current)
            current = []
        else:
            current.append(t)
    if current:
        out.append(current)
    return out


class Notes:
    def __init__(self):
        self.counts = {}

    def add(self, what, n=1):
        if n:
            self.counts[what] = self.counts.get(what, 0) + n


def inline_closures(tokens, method, form, notes):
    """E.method(|p| B)  ->  match E { ... }, for closures without `?` and `return`"""
    i = 0
    while i < len(tokens):
        if tokens[i] == "." and tokens[i + 1:i + 3] == [method, "("]:
            c = closure_at(tokens, i + 3)
            if c is None:
                i += 1
                continue
            params, body, end = c
            if tokens[end] == ",":
                end += 1
            if tokens[end] != ")":
                raise Missing("a call of %s of unknown form" % method)
            if "?" in body or "return" in body:
                raise Missing("a closure that returns early")
            start = start_of_postfix(tokens, i)
            receiver = tokens[start:i]
            name, typed = params, []
            if len(params) == 2 and params[0] == "&":
                name, typed = params[1:], ["let", params[1], "=", "*", params[1], ";"]
            if ":" in params:
                k = params.index(":")
                name = params[:k]
                if len(name) == 1:
                    typed = ["let"] + name + [":"] + params[k + 1:] + ["=", name[0], ";"]
            text = form % {"e": " \x00e ", "p": " \x00p ", "b": " \x00b "}
            new = []
            for t in text.split():
                if t == "\x00e":
                    new += receiver
                elif t == "\x00p":
                    new += name
                elif t == "\x00b":
                    new += typed + body
                else:
                    new += tokenize(t)
            tokens = tokens[:start] + ["("] + new + [")"] + tokens[end + 1:]
            notes.add("%s with a closure literal written as a match" % method)
            i = start
        else:
            i += 1
    return tokens


OPTION_AND_THEN = "match %(e)s { Some( %(p)s ) => { %(b)s } None => None , }"
OPTION_MAP = "match %(e)s { Some( %(p)s ) => Some( { %(b)s } ) , None => None , }"
RESULT_AND_THEN = "match %(e)s { Ok( %(p)s ) => { %(b)s } Err( error__ ) => Err( error__ ) , }"
RESULT_OR_ELSE = "match %(e)s { Ok( value__ ) => Ok( value__ ) , Err( %(p)s ) => { %(b)s } }"


def annotate_closures(tokens, types, notes):
    """Closure literals given to iterator methods get the postcondition that their
    result is what their body says; x.cmp(y) in them is the order of the keys."""
    i = 0
    while i < len(tokens):
        if tokens[i] == "." and i + 2 < len(tokens) and tokens[i + 1] in types and tokens[i + 2] == "(":
            c = closure_at(tokens, i + 3)
            if c is not None:
                params, body, end = c
                if "?" in body or "return" in body:
                    raise Missing("a closure that returns early")
                inner = body
                while inner and inner[0] == "{" and match(inner, 0) == len(inner) - 1:
                    inner = inner[1:-1]
                if ";" in inner or "{" in inner:
                    raise Missing("a closure with statements")
                spec = spec_of(inner)
                new = ["|"] + params + ["|", "->", "("] + tokenize("o__: " + types[tokens[i + 1]]) + [")", "ensures",
                       "o__", "==", "("] + spec + [")", "{"] + inner + ["}"]
                tokens = tokens[:i + 3] + new + tokens[end:]
                notes.add("closure literals given their own body as postcondition")
                i += 3 + len(new)
                continue
        i += 1
    return tokens


def spec_of(body):
    if "cmp" in body:
        k = body.index("cmp")
        if body[k - 1] != "." or body[k + 1] != "(" or match(body, k + 1) != len(body) - 1:
            raise Missing("a comparison of unknown form")
        return ["order__", "(", "("] + body[:k - 1] + [")", ".", "key__", "(", ")", ",", "("] + body[k + 2:-1] + \
               [")", ".", "key__", "(", ")", ")"]
    return body


def rename_methods(tokens, renames, notes):
    out = []
    for i, t in enumerate(tokens):
        if i and tokens[i - 1] == "." and t in renames and tokens[i + 1] == "(":
            notes.add("calls of .%s() go to the specified model of the standard iterators" % t)
            out.append(renames[t])
        else:
            out.append(t)
    return out


def drop_unsafe(tokens, notes):
    notes.add("`unsafe` dropped: the memory operations in it are checked against the model's contracts",
              tokens.count("unsafe"))
    return [t for t in tokens if t != "unsafe"]


def drop_inner_function(name):
    """the function is taken apart, with a contract of its own"""
    def hook(tokens, notes):
        i = [k for k in range(len(tokens) - 1) if tokens[k:k + 2] == ["fn", name]]
        if len(i) != 1:
            raise Missing("no inner function " + name)
        j = i[0]
        while tokens[j] != "{":
            j += 1
        notes.add("an inner function taken apart, with a contract of its own")
        return tokens[:i[0]] + tokens[match(tokens, j) + 1:]
    return hook


def closure_returned(parameters, outcome):
    """a function that is one closure: its parameters' types and what it ensures written down"""
    def hook(tokens, notes):
        if tokens[:2] != ["move", "|"]:
            raise Missing("not a closure")
        end = tokens.index("|", 2)
        if "".join(tokens[2:end]) != re.sub(r":[^,]*", "", parameters).replace(" ", ""):
            raise Missing("a closure of other parameters")
        notes.add("the closure returned gets a contract")
        return ["move |%s| -> (o__: %s) {" % (parameters, outcome)] + tokens[end + 1:] + ["}"]
    return hook


def drop_inner_use(tokens, notes):
    out, i = [], 0
    while i < len(tokens):
        if tokens[i] == "use" and (i == 0 or tokens[i - 1] in ("{", "}", ";")):
            while tokens[i] != ";":
                i += 1
            i += 1
            notes.add("inner use declarations dropped")
        else:
            out.append(tokens[i])
            i += 1
    return out


def number_loops(tokens, invariants, notes, proofs=()):
    """inserts the invariants of the n-th loop before its body"""
    out, i, n = [], 0, 0
    while i < len(tokens):
        t = tokens[i]
        if t in ("for", "while", "loop") and not (t == "for" and tokens[i + 1] == "<"):
            j = i + 1
            while tokens[j] != "{":
                if tokens[j] in ("(", "["):
                    j = match(tokens, j)
                j += 1
            head = tokens[i:j]
            if t == "for" and head[1] == "_":
                head[1] = "i__"
                notes.add("the unnamed variable of a for loop named")
            if t == "for" and n < len(invariants) and re.search(r"\bit__\b", invariants[n]) and "in" in head:
                k = head.index("in")
                head = head[:k + 1] + ["it__", ":"] + head[k + 1:]
            if n < len(invariants):
                head.append("\n" + invariants[n] + "\n")
            elif invariants is not None:
                raise Missing("a loop without an invariant")
            out += head
            i = j
            out.append(tokens[i])
            if n < len(proofs) and proofs[n]:
                out.append("\n" + proofs[n] + "\n")
            n += 1
            i += 1
        else:
            out.append(t)
            i += 1
    if n != len(invariants):
        raise Missing("%d loops, %d expected" % (n, len(invariants)))
    return out


CONTROL = ("for", "while", "loop", "if", "else", "match", "return", "break", "continue", "?")


# said precisely by vstd, whatever they are applied to
PRECISE = {"Some", "Ok", "Err", ".is_some", ".is_none", ".is_ok", ".is_err", ".unwrap", ".len", ".is_empty",
           "u16::from", "u32::from", "u64::from", "u128::from", "usize::from",
           ".wrapping_add", ".wrapping_sub", ".checked_add", ".checked_sub"}


def means(tokens):
    """What a function computes with that a proof may know too little of: the functions and
    macros it names, the operators that Verus reasons about only with help (and what they are
    applied to where it is a literal), the methods that are given a closure"""
    calls, operators = set(), set()
    for i, t in enumerate(tokens):
        before = tokens[i - 1] if i else ""
        after = tokens[i + 1] if i + 1 < len(tokens) else ""
        if re.match(r"[A-Za-z_]", t):
            if after in ("(", "!") and t not in CONTROL + ("in", "move", "let", "as", "mut", "ref") or \
                    after == "::" and tokens[i + 2:i + 3] == ["<"]:
                owner = tokens[i - 2] + "::" if before == "::" and i > 1 else "." if before == "." else ""
                calls.add(owner + t)
                if before == "." and tokens[i + 2:i + 3] in (["|"], ["||"], ["move"]):
                    operators.add("." + t + " of a closure")
        elif re.match(r"(?:[*/%^&|]|<<|>>)=?$", t):
            if t != "|" and re.match(r"[\w)\]]", before) or t.endswith("=") or t in ("<<", ">>"):
                operators.add(t.rstrip("="))
    if any(not o.startswith(".") for o in operators):
        operators |= {t.replace("_", "") for t in tokens if re.match(r"\d", t)} - {"0", "1"}
    return [sorted(calls), sorted(operators)]


def same_form(expected, found):
    """Whether what was proved of the recorded functions says something about these: the same
    loops and closures, and nothing computed with that has no part in the recorded proofs"""
    if expected is None:
        return True
    if set(expected) != set(found) or any(expected[f][:3] != found[f][:3] for f in expected):
        return False
    known = {c for f in expected for c in expected[f][3][0]} | PRECISE
    return all(set(found[f][3][0]) <= known and set(found[f][3][1]) <= set(expected[f][3][1]) for f in expected)


def shape(tokens):
    """[loops, closures, for a function with a loop the control words it is made of in their
    order, its means]: an invariant is written for one arrangement of the control words, and
    says nothing about another one that computes the same. Names of values, arithmetic,
    comparisons and constants are not part of it."""
    loops, closures, words = 0, 0, []
    for i, t in enumerate(tokens):
        before = tokens[i - 1] if i else ""
        if t in ("for", "while", "loop") and tokens[i + 1] != "<":
            loops += 1
        if t in ("||", "|") and before in ("(", ",", "=", "move"):
            closures += 1
        if t in CONTROL and not (t == "for" and tokens[i + 1] == "<"):
            words.append(t)
            if t in ("if", "while") and tokens[i + 1] == "let":
                words.append("let")
        elif t == "=>":
            words.append(t)
    return [loops, closures, " ".join(words) if loops else "", means(tokens)]


def named_return(sig):
    """fn f(..) -> T  =>  fn f(..) -> (r: T); where clauses stay"""
    if "->" not in sig:
        return sig
    # the arrow after the parameter list
    k, depth = sig.index("fn"), 0
    while sig[k] != "(" or depth:
        depth += {"<": 1, ">": -1, ">>": -2}.get(sig[k], 0)
        k += 1
    k = match(sig, k) + 1
    if k >= len(sig) or sig[k] != "->":
        return sig
    end = sig.index("where", k) if "where" in sig[k:] else len(sig)
    return sig[:k] + ["->", "(", "r", ":"] + sig[k + 1:end] + [")"] + sig[end:]


RESULT_MAP = "match %(e)s { Ok( %(p)s ) => Ok( { %(b)s } ) , Err( error__ ) => Err( error__ ) , }"
RESULT_MAP_ERR = "match %(e)s { Ok( value__ ) => Ok( value__ ) , Err( %(p)s ) => Err( { %(b)s } ) , }"


def closure_variables(tokens, notes):
    """let f = |p| B; ... X.m(f) ...  ->  X.m(|p| B), for closures named once and used once"""
    i = 0
    while i + 3 < len(tokens):
        if tokens[i] == "let" and tokens[i + 2] == "=" and tokens[i + 3] in ("|", "||", "move"):
            name = tokens[i + 1]
            params, body, end = closure_at(tokens, i + 3)
            literal = tokens[i + 3:end]
            if tokens[end] != ";":
                raise Missing("a closure of unknown form")
            rest = tokens[end + 1:]
            uses = [k for k, t in enumerate(rest) if t == name]
            if len(uses) != 1 or rest[uses[0] - 1] != "(" or rest[uses[0] + 1] != ")":
                raise Missing("a named closure used otherwise than once as an argument")
            k = uses[0]
            tokens = tokens[:i] + rest[:k] + literal + rest[k + 1:]
            notes.add("a named closure put where it is used")
        else:
            i += 1
    return tokens


def lift_or_inline(tokens, forms, lifted, notes, made):
    """E.method(|p| B): written as a match; a closure that can return early becomes a
    function of its own (lifted: list of {signature, call, contract}, in order)"""
    i = 0
    while i < len(tokens):
        if tokens[i] == "." and tokens[i + 1] in forms and tokens[i + 2] == "(":
            c = closure_at(tokens, i + 3)
            if c is None:
                raise Missing("%s of something other than a closure" % tokens[i + 1])
            params, body, end = c
            if tokens[end] == ",":
                end += 1
            if tokens[end] != ")":
                raise Missing("a call of unknown form")
            start = start_of_postfix(tokens, i)
            receiver = tokens[start:i]
            if "?" in body or "return" in body:
                if len(made) >= len(lifted):
                    raise Missing("a closure that returns early, not foreseen")
                l = lifted[len(made)]
                pattern = params[:params.index(":")] if ":" in params and params[0] != "(" else params
                made.append((l, ["let"] + pattern + ["=", "arg__", ";"] + body))
                name, typed, inner = ["arg__"], [], tokenize(l["call"])
                notes.add("a closure literal that can return early made a function of its captures")
            else:
                name, typed, inner = params, [], body
                if ":" in params and params[0] != "(":
                    k = params.index(":")
                    name = params[:k]
                    typed = ["let"] + name + [":"] + params[k + 1:] + ["=", name[0], ";"]
                notes.add("a combinator with a closure literal written as a match")
            new = []
            for t in (forms[tokens[i + 1]] % {"e": " \x00e ", "p": " \x00p ", "b": " \x00b "}).split():
                if t == "\x00e":
                    new += receiver
                elif t == "\x00p":
                    new += name
                elif t == "\x00b":
                    new += typed + inner
                else:
                    new += tokenize(t)
            tokens = tokens[:start] + ["("] + new + [")"] + tokens[end + 1:]
            i = start
        else:
            i += 1
    return tokens


def slices(tokens, notes):
    """&x[..n]  ->  x.slice_to__(n)"""
    i = 0
    while i + 3 < len(tokens):
        if tokens[i] == "&" and re.match(r"[A-Za-z_]\w*$", tokens[i + 1]) and tokens[i + 2] == "[" \
                and tokens[i + 3] == "..":
            end = match(tokens, i + 2)
            tokens = tokens[:i] + [tokens[i + 1], ".", "slice_to__", "("] + tokens[i + 4:end] + [")"] + tokens[end + 1:]
            notes.add("&x[..n] is a call of the model of the buffer")
        i += 1
    return tokens


def drop_macro(name):
    def hook(tokens, notes):
        out, i = [], 0
        while i < len(tokens):
            if tokens[i:i + 3] == [name, "!", "("]:
                i = match(tokens, i + 2) + 1
                if i < len(tokens) and tokens[i] == ";":
                    i += 1
                notes.add("%s! dropped" % name)
            else:
                out.append(tokens[i])
                i += 1
        return out
    return hook


def without_arguments(path):
    """path(..) -> path(): what an error says is no part of any contract"""
    p = tokenize(path)

    def hook(tokens, notes):
        out, i = [], 0
        while i < len(tokens):
            if tokens[i:i + len(p)] == p and tokens[i + len(p)] == "(":
                out += p + ["(", ")"]
                i = match(tokens, i + len(p)) + 1
                notes.add("the text of an error dropped")
            else:
                out.append(tokens[i])
                i += 1
        return out
    return hook


def assertions(tokens, notes):
    """assert!(c, ..) -> assert__(c): a function that requires c"""
    out, i = [], 0
    while i < len(tokens):
        if tokens[i:i + 3] == ["assert", "!", "("]:
            end = match(tokens, i + 2)
            condition = split_params(tokens[i + 3:end])[0]
            if "<" in condition or ">" in condition:
                condition, j = [], i + 3
                while j < end and tokens[j] != ",":
                    k = match(tokens, j) + 1 if tokens[j] in OPEN else j + 1
                    condition += tokens[j:k]
                    j = k
            out += ["assert__", "("] + condition + [")"]
            notes.add("assert!(c, ..) is a call that requires c")
            i = end + 1
        else:
            out.append(tokens[i])
            i += 1
    return out


def debug_assertions(tokens, notes):
    """debug_assert!(c) -> assert__(c)"""
    out = assertions(["assert" if t == "debug_assert" else t for t in tokens], notes)
    return out


def expand_repeats(tokens, notes):
    """[x; n]  ->  [x, .., x] in a constant"""
    out, i = [], 0
    while i < len(tokens):
        if tokens[i] == "[" and re.match(r"\d", tokens[i + 1]) and tokens[i + 2:i + 3] == [";"] \
                and re.match(r"\d+$", tokens[i + 3]) and tokens[i + 4] == "]":
            out += ["["] + ([tokens[i + 1], ","] * int(tokens[i + 3]))[:-1] + ["]"]
            notes.add("an array [x; n] written out")
            i += 5
        else:
            out.append(tokens[i])
            i += 1
    return out


def small_vecs(tokens, notes):
    """vec![x] and vec![] become calls of functions with that contract"""
    out, i = [], 0
    while i < len(tokens):
        if tokens[i:i + 3] == ["vec", "!", "["]:
            end = match(tokens, i + 2)
            inside, depth, single = tokens[i + 3:end], 0, True
            for t in inside:
                depth += t in OPEN
                depth -= t in CLOSE
                single = single and not (depth == 0 and t in (",", ";"))
            if single:
                out += ["one__" if inside else "none__", "("] + small_vecs(inside, notes) + [")"]
                notes.add("vec![x] is a call of the function one__")
                i = end + 1
                continue
        out.append(tokens[i])
        i += 1
    return out


def tail_arms(tokens):
    """tokens: [let pattern = arg__ ;] match scrutinee { arms }
    -> (pattern or None, scrutinee, [(pattern, body)]) or None where it is of another form"""
    pattern, i = None, 0
    if tokens[:1] == ["let"] and "=" in tokens:
        e = tokens.index("=")
        if tokens[e + 1:e + 3] != ["arg__", ";"]:
            return None
        pattern, i = tokens[1:e], e + 3
    while i < len(tokens) and tokens[i] == "{" and match(tokens, i) == len(tokens) - 1:
        tokens, i = tokens[i + 1:-1], 0
    if tokens[i:i + 1] != ["match"]:
        return None
    k = i + 1
    while k < len(tokens) and tokens[k] != "{":
        k = match(tokens, k) + 1 if tokens[k] in OPEN else k + 1
    if k >= len(tokens) or match(tokens, k) != len(tokens) - 1:
        return None
    scrutinee, inside, arms, j = tokens[i + 1:k], tokens[k + 1:-1], [], 0
    while j < len(inside):
        a = j
        while inside[j] != "=>":
            j = match(inside, j) + 1 if inside[j] in OPEN else j + 1
        p = inside[a:j]
        if "if" in p or "(" in p or "{" in p or "@" in p:
            return None
        j += 1
        if inside[j] == "{":
            end = match(inside, j)
            arms.append((p, inside[j:end + 1]))
            j = end + 1
        else:
            a = j
            while j < len(inside) and inside[j] != ",":
                j = match(inside, j) + 1 if inside[j] in OPEN else j + 1
            arms.append((p, inside[a:j]))
        if j < len(inside) and inside[j] == ",":
            j += 1
    return pattern, scrutinee, arms
