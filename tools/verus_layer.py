"""Contract layer, part two: Verus on functions extracted mechanically from /repo's current source.

A piece /verif/verus/<name>.rs is a Verus file with holes. Plain lines pass through (specification
functions, lemmas, contracts assumed of dependencies); directives pull in real code:

    //@ include FILE [noprops]             the lines of another file in this directory (where its properties are claimed elsewhere)
    //@ source src/cursor.rs
    //@ rewrite REGEX => REPLACEMENT        applied to all extracted text of the piece (listed as dropped/renamed)
    //@ macro NAME => REPLACEMENT           the same for whole macro calls; {} stands for the first argument
    //@ type NAME                           copies the struct or enum
    //@ impl HEADER [=> NEW HEADER]         copies the functions of that impl or trait block ...
    //@ skip fn NAME ...                    ... except these
    //@ only                                ... or only those named (a call to any other then fails to resolve: undecided)
    //@ fn NAME [-> r] props=C07,C06        contract of one of them: the lines that follow go between
    //@ body                                  signature and body; these go to the start of the body;
    //@ loop                                  these go to its next loop's header, in source order
    //@ closure                               these to its next closure's, whose result is called r
    //@ nested NAME [-> r] props=C07         contract of a function declared inside one of them; it is moved out, behind the block
    //@ end
    //@ free NAME [-> r] props=C03          a free function, with the same sub-directives, up to //@ end

Extraction takes the text between the braces as it stands; it removes comments and attributes, and
moves functions of a trait impl into an inherent impl where the header says so, and spells
`break value` as an assignment and a break (of a labelled block, as a loop run once),
`.unwrap_or_else(|| e)` and `x.map(|v| e)` of an Option as a match, `mut self` as a variable
`self_`. Functions that the
source block has and the piece does not name are copied too, without a contract: that keeps the text
the code that runs, and a failure is then reported undecided, because the annotations are what is
missing. So are text that Verus does not accept, and loops the piece has no invariant for.
"""
import glob, json, os, re, subprocess, time

VDIR = "/verif/verus"
REPO = "/repo"

class Shape(Exception):
    pass

def strip(src):
    """Removes comments and replaces the contents of string and char literals by same-length filler in
    a shadow copy. Returns (text, shadow): equal length, shadow is safe to count braces in."""
    t, s, i, n = [], [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
        elif src.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if src.startswith("/*", i): d += 1; i += 2
                elif src.startswith("*/", i): d -= 1; i += 2
                else: i += 1
        elif c == '"':
            j = i + 1
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            t.append(src[i:j + 1]); s.append('"' + "_" * (j - i - 1) + '"')
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:])
            if m:
                t.append(m.group(0)); s.append("'" + "_" * (len(m.group(0)) - 2) + "'")
                i += len(m.group(0))
            else:
                t.append(c); s.append(c); i += 1
        else:
            t.append(c); s.append(c); i += 1
    return "".join(t), "".join(s)

def match(s, i):
    """Index just past the bracket that closes the one at i."""
    pair = {"(": ")", "[": "]", "{": "}"}
    st = []
    while i < len(s):
        c = s[i]
        if c in pair: st.append(pair[c])
        elif st and c == st[-1]:
            st.pop()
            if not st: return i + 1
        i += 1
    raise Shape("unbalanced brackets")

def no_attrs(t, s):
    """Drops attributes; an item under #[cfg(test)] or #[cfg(kani)] is the caller's to avoid."""
    while True:
        m = re.search(r"#!?\[", s)
        if not m: return t, s
        e = match(s, m.end() - 1)
        t, s = t[:m.start()] + t[e:], s[:m.start()] + s[e:]

def squash(x):
    return re.sub(r"\s+", "", x)

class Source:
    def __init__(self, path):
        self.t, self.s = strip(open(f"{REPO}/{path}").read())
        assert len(self.t) == len(self.s)
        # without test-only items
        while True:
            m = re.search(r"#\[cfg\((test|kani)\)\]", self.s)
            if not m: break
            j = m.end()
            b, semi = self.s.find("{", j), self.s.find(";", j)
            e = match(self.s, b) if b >= 0 and (semi < 0 or b < semi) else semi + 1
            self.t, self.s = self.t[:m.start()] + self.t[e:], self.s[:m.start()] + self.s[e:]
        self.t, self.s = no_attrs(self.t, self.s)
    def block(self, header, having=()):
        """Where the braces of the block with this header (impl or trait) are: the first that has these functions."""
        want, found = squash(header), None
        for m in re.finditer(r"(?:\b(?:pub|unsafe)\b(?:\([^)]*\))?\s*)*\b(?:impl|trait)\b[^{;]*\{", self.s):
            if squash(m.group(0)[:-1]) == want:
                e = match(self.s, m.end() - 1)
                found = found or (m.end(), e - 1)
                if all(f in self.fns(m.end(), e - 1) for f in having): return m.end(), e - 1
        if not found: raise Shape(f"no block `{header}`")
        return found
    def typ(self, name):
        m = re.search(r"(?:pub(?:\([^)]*\))?\s+)?\btype\s+" + name + r"\b", self.s)
        if m: return self.t[m.start():self.s.index(";", m.start()) + 1]
        m = re.search(r"(?:pub(?:\([^)]*\))?\s+)?\b(?:struct|enum)\s+" + name + r"\b", self.s)
        if not m: raise Shape(f"no type {name}")
        i = m.end()
        while self.s[i] not in "{(;": i += 1
        e = i + 1 if self.s[i] == ";" else match(self.s, i)
        if self.s[i] == "(": e = self.s.index(";", e) + 1
        return self.t[m.start():e]
    def fns(self, lo, hi):
        """Functions directly between lo and hi: name -> (signature, body)."""
        out, i = {}, lo
        pat = re.compile(r"(?:\b(?:pub|const|unsafe|default)\b(?:\([^)]*\))?\s+)*\bfn\s+(\w+)")
        while i < hi:
            c = self.s[i]
            m = pat.match(self.s, i) if (c.isalpha() and not (self.s[i - 1].isalnum() or self.s[i - 1] == "_")) else None
            if m:
                j = m.end()
                while self.s[j] != "(":
                    j += 1
                j = match(self.s, j)
                while self.s[j] not in "{;": j += 1
                if self.s[j] == ";":
                    out[m.group(1)] = (self.t[i:j], None)
                    i = j + 1
                else:
                    e = match(self.s, j)
                    out[m.group(1)] = (self.t[i:j], self.t[j:e])
                    i = e
            elif c in "{([":
                i = match(self.s, i)
            else:
                i += 1
        return out

def hoist(body):
    """A body without the functions declared in it, and those."""
    out = {}
    while True:
        sh = strip(body)[1]
        m = re.search(r"\bfn\s+(\w+)\s*[<(]", sh)
        if not m: return body, out
        j = m.end() - 1
        while sh[j] != "(": j += 1
        j = match(sh, j)
        while sh[j] != "{": j += 1
        e = match(sh, j)
        out[m.group(1)] = (body[m.start():j], body[j:e])
        body = body[:m.start()] + body[e:]

def plain_breaks(body):
    """`let x = loop { .. break v, .. };` as `let x; loop { .. { x = v; break } .. }`, which says the same."""
    pos = 0
    while True:
        sh = strip(body)[1]
        m = re.compile(r"\blet\s+((?:mut\s+)?(\w+))\s*(:[^=;]*)?=\s*loop\s*\{").search(sh, pos)
        if not m: return body
        pos = m.end()
        e = match(sh, m.end() - 1)
        if not sh[e:].lstrip().startswith(";"): continue
        inner, ish = body[m.end():e - 1], sh[m.end():e - 1]
        own = list(ish)
        for n in re.finditer(r"\b(?:loop|while|for)\b(?!\s*<)", ish):   # another loop's breaks
            k = n.end()
            while ish[k] != "{": k = match(ish, k) if ish[k] in "([" else k + 1
            for q in range(k, match(ish, k)): own[q] = " "
        own = "".join(own)
        for n in reversed(list(re.finditer(r"\bbreak\b(?=\s*[^\s;,}])", own))):
            k = n.end()
            while k < len(ish) and ish[k] not in ",;}": k = match(ish, k) if ish[k] in "([{" else k + 1
            inner = inner[:n.start()] + "{ " + m.group(2) + " =" + inner[n.end():k] + "; break }" + inner[k:]
        head = f"let {m.group(1)}{m.group(3) or ''}; loop {{"
        body = body[:m.start()] + head + inner + body[e - 1:]
        pos = m.start() + len(head)

def plain(body): return map_option(lazy_or(labelled(plain_breaks(body))))

def labelled(body):
    """`let P = 'x: { B };`, left with `break 'x v`, as `let x; loop { B }; let P = x;` with `{ x = v; break }`. B must not end
    without leaving, nor contain a loop (it is kept as it is otherwise, which Verus does not accept)."""
    sh = strip(body)[1]
    m = re.search(r"\blet\s+([^=;]*?)\s*=\s*'(\w+)\s*:\s*\{", sh)
    if not m: return body
    e = match(sh, m.end() - 1)
    inner, ish = body[m.end():e - 1], sh[m.end():e - 1]
    if re.search(r"\b(?:loop|while|for)\b(?!\s*<)", ish) or not sh[e:].lstrip().startswith(";"): return body
    for n in reversed(list(re.finditer(r"\bbreak\s+'" + m.group(2) + r"\b", ish))):
        k = n.end()
        while k < len(ish) and ish[k] not in ",;}": k = match(ish, k) if ish[k] in "([{" else k + 1
        inner = inner[:n.start()] + "{ " + m.group(2) + " =" + inner[n.end():k] + "; break }" + inner[k:]
    return body[:m.start()] + f"let {m.group(2)}; loop {{" + inner + "} let " + body[m.start(1):m.end(1)] + f" = {m.group(2)}" + body[e:]

def map_option(body):
    """`x.map(|v| e)` of a plain path x as `(match x { Some(v) => Some(e), None => None })`, which is what it does for an Option."""
    sh = strip(body)[1]
    for m in reversed(list(re.finditer(r"(?<![\w.)])([\w.]+)\.map\(\s*\|(\w+)\|", sh))):
        e = match(sh, sh.index("(", m.start()))
        if "return" in sh[m.end():e] or "?" in sh[m.end():e]: continue
        body = body[:m.start()] + f"(match {m.group(1)} {{ Some({m.group(2)}) => Some({body[m.end():e - 1]}), None => None }})" + body[e:]
    return body

def lazy_or(body):
    """`x.unwrap_or_else(|| e)` as `(match x { Some(v) => v, None => e })`, which is what it does for an Option."""
    while True:
        sh = strip(body)[1]
        m = None
        for m in re.finditer(r"\s*\.unwrap_or_else\(\s*\|\|", sh): pass
        if not m: return body
        e = match(sh, sh.index("(", m.start()))
        i = m.start()
        while True:
            while sh[i - 1].isspace(): i -= 1
            while sh[i - 1] in ")]?":
                if sh[i - 1] == "?": i -= 1; continue
                d, i = 1, i - 1
                while d:
                    i -= 1
                    d += (sh[i] in ")]") - (sh[i] in "([")
            k = i
            while sh[k - 1].isalnum() or sh[k - 1] == "_": k -= 1
            i = k
            while sh[k - 1].isspace(): k -= 1
            if sh[k - 1] == ".": i = k - 1
            elif sh[k - 2:k] == "::": i = k - 2
            else: break
        body = body[:i] + "(match " + body[i:m.start()] + " { Some(v_) => v_, None => " + body[m.end():e - 1] + " })" + body[e:]

def template(file):
    """Lines of a piece, with its includes."""
    out = []
    for l in open(f"{VDIR}/{file}").read().split("\n"):
        m = re.match(r"//@ include (\S+)( noprops)?$", l)
        inc = template(m.group(1)) if m else [l]
        out += [re.sub(r" props=\S+", "", x) if m and m.group(2) and x.startswith("//@") else x for x in inc]
    return out

class Spec:
    def __init__(self):
        self.ret, self.props, self.sig, self.body, self.loops, self.pre, self.closures = None, [], [], [], [], [], []

def render(name, fn, spec):
    """One function with its contract woven in. -> (text, complete)"""
    sig, body = fn
    full = True
    if spec is None:
        return f"{sig.strip()} {body if body is not None else ';'}\n", False
    if spec.ret:
        sh = strip(sig)[1]
        j = sh.index("(", re.search(r"\bfn\s+\w+", sh).end())
        j = match(sh, j)
        m = re.match(r"\s*->\s*", sh[j:])
        if m:
            k = j + m.end()
            w = re.search(r"\bwhere\b", sh[k:])
            e = k + w.start() if w else len(sh)
            sig = sig[:j] + f" -> ({spec.ret}: {sig[k:e].strip()}) " + sig[e:]
        else:
            full = False
    sig = sig.rstrip()
    if spec.sig and re.search(r"\bwhere\b", sig) and not sig.endswith(","):
        sig += ","
    clauses = "\n".join(spec.sig)
    if body is None:
        return f"{sig}\n{clauses};\n", full
    m = re.search(r"\(\s*mut\s+self\b", strip(sig)[1])
    if m:
        # `mut self` as a variable of its own
        sig = sig[:m.start()] + "(self" + sig[m.end():]
        for m in reversed(list(re.finditer(r"\bself\b", strip(body)[1]))): body = body[:m.start()] + "self_" + body[m.end():]
        body = "{ let mut self_ = self; " + body[1:]
    sh = strip(body)[1]
    assert len(sh) == len(body)
    heads = []
    for m in re.finditer(r"\b(?:loop|while|for)\b(?!\s*<)", sh):
        k = m.end()
        while sh[k] != "{":
            k = match(sh, k) if sh[k] in "([" else k + 1
        heads.append(k)
    if len(heads) != len(spec.loops):
        full = False
    for k, inv in reversed(list(zip(heads, spec.loops))):
        body = body[:k] + "\n" + "\n".join(inv) + "\n" + body[k:]
    if spec.closures:
        heads = list(re.finditer(r"\|[^|]*\|\s*->\s*([^{]+?)\s*\{", strip(body)[1]))
        full = full and len(heads) == len(spec.closures) == len(re.findall(r"(?:[(=,]|\bmove)\s*\|", sh))
        for m, c in reversed(list(zip(heads, spec.closures))):
            body = body[:m.start(1)] + f"(r: {m.group(1)})\n" + "\n".join(c) + "\n" + body[m.end(1):]
    elif re.search(r"(?:[(=,]|\bmove)\s*\|", sh):
        full = full and spec.ok_closures
    return "\n".join(spec.pre) + f"\n{sig}\n{clauses}\n" + "{ " + "\n".join(spec.body) + body[1:] + "\n", full

def expand(piece):
    """-> (text, functions [(name, props, first line, last line, complete)], source path)"""
    out, funcs = [], []
    src = path = None
    rewrites, macros, i = [], [], 0
    lines = template(piece + ".rs")
    line = lambda: sum(x.count("\n") + 1 for x in out)
    def rw(x):
        for name, b in macros:
            pos = 0
            while True:
                sh = strip(x)[1]
                m = re.compile(r"\b" + name + r"!\s*\(").search(sh, pos)
                if not m: break
                e = match(sh, m.end() - 1)
                k, d = m.end(), 0
                while k < e - 1 and not (d == 0 and sh[k] == ","):
                    d += (sh[k] in "([{") - (sh[k] in ")]}")
                    k += 1
                r = b.replace("{}", x[m.end():k])
                x = x[:m.start()] + r + x[e:]
                pos = m.start() + len(r)
        for a, b in rewrites:
            x = re.sub(a, b, x)
        return x
    def parse(i):
        """Sub-directives from line i up to //@ end."""
        specs, order, top, skip, cur, where = {}, [], [], set(), None, None
        while lines[i].strip() != "//@ end":
            l = lines[i]
            m = re.match(r"\s*//@ (\w+)\s*(.*)$", l)
            if m and m.group(1) in ("fn", "nested"):
                a = m.group(2).split()
                cur = specs[a[0]] = Spec()
                cur.ok_closures = False
                header(cur, a[1:])
                where = cur.sig
            elif m and m.group(1) == "skip":
                skip |= set(m.group(2).split()[1:])
            elif m and m.group(1) == "only": skip.add("*")
            elif m and m.group(1) == "body": where = cur.body
            elif m and m.group(1) == "attr": cur.pre.append(m.group(2))
            elif m and m.group(1) == "loop":
                cur.loops.append([]); where = cur.loops[-1]
            elif m and m.group(1) == "closure":
                cur.closures.append([]); where = cur.closures[-1]
            elif m: raise Exception(f"{piece}: unknown directive {l}")
            else: (where if where is not None else top).append(l)
            i += 1
        return i, specs, top, skip
    def header(cur, a):
        k = 0
        while k < len(a):
            if a[k] == "->": cur.ret = a[k + 1]; k += 2
            elif a[k].startswith("props="): cur.props = a[k][6:].split(","); k += 1
            elif a[k] == "closures": cur.ok_closures = True; k += 1
            else: raise Exception(f"{piece}: {a}")
    while i < len(lines):
        l = lines[i]
        m = re.match(r"\s*//@ (\w+)\s*(.*)$", l)
        if not m:
            out.append(l)
        elif m.group(1) == "source":
            path = m.group(2).strip(); src = Source(path)
        elif m.group(1) == "rewrite":
            a, b = m.group(2).split(" => ", 1)
            rewrites.append((a.strip(), b.strip()))
        elif m.group(1) == "macro":
            a, b = m.group(2).split(" => ", 1)
            macros.append((a.strip(), b.strip()))
        elif m.group(1) == "type":
            out.append(rw(src.typ(m.group(2).strip())))
        elif m.group(1) in ("impl", "trait"):
            h, _, new = m.group(2).partition(" => ")
            i, specs, top, skip = parse(i + 1)
            lo, hi = src.block(h, specs)
            fns = src.fns(lo, hi)
            missing = [f for f in specs if f not in fns and not any(b and f in hoist(b)[1] for _, b in fns.values())]
            if missing: raise Shape(f"`{h}` has no function {', '.join(missing)}")
            out.append((new or h).strip() + " {")
            out += top
            lab = label(m.group(2))
            inner = {}
            def put(name, f, fn):
                text, full = render(f, tuple(x and rw(plain(x)) for x in fn), specs.get(f))
                a = line() + 1
                out.append(text)
                funcs.append((name, specs[f].props if f in specs else [], a, line(), full))
            for f, fn in fns.items():
                if f in skip or "*" in skip and f not in specs: continue
                if fn[1]:
                    body, more = hoist(fn[1])
                    fn = (fn[0], body)
                    inner.update(more)
                put(f"{lab}::{f}", f, fn)
            out.append("}")
            for f, fn in inner.items(): put(f, f, fn)
        elif m.group(1) == "free":
            a = m.group(2).split()
            spec = Spec(); spec.ok_closures = False
            lines[i] = "//@ fn " + m.group(2)
            i, specs, top, skip = parse(i)
            fns = src.fns(0, len(src.s))
            if a[0] not in fns: raise Shape(f"no function {a[0]}")
            text, full = render(a[0], tuple(x and rw(plain(x)) for x in fns[a[0]]), specs[a[0]])
            b = line() + 1
            out.append(text)
            funcs.append((a[0], specs[a[0]].props, b, line(), full))
        else:
            raise Exception(f"{piece}: unknown directive {l}")
        i += 1
    return "\n".join(out), funcs, path, rewrites

REFUTED = re.compile(r"postcondition not satisfied|unable to prove post-?condition|fails to satisfy|precondition not (satisfied|met)|assertion failed|possible arithmetic|invariant not satisfied|possible division|might not be (in bounds|allowed)|index out of bounds|unreachable|decreases not satisfied|possible bit shift|assertion might")

def pieces():
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(f"{VDIR}/*.rs"))

def label(header):
    h, _, new = header.partition(" => ")
    x = (new or h).split(" where ")[0]
    while "<" in x:
        y = re.sub(r"<[^<>]*>", "", x)
        if y == x: break
        x = y
    return re.sub(r".*\bfor\b|\bimpl\b|\bpub\b|\btrait\b|\s", "", x)

def declared(piece):
    """(function, props) pairs the piece names, without looking at the source."""
    out, lab = [], ""
    for l in template(piece + ".rs"):
        m = re.match(r"\s*//@ (impl|trait|fn|nested|free)\s+(.*)$", l)
        if not m: continue
        if m.group(1) in ("impl", "trait"): lab = label(m.group(2)) + "::"
        else:
            p = re.search(r"props=(\S+)", l)
            if p: out.append(((lab if m.group(1) == "fn" else "") + m.group(2).split()[0], p.group(1).split(",")))
    return out

def unchecked(piece):
    """Assumed contracts and textual rewrites of a piece, for the evidence."""
    text = "\n".join(template(piece + ".rs"))
    fns = [m.group(1) for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\(\w+\))? )?(?:const )?(?:unsafe )?fn (\w+)", text)]
    fns += [m.group(1).strip() for m in re.finditer(r"assume_specification\b[^\[]*\[(.*?)\]\s*\(", text)]
    rw = [m.group(1).strip() for m in re.finditer(r"^//@ (?:rewrite|macro) (.*)$", text, flags=re.M)]
    out = []
    if fns: out.append(f"Verus piece {piece}: contracts assumed on " + ", ".join(sorted(set(fns))))
    if rw: out.append(f"Verus piece {piece}: extracted text rewritten by: " + " | ".join(rw))
    return out

class Verus:
    def __init__(self, prop, tier, work, env):
        self.prop, self.tier, self.work, self.env = prop, tier, work, env
        self.obligations = self.discharged = 0
        self.failed, self.undecided, self.results, self.functions = [], [], [], []
        self.solver_s = 0.0
        self.cmd = ""
        self.assumed = []
    def run(self, deadline):
        for piece in pieces():
            mine = [f for f, p in declared(piece) if self.prop in p]
            if mine:
                self.assumed += unchecked(piece)
                self.one(piece, mine, deadline)
    def one(self, piece, mine, deadline):
        tag = lambda f: f"verus:{piece}/{f}"
        self.obligations += len(mine)
        def undecided(why):
            for f in mine:
                self.undecided.append(f"{tag(f)}: {why}")
                self.results.append({"obligation": tag(f), "status": "undecided"})
        try:
            text, funcs, path, rewrites = expand(piece)
        except (Shape, IndexError, ValueError) as e:
            return undecided(f"extraction: {e}")
        d = f"{self.work}/verus"
        os.makedirs(d, exist_ok=True)
        f = f"{d}/{piece}.rs"
        open(f, "w").write(text)
        cmd = ["verus", "--crate-type=lib", "--multiple-errors", "0", "--time", "--output-json", f]
        self.cmd = " ".join(cmd[:-1]) + f" {piece}.rs"
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(20, min(300, deadline - time.time())))
        except subprocess.TimeoutExpired:
            return undecided("timeout")
        wall = time.time() - t0
        err = r.stderr.decode(errors="replace")
        open(f"{d}/{piece}.err", "w").write(err)
        try:
            js = json.loads(r.stdout.decode(errors="replace"))
            self.solver_s += js["times-ms"]["smt"]["total"] / 1000
            res = js["verification-results"]
        except Exception:
            js, res = None, None
            self.solver_s += wall
        # errors by function
        blocks = re.split(r"^(?=error|warning|note)", err, flags=re.M)
        refuted, other = {}, {}
        for b in blocks:
            if not b.startswith("error") or "aborting due to" in b: continue
            ls = [int(x) for x in re.findall(re.escape(piece) + r"\.rs:(\d+):", b)]
            # a failed postcondition is reported at the clause, which lies in the function's text too
            where = next((fn for fn in funcs for l in ls if fn[2] <= l <= fn[3]), None)
            name = where[0] if where else "?"
            (refuted if REFUTED.search(b.split("\n")[0]) else other).setdefault(name, []).append(b.strip())
        incomplete = [fn[0] for fn in funcs if not fn[4]]
        named = {fn[0]: fn for fn in funcs}
        clean = res is not None and not refuted and not other and res.get("success", r.returncode == 0)
        if other or (not clean and not refuted):
            msg = "; ".join(x[0].split("\n")[0] for x in other.values()) or err[-300:]
            return undecided(f"verus does not decide the extracted text: {msg[:300]}")
        for m in mine:
            fn = named[m]
            e = refuted.get(fn[0])
            if e is None:
                self.discharged += 1
                self.results.append({"obligation": tag(fn[0]), "status": "discharged", "bound": "none", "source": path})
                self.functions.append(f"{path}::{fn[0]} (Verus, unbounded)")
            elif incomplete:
                why = f"text without annotations ({', '.join(incomplete)}): {e[0].splitlines()[0]}"
                self.undecided.append(f"{tag(fn[0])}: {why[:300]}")
                self.results.append({"obligation": tag(fn[0]), "status": "undecided"})
            else:
                self.failed.append({"obligation": tag(fn[0]), "functions": [f"{path}::{fn[0]}"], "reason": [x.splitlines()[0] for x in e], "output": "\n\n".join(e)[:6000]})
                self.results.append({"obligation": tag(fn[0]), "status": "failed", "detail": e[0].splitlines()[0]})
        extra = [n for n in refuted if n not in mine]
        if extra and "?" in extra:
            self.undecided.append(f"{tag('lemmas')}: {refuted['?'][0][:300]}")

if __name__ == "__main__":
    import sys
    for p in sys.argv[1:] or pieces():
        os.makedirs("/tmp/w/vr", exist_ok=True)
        text, funcs, path, _ = expand(p)
        open(f"/tmp/w/vr/{p}.rs", "w").write(text)
        print(p, "incomplete:", [f[0] for f in funcs if not f[4]], "uncontracted:", [f[0] for f in funcs if not f[1]])
        t = time.time()
        r = subprocess.run(["verus", "--crate-type=lib", "--multiple-errors", "0", f"{p}.rs"], cwd="/tmp/w/vr", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print("\n".join(x for x in r.stdout.decode().split("\n")), f"{time.time() - t:.1f}s")
