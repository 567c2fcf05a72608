"""Unbounded obligations: functions of /repo extracted on every run, annotated and given to Verus.

A template (verus/<property>.vrs) is Verus source in which these lines stand for text of /repo:

  //@const FILE NAME              the constant item
  //@fn FILE NAME                 the function, followed until //@end by
  //@  returns NAME               name of the result
  //@  spec TEXT                  requires/ensures clauses
  //@  loop K TEXT                invariants of the K-th loop (0 first); $result is the variable the
                                  function ends with

Extraction keeps the function text, without comments and attributes. It rewrites, and nothing else:
`for X in A..=B` and `for X in A..B` to a while loop over the same values, `for (I, X) in
E.iter().enumerate().take(N)` and `for X in E.iter()`/`for X in E` on slices to a while loop over the
positions. A loop or a function that is not found or has another form is "not applicable": the layer
then gives no answer and the bounded obligations decide alone. So does source Verus cannot process.
"""
import os, re, shutil


class NotApplicable(Exception):
    pass


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if s.startswith("/*", i):
                    d, i = d + 1, i + 2
                elif s.startswith("*/", i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif s[i] == "'" and (m := re.match(r"'(\\.[^']*|[^\\'])'", s[i:])):
            out.append(m.group(0))
            i += m.end()
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def closing(s, i):
    """Position after the bracket closing the one at i (strings skipped)."""
    d, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'" and (m := re.match(r"'(\\.[^']*|[^\\'])'", s[i:])):
            i += m.end() - 1
        elif c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise NotApplicable("unbalanced text")


def find_fn(text, name):
    ms = list(re.finditer(r"(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?fn\s+%s\s*(?=[<(])" % re.escape(name), text))
    if len(ms) != 1:
        raise NotApplicable("%d functions named %s" % (len(ms), name))
    s = ms[0].start()
    b = text.index("{", ms[0].end())
    return text[s:b], text[b:closing(text, b)]


def loops(body, specs):
    """Rewrite and annotate the loops of a body, outermost first in text order."""
    out, k, i = [], 0, 0
    for m in re.finditer(r"\b(for|while|loop)\b", body):
        if m.start() < i:
            continue
        b = brace(body, m.end())
        head = body[m.start():b].strip()
        e = closing(body, b)
        inner = body[b + 1:e - 1]
        if re.search(r"\b(continue|for|while|loop)\b", inner) or k not in specs:
            raise NotApplicable("loop %d has another form" % k)
        out.append(body[i:m.start()])
        out.append(loop(head, inner, specs[k], k))
        i, k = e, k + 1
    if k != len(specs):
        raise NotApplicable("%d loops" % k)
    return "".join(out) + body[i:]


def brace(s, i):
    d = 0
    while True:
        if s[i] in "([":
            d += 1
        elif s[i] in ")]":
            d -= 1
        elif s[i] == "{" and d == 0:
            return i
        i += 1


def loop(head, inner, spec, k):
    m = re.fullmatch(r"for\s+(\w+)\s+in\s+(.+?)\s*\.\.(=?)\s*(.+)", head, re.S)
    if m:
        x, a, incl, b = m.groups()
        if incl:
            return ("{ let from__ = %s; let to__ = %s; let mut at__ = from__; let mut more__ = from__ <= to__;\n"
                    "while more__ %s\n{ let %s = at__; %s\n if at__ == to__ { more__ = false; } else { at__ = at__ + 1; } } }"
                    % (a, b, spec, x, inner))
        return ("{ let from__ = %s; let to__ = %s; let mut at__ = from__;\n"
                "while at__ < to__ %s\n{ let %s = at__; %s\n at__ = at__ + 1; } }" % (a, b, spec, x, inner))
    m = re.fullmatch(r"for\s+\((\w+),\s*(\w+)\)\s+in\s+(\w+)\s*\.iter\(\)\s*\.enumerate\(\)(?:\s*\.take\(([^()]+)\))?", head)
    if m:
        i, x, e, t = m.groups()
        return ("{ let mut at__: usize = 0;\nwhile at__ < %s.len()%s %s\n{ let %s = at__; let %s = &%s[at__]; %s\n at__ = at__ + 1; } }"
                % (e, " && at__ < " + t if t else "", spec, i, x, e, inner))
    m = re.fullmatch(r"for\s+(\w+)\s+in\s+(\w+)(?:\s*\.iter\(\))?", head)
    if m:
        x, e = m.groups()
        return ("{ let mut at__: usize = 0;\nwhile at__ < %s.len() %s\n{ let %s = &%s[at__]; %s\n at__ = at__ + 1; } }"
                % (e, spec, x, e, inner))
    m = re.fullmatch(r"while\s+(?!let\b)(.+)", head, re.S)
    if m:
        return "while %s %s\n{%s}" % (m.group(1), spec, inner)
    raise NotApplicable("loop %r" % head[:60])


def render(template, repo):
    out, used, lines = [], [], template.splitlines()
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("//@const "):
            _, f, name = l.split()
            t = strip_comments(open(os.path.join(repo, f)).read())
            ms = re.findall(r"(?:pub\s+)?const\s+%s\s*:[^;]*;" % name, t)
            if len(ms) != 1:
                raise NotApplicable("constant " + name)
            out.append(ms[0])
        elif l.startswith("//@fn "):
            _, f, name = l.split()
            ret, spec, lsp = None, [], {}
            i += 1
            while not lines[i].startswith("//@end"):
                w = lines[i][3:].strip()
                if w.startswith("returns "):
                    ret = w[8:]
                elif w.startswith("spec "):
                    spec.append(w[5:])
                elif w.startswith("loop "):
                    _, k, t = w.split(None, 2)
                    lsp[int(k)] = lsp.get(int(k), "") + " " + t
                i += 1
            t = strip_comments(open(os.path.join(repo, f)).read())
            sig, body = find_fn(t, name)
            tail = re.search(r"\b([a-z_]\w*)\s*\}$", body)
            lsp = {k: t.replace("$result", tail.group(1) if tail else "?") for k, t in lsp.items()}
            if ret:
                m = re.search(r"->\s*(.+?)\s*$", sig, re.S)
                if not m:
                    raise NotApplicable("result of " + name)
                sig = sig[:m.start()] + "-> (%s: %s)" % (ret, m.group(1))
            out.append(sig + "\n" + "\n".join(spec) + "\n" + loops(body, lsp))
            used.append("%s::%s" % (f, name))
        else:
            out.append(l)
        i += 1
    return "\n".join(out) + "\n", used


# what Verus says about an obligation, as against source it cannot process
FAILED = re.compile(r"^error: ((?:post|pre)condition not satisfied|invariant not satisfied.*|possible .*|assertion failed.*|"
                    r"decreases not satisfied.*|recommendation not met.*|.*loop ensures not satisfied.*)$", re.M)


def run(template, pid, outdir, left, run_cmd, V, repo):
    res = {"template": template, "functions": [], "obligations": 0, "discharged": 0, "failed": [], "output": "", "applicable": True}
    try:
        text, res["functions"] = render(open(os.path.join(V, template)).read(), repo)
    except (NotApplicable, OSError, ValueError, IndexError) as e:
        return dict(res, applicable=False, why=str(e))
    os.makedirs(outdir, exist_ok=True)
    src = os.path.join(outdir, "unbounded.rs")
    open(src, "w").write(text)
    verus = shutil.which("verus") or "/opt/veriftools/verus/verus"
    rc, txt, to, dt = run_cmd([verus, src, "--num-threads", "4"], outdir, max(20, min(200, left() - 30)))
    res["output"] = txt[-5000:]
    res["seconds"] = round(dt, 2)
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", txt)
    if not m or to:
        return dict(res, applicable=False, why="no answer from Verus: " + txt[-300:])
    ok, bad = int(m.group(1)), int(m.group(2))
    res.update(obligations=ok + bad, discharged=ok)
    if bad:
        res["failed"] = [pid + ".unbounded: " + f for f in FAILED.findall(txt)]
        if not res["failed"]:
            return dict(res, applicable=False, why="no answer from Verus: " + txt[-300:])
    return res
