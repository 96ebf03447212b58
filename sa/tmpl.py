"""Cheetah templates as classes: each template becomes the syntax tree of a
module with a class whose methods write texts and values in order.  Line
numbers are those of the template."""

import ast
import builtins
import os
import re

DIRECTIVES = ("extends", "implements", "from", "import", "block", "end",
              "def", "if", "elif", "else", "for", "set", "while", "pass",
              "try", "except", "finally", "del", "break", "continue",
              "silent", "return", "attr", "unless", "else if")
NAME = re.compile(r"[A-Za-z_][A-Za-z_0-9]*")
BASE = "javatools.cheetah.__base__"
BASESRC = '''
class Template(object):
    def shutdown(self):
        pass
    def respond(self, trans=None):
        pass
    def _t(self, v):
        pass
    def _w(self, v):
        pass

def _auto(v):
    return v
'''


class Unsupported(Exception):
    pass


def bracket(s, i):
    """the end of the bracket which begins at i"""
    depth = 0
    while i < len(s):
        c = s[i]
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if not depth:
                return i + 1
        elif c in "\"'":
            q = s[i:i + 3] if s[i:i + 3] in ('"""', "'''") else c
            i += len(q)
            while i < len(s) and not s.startswith(q, i):
                i += 2 if s[i] == "\\" else 1
            i += len(q)
            continue
        i += 1
    raise Unsupported("bracket which is not closed")


def placeholder(s, i):
    """(end, [(name or bracket text, called)]) of the placeholder whose name
    begins at i"""
    m = NAME.match(s, i)
    segs = [m.group()]
    i = m.end()
    while i < len(s):
        if s[i] in "([":
            j = bracket(s, i)
            segs.append(s[i:j])
            i = j
        elif s[i] == "." and NAME.match(s, i + 1):
            m = NAME.match(s, i + 1)
            segs.append("." + m.group())
            i = m.end()
        else:
            break
    return i, segs


class Template(object):
    def __init__(self, name, text):
        self.name, self.text = name, text
        self.imports = []           # (line, source)
        self.extends = None
        self.implements = None
        self.globals = set()
        self.methods = []           # (name, args, [(indent, line, source)])
        self.stack = []

    # -- expressions

    def expr(self, s, local):
        """Python for an expression in which placeholders may be"""
        out, i = "", 0
        while i < len(s):
            c = s[i]
            if c in "\"'":
                q = s[i:i + 3] if s[i:i + 3] in ('"""', "'''") else c
                j = i + len(q)
                while j < len(s) and not s.startswith(q, j):
                    j += 2 if s[j] == "\\" else 1
                out += s[i:j + len(q)]
                i = j + len(q)
            elif c == "$" and NAME.match(s, i + 1):
                i, segs = placeholder(s, i + 1)
                out += self.value(segs, local)
            elif c == "$" and s[i + 1:i + 2] in ("(", "{", "["):
                i += 1
            else:
                out += c
                i += 1
        return out

    def value(self, segs, local):
        n = segs[0]
        if n in local or n in self.globals or (
                hasattr(builtins, n) and n != "self"):
            e = n
        elif n == "self":
            e = n
        else:
            e = "self." + n
        auto = n != "self"
        for k, x in enumerate(segs):
            if k:
                e += x if x[0] == "." else x[0] + self.expr(
                    x[1:-1], local) + x[-1]
            nxt = segs[k + 1] if k + 1 < len(segs) else ""
            if (k and x[0] == "." or not k and auto) and nxt[:1] != "(":
                e = "_auto(%s)" % e
        return e

    # -- structure

    def method(self, name, args=""):
        m = {"name": name, "args": args, "body": [], "indent": 2,
             "local": set(NAME.findall(re.sub(r"=[^,]*", "", args)))}
        self.methods.append(m)
        return m

    def emit(self, m, line, src):
        for k, l in enumerate(src.split("\n")):
            m["body"].append((m["indent"], line + k, l))

    def code(self, m, line, src):
        """a piece of Python"""
        import textwrap
        src = src.strip("\n") if "\n" in src else src.strip()
        ls = src.split("\n")
        first = ls[0]
        rest = textwrap.dedent("\n".join(ls[1:])) if not first[:1].isspace() \
            and len(ls) > 1 and all(x[:1].isspace() for x in ls[1:]
                                    if x.strip()) and not \
            first.rstrip().endswith((":", "(", ",", "[", "{", "\\")) else None
        src = first + "\n" + rest if rest is not None else \
            textwrap.dedent(src)
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Unsupported("code: %s" % e)
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                m["local"].add(n.id)
            elif isinstance(n, ast.alias):
                m["local"].add((n.asname or n.name).split(".")[0])
        self.emit(m, line, src)

    def parse(self):
        s = self.text
        main = self.method("*main")
        cur = main
        stack = []                  # (directive, method to go back to)
        i, line = 0, 1
        text, tline = "", 1

        def flush():
            nonlocal text
            if text:
                self.emit(cur, tline, "self._t(%r)" % text)
            text = ""
        while i < len(s):
            bol = i == 0 or s[i - 1] == "\n" or not s[
                s.rfind("\n", 0, i) + 1:i].strip()
            c = s[i]
            line = s.count("\n", 0, i) + 1
            if s.startswith("##", i):
                j = s.find("\n", i)
                j = len(s) if j < 0 else j
                i = j + 1 if bol else j
                continue
            m = re.compile(r"#(%s)\b" % "|".join(DIRECTIVES)).match(s, i) \
                if c == "#" else None
            if m and (bol or m.group(1) in ("if", "end", "else", "for",
                                            "set")):
                if not bol:
                    raise Unsupported("directive within a line")
                flush()
                j = s.find("\n", i)
                j = len(s) if j < 0 else j
                cur = self.directive(m.group(1), s[m.end():j].strip(), line,
                                     cur, stack)
                i = j + 1
                continue
            if s.startswith("<%", i):
                flush()
                j = s.find("%>", i)
                if j < 0:
                    raise Unsupported("code which is not closed")
                if s.startswith("<%=", i):
                    src = s[i + 3:j].strip()
                    lead = len(s[i + 3:j]) - len(s[i + 3:j].lstrip())
                    self.emit(cur, line + s.count("\n", i, i + 3 + lead),
                              "self._w(%s)" % " ".join(src.split("\n")))
                    i = j + 2
                else:
                    body = s[i + 2:j]
                    k = len(body) - len(body.lstrip("\n \t"))
                    self.code(cur, line + body.count("\n", 0, k), body)
                    i = j + 2
                    if bol and s.startswith("\n", i):
                        i += 1
                continue
            if c == "\\" and s[i + 1:i + 2] in ("$", "#"):
                if not text:
                    tline = line
                text += s[i + 1]
                i += 2
                continue
            if c == "$" and NAME.match(s, i + 1):
                flush()
                j, segs = placeholder(s, i + 1)
                self.emit(cur, line, "self._w(%s)" % " ".join(self.value(
                    segs, cur["local"]).split("\n")))
                i = j
                continue
            if c == "$" and s[i + 1:i + 2] in ("{", "("):
                flush()
                j = bracket(s, i + 1)
                src = s[i + 2:j - 1].strip()
                if NAME.match(src):
                    k, segs = placeholder(src, 0)
                    src = self.value(segs, cur["local"]) + self.expr(
                        src[k:], cur["local"])
                else:
                    src = self.expr(src, cur["local"])
                self.emit(cur, line, "self._w(%s)" % " ".join(
                    src.split("\n")))
                i = j
                continue
            if not text:
                tline = line
            text += c
            i += 1
        flush()
        if stack:
            raise Unsupported("#%s which is not ended" % stack[-1][0])
        if self.implements:
            main["name"] = self.implements
        else:
            main["name"] = "writeBody" if self.extends else "respond"
        main["args"] = "trans=None"
        return self

    def directive(self, d, rest, line, cur, stack):
        if d == "extends":
            self.extends = rest
        elif d == "implements":
            self.implements = rest
        elif d in ("from", "import"):
            src = d + " " + rest
            for n in ast.walk(ast.parse(src)):
                if isinstance(n, ast.alias):
                    self.globals.add((n.asname or n.name).split(".")[0])
            self.imports.append((line, src))
        elif d in ("block", "def"):
            m = re.match(r"(\w+)\s*(?:\((.*)\))?\s*$", rest, re.S)
            if not m:
                raise Unsupported("#%s %s" % (d, rest))
            if d == "block":
                self.emit(cur, line, "self.%s()" % m.group(1))
            stack.append((d, cur))
            cur = self.method(m.group(1), self.expr(
                m.group(2) or "", cur["local"]))
        elif d == "end":
            what = rest.split()[0] if rest else ""
            if not stack or stack[-1][0] != what:
                raise Unsupported("#end %s" % what)
            k, back = stack.pop()
            if k in ("block", "def"):
                if not cur["body"]:
                    self.emit(cur, line, "pass")
                return back
            self.close(cur, line)
        elif d in ("if", "for", "while", "unless", "try"):
            stack.append((d, cur))
            if d == "for":
                t = rest.split(" in ")[0]
                names = NAME.findall(t)
                cur["local"].update(names)
                rest = t.replace("$", "") + rest[len(t):]
            src = self.expr(rest, cur["local"]).rstrip(":")
            if d == "unless":
                d, src = "if", "not (%s)" % src
            self.emit(cur, line, ("%s %s" % (d, src)).rstrip() + ":")
            cur["indent"] += 1
        elif d in ("elif", "else", "except", "finally"):
            if d == "else" and rest.startswith("if "):
                d, rest = "elif", rest[3:]
            self.close(cur, line)
            self.emit(cur, line, ("%s %s" % (d, self.expr(
                rest, cur["local"]).rstrip(":"))).rstrip() + ":")
            cur["indent"] += 1
        elif d == "set":
            rest = re.sub(r"^(module|global)\s+", "", rest)
            m = re.match(r"\$?(\w+)\s*([-+*/%|&]?=)(.*)$", rest, re.S)
            if not m:
                raise Unsupported("#set " + rest)
            src = self.expr(m.group(3), cur["local"])
            cur["local"].add(m.group(1))
            self.emit(cur, line, "%s %s %s" % (m.group(1), m.group(2),
                                               src.strip()))
        elif d in ("pass", "break", "continue"):
            self.emit(cur, line, d)
        elif d in ("silent", "del", "return"):
            src = self.expr(rest, cur["local"])
            self.emit(cur, line, src if d == "silent" else d + " " + src)
        else:
            raise Unsupported("#" + d)
        return cur

    def close(self, cur, line):
        if cur["body"] and cur["body"][-1][2].rstrip().endswith(":"):
            self.emit(cur, line, "pass")
        cur["indent"] -= 1

    def tree(self):
        """the module"""
        self.parse()
        out, lines = [], []

        def put(ind, line, src):
            out.append("    " * ind + src)
            lines.append(line)
        put(0, 1, "from %s import Template, _auto" % BASE)
        for l, src in self.imports:
            put(0, l, src)
        base = "Template"
        if self.extends:
            base = self.extends.split(".")[-1]
            put(0, 1, "from %s import %s" % (self.extends, base))
        put(0, 1, "class %s(%s):" % (self.name, base))
        for m in self.methods:
            put(1, m["body"][0][1] if m["body"] else 1, "def %s(self%s):" % (
                m["name"], ", " + m["args"] if m["args"] else ""))
            for ind, l, src in m["body"] or [(2, 1, "pass")]:
                # lines within brackets or strings of code keep their place
                put(ind, l, src)
        src = "\n".join(out) + "\n"
        tree = ast.parse(src)
        for n in ast.walk(tree):
            for a in ("lineno", "end_lineno"):
                k = getattr(n, a, None)
                if k is not None:
                    setattr(n, a, lines[k - 1])
        self.source = src
        return tree


def optnames(prog):
    """the options which are asked for anywhere"""
    out = set()
    for t in prog.trees.values():
        for n in ast.walk(t):
            x = n.attr if isinstance(n, ast.Attribute) else n.value \
                if isinstance(n, ast.Constant) else None
            if isinstance(x, str) and re.match(
                    r"(ignore|show|html|json)_\w+$", x):
                out.add(x)
    return sorted(out)


def load(prog):
    """adds the templates of the repository to the program; gives their
    names, and the errors in those which cannot be read"""
    d = os.path.join(prog.root, prog.package, "cheetah")
    names, errors = [], {}
    prog.trees[BASE] = ast.parse(BASESRC)
    prog.files[BASE] = "javatools/cheetah"
    for f in sorted(os.listdir(d)):
        if not f.endswith(".tmpl"):
            continue
        n = f[:-5]
        with open(os.path.join(d, f), encoding="utf-8") as fd:
            t = Template(n, fd.read())
        try:
            tree = t.tree()
        except (Unsupported, SyntaxError) as e:
            errors[n] = str(e)
            continue
        mod = "%s.cheetah.%s" % (prog.package, n)
        prog.trees[mod] = tree
        prog.files[mod] = os.path.join(prog.package, "cheetah", f)
        names.append(n)
    src = BASESRC + "\n\nclass Options(object):\n    pass\n" + "".join(
        "    %s = False\n" % n for n in optnames(prog))
    prog.trees[BASE] = ast.parse(src)
    return names, errors
