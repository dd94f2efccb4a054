#!/usr/bin/env python3
"""Generate the parser and lexer classes ANTLR would generate from a grammar,
as tables for the runtime in /verif/antlr.

usage: g4.py GRAMMAR.g4 OUTDIR NAMESPACE   (NAMESPACE e.g. a::b::generated)
"""
import os
import re
import sys

TOK = re.compile(r"""
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<lit>'(?:\\.|[^'\\])*')
  | (?P<set>\[(?:\\.|[^\]\\])*\])
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<op>->|\*\?|\+\?|\?\?|[:;|()*+?=~.])
""", re.X | re.S)


def scan(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise SystemExit(f"g4.py: cannot scan {text[pos:pos+40]!r}")
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


ESC = {"n": "\n", "r": "\r", "t": "\t", "f": "\f", "b": "\b"}


def unesc(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            i += 1
            if s[i] == "u":
                out.append((chr(int(s[i + 1:i + 5], 16)), True))
                i += 5
                continue
            out.append((ESC.get(s[i], s[i]), True))
        else:
            out.append((s[i], False))
        i += 1
    return out


class P:
    """Grammar file -> rules {name: (fragment, ast, commands)}.

    ast: ('seq', [..]) ('alt', [..]) ('rep', x, min, max, greedy)
         ('lit', text) ('set', ranges, negate) ('any',) ('ref', name)
         ('label', name, x)
    """

    def __init__(self, text):
        self.t, self.i = scan(text), 0
        self.rules = {}
        self.skip_grammar()
        while self.i < len(self.t):
            frag = self.eat("fragment")
            name = self.next()[1]
            self.need(":")
            ast, cmds = self.alts()
            self.need(";")
            self.rules[name] = (frag, ast, cmds)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, s):
        if self.peek()[1] == s and self.peek()[0] != "lit":
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise SystemExit(f"g4.py: expected {s!r} at {self.t[self.i:self.i+6]}")

    def skip_grammar(self):
        while self.next()[1] != ";":
            pass

    def alts(self):
        out, cmds = [], []
        while True:
            out.append(self.seq())
            if self.eat("->"):
                name = self.next()[1]
                arg = None
                if self.eat("("):
                    arg = self.next()[1]
                    self.need(")")
                cmds.append((name, arg))
            if not self.eat("|"):
                break
        return (out[0] if len(out) == 1 else ("alt", out)), cmds

    def seq(self):
        out = []
        while self.peek()[1] is not None and not (
                self.peek()[0] == "op" and self.peek()[1] in ("|", ")", ";", "->")):
            out.append(self.elem())
        return out[0] if len(out) == 1 else ("seq", out)

    def elem(self):
        label = None
        if (self.peek()[0] == "id" and self.i + 1 < len(self.t)
                and self.t[self.i + 1] == ("op", "=")):
            label = self.next()[1]
            self.next()
        x = self.atom()
        if label:
            x = ("label", label, x)
        while self.peek()[0] == "op" and self.peek()[1] in (
                "*", "+", "?", "*?", "+?", "??"):
            op = self.next()[1]
            x = ("rep", x, 1 if op[0] == "+" else 0,
                 1 if op[0] == "?" else -1, len(op) == 1)
        return x

    def atom(self):
        kind, s = self.next()
        if s == "(" and kind == "op":
            x, _ = self.alts()
            self.need(")")
            return x
        if s == "~":
            x = self.atom()
            if x[0] == "lit":
                x = ("set", [(ord(x[1]), ord(x[1]))], False)
            assert x[0] == "set"
            return ("set", x[1], True)
        if kind == "lit":
            return ("lit", "".join(c for c, _ in unesc(s[1:-1])))
        if kind == "set":
            cs, r, i = unesc(s[1:-1]), [], 0
            while i < len(cs):
                if i + 2 < len(cs) and cs[i + 1] == ("-", False):
                    r.append((ord(cs[i][0]), ord(cs[i + 2][0])))
                    i += 3
                else:
                    r.append((ord(cs[i][0]), ord(cs[i][0])))
                    i += 1
            return ("set", r, False)
        if s == ".":
            return ("set", [], True)
        assert kind == "id", (kind, s)
        return ("ref", s)


def walk(x):
    yield x
    if x[0] in ("seq", "alt"):
        for k in x[1]:
            yield from walk(k)
    elif x[0] == "rep":
        yield from walk(x[1])
    elif x[0] == "label":
        yield from walk(x[2])


def count(x, key):
    """The most often `key` may occur in one match of x."""
    if x[0] == "ref":
        return 1 if x[1] == key else 0
    if x[0] == "seq":
        return sum(count(k, key) for k in x[1])
    if x[0] == "alt":
        return max(count(k, key) for k in x[1])
    if x[0] == "rep":
        n = count(x[1], key)
        return n if x[3] == 1 else n * 2
    if x[0] == "label":
        return count(x[2], key)
    return 0


def main():
    path, outdir, ns = sys.argv[1:4]
    name = os.path.splitext(os.path.basename(path))[0]
    g = P(open(path).read())
    lex = {n: r for n, r in g.rules.items() if n[0].isupper()}
    par = {n: r for n, r in g.rules.items() if n[0].islower()}
    # Token types: implicit literals first.
    named_lit = {}
    for n, (frag, ast, _) in lex.items():
        if not frag and ast[0] == "lit" and ast[1] not in named_lit:
            named_lit[ast[1]] = n
    types, implicit = {}, []
    for n, (_, ast, _) in par.items():
        for x in walk(ast):
            if x[0] == "lit" and x[1] not in named_lit and x[1] not in implicit:
                implicit.append(x[1])
    for i, s in enumerate(implicit):
        types["'" + s] = i + 1
    for n, (frag, _, _) in lex.items():
        if not frag:
            types[n] = len(types) + 1

    def cstr(s):
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

    # ---- lexer tables ----
    lnodes = []

    def ladd(s):
        lnodes.append(s)
        return len(lnodes) - 1

    def lkids(ks):
        return "{" + ", ".join(map(str, ks)) + "}"

    def lx(x):
        if x[0] == "seq":
            return ladd(f"{{Lx::kSeq, {lkids([lx(k) for k in x[1]])}, 0, -1, {{}}, false}}")
        if x[0] == "alt":
            return ladd(f"{{Lx::kAlt, {lkids([lx(k) for k in x[1]])}, 0, -1, {{}}, false}}")
        if x[0] == "rep":
            return ladd(f"{{Lx::kRep, {lkids([lx(x[1])])}, {x[2]}, {x[3]}, {{}}, false}}")
        if x[0] == "lit":
            return ladd(f"{{Lx::kSeq, {lkids([lx(('set', [(ord(c), ord(c))], False)) for c in x[1]])}, 0, -1, {{}}, false}}")
        if x[0] == "set":
            rs = ", ".join(f"{{{a}, {b}}}" for a, b in x[1])
            return ladd(f"{{Lx::kSet, {{}}, 0, -1, {{{rs}}}, {'true' if x[2] else 'false'}}}")
        if x[0] == "ref":
            if x[1] == "EOF":
                return ladd("{Lx::kEof, {}, 0, -1, {}, false}")
            return lx(lex[x[1]][1])
        raise SystemExit(f"g4.py: lexer {x}")

    lrules = []
    for s in implicit:
        lrules.append(f"{{{cstr(s)}, {types[chr(39) + s]}, {lx(('lit', s))}, false, false}}")
    for n, (frag, ast, cmds) in lex.items():
        if frag:
            continue
        short = any(x[0] == "rep" and not x[4] for x in walk(ast))
        hidden = any(c in ("channel", "skip") for c, _ in cmds)
        lrules.append(f"{{{cstr(n)}, {types[n]}, {lx(ast)}, "
                      f"{'true' if short else 'false'}, {'true' if hidden else 'false'}}}")

    # ---- parser tables ----
    rid = {n: i for i, n in enumerate(par)}
    pnodes, prules, classes, methods = [], [], [], []

    def cls(n):
        return n[0].upper() + n[1:] + "Context"

    def padd(kind, kids=(), lo=0, hi=-1, ref=0, label=-1):
        pnodes.append(f"{{Gx::{kind}, {lkids(kids)}, {lo}, {hi}, {ref}, {label}}}")
        return len(pnodes) - 1

    for n, (_, ast, _) in par.items():
        labels, ltype = {}, {}

        def px(x, label=-1):
            if x[0] == "label":
                labels.setdefault(x[1], len(labels))
                inner = x[2]
                ltype[x[1]] = (cls(inner[1]) if inner[0] == "ref"
                               and inner[1] in par else "antlr4::Token")
                return px(inner, labels[x[1]])
            if x[0] == "seq":
                return padd("kSeq", [px(k) for k in x[1]], label=label)
            if x[0] == "alt":
                return padd("kAlt", [px(k) for k in x[1]], label=label)
            if x[0] == "rep":
                return padd("kRep", [px(x[1])], x[2], x[3], label=label)
            if x[0] == "lit":
                return padd("kTok", ref=types.get("'" + x[1]) or types[named_lit[x[1]]],
                            label=label)
            if x[0] == "ref":
                if x[1] == "EOF":
                    return padd("kEof", ref=-1, label=label)
                if x[1] in par:
                    return padd("kRule", ref=rid[x[1]], label=label)
                return padd("kTok", ref=types[x[1]], label=label)
            raise SystemExit(f"g4.py: parser {x}")

        root = px(ast)
        alts = ast[1] if ast[0] == "alt" else [ast]
        left = False
        for a in alts:
            first = a[1][0] if a[0] == "seq" and a[1] else a
            if first[0] == "label":
                first = first[2]
            left |= first == ("ref", n)
        prules.append(f"{{{cstr(n)}, {root}, {'true' if left else 'false'}, "
                      f"[]() -> ParserRuleContext* {{ return new {name}Parser::{cls(n)}; }}}}")
        body = []
        refs = []
        for x in walk(ast):
            # A literal that is also a named token has the accessor of that.
            key = x[1] if x[0] == "ref" else (
                named_lit.get(x[1]) if x[0] == "lit" else None)
            if key and key != "EOF" and key not in refs:
                refs.append(key)

        def named(x):
            if x[0] == "lit" and x[1] in named_lit:
                return ("ref", named_lit[x[1]])
            if x[0] in ("seq", "alt"):
                return (x[0], [named(k) for k in x[1]])
            if x[0] == "rep":
                return ("rep", named(x[1])) + x[2:]
            if x[0] == "label":
                return ("label", x[1], named(x[2]))
            return x

        nast = named(ast)
        for k in refs:
            many = count(nast, k) > 1
            if k in par:
                c, get = cls(k), f"rules<{cls(k)}>({rid[k]})"
            else:
                c = "antlr4::tree::TerminalNode"
                get = f"tokens({types[k]})"
            if many:
                body.append(f"    std::vector<{c}*> {k}() const {{ return {get}; }}")
                body.append(f"    {c}* {k}(size_t i) const {{ return at({get}, i); }}")
            else:
                body.append(f"    {c}* {k}() const {{ return at({get}, 0); }}")
        if labels:
            for l in labels:
                body.append(f"    {ltype[l]}* {l} = nullptr;")
            body.append("    void setLabel(int l, antlr4::Token* t, "
                        "antlr4::ParserRuleContext* c) override {")
            for l, i in labels.items():
                v = "t" if ltype[l] == "antlr4::Token" else f"static_cast<{ltype[l]}*>(c)"
                body.append(f"      if (l == {i}) {l} = {v};")
            body.append("      (void)t; (void)c;\n    }")
        classes.append(f"  class {cls(n)} : public antlr4::ParserRuleContext {{\n   public:\n"
                       + "\n".join(body) + "\n  };")
        methods.append(f"  {cls(n)}* {n}() {{ return static_cast<{cls(n)}*>(Parse({rid[n]})); }}")

    nl = "\n"
    fwd = nl.join(f"  class {cls(n)};" for n in par)
    d = os.path.join(outdir, "mpact/sim/decoder")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + "Lexer.h"), "w") as f:
        f.write(f"""// Generated from {name}.g4 by g4.py.
#pragma once
#include "antlr4-runtime/antlr4-runtime.h"
namespace {ns} {{
inline const antlr4::LexTables& {name}LexTables() {{
  using antlr4::Lx;
  static const antlr4::LexTables t = {{
    {{
      {(','+nl+'      ').join(lnodes)}
    }},
    {{
      {(','+nl+'      ').join(lrules)}
    }}}};
  return t;
}}
class {name}Lexer : public antlr4::Lexer {{
 public:
  explicit {name}Lexer(antlr4::ANTLRInputStream* in)
      : antlr4::Lexer({name}LexTables(), in) {{}}
}};
}}  // namespace
""")
    tokconst = nl.join(f"    {n} = {t}," for n, t in types.items() if n[0] != "'")
    with open(os.path.join(d, name + "Parser.h"), "w") as f:
        f.write(f"""// Generated from {name}.g4 by g4.py.
#pragma once
#include "antlr4-runtime/antlr4-runtime.h"
namespace {ns} {{
const antlr4::ParseTables& {name}ParseTables();
class {name}Parser : public antlr4::Parser {{
 public:
  enum {{
{tokconst}
  }};
{fwd}
{nl.join(classes)}
  explicit {name}Parser(antlr4::CommonTokenStream* s)
      : antlr4::Parser({name}ParseTables(), s) {{}}
{nl.join(methods)}
}};
inline const antlr4::ParseTables& {name}ParseTables() {{
  using antlr4::Gx;
  using antlr4::ParserRuleContext;
  static const antlr4::ParseTables t = {{
    {{
      {(','+nl+'      ').join(pnodes)}
    }},
    {{
      {(','+nl+'      ').join(prules)}
    }}}};
  return t;
}}
}}  // namespace
""")


main()
