"""Mechanical translation of a small part of C (int variables, constant int tables, tables of int pointers) to Verus.

Every construct is translated on its own, nothing is simplified:
  int x, y;            variables holding any value until they are assigned
  int arithmetic       i32 operators (overflow, which C leaves undefined, is an obligation)
  T[w] (static int)    call of the constant table T (its values are read from the initialiser)
  P[w][i] (static int *)   g.P_get / g.P_set on the table of pointers, bounds and initialisation are obligations
  P[w] = malloc, = NULL, += n, free(P[w]), P[w] == NULL   the corresponding operation of g
  for (a; b; c) s      { a; while b { s; c } }  (no `continue` in s)
  if (e), while (e)    e != 0 for an int e
  exit(n)              a call that must not be reached
  printf/fprintf       dropped
Anything else is not translated and the unit is not available.
"""
import re

from rustsrc import Fn, Lost, find_top, match_close

TOK = re.compile(r"\s*(?:(0[xX][0-9a-fA-F]+|\d+)[uUlL]*|([A-Za-z_]\w*)|(\"(?:\\.|[^\"\\])*\")|(<<=|>>=|\+\+|--|->|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[-+*/%&|^~!<>=?:;,.(){}\[\]]))")


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Lost("C token at %r" % s[i:i + 20])
        if m.group(1):
            t = m.group(1)
            v = int(t, 16) if t[:2].lower() == "0x" else (int(t, 8) if len(t) > 1 and t[0] == "0" else int(t))
            out.append(("num", v))
        elif m.group(2):
            out.append(("id", m.group(2)))
        elif m.group(3):
            out.append(("str", m.group(3)))
        else:
            out.append(("op", m.group(4)))
        i = m.end()
    out.append(("end", ""))
    return out


PREC = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.t[self.i + k][0] in ("op", "id") else None

    def eat(self, v):
        if self.peek() != v:
            raise Lost("C: expected %s, found %s" % (v, self.t[self.i][1]))
        self.i += 1

    def expr(self):
        c = self.binary(0)
        if self.peek() == "?":
            self.i += 1
            a = self.expr()
            self.eat(":")
            return ("?", c, a, self.expr())
        return c

    def binary(self, lv):
        if lv == len(PREC):
            return self.unary()
        a = self.binary(lv + 1)
        while self.t[self.i][0] == "op" and self.t[self.i][1] in PREC[lv]:
            op = self.t[self.i][1]
            self.i += 1
            a = ("bin", op, a, self.binary(lv + 1))
        return a

    def unary(self):
        p = self.peek()
        if p in ("-", "!", "~"):
            self.i += 1
            return ("un", p, self.unary())
        if p == "(" and self.peek(1) == "int":
            self.i += 2
            ptr = self.peek() == "*"
            if ptr:
                self.i += 1
            self.eat(")")
            e = self.unary()
            return ("cast", "ptr" if ptr else "int", e)
        if p == "sizeof":
            self.i += 1
            self.eat("(")
            self.eat("int")
            self.eat(")")
            return ("sizeof",)
        return self.postfix()

    def postfix(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == "num":
            e = ("num", v)
        elif k == "str":
            e = ("str", v)
        elif k == "id":
            e = ("id", v)
        elif v == "(":
            e = self.expr()
            self.eat(")")
        else:
            raise Lost("C: unexpected %s" % v)
        while True:
            p = self.peek()
            if p == "[":
                self.i += 1
                x = self.expr()
                self.eat("]")
                e = ("ix", e, x)
            elif p == "(":
                self.i += 1
                args = []
                while self.peek() != ")":
                    args.append(self.expr())
                    if self.peek() == ",":
                        self.i += 1
                self.i += 1
                e = ("call", e, args)
            else:
                return e

    def simple(self):
        """Assignment, increment or call (no terminator)."""
        p = self.peek()
        if p in ("++", "--"):
            self.i += 1
            return ("asg", self.unary(), p[0] + "=", ("num", 1))
        e = self.expr()
        p = self.peek()
        if p in ("++", "--"):
            self.i += 1
            return ("asg", e, p[0] + "=", ("num", 1))
        if p in ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="):
            self.i += 1
            return ("asg", e, p, self.expr())
        return ("ex", e)

    def simples(self, stop):
        out = []
        while self.peek() != stop:
            out.append(self.simple())
            if self.peek() == ",":
                self.i += 1
        return out

    def stmt(self):
        p = self.peek()
        if p == "{":
            self.i += 1
            out = []
            while self.peek() != "}":
                out.append(self.stmt())
            self.i += 1
            return ("block", out)
        if p == ";":
            self.i += 1
            return ("block", [])
        if p == "const":
            self.i += 1
            p = self.peek()
        if p == "int":
            self.i += 1
            out = []
            while True:
                if self.peek() == "*":
                    raise Lost("C: pointer variable")
                n = self.t[self.i][1]
                self.i += 1
                if self.peek() == "[":
                    raise Lost("C: array variable")
                init = None
                if self.peek() == "=":
                    self.i += 1
                    init = self.expr()
                out.append((n, init))
                if self.peek() == ",":
                    self.i += 1
                    continue
                self.eat(";")
                return ("decl", out)
        if p == "if":
            self.i += 1
            self.eat("(")
            c = self.expr()
            self.eat(")")
            a = self.stmt()
            b = None
            if self.peek() == "else":
                self.i += 1
                b = self.stmt()
            return ("if", c, a, b)
        if p == "while":
            self.i += 1
            self.eat("(")
            c = self.expr()
            self.eat(")")
            return ("while", [], c, [], self.stmt())
        if p == "for":
            self.i += 1
            self.eat("(")
            pre = None
            if self.peek() == "int":
                pre = [self.stmt()]
            else:
                pre = self.simples(";")
                self.eat(";")
            c = None if self.peek() == ";" else self.expr()
            self.eat(";")
            upd = self.simples(")")
            self.eat(")")
            return ("while", pre, c, upd, self.stmt())
        if p == "return":
            self.i += 1
            e = None if self.peek() == ";" else self.expr()
            self.eat(";")
            return ("ret", e)
        if p == "break":
            self.i += 1
            self.eat(";")
            return ("break",)
        if p in ("do", "switch", "goto", "continue", "case"):
            raise Lost("C: %s" % p)
        s = self.simple()
        self.eat(";")
        return s


def const_eval(e):
    if e[0] == "num":
        return e[1]
    if e[0] == "id" and e[1] == "NULL":
        return 0
    if e[0] == "un" and e[1] == "-":
        return -const_eval(e[2])
    if e[0] == "bin":
        a, b = const_eval(e[2]), const_eval(e[3])
        return {"<<": lambda: a << b, "-": lambda: a - b, "+": lambda: a + b, "*": lambda: a * b, "|": lambda: a | b, "^": lambda: a ^ b, "&": lambda: a & b, ">>": lambda: a >> b}[e[1]]()
    raise Lost("C: constant expression")


def wrap32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >= 1 << 31 else v


def const_table(src, name):
    """Values of `static int NAME[..] = {...}` as 32-bit ints."""
    m = re.search(r"\b(?:static\s+)?(?:const\s+)?int\s+%s\s*\[\s*(\d*)\s*\]\s*=\s*\{" % name, src)
    if not m:
        raise Lost("C table " + name)
    o = m.end() - 1
    p = P(tokens(src[o + 1:match_close(src, o)]))
    vals = []
    while p.t[p.i][0] != "end":
        vals.append(wrap32(const_eval(p.expr())))
        if p.peek() == ",":
            p.i += 1
    n = int(m.group(1)) if m.group(1) else len(vals)
    if len(vals) > n:
        raise Lost("C table " + name)
    return vals + [0] * (n - len(vals))


def table_names(src):
    consts = re.findall(r"^\s*static\s+(?:const\s+)?int\s+(\w+)\s*\[", src, re.M)
    ptrs = re.findall(r"^\s*static\s+int\s*\*\s*(\w+)\s*\[", src, re.M)
    defs = dict(re.findall(r"^\s*#define\s+(\w+)\s+\(?(\d+)\)?\s*$", src, re.M))
    return set(consts), set(ptrs), defs


def emit_table(src, name):
    vals = const_table(src, name)

    def chain(vs, spec):
        lit = ["(%d) as i32" % v if spec and v < 0 else str(v) for v in vs]
        return " else ".join("if w == %d { %s }" % (i, v) for i, v in enumerate(lit[:-1])) + " else { %s }" % lit[-1]
    return ("#[verifier::opaque]\npub open spec fn %s_s(w: int) -> i32 { %s }\n"
            "fn %s(w: i32) -> (r: i32) requires 0 <= w < %d ensures r == %s_s(w as int) { proof { reveal(%s_s); } %s }\n" % (
                name, chain(vals, True), name, len(vals), name, name, chain(vals, False)))


class Emit:
    def __init__(self, src, fns):
        self.consts, self.ptrs, self.defs = table_names(src)
        self.fns = fns  # C functions that are themselves translated: called with the tables
        self.params, self.assigned = [], set()

    def ptr(self, e):
        return e[0] == "ix" and e[1][0] == "id" and e[1][1] in self.ptrs

    def e(self, e):
        """(text, kind), kind one of int, bool, size"""
        k = e[0]
        if k == "num":
            return str(e[1]), "int"
        if k == "id":
            if e[1] in self.defs:
                return self.defs[e[1]], "int"
            if not re.match(r"^\w+$", e[1]) or e[1] in self.consts or e[1] in self.ptrs or e[1] == "NULL":
                raise Lost("C: use of %s" % e[1])
            return e[1], "int"
        if k == "sizeof":
            return "4", "size"
        if k == "cast":
            if e[1] == "int":
                t, kk = self.e(e[2])
                if kk != "int":
                    raise Lost("C: cast")
                return t, kk
            raise Lost("C: pointer cast")
        if k == "ix":
            if e[1][0] == "id" and e[1][1] in self.consts:
                return "%s(%s)" % (e[1][1], self.i(e[2])), "int"
            if self.ptr(e[1]):
                return "g.%s_get(%s, %s)" % (e[1][1][1], self.i(e[1][2]), self.i(e[2])), "int"
            raise Lost("C: index")
        if k == "un":
            if e[1] == "!":
                return "!(%s)" % self.b(e[2]), "bool"
            return "%s(%s)" % ("-" if e[1] == "-" else "!", self.i(e[2])), "int"
        if k == "?":
            return "(if %s { %s } else { %s })" % (self.b(e[1]), self.i(e[2]), self.i(e[3])), "int"
        if k == "bin":
            op = e[1]
            if op in ("||", "&&"):
                return "(%s %s %s)" % (self.b(e[2]), op, self.b(e[3])), "bool"
            if op in ("==", "!="):
                for x, y in ((e[2], e[3]), (e[3], e[2])):
                    if self.ptr(x) and y == ("id", "NULL"):
                        return "%sg.%s_null(%s)" % ("" if op == "==" else "!", x[1][1], self.i(x[2])), "bool"
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return "(%s %s %s)" % (self.i(e[2]), op, self.i(e[3])), "bool"
            a, ka = self.e(e[2])
            b, kb = self.e(e[3])
            if ka == "bool" or kb == "bool":
                raise Lost("C: truth value used as a number")
            if "size" in (ka, kb):
                if op not in ("*", "+"):
                    raise Lost("C: size arithmetic")
                a = a if ka == "size" else "c_size(%s)" % a
                b = b if kb == "size" else "c_size(%s)" % b
                return "(%s %s %s)" % (a, op, b), "size"
            return "(%s %s %s)" % (a, op, b), "int"
        if k == "call" and e[1][0] == "id" and e[1][1] in self.fns:
            return "%s(%s)" % (e[1][1], ", ".join(["&mut *g"] + [self.i(x) for x in e[2]])), "int"
        raise Lost("C: expression %s" % (e,))

    def i(self, e):
        t, k = self.e(e)
        if k != "int":
            raise Lost("C: number expected")
        return t

    def b(self, e):
        if self.ptr(e):
            return "!g.%s_null(%s)" % (e[1][1], self.i(e[2]))
        t, k = self.e(e)
        if k == "bool":
            return t
        if k == "int":
            return "(%s) != 0" % t
        raise Lost("C: condition")

    def s(self, s, ind):
        pad = "  " * ind
        k = s[0]
        if k == "block":
            return "".join(self.s(x, ind) for x in s[1])
        if k == "decl":
            return "".join("%slet mut %s: i32 = %s;\n" % (pad, n, self.i(v) if v is not None else "c_any()") for n, v in s[1])
        if k == "if":
            t = "%sif %s {\n%s%s}" % (pad, self.b(s[1]), self.s(s[2], ind + 1), pad)
            if s[3]:
                t += " else {\n%s%s}" % (self.s(s[3], ind + 1), pad)
            return t + "\n"
        if k == "while":
            t = "".join(self.s(x, ind) for x in s[1])
            t += "%swhile %s {\n%s%s%s}\n" % (pad, self.b(s[2]) if s[2] else "true", self.s(s[4], ind + 1), "".join(self.s(x, ind + 1) for x in s[3]), pad)
            return t
        if k == "ret":
            return "%sreturn %s;\n" % (pad, self.i(s[1]) if s[1] is not None else "")
        if k == "break":
            return pad + "break;\n"
        if k == "asg":
            lhs, op, rhs = s[1:]
            if self.ptr(lhs):
                t, w = lhs[1][1], self.i(lhs[2])
                r = rhs[2] if rhs[0] == "cast" else rhs
                if op == "=" and r == ("id", "NULL"):
                    return "%sg.%s_clear(%s);\n" % (pad, t, w)
                if op == "=" and r[0] == "call" and r[1] == ("id", "malloc") and len(r[2]) == 1:
                    a, kk = self.e(r[2][0])
                    if kk != "size":
                        raise Lost("C: malloc")
                    return "%slet __n = %s; g.%s_malloc(%s, __n);\n" % (pad, a, t, w)
                if op in ("+=", "-="):
                    return "%slet __n = %s; g.%s_%s(%s, __n);\n" % (pad, self.i(rhs), t, "advance" if op == "+=" else "back", w)
                raise Lost("C: pointer assignment")
            if lhs[0] == "ix" and self.ptr(lhs[1]):
                t, w, i = lhs[1][1][1], self.i(lhs[1][2]), self.i(lhs[2])
                v = self.i(rhs)
                if op != "=":
                    v = "(g.%s_get(%s, %s) %s %s)" % (t, w, i, op[:-1], v)
                return "%slet __v = %s; let __i = %s; g.%s_set(%s, __i, __v);\n" % (pad, v, i, t, w)
            if lhs[0] == "id":
                v = self.i(rhs)
                if lhs[1] in self.params:
                    self.assigned.add(lhs[1])
                return "%s%s = %s;\n" % (pad, lhs[1], v if op == "=" else "%s %s %s" % (lhs[1], op[:-1], v))
            raise Lost("C: assignment")
        if k == "ex" and s[1][0] == "call" and s[1][1][0] == "id":
            f, args = s[1][1][1], s[1][2]
            if f in ("fprintf", "printf"):
                return ""
            if f == "exit":
                return pad + "c_exit();\n"
            if f == "free" and len(args) == 1 and self.ptr(args[0]):
                return "%sg.%s_free(%s);\n" % (pad, args[0][1][1], self.i(args[0][2]))
        if k == "ex":
            return "%slet _ = %s;\n" % (pad, self.e(s[1])[0])
        raise Lost("C: statement %s" % (s,))


def get_fn(src, name):
    ms = [m for m in re.finditer(r"^[ \t]*(?:static\s+)?(?:inline\s+)?int\s+%s\s*\(([^()]*)\)\s*\{" % name, src, re.M)]
    if len(ms) != 1:
        raise Lost("C function %s: %d definitions" % (name, len(ms)))
    m = ms[0]
    o = m.end() - 1
    params = []
    for a in m.group(1).split(","):
        q = re.match(r"^\s*(?:const\s+)?int\s+(\w+)\s*$", a)
        if not q:
            raise Lost("C: parameter %s" % a)
        params.append(q.group(1))
    p = P(tokens(src[o:match_close(src, o) + 1]))
    ast = p.stmt()
    em = Emit(src, ())
    em.params = params
    body = em.s(ast, 1)
    if ast[1] and ast[1][-1][0] != "ret":
        body += "  c_any()\n"
    pre = "".join("  let mut %s = %s;\n" % (x, x) for x in params if x in em.assigned)
    return Fn("fn %s(g: &mut Galois, %s) -> i32" % (name, ", ".join(x + ": i32" for x in params)), "\n" + pre + body)


OPS = """
    #[verifier::external_body]
    fn T_null(&self, w: i32) -> (r: bool) requires 0 <= w < 33 ensures r == self.T@[w as int].null { unimplemented!() }
    #[verifier::external_body]
    fn T_get(&self, w: i32, i: i32) -> (r: i32)
        requires 0 <= w < 33, !self.T@[w as int].null, self.T@[w as int].has(i as int), self.T@[w as int].at(i as int).is_some()
        ensures r == self.T@[w as int].at(i as int)->0 { unimplemented!() }
    #[verifier::external_body]
    fn T_set(&mut self, w: i32, i: i32, v: i32)
        requires 0 <= w < 33, !old(self).T@[w as int].null, old(self).T@[w as int].has(i as int)
        ensures final(self).T@ == old(self).T@.update(w as int, old(self).T@[w as int].put(i as int, v)), OTHERS { unimplemented!() }
    #[verifier::external_body]
    fn T_malloc(&mut self, w: i32, n: u64)
        requires 0 <= w < 33
        ensures OTHERS, final(self).T@.len() == old(self).T@.len(),
            forall|k: int| 0 <= k < 33 && k != w ==> #[trigger] final(self).T@[k] == old(self).T@[k],
            final(self).T@[w as int].null || (final(self).T@[w as int].off == 0 && final(self).T@[w as int].data.len() == n / 4) { unimplemented!() }
    #[verifier::external_body]
    fn T_free(&mut self, w: i32)
        requires 0 <= w < 33, !old(self).T@[w as int].null, old(self).T@[w as int].off == 0
        ensures OTHERS, final(self).T@.len() == old(self).T@.len(),
            forall|k: int| 0 <= k < 33 && k != w ==> #[trigger] final(self).T@[k] == old(self).T@[k],
            !final(self).T@[w as int].null, final(self).T@[w as int].data.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn T_clear(&mut self, w: i32)
        requires 0 <= w < 33
        ensures OTHERS, final(self).T@ == old(self).T@.update(w as int, CPtr { null: true, off: 0, data: seq![] }) { unimplemented!() }
    #[verifier::external_body]
    fn T_advance(&mut self, w: i32, n: i32)
        requires 0 <= w < 33, !old(self).T@[w as int].null, 0 <= old(self).T@[w as int].off + n <= old(self).T@[w as int].data.len()
        ensures OTHERS, final(self).T@ == old(self).T@.update(w as int, old(self).T@[w as int].moved(n as int)) { unimplemented!() }
    #[verifier::external_body]
    fn T_back(&mut self, w: i32, n: i32)
        requires 0 <= w < 33, !old(self).T@[w as int].null, 0 <= old(self).T@[w as int].off - n <= old(self).T@[w as int].data.len()
        ensures OTHERS, final(self).T@ == old(self).T@.update(w as int, old(self).T@[w as int].moved(-(n as int))) { unimplemented!() }
"""


def emit_state(names):
    t = """
// An int pointer: NULL, or a place in an allocated block; a cell holds a number once it was written.
pub ghost struct CPtr { pub null: bool, pub off: int, pub data: Seq<Option<i32>> }
impl CPtr {
    pub open spec fn has(self, i: int) -> bool { 0 <= self.off + i < self.data.len() }
    pub open spec fn at(self, i: int) -> Option<i32> { self.data[self.off + i] }
    pub open spec fn put(self, i: int, v: i32) -> CPtr { CPtr { data: self.data.update(self.off + i, Some(v)), ..self } }
    pub open spec fn moved(self, n: int) -> CPtr { CPtr { off: self.off + n, ..self } }
}
#[verifier::external_body]
fn c_any() -> i32 { unimplemented!() }
#[verifier::external_body]
fn c_exit() requires false ensures false { unimplemented!() }
fn c_size(n: i32) -> (r: u64) requires 0 <= n ensures r == n { n as u64 }
"""
    t += "pub struct Galois { %s }\n" % ", ".join("pub %s: Ghost<Seq<CPtr>>" % n for n in names)
    t += "impl Galois {\n"
    for n in names:
        others = ", ".join("final(self).%s@ == old(self).%s@" % (m, m) for m in names if m != n) or "true"
        t += re.sub(r"\bT(?=_|@)", n, OPS).replace("OTHERS", others)
    return t + "}\n"
