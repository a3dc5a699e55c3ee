"""Small Rust source reader: removes comments, finds items, loops and closures by matching brackets."""
import re


class Lost(Exception):
    """An anchor of a unit is not present in the current source."""


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith("/*", j):
                    d += 1
                    j += 2
                elif s.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            out.append(" ")
            i = j
        elif c == '"' or (c in "br" and re.match(r'(b|r|br)#*"', s[i:]) and not (i and (s[i - 1].isalnum() or s[i - 1] == "_"))):
            j = skip_string(s, i)
            out.append(s[i:j])
            i = j
        elif c == "'":
            j = skip_quote(s, i)
            out.append(s[i:j])
            i = j
        else:
            out.append(c)
            i += 1
    return re.sub(r"[ \t]+\n", "\n", "".join(out))


def skip_string(s, i):
    m = re.match(r'(b|r|br)?(#*)"', s[i:])
    raw = m.group(1) and "r" in m.group(1)
    j = i + m.end()
    if raw:
        return s.index('"' + m.group(2), j) + 1 + len(m.group(2))
    while s[j] != '"':
        j += 2 if s[j] == "\\" else 1
    return j + 1


def skip_quote(s, i):
    m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:])
    if m:
        return i + m.end()
    return i + 1  # lifetime


def skip_literal(s, i):
    """If a string/char literal starts at i return its end, else None."""
    c = s[i]
    if c == '"' or (c in "br" and re.match(r'(b|r|br)#*"', s[i:]) and not (i and (s[i - 1].isalnum() or s[i - 1] == "_"))):
        return skip_string(s, i)
    if c == "'":
        return skip_quote(s, i)
    return None


OPEN, CLOSE = "([{", ")]}"


def match_close(s, i):
    """s[i] is an opening bracket; index of its closing bracket."""
    d = 0
    n = len(s)
    while i < n:
        j = skip_literal(s, i)
        if j:
            i = j
            continue
        if s[i] in OPEN:
            d += 1
        elif s[i] in CLOSE:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise Lost("unbalanced brackets")


def find_top(s, i, chars, end=None):
    """First index >= i of one of chars at bracket depth 0."""
    n = len(s) if end is None else end
    while i < n:
        j = skip_literal(s, i)
        if j:
            i = j
            continue
        if s[i] in chars:
            return i
        if s[i] in OPEN:
            i = match_close(s, i)
        i += 1
    return -1


def item_scan(s):
    """Yield (start, body_open, body_close) of top-level braces items of s."""
    i = 0
    while True:
        o = find_top(s, i, "{;")
        if o < 0:
            return
        if s[o] == ";":
            i = o + 1
            continue
        c = match_close(s, o)
        yield i, o, c
        i = c + 1


def blocks(s, kind_re):
    """Top-level items whose header matches kind_re: list of (header, body)."""
    res = []
    for st, o, c in item_scan(s):
        head = s[st:o]
        # cut attributes and previous garbage: keep from the last match of the keyword
        m = re.search(kind_re, head)
        if m:
            res.append((head[m.start():].strip(), s[o + 1:c]))
    return res


class Fn:
    def __init__(self, head, body):
        self.head = head  # from `fn`/qualifiers to before the body
        self.body = body


FN_RE = r"(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?(?:async\s+)?(?:unsafe\s+)?fn\s+%s\b"


def get_fn(src, name, impl=None):
    """Find a function; impl is a regex matched against `impl` headers (whitespace-normalised)."""
    s = src
    if impl is not None:
        cands = []
        for head, body in blocks(s, r"\bimpl\b"):
            h = re.sub(r"\s+", " ", head)
            if re.search(impl, h):
                r = blocks(body, FN_RE % name)
                cands += r
        if len(cands) != 1:
            raise Lost("impl /%s/ fn %s: %d candidates" % (impl, name, len(cands)))
        return Fn(*cands[0])
    cands = blocks(s, FN_RE % name)
    if len(cands) != 1:
        raise Lost("fn %s: %d candidates" % (name, len(cands)))
    return Fn(*cands[0])


def get_item(src, regex):
    """A struct/enum/const/type item (with its terminator), attributes dropped."""
    m = re.search(regex, src)
    if not m:
        raise Lost("item /%s/" % regex)
    o = find_top(src, m.start(), "{;")
    if o < 0:
        raise Lost("item end /%s/" % regex)
    if src[o] == ";":
        return src[m.start():o + 1]
    c = match_close(src, o)
    return src[m.start():c + 1]


def close_bar(s, i):
    """s[i] is the `|` opening closure parameters; index of the closing one."""
    k, d = i + 1, 0
    while not (s[k] == "|" and d == 0):
        d += (s[k] in OPEN) - (s[k] in CLOSE)
        k += 1
    return k


def split_top(s, sep=","):
    """Split at separators outside brackets (and outside <...>)."""
    res, cur, d = [], "", 0
    for i, c in enumerate(s):
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            d -= 1
        if c == sep and d == 0:
            res.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        res.append(cur)
    return res


LOOP_RE = re.compile(r"\b(while|for|loop)\b")


def find_loops(body):
    """Offsets of the opening brace of each loop in textual order."""
    res, i = [], 0
    n = len(body)
    while i < n:
        j = skip_literal(body, i)
        if j:
            i = j
            continue
        m = LOOP_RE.match(body, i)
        if m and (i == 0 or not (body[i - 1].isalnum() or body[i - 1] in "_.")):
            # for<'a> bounds are not loops
            k = m.end()
            if m.group(1) == "for" and re.match(r"\s*<", body[k:]):
                i = k
                continue
            b = find_top(body, k, "{")
            if b < 0:
                raise Lost("loop without body")
            res.append((i, b))
            i = b + 1 if m.group(1) != "loop" else b + 1
            # headers may contain nested loops only inside closures; ignore
            continue
        if body[i].isalnum() or body[i] == "_":
            m2 = re.match(r"\w+", body[i:])
            i += m2.end()
            continue
        i += 1
    return res


def find_closures(body):
    """(start, params_end, expr_start, expr_end, is_block) for each closure in textual order."""
    res, i = [], 0
    n = len(body)
    prev = ""
    while i < n:
        j = skip_literal(body, i)
        if j:
            prev = '"'
            i = j
            continue
        c = body[i]
        if c == "|" and (prev in "(,=;{}" or prev == "" or prev == "MV"):
            # closure parameters
            start = i
            k = i + 1
            d = 0
            while not (body[k] == "|" and d == 0):
                if body[k] in OPEN:
                    d += 1
                if body[k] in CLOSE:
                    d -= 1
                k += 1
            pe = k + 1
            m = re.match(r"\s*->\s*[^{]+", body[pe:])
            es = pe + (m.end() if m else 0)
            while body[es].isspace():
                es += 1
            if body[es] == "{":
                ee = match_close(body, es) + 1
                blk = True
            else:
                ee = find_top(body, es, ",;)]}")
                blk = False
                # generic commas are not expected in closure expressions
            res.append((start, pe, es, ee, blk))
            i = pe
            prev = "|"
            continue
        if c.isalnum() or c == "_":
            m2 = re.match(r"\w+", body[i:])
            w = m2.group(0)
            prev = "MV" if w == "move" else ("=" if w in ("return", "match", "in", "else", "if", "while") else "a")
            i += m2.end()
            continue
        if not c.isspace():
            if c == "|" and body[i:i + 2] == "||" and prev not in "(,=;{}":
                i += 2
                prev = "|"
                continue
            prev = c
        i += 1
    return res


def tail_start(body):
    """Where the final expression of a block's text starts."""
    k = 0
    while True:
        e = find_top(body, k, ";")
        if e < 0:
            break
        k = e + 1
    while True:
        m = re.match(r"\s*(?:proof\s*\{|(?:for|while|loop|if|match|unsafe)\b)", body[k:])
        if not m:
            return k
        e = k
        while True:
            e = match_close(body, find_top(body, e, "{")) + 1
            m = re.match(r"\s*else\b", body[e:])
            if not m:
                break
            e += m.end()
        if not body[e:].strip() or re.match(r"\s*[.?]", body[e:]):
            return k
        k = e
