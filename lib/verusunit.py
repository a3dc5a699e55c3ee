"""Builds a Verus file from a unit template and /repo's current source, runs Verus and classifies the result.

Template directives (lines starting with //@):
  //@include FILE                 insert another template (processed the same way)
  //@note TEXT                    assumption reported in the evidence
  //@const FILE | NAME | SIGNATURE   a constant's defining expression as a function; lines up to //@end come first
  //@ctable FILE | NAME           a constant int table of a C file, values read from its initialiser
  //@cptrs NAMES                  the state `Galois`: tables of int pointers of a C file, with their operations
  //@item FILE | REGEX            insert a struct/enum/type/const item verbatim (attributes dropped)
  //@spec FILE | NAME             a specification function of another template
  //@stub FILE | IMPLREGEX or - | NAME   a function with the signature and contract that another template assumes for NAME, called
                                  stub_FILE_NAME; the lines up to //@end are its body (a call of the extracted function)
  //@fn FILE | IMPLREGEX or - | NAME   insert a function verbatim, with the following parts:
    //@contract      text between signature and body
    //@loop N        text between the N-th loop header and its body
    //@loopstart N / //@loopend N / //@preloop N   text at the start/end of the N-th loop's body, or in front of the loop
    //@closure N     header text replacing |params| of the N-th closure
    //@entry         text at the start of the body
    //@tail          text after the final expression, whose value is then called __out
    //@after REGEX / //@before REGEX   text after/before the statement containing the match
    //@rewrite REGEX ==> TEXT # REASON  change made to the body (reported)
    //@head REGEX ==> TEXT # REASON     change made to the signature (reported)
    //@ghost PARAMS  ghost parameters added to the signature
    //@attr ATTR     attribute put in front (e.g. no decreases clause)
    //@dropblock REGEX # REASON   leave out the block(s) starting at the match, if present
    //@args REGEX ==> CALL # REASON   replace the call (with all its arguments) whose callee matches
    //@addarg REGEX ==> ARG   append a ghost argument to every call whose callee matches
    //@slice REGEX   take only the block starting at the match; //@sig SIGNATURE gives it a signature
    //@rename NAME
    //@loops N / //@closures N   number of loops/closures expected when not all carry a contract
    //@inline NAME   put the local closure NAME in place of its calls
    //@novac         no end-of-body reachability copy (non-terminating bodies)
  //@end
"""
import json
import os
import re
import subprocess
import time

import csrc
import rustsrc
from rustsrc import Lost


# Rewrites of the standard shims, applied to every body of a unit that says //@std NAME...
STD = {
    "gf": [(r"\b(?:GF(?:::<W>)?)::ZERO\b", "gf_zero()"), (r"\b(?:GF(?:::<W>)?)::ONE\b", "gf_one()"), (r"\bGF(?:::<W>)?::from\b", "gf_from")],
    "width": [(r"\bW\.into\(\)", "(W as i32)"), (r"\b(?:c_int|i32)::from\(W\)", "(W as i32)"),
              (r"\b(?:Self|GF(?:::<W>)?)::ORDER\b", "order::<W>()"), (r"\b(?:Self|GF(?:::<W>)?)::NUM_BYTES\b", "num_bytes::<W>()"),
              (r"([\w.]+)\.to_([lb]e)_bytes\(\)", r"to_\2(\1)"), (r"\bu32::from_([lb]e)_bytes\(", r"from_\1("),
              (r"\b(?:Self|GF(?:::<W>)?)::(ZERO|ONE)\b", lambda m: m.group(1).lower() + "_const::<W>()")],
    "arr": [(r"\bndarray::Axis\b", "Axis"), (r"\bArray::from_elem\(\(", "Array2::from_elem(("), (r"\bArray::from_vec\(", "Array1::from_vec("),
            (r"\bArray::from_shape_vec\(\(", "Array2::from_shape_vec(("), (r"\bArrayView1?::from\(", "Array1::of("), (r"\.view\(\)", ".vw()"),
            (r"\.slice\(\s*s!\[\s*([^\[\],]+?)\.\.\s*\]\s*\)", r".sl_from(\1)"), (r"\.slice\(\s*s!\[\s*\.\.([^\[\],]+?)\s*\]\s*\)", r".sl_to(\1)"), (r"\.slice\(\s*s!\[\s*\.\.([^\[\],]+?)\s*,\s*\.\.\s*\]\s*\)", r".sl_rows_to(\1)"),
            (r"\.slice\(\s*s!\[\s*\.\.\s*,\s*\.\.([^\[\],]+?)\s*\]\s*\)", r".sl_cols_to(\1)"), (r"\.slice\(\s*s!\[\s*\.\.\s*,\s*([^\[\],]+?)\.\.\s*\]\s*\)", r".sl_cols_from(\1)"),
            (r"\.slice\(\s*s!\[\s*\.\.\s*,\s*([^\[\],.]+?)\s*\]\s*\)", r".column(\1)"), (r"\.slice\(\s*s!\[\s*([^\[\],]+?)\s*,\s*\.\.\s*\]\s*\)", r".row(\1)")],
    "coins": [(r"\(([\w.()]+)\.\.([\w.()]+)\)\s*\.map\(\|_\|\s*if (\w+)\.gen::<bool>\(\)\s*\{\s*GF::(?:ONE|ZERO)\s*\}\s*else\s*\{\s*GF::(?:ONE|ZERO)\s*\}\s*\)", lambda m: "bit_draws(%s, %s, &mut %s)" % m.groups() if "ONE" in m.group(0) and "ZERO" in m.group(0) else m.group(0)),
              (r"\(([\w.()+* -]+)\.\.([\w.()+* -]+)\)\s*\.map\(\|_\|\s*GF::rand\((?:&mut )?(\w+)\)\)", r"draws(\1, \2, \3)"),
              (r"\.chain\(\s*std::iter::(?:from_fn\(\|\|\s*Some\(GF::rand\((?:&mut )?(\w+)\)\)\)|repeat_with\(\|\|\s*GF::rand\((?:&mut )?(\w+)\)\))\s*\)\s*\.take\(([\w. +*-]+)\)",
               lambda m: ".fill(%s, %s)" % (m.group(3), m.group(1) or m.group(2))), (r"\bGF::rand\(", "gf_rand(")],
    "zip": [],
    "simple_fn": [],
    "scan": [],
    "spawn": [],
    "tab": [(r"\.slice\(\s*s!\[\s*([^\[\],.]+?)\s*,\s*([^\[\],.]+?)\s*,\s*\.\.\s*\]\s*\)", r".row3(\1, \2)"), (r"\.slice\(\s*s!\[\s*\.\.\s*,\s*([^\[\],.]+?)\s*,\s*([^\[\],.]+?)\s*\]\s*\)", r".lane(\1, \2)")],
    "into": [(r"\.into\(\)", ".conv()"), (r"\.drain\(\s*\.\.", ".drain_to(")],
    "bump": [(r"\*\s*(\w+)\s*\.entry\((\w+)\)\s*\.or_insert\((\w+)\)(?!\s*[-+*]=)", r"\1.or_put(\2, \3)"), (r"\*\s*(\w+)\s*\.entry\(((?:[^()]|\([^()]*\))*)\)\s*\.or_insert\((\w+)\)\s*\+=\s*(\w+)", r"\1.bump(\2, \3, \4)")],
    "iter": [(r"\.(?:par_)?iter\(\)", ".it()"), (r"\.into_(?:par_)?iter\(\)", ".into_it()"), (r"\(([\w.]+)\.\.([\w.]+)\)\s*\.into_it\(\)", r"range_of(\1, \2)"), (r"\.chain\(\s*(?:std::)?iter::repeat\(([^()]*)\)\s*\)\s*\.take\(([^()]*)\)", r".pad(\1, \2)"), (r"\b(?:std::)?iter::repeat\(((?:[^()]|\([^()]*\))*)\)\s*\.take\(", r"repeat_n(\1, "), (r"\b(?:std::)?iter::once\(", "once("), (r"\.zip_eq\(", ".zip("), (r"\.extend\(", ".ext("),
             (r"\(([\w.]+)\.\.([\w.]+)\)\s*\.(map|rev|flat_map|filter|zip)\b", r"range_of(\1, \2).\3"),
             (r"\(([\w.]+)\.\.\(([^()]*)\)\)\s*\.(map|rev|flat_map|filter|zip)\b", r"range_of(\1, \2).\3")],
}
STDNOTE = {
    "width": "W.into() as a cast; the associated constants ORDER, NUM_BYTES, ZERO and ONE as functions returning their defining expressions; u32::to_le_bytes and the like as calls of shims with their documented meaning",
    "arr": "ndarray's Array/ArrayView constructors by dimension, .view() and .slice(s![..]) as copies of what they show",
    "coins": "(a..b).map(|_| GF::rand(rng)) and .chain(std::iter::from_fn(|| Some(GF::rand(rng)))).take(k), and (a..b).map(|_| a random bit), as calls drawing that many elements in that order; rayon's map_init(rand::thread_rng, f) as a map with a fresh generator for each element",
    "spawn": "tokio::spawn(f) as running f at that point and awaiting the handle as reading its result (tasks share nothing but the network, which hands out messages by identifier: C15, C17); debug_assert conditions as preconditions of a call, except those on array shapes",
    "tab": "array![..], stack![Axis(0), ..] and concatenate![Axis(0), ..] as constructor calls, a += &b on arrays as a call, columns_mut().into_iter().for_each assigning a new column to each as a call taking the column to the new one",
    "simple_fn": "ArrayN::from_shape_simple_fn(shape, || e) as a loop evaluating e once per element, in order; a closure handing out the elements of a vector round and round as a value with calls that fill arrays and lists",
    "scan": "X.scan(a, |s, v| { B; Some(e) }).collect() and (a..b).map(|_| e).collect(), where the closures change what they capture, as loops pushing e; (a..b).collect() as a call",
    "zip": "ndarray's Zip::from(..).and(..) over whole arrays as calls taking the closure; an update in place as a closure returning the new value",
    "into": ".into() between vectors, queues and arrays as a call of the shim with the same elements in the same order",
    "bump": "*m.entry(k).or_insert(a) += b as m.bump(k, a, b), and *m.entry(k).or_insert(a) read as m.or_put(k, a)",
    "gf": "GF::ZERO, GF::ONE, GF::from as functions of the field shim",
    "iter": "iterator chains (.iter(), .par_iter(), .into_iter(), ranges) as eager sequences: same elements in the same order; rayon's results do not depend on the schedule because the closures have no effects and the reductions are associative with their identity",
}


class Unit:
    def __init__(self, name, verif, repo):
        self.name, self.verif, self.repo = name, verif, repo
        self.functions, self.drops, self.notes, self.stubs, self.reach = [], [], [], [], 0
        self.cache = {}

    def src(self, rel):
        if rel not in self.cache:
            p = os.path.join(self.repo, rel)
            if not os.path.exists(p):
                raise Lost("file " + rel)
            self.cache[rel] = rustsrc.strip_comments(open(p).read())
        return self.cache[rel]

    def build(self, vac):
        self.functions, self.drops, self.notes, self.stubs, self.reach = [], [], [], [], 0
        self.vac, self.std = vac, []
        return self.process(os.path.join(self.verif, "verus", self.name + ".vrs"))

    def process(self, path):
        out = []
        lines = open(path).read().split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i].strip()
            if ln.startswith("//@include "):
                out.append(self.process(os.path.join(self.verif, "verus", ln[11:].strip())))
            elif ln.startswith("//@std "):
                self.std += [x for x in ln[7:].split() if x not in self.std]
            elif ln.startswith("//@note "):
                self.notes.append(ln[8:].strip())
            elif ln.startswith("//@item "):
                rest = ln[8:]
                rws = []
                while i + 1 < len(lines) and lines[i + 1].strip().startswith("//@rewrite "):
                    i += 1
                    rws.append(lines[i].strip()[11:])
                rel, rx = [x.strip() for x in rest.split("|", 1)]
                item = rustsrc.get_item(self.src(rel), rx)
                for r in rws:
                    item = self.rewrite(item, r, rel)
                out.append(item)
            elif ln.startswith("//@ctable "):
                rel, name = [x.strip() for x in ln[10:].split("|", 1)]
                out.append(csrc.emit_table(self.src(rel), name))
            elif ln.startswith("//@cptrs "):
                out.append(csrc.emit_state(ln[9:].split()))
            elif ln.startswith("//@const "):
                rel, name, sig = [x.strip() for x in ln[9:].split(" | ", 2)]
                pre = []
                i += 1
                m = re.search(r"\bconst\s+%s\s*:[^=]*=\s*" % name, self.src(rel))
                if not m:
                    raise Lost("constant %s" % name)
                ex = self.src(rel)[m.end():rustsrc.find_top(self.src(rel), m.end(), ";")]
                while lines[i].strip() != "//@end":
                    if lines[i].strip().startswith("//@rewrite "):
                        ex = self.rewrite(ex, lines[i].strip()[11:], rel + "::" + name)
                    else:
                        pre.append(lines[i])
                    i += 1
                self.functions.append(rel + "::" + name)
                self.drops.append("%s::%s: the constant's defining expression as a function" % (rel, name))
                out.append("%s\n{\n%s\n%s\n}\n" % (sig, "\n".join(pre), ex))
            elif ln.startswith("//@fn "):
                j = i
                while lines[j].strip() != "//@end":
                    j += 1
                out.append(self.function(ln[6:], lines[i + 1:j]))
                i = j
            elif ln.startswith("//@spec "):
                rel, name = [x.strip() for x in ln[8:].split("|", 1)]
                out.append(self.template_fn(rel, "-", name)[0])
            elif ln.startswith("//@stub "):
                rel, impl, name, extra, drop = ([x.strip() for x in ln[8:].split(" | ")] + ["", ""])[:5]
                j = i
                while lines[j].strip() != "//@end":
                    j += 1
                extra = "" if extra == "-" else extra
                sig = self.template_fn(rel, impl, name)[1]
                sig = re.sub(r"^pub(?:\(crate\))?\s+", "", sig)
                sig = re.sub(r"\bfn\s+%s\b" % name, "fn stub_%s_%s" % (rel.split(".")[0], name), sig, count=1)
                if extra:
                    sig = re.sub(r"\brequires\b", lambda m: "requires " + extra + ",", sig, count=1) if re.search(r"\brequires\b", sig) else sig.replace("ensures", "requires " + extra + " ensures", 1)
                if drop:
                    m = re.search(drop, sig)
                    if not m:
                        raise RuntimeError("nothing to leave out of %s %s" % (rel, name))
                    sig = sig[:m.start()] + sig[m.end():]
                    drop = re.sub(r"\s+", " ", m.group(0)).strip(" ,")
                self.stubs.append("%s %s%s%s" % (rel, name, " (given also: %s)" % extra if extra else "", " (except: %s)" % drop if drop else ""))
                body = "\n".join(lines[i + 1:j])
                if self.vac:
                    self.reach += 1
                    body = " let __res = {" + body + "}; proof { assert(false); } __res "
                out.append(sig.rstrip() + "\n{" + body + "}\n")
                i = j
            elif ln.startswith("//@axiom "):
                rel, name, extra = [x.strip() for x in ln[9:].split(" | ")]
                j = i
                while lines[j].strip() != "//@end":
                    j += 1
                sig = self.template_axiom(rel, name)
                params = rustsrc.match_close(sig, sig.index("("))
                elems = re.findall(r"(\w+): GF<W>", sig[:params])
                extra = ", ".join(([extra] if extra != "-" else []) + ["ok(%s)" % v for v in elems])
                if extra:
                    if re.match(r"\s*requires\b", sig[params + 1:]):
                        sig = sig.replace("requires", "requires " + extra + ",", 1)
                    else:
                        sig = sig[:params + 1] + " requires " + extra + sig[params + 1:]
                self.stubs.append("%s %s%s" % (rel, name, " (given also: %s)" % extra if extra else ""))
                body = "\n".join(lines[i + 1:j])
                if self.vac:
                    self.reach += 1
                    body += " assert(false); "
                out.append(sig.rstrip() + "\n{" + body + "}\n")
                i = j
            elif ln.startswith("//@"):
                raise RuntimeError("bad directive %s in %s" % (ln, path))
            else:
                out.append(lines[i])
            i += 1
        return "\n".join(out)

    def template_fn(self, rel, impl, name):
        """A function of another template: its whole text, and the part before its body."""
        text = rustsrc.strip_comments(open(os.path.join(self.verif, "verus", rel)).read())
        k = 0
        if impl != "-":
            m = re.search(impl, text)
            if not m:
                raise RuntimeError("no %s in %s" % (impl, rel))
            k = m.end()
        m = re.compile(r"(?:pub(?:\(crate\))?\s+)?(?:(?:open|closed|uninterp)\s+)?(?:async\s+)?(?:spec|proof|axiom)?\s*\bfn\s+%s\b" % name).search(text, k)
        if not m:
            raise RuntimeError("no fn %s in %s" % (name, rel))
        # the body is the block in front of the next item; braces of the contract come before it
        e = m.end()
        while True:
            o = text.index("{", e)
            c = rustsrc.match_close(text, o)
            nxt = text[c + 1:].lstrip()
            if text[o + 1:c].strip().startswith("unimplemented!") or not nxt or re.match(r"(?:pub|fn|spec|proof|axiom|open|closed|uninterp|broadcast|impl|struct|enum|trait|type|mod|use|async|tracked|ghost|unsafe|const|#|\}|//)", nxt):
                return text[m.start():c + 1], text[m.start():o]
            e = c + 1

    def template_axiom(self, rel, name):
        """An axiom of another template, as the head of a proof."""
        text = rustsrc.strip_comments(open(os.path.join(self.verif, "verus", rel)).read())
        m = re.search(r"(?:pub\s+)?axiom\s+fn\s+%s\b[^;]*;" % name, text)
        if not m:
            raise RuntimeError("no axiom %s in %s" % (name, rel))
        return m.group(0).replace("axiom", "proof", 1)[:-1]

    def rewrite(self, text, spec, where):
        spec, _, reason = spec.partition(" # ")
        pat, _, rep = spec.partition(" ==> ")
        rep = rep.strip("\n")
        opt = pat.startswith("?")
        if opt:
            pat = pat[1:]
        new, n = re.subn(pat.strip(), rep.strip() if rep.strip() != "<nothing>" else "", text, flags=re.S)
        if n == 0:
            if opt:
                return text
            raise Lost("%s: nothing matches /%s/" % (where, pat.strip()))
        self.drops.append("%s: /%s/ -> `%s`%s" % (where, pat.strip(), rep.strip(), " (" + reason.strip() + ")" if reason else ""))
        return new

    def function(self, spec, lines):
        rel, impl, name = [x.strip() for x in spec.split(" | ")]
        where = rel + "::" + name
        if rel.endswith(".c"):
            fn = csrc.get_fn(self.src(rel), name)
            if "C translation" not in "".join(self.drops):
                self.drops.append("C translation (lib/csrc.py): " + " ".join(csrc.__doc__.split()))
        else:
            fn = rustsrc.get_fn(self.src(rel), name, None if impl == "-" else impl)
        self.functions.append(where)
        parts = []
        for l in lines:
            s = l.strip()
            if s.startswith("//@"):
                d, _, arg = s[3:].partition(" ")
                parts.append([d, arg, []])
            else:
                if not parts:
                    if s:
                        raise RuntimeError("text before directive in " + where)
                    continue
                parts[-1][2].append(l)
        head, body = fn.head, fn.body
        head = re.sub(r"^pub(\([a-z]+\))?\s+", "", head.strip())
        contract, entry, novac, rename, tail = "", "", False, None, None
        loops, closures, nloops, nclosures = {}, {}, None, None
        if self.std and not any(p[0] == "std" for p in parts):
            parts.insert(0, ["std", "", []])
        ins, attrs, ledge = [], [], {}
        for d, arg, txt in parts:
            t = "\n".join(txt)
            if d == "contract":
                contract = t
            elif d == "entry":
                entry = t
            elif d == "novac":
                novac = True
            elif d == "tail":
                tail = t
            elif d == "nofor":
                pass
            elif d == "rename":
                rename = arg.strip()
            elif d == "loops":
                nloops = int(arg)
            elif d == "closures":
                nclosures = int(arg)
            elif d == "loop":
                loops[int(arg)] = t
            elif d in ("loopstart", "loopend", "preloop"):
                ledge[(int(arg), d)] = t
            elif d == "closure":
                closures[int(arg)] = t
            elif d == "std":
                if "coins" in self.std:
                    body = map_init(body)
                if "spawn" in self.std:
                    body = debug_asserts(run_spawned(body))
                if "tab" in self.std:
                    body = array_macros(body)
                if "simple_fn" in self.std:
                    body = simple_fn(cycles(body))
                if "scan" in self.std:
                    body = scans(body)
                if "zip" in self.std:
                    body = zip_each(body)
                for n in sorted((x for x in self.std if x in STD), key=lambda x: x != "coins"):
                    for pat, rep in STD[n]:
                        body = re.sub(pat, rep, body)
                    if n + ":" not in "".join(self.drops):
                        self.drops.append("%s: %s" % (n, STDNOTE[n]))
            elif d == "rewrite":
                body = self.rewrite(body, arg, where)
            elif d == "head":
                head = self.rewrite(head, arg, where)
            elif d == "inline":
                body = inline_closure(body, arg.strip(), where)
                self.drops.append("%s: the local closure `%s` put in place of its calls" % (where, arg.strip()))
            elif d == "dropblock":
                spec, _, reason = arg.partition(" # ")
                ms = list(re.finditer(spec.strip(), body, flags=re.S))
                for m in reversed(ms):
                    o = rustsrc.find_top(body, m.start(), "{")
                    body = body[:m.start()] + body[rustsrc.match_close(body, o) + 1:]
                if ms:
                    self.drops.append("%s: block at /%s/ dropped (%s)" % (where, spec.strip(), reason.strip()))
            elif d == "args":
                # the call at the match (which ends before the opening parenthesis) with its arguments replaced
                sp, _, reason = arg.partition(" # ")
                pat, _, rep = sp.partition(" ==> ")
                opt = pat.startswith("?")
                ms = list(re.finditer(pat.lstrip("?").strip() + r"(?=\()", body, flags=re.S))
                if not ms and not opt:
                    raise Lost("%s: nothing matches /%s/" % (where, pat.strip()))
                for m in reversed(ms):
                    body = body[:m.start()] + m.expand(rep.strip()) + body[rustsrc.match_close(body, m.end()) + 1:]
                if ms:
                    self.drops.append("%s: call /%s/ with its arguments -> `%s` (%s)" % (where, pat.strip(), rep.strip(), reason.strip()))
            elif d == "addarg":
                pat, _, rep = arg.partition(" ==> ")
                ms = list(re.finditer(pat.strip() + r"(?=\()", body, flags=re.S))
                if not ms:
                    raise Lost("%s: nothing matches /%s/" % (where, pat.strip()))
                for m in reversed(ms):
                    e = rustsrc.match_close(body, m.end())
                    inner = body[m.end() + 1:e].rstrip().rstrip(",")
                    body = body[:m.end() + 1] + inner + (", " if inner.strip() else "") + rep.strip() + body[e:]
                self.drops.append("%s: ghost argument `%s` added to /%s/" % (where, rep.strip(), pat.strip()))
            elif d == "slice":
                # part of a function (a block handed to spawn): from the match to the end of its braces
                ms = list(re.finditer(arg.strip(), body, flags=re.S))
                if len(ms) != 1:
                    raise Lost("%s: %d places match /%s/" % (where, len(ms), arg.strip()))
                o = rustsrc.find_top(body, ms[0].start(), "{")
                if o < 0:
                    raise Lost("%s: no block after /%s/" % (where, arg.strip()))
                body = "\n" + body[ms[0].start():rustsrc.match_close(body, o) + 1] + "\n"
                self.drops.append("%s: the block starting at /%s/ alone, as a function of the variables it captures" % (where, arg.strip()))
            elif d == "sig":
                head = arg.strip()
            elif d == "attr":
                attrs.append(arg.strip())
            elif d == "ghost":
                k = rustsrc.match_close(head, head.index("("))
                head = head[:k].rstrip().rstrip(",") + ", " + arg.strip() + head[k:]
                self.drops.append("%s: ghost parameter `%s` added" % (where, arg.strip()))
            elif d in ("after", "before"):
                ins.append((d, arg.strip(), t))
            else:
                raise RuntimeError("bad directive //@%s in %s" % (d, where))
        if re.search(r"\basync\b", head[:head.index("(")]):
            # `mut x: T` as a parameter of an async fn is not accepted: rebind it in the body
            for v in re.findall(r"[(,]\s*mut\s+(\w+)\s*:", head):
                body = " let mut %s = %s; " % (v, v) + body
            head = re.sub(r"([(,]\s*)mut\s+(\w+\s*:)", r"\1\2", head)
        if re.search(r"\(\s*mut\s+self\b", head):
            head = re.sub(r"\(\s*mut\s+self\b", "(self", head)
            body = " let mut this = self; " + re.sub(r"\bself\b", "this", body)
            self.drops.append("%s: `mut self` as `self` rebound to a mutable variable" % where)
        if "for" in self.std and not any(p[0] == "nofor" for p in parts):
            body = for_loops(body)
            if "for loops" not in "".join(self.drops):
                self.drops.append("for loops over eager sequences as while loops over the index: `for PAT in EXPR { B }` is `let s = seq_of(EXPR); let mut k = 0; while k < s.len() { let PAT = s.at(k); k += 1; B }`")
        held = []
        for d, rx, t in ins:
            held.append(t)
            t = "__INS_%d__" % (len(held) - 1)  # put in at the end: its loops and closures are not the code's
            ms = list(re.finditer(rx, body, flags=re.S))
            if len(ms) != 1:
                raise Lost("%s: %d places match /%s/" % (where, len(ms), rx))
            m = ms[0]
            if d == "after":
                e = rustsrc.find_top(body, m.start(), ";")
                if e < 0:
                    raise Lost("%s: no statement end after /%s/" % (where, rx))
                body = body[:e + 1] + "\n" + t + "\n" + body[e + 1:]
            else:
                body = body[:m.start()] + "\n" + t + "\n" + body[m.start():]
        # Invariants and closure contracts are written for this number of loops and closures: with another
        # structure they say nothing, and the unit is not available rather than failed.
        have = len(rustsrc.find_loops(body))
        want = nloops if nloops is not None else len(loops)
        if have != want:
            raise Lost("%s: %d loops where the contracts describe %d" % (where, have, want))
        have = len(rustsrc.find_closures(body))
        want = nclosures if nclosures is not None else len(closures)
        if have != want:
            raise Lost("%s: %d closures where the contracts describe %d" % (where, have, want))
        if closures:
            cl = rustsrc.find_closures(body)
            for k in sorted(closures, reverse=True):
                if k >= len(cl):
                    raise Lost("%s: closure %d not present" % (where, k))
                st, pe, es, ee, blk = cl[k]
                lets = closure_lets(body[st + 1:rustsrc.close_bar(body, st)], closures[k])
                # nested closures have been edited already: find the end of the expression again
                if body[es] == "{":
                    ee = rustsrc.match_close(body, es) + 1
                    inner = "{" + lets + body[es + 1:ee]
                else:
                    ee = rustsrc.find_top(body, es, ",;)]}")
                    inner = "{ " + lets + body[es:ee] + " }"
                body = body[:st] + closures[k].strip() + " " + inner + body[ee:]
        lp = rustsrc.find_loops(body)
        for k in reversed(range(len(lp))):
            b = lp[k][1]
            e = rustsrc.match_close(body, b)
            if (k, "loopend") in ledge:
                body = body[:e].rstrip() + ("" if body[:e].rstrip()[-1] in ";{" else ";") + "\n" + ledge[(k, "loopend")] + "\n" + body[e:]
            if (k, "loopstart") in ledge:
                body = body[:b + 1] + "\n" + ledge[(k, "loopstart")] + "\n" + body[b + 1:]
            if re.match(r"while __k%d < __s%d\.len\(\) $" % (k, k), body[lp[k][0]:b]):
                std = " invariant __k%d <= __s%d@.len() <= usize::MAX, " % (k, k)
                if "invariant" in loops.get(k, ""):
                    loops[k] = re.sub(r"\binvariant\b", std, loops[k], count=1)
                else:
                    loops[k] = std + loops.get(k, "")
                if not re.search(r"\bdecreases\b", loops[k]):
                    loops[k] = loops[k].rstrip().rstrip(",") + ",\n decreases __s%d@.len() - __k%d" % (k, k)
            if k in loops:
                body = body[:b] + "\n" + loops[k] + "\n" + body[b:]
            if (k, "preloop") in ledge:
                body = body[:lp[k][0]] + "\n" + ledge[(k, "preloop")] + "\n" + body[lp[k][0]:]
        for k, t in enumerate(held):
            body = body.replace("__INS_%d__" % k, t)
        rty = None
        # name the result (an async fn without one gets `-> ()`, or its postcondition is not used at `.await`)
        if re.search(r"\basync\b", head[:head.index("(")]) and "->" not in head:
            head = head.rstrip() + " -> ()"
        m = re.search(r"->", head)
        if m:
            # skip arrows inside the parameter list
            p = head.index("(")
            c = rustsrc.match_close(head, p)
            m = re.compile(r"\s*->\s*").match(head, c + 1)
            if m:
                w = re.search(r"\bwhere\b", head[m.end():])
                ty = head[m.end():m.end() + w.start()] if w else head[m.end():]
                rest = head[m.end() + w.start():] if w else ""
                rty = ty.strip()
                head = head[:c + 1] + " -> (res: %s) " % ty.strip() + rest
        if tail is not None:
            k = rustsrc.tail_start(body)
            if not body[k:].strip():
                raise Lost("%s: no final expression" % where)
            body = body[:k] + "\n let __out%s = " % (": " + rty if rty else "") + body[k:].strip() + ";\n" + tail + "\n __out\n"
        if rename:
            head = re.sub(r"\bfn\s+%s\b" % name, "fn " + rename, head)
        if self.vac and not novac:
            self.reach += 1
            body = re.sub(r"\breturn\s+([^;{}]*);\s*$", r"\1\n", body)
            body = " let __res = {" + entry + body + "}; proof { assert(false); } __res "
        else:
            body = entry + body
        return "%s%s\n%s\n{%s}\n" % ("".join(a + "\n" for a in attrs), head, contract, body)


def inline_closure(body, name, where):
    """`let mut f = |x: T| { B };` with calls `f(e)` as `{ let x: T = e; B }` at each call."""
    m = re.search(r"\blet\s+(?:mut\s+)?%s\s*=\s*\|" % name, body)
    if not m:
        raise Lost("%s: closure %s" % (where, name))
    pe = rustsrc.close_bar(body, m.end() - 1)
    params = [x for x in rustsrc.split_top(body[m.end():pe]) if x.strip()]
    b = rustsrc.find_top(body, pe + 1, "{")
    e = rustsrc.match_close(body, b)
    if re.sub(r"->\s*\w+", "", body[pe + 1:b]).strip() or not re.match(r"\s*;", body[e + 1:]):
        raise Lost("%s: closure %s is not a block" % (where, name))
    blk = body[b + 1:e]
    if re.search(r"\breturn\b", blk):
        raise Lost("%s: return in closure %s" % (where, name))
    body = body[:m.start()] + body[body.index(";", e) + 1:]
    while True:
        c = re.search(r"\b%s\(" % name, body)
        if not c:
            break
        e = rustsrc.match_close(body, c.end() - 1)
        args = [a.strip() for a in rustsrc.split_top(body[c.end():e]) if a.strip()]
        if len(args) != len(params):
            raise Lost("%s: call of closure %s" % (where, name))
        body = body[:c.start()] + "{ " + " ".join("let %s = %s;" % (p.strip(), a) for p, a in zip(params, args)) + blk + "}" + body[e + 1:]
    if re.search(r"\b%s\b" % name, body):
        raise Lost("%s: closure %s used otherwise" % (where, name))
    return body


def map_init(body):
    """`.map_init(rand::thread_rng, |rng, x| B)` as `.map(|x| { let mut __r = thread_rng(); B })` with rng as `&mut __r`."""
    while True:
        m = re.search(r"\.map_init\(\s*rand::thread_rng\s*,\s*\|\s*(\w+)\s*,\s*(\w+)\s*\|", body)
        if not m:
            return body
        e = rustsrc.match_close(body, body.index("(", m.start()))
        inner = body[m.end():e].strip().rstrip(",")
        inner = re.sub(r"\b%s\b(?=\s*[,)])" % m.group(1), "&mut __r", inner)
        inner = re.sub(r"\b%s\b(?=\s*\.)" % m.group(1), "__r", inner)
        body = body[:m.start()] + ".map(|%s| { let mut __r = thread_rng(); %s })" % (m.group(2), inner) + body[e + 1:]


def cycles(body):
    """A closure handing out the elements of a vector round and round (`let mut i = v.into_iter().cycle(); move || i.next().unwrap()`) as `Cycle::of(v)`; filling an array with it and repeat_with(g).take(k) as calls on it."""
    body, k = re.subn(r"let\s+mut\s+(\w+)\s*=\s*(\w+)\s*\.into_iter\(\)\s*\.cycle\(\)\s*;\s*move\s*\|\s*\|\s*\1\s*\.next\(\)\s*\.unwrap\(\)", r"Cycle::of(\2)", body)
    if not k:
        return body
    for m in reversed(list(re.finditer(r"\bArray([123])::from_shape_simple_fn\(|\b(?:std::)?iter::repeat_with\(", body))):
        e = rustsrc.match_close(body, m.end() - 1)
        args = [a.strip() for a in rustsrc.split_top(body[m.end():e]) if a.strip()]
        g = re.match(r"(&mut )?(\w+)$", args[-1])
        if not g:
            continue
        b = re.search(r"\blet\s+(?:mut\s+)?%s\s*=\s*" % g.group(2), body)
        if not b or "Cycle::of(" not in body[b.end():rustsrc.find_top(body, b.end(), ";")]:
            continue
        own = "" if g.group(1) else "all_"
        if m.group(1):
            body = body[:m.start()] + "%s.%sarray%s(%s)" % (g.group(2), own, m.group(1), args[0]) + body[e + 1:]
        else:
            t = re.compile(r"\s*\.take\(").match(body, e + 1)
            if not t:
                raise Lost("repeat_with without take")
            body = body[:m.start()] + "%s.%stake(" % (g.group(2), own) + body[t.end():]
    return body


def simple_fn(body):
    """`ArrayN::from_shape_simple_fn(SHAPE, || B)` as a loop pushing B once per element; a closure bound by `let` is put in place."""
    n = 0
    while True:
        m = re.search(r"\bArray([123])::from_shape_simple_fn\(", body)
        if not m:
            return body
        e = rustsrc.match_close(body, m.end() - 1)
        args = rustsrc.split_top(body[m.end():e])
        if len([a for a in args if a.strip()]) != 2:
            raise Lost("from_shape_simple_fn with %d arguments" % len(args))
        sh, f = args[0].strip(), args[1].strip()
        pre = body[:m.start()]
        if re.match(r"(?:&mut )?\w+$", f):
            name = f.replace("&mut ", "")
            b = re.search(r"\blet\s+(?:mut\s+)?%s\s*=\s*(?=(?:move\s+)?\|\s*\|)" % name, pre)
            if not b:
                raise Lost("closure %s" % name)
            s = rustsrc.find_top(pre, b.end(), ";")
            f = pre[b.end():s].strip()
            pre = pre[:b.start()] + pre[s + 1:]
        c = re.match(r"(?:move\s+)?\|\s*\|", f)
        if not c:
            raise Lost("from_shape_simple_fn of something else than a closure")
        f = f[c.end():].strip()
        d = m.group(1)
        mk = "Array1::from_vec(__v%d)" % n if d == "1" else "Array%s::from_shape_vec(__h%d, __v%d).unwrap()" % (d, n, n)
        body = pre + "{ let __h%d = %s; let mut __v%d = Vec::new(); for _ in 0..volume%s(__h%d) { let __e = %s; __v%d.push(__e); } %s }" % (n, sh, n, d, n, f, n, mk) + body[e + 1:]
        n += 1


def scans(body):
    """Collected chains whose closure changes what it captures, as loops: the n-th fills __wn."""
    body = body[:]
    n = 0
    while True:
        m = re.search(r"\.\s*scan\(|\.\s*map\(\s*\|\s*_\s*\|", body)
        if not m:
            break
        o = m.start() + body[m.start():m.end()].index("(")
        e = rustsrc.match_close(body, o)
        c = re.compile(r"\s*\.collect(?:::<[^()]*>)?\(\)").match(body, e + 1)
        if not c:
            raise Lost("scan that is not collected")
        # start of the chain: after `=` of the statement
        st = max(body.rfind(ch, 0, m.start()) for ch in ";{}")
        q = re.compile(r"[^=;]*?=(?!=)\s*").match(body, st + 1)
        if not q:
            raise Lost("scan outside a let")
        src = body[q.end():m.start()].strip()
        if "scan" in m.group(0):
            args = rustsrc.split_top(body[o + 1:e])
            a, f = args[0].strip(), ",".join(args[1:]).strip().rstrip(",")
            g = re.match(r"\|\s*(\w+)\s*,\s*(&?\w+)\s*\|\s*\{(.*)\bSome\(", f, flags=re.S)
            if not g:
                raise Lost("scan with another closure")
            b = f.index("Some(", g.end() - 5) + 4
            z = rustsrc.match_close(f, b)
            if f[z + 1:].strip() != "}":
                raise Lost("scan with another closure")
            pre, ex = g.group(3), f[b + 1:z]
            fix = lambda t: re.sub(r"\*\s*%s\b" % g.group(1), g.group(1), t)
            new = "{ let mut %s = %s; let mut __w%d = Vec::new(); for %s in %s { %s let __e = %s; __w%d.push(__e); } __w%d }" % (g.group(1), a, n, g.group(2), src, fix(pre), fix(ex), n, n)
        else:
            r = re.match(r"\((.*)\)$", src, flags=re.S)
            if not r or top_range(r.group(1)) is None:
                raise Lost("map(|_| ..) over something else than a range")
            new = "{ let mut __w%d = Vec::new(); for _ in %s { let __e = %s; __w%d.push(__e); } __w%d }" % (n, r.group(1), body[m.end():e].strip().rstrip(","), n, n)
        body = body[:q.end()] + new + body[c.end():]
        n += 1
    for m in reversed(list(re.finditer(r"\)\s*\.collect\(\)", body))):
        o = m.start()
        d = 0
        while o >= 0:
            d += {")": 1, "(": -1}.get(body[o], 0)
            if d == 0:
                break
            o -= 1
        inner = body[o + 1:m.start()]
        if re.search(r"\w$", body[:o].rstrip()[-1:]) or top_range(inner) is None:
            continue
        k, inc = top_range(inner)
        if not inc:
            body = body[:o] + "range_of(%s, %s).collect()" % (inner[:k], inner[k + 2:]) + body[m.end():]
    return body


def run_spawned(body):
    """`spawn(async move { B })` as `ready({ B })`, `spawn(f(..))` as `ready(f(..).await)`, and awaiting a handle as reading its result."""
    k = 0
    while True:
        m = re.compile(r"\bspawn\(").search(body, k)
        if not m:
            break
        e = rustsrc.match_close(body, m.end() - 1)
        inner = body[m.end():e].strip().rstrip(",")
        a = re.match(r"async\s+move\s*(?=\{)", inner)
        inner = inner[a.end():] if a else inner + ".await"
        body = body[:m.start()] + "ready(" + inner + ")" + body[e + 1:]
        k = m.start() + 6
    return re.sub(r"\b(\w+)\s*\.await\s*\.unwrap\(\)", r"\1.joined()", body)


def debug_asserts(body):
    """debug_assert!/debug_assert_eq! as calls with a precondition; those on shapes are left out."""
    while True:
        m = re.search(r"\bdebug_assert(_eq)?!\(", body)
        if not m:
            return body
        e = rustsrc.match_close(body, m.end() - 1)
        args = [a.strip() for a in rustsrc.split_top(body[m.end():e]) if a.strip()]
        end = e + 1
        if body[end:end + 1] == ";":
            end += 1
        if ".shape()" in body[m.end():e]:
            new = ""
        else:
            new = "check(%s);" % (args[0] if not m.group(1) else args[0] + " == " + args[1])
        body = body[:m.start()] + new + body[end:]


def array_macros(body):
    """ndarray's array!, stack! and concatenate! macros as constructor calls, `x += &e;` as a call, columns replaced one by one as a map."""
    body = re.sub(r"(\w+)\s*\.columns_mut\(\)\s*\.into_iter\(\)\s*\.for_each\(\|(\w+)\|\s*\{\s*let (\w+) = ([^;]*);\s*Zip::from\(\2\)\s*\.and\(&\3\)\s*\.for_each\(\|(\w+), &(\w+)\|\s*\{?\s*\*\5 = \6;?\s*\}?\s*\);\s*\}\);",
                  r"\1.map_columns(|\2| \4);", body)
    while True:
        m = re.search(r"\b(?:ndarray::)?(array|stack|concatenate)![\[(]", body)
        if not m:
            break
        e = rustsrc.match_close(body, m.end() - 1)
        args = [a.strip() for a in rustsrc.split_top(body[m.end():e]) if a.strip()]
        if m.group(1) == "array":
            new = "Array1::single(%s)" % args[0] if len(args) == 1 else "Array1::from_vec(vec![%s])" % ", ".join(args)
        elif m.group(1) == "concatenate" and "from_shape_simple_fn" in body[m.end():e]:
            new = "{ %s Array2::joined(%s, vec![%s]) }" % (" ".join("let __p%d = %s;" % x for x in enumerate(args[1:])), args[0], ", ".join("__p%d.vw()" % i for i in range(len(args) - 1)))
        elif m.group(1) == "concatenate":
            new = "Array2::joined(%s, vec![%s])" % (args[0], ", ".join(a.lstrip("&") + ".vw()" for a in args[1:]))
        else:
            new = "Array2::stacked(%s, vec![%s])" % (args[0], ", ".join(a + ".vw()" for a in args[1:]))
        body = body[:m.start()] + new + body[e + 1:]
    return re.sub(r"(?<=[\s;{}])(\w+)\s*\+=\s*(&[^;]*);", r"\1.add_in(\2);", body)


def zip_each(body):
    """ndarray's Zip over whole arrays as calls: an update in place as zip_upd with the new value returned by the closure."""
    while True:
        m = re.search(r"\bZip::from\(&mut (\w+)\)\s*\.and\(&(\w+)\)\s*\.(?:par_)?for_each\(\s*\|\s*(\w+)\s*,\s*(\w+)\s*\|", body)
        if not m:
            break
        e = rustsrc.match_close(body, m.start() + body[m.start():m.end()].rindex("("))
        inner = body[m.end():e].strip().rstrip(",")
        inner = re.sub(r"\*\s*%s\b" % m.group(3), "__v", inner)
        if inner.startswith("{"):
            inner = inner[1:-1].strip()
        inner = re.sub(r"\b__v\s*([-+*/])=\s*([^;]+)", r"__v = __v \1 \2", inner.rstrip(";"))
        body = body[:m.start()] + "zip_upd(&mut %s, &%s, |%s, %s| { let mut __v = %s; %s; __v })" % (m.group(1), m.group(2), m.group(3), m.group(4), m.group(3), inner) + body[e + 1:]
    body = re.sub(r"\bZip::from\(&(\w+)\)\s*\.and\(&(\w+)\)\s*\.(?:par_)?map_collect\(", r"zip2(&\1, &\2, ", body)
    return re.sub(r"\bZip::from\(&(\w+)\)\s*\.and\(&(\w+)\)\s*\.and\(&(\w+)\)\s*\.(?:par_)?map_collect\(", r"zip3(&\1, &\2, &\3, ", body)


def for_loops(body):
    """`for PAT in EXPR {` as a while loop over the index of an eager sequence; the N-th loop uses __sN and __kN."""
    lp = rustsrc.find_loops(body)
    for n in reversed(range(len(lp))):
        st, b = lp[n]
        m = re.match(r"for\s+(.*?)\s+in\s+(?!it\d*:)(.*)$", body[st:b].strip(), flags=re.S)
        if not m or re.match(r"\w+\s*:[^:]", m.group(2)):
            continue
        pat, ex = m.group(1), m.group(2).strip()
        r = re.match(r"(.*?)\.\.(=?)(.*)$", ex, flags=re.S)
        if r and rustsrc.split_top(ex, "\0") and rustsrc.find_top(ex, 0, ".") >= 0 and top_range(ex) is not None:
            k, inc = top_range(ex)
            ex = "%s(%s, %s)" % ("range_incl" if inc else "range_of", ex[:k].strip(), ex[k + (3 if inc else 2):].strip())
        body = (body[:st] + "let __s%d = seq_of(%s); let mut __k%d: usize = 0; while __k%d < __s%d.len() " % (n, ex, n, n, n)
                + "{ %s __k%d = __k%d + 1; " % (bind(pat, "__s%d.at(__k%d)" % (n, n)) if pat != "_" else "", n, n) + body[b + 1:])
    return body


def top_range(ex):
    """Index of a `..` outside brackets, and whether it is `..=`."""
    i = 0
    while i < len(ex) - 1:
        if ex[i] in "([{":
            i = rustsrc.match_close(ex, i)
        elif ex.startswith("..", i):
            return i, ex.startswith("..=", i)
        i += 1
    return None


def closure_lets(params, header):
    """Statements binding the closure's own parameter patterns to the parameters of the annotated header."""
    m = re.match(r"\s*\|", header)
    hp = header[m.end():rustsrc.close_bar(header, m.end() - 1)]
    a, b = rustsrc.split_top(params), rustsrc.split_top(hp)
    if len(a) != len(b):
        raise Lost("closure with %d parameters where the contract has %d" % (len(a), len(b)))
    out = ""
    for x, y in zip(a, b):
        x = rustsrc.split_top(x, ":")[0].strip()
        y = rustsrc.split_top(y, ":")[0].strip()
        out += bind(x, y)
    return out


def bind(pat, val):
    pat = pat.strip()
    if pat == val or pat == "_":
        return ""
    if pat.startswith("&"):
        return bind(pat[1:], "(*%s)" % val)
    if pat.startswith("("):
        return "".join(bind(p, "%s.%d" % (val, i)) for i, p in enumerate(rustsrc.split_top(pat[1:-1])))
    return "let %s = %s; " % (pat, val)


CLAUSE = re.compile(r"^error(?:\[[A-Z0-9]+\])?: (.*)$", re.M)
TRUST = re.compile(r"(#\[verifier::external_body\]|#\[verifier::external\]|assume_specification|\badmit\(\)|\bassume\(|\baxiom fn\b|#\[verifier::external_type_specification\])")


def trusted_scan(text):
    """Every construct whose body Verus does not check, with the name of the item it applies to."""
    res = []
    for m in TRUST.finditer(text):
        tail = text[m.end():m.end() + 400]
        k = m.group(1)
        if k in ("assume(", "admit()"):
            res.append("%s at %r" % (k, text[max(0, m.start() - 40):m.end() + 40].replace("\n", " ")))
            continue
        if k == "assume_specification":
            n = re.search(r"\[([^\]]*)\]", tail)
            res.append("assumed specification of " + (n.group(1).strip() if n else "?"))
            continue
        if k == "axiom fn":
            n = re.match(r"\s*(\w+)", tail)
            res.append("axiom " + (n.group(1) if n else "?"))
            continue
        n = re.search(r"\b(fn|struct|enum)\s+(\w+)", tail)
        res.append("%s %s (%s)" % (n.group(1) if n else "?", n.group(2) if n else "?", "body not verified" if "body" in k else "external"))
    return sorted(set(res))


def run_file(path, env, extra=(), timeout=300):
    cmd = ["verus", "--crate-type=lib", "--output-json", "--time", "--multiple-errors", "4", "--triggers-mode", "silent", "-A", "warnings"] + list(extra) + [path]
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return cmd, None, "timeout", time.time() - t
    try:
        js = json.loads(r.stdout)
    except ValueError:
        js = None
    return cmd, js, r.stderr, time.time() - t


def run(name, repo, verif, target, env):
    u = Unit(name, verif, repo)
    res = {"backend": "verus", "unit": name, "status": "unavailable", "obligations": 0, "discharged": 0, "solver_s": 0.0,
           "label": "deductive, unbounded", "detail": "", "trusted": [], "functions": [], "assumptions": [], "failed": [],
           "output": "", "cmd": "verus target/verus/%s.rs" % name}
    d = os.path.join(target, "verus")
    os.makedirs(d, exist_ok=True)
    try:
        text = u.build(False)
    except Lost as e:
        res["detail"] = "anchor lost: %s" % e
        return res
    path = os.path.join(d, name + ".rs")
    with open(path, "w") as fh:
        fh.write(text)
    res["functions"], res["assumptions"] = list(u.functions), \
        ["verus/%s: %s" % (name, x) for x in u.notes] + ["verus/%s extraction: %s" % (name, x) for x in u.drops]
    res["trusted"] = ["verus/%s: %s" % (name, x) for x in trusted_scan(text)] + ["Verus, its Rust-to-SMT encoding and Z3"]
    cmd, js, err, wall = run_file(path, env)
    res["cmd"] = " ".join(cmd)
    res["output"] = err
    if js is None or "verification-results" not in js:
        res["detail"] = "verifier did not finish: " + err[-600:]
        return res
    vr = js["verification-results"]
    try:
        res["solver_s"] = round(js["times-ms"]["smt"]["total"] / 1000.0, 2)
    except (KeyError, TypeError):
        res["solver_s"] = round(wall, 2)
    errs = [e for e in CLAUSE.findall(err) if not e.startswith("aborting due")]
    if errs and all(e.startswith("expression simplifies to false") for e in errs):
        # A fact that the verifier decides by computation.
        res["obligations"] = len(errs)
        res["status"], res["failed"], res["detail"] = "failed", errs, "; ".join(errs)[:600]
        return res
    if vr.get("encountered-vir-error") or ("verified" not in vr) or (vr.get("errors", 0) == 0 and not vr.get("success")):
        res["detail"] = "construct outside the verifier's dialect: " + "; ".join(errs)[:600]
        return res
    res["obligations"] = vr["verified"] + vr["errors"]
    res["discharged"] = vr["verified"]
    if vr["errors"]:
        if any("Resource limit" in e or "rlimit" in e for e in errs) or "Resource limit (rlimit) exceeded" in err:
            res["detail"] = "resource limit exceeded: " + "; ".join(errs)[:600]
            return res
        res["status"] = "failed"
        res["failed"] = errs
        res["detail"] = "; ".join(errs)[:600]
        return res
    if vr["verified"] == 0:
        res["detail"] = "no obligations generated"
        return res
    # Reachability: the end of every extracted body must be reachable under its precondition.
    text = u.build(True)
    if u.reach:
        vpath = os.path.join(d, name + "_reach.rs")
        with open(vpath, "w") as fh:
            fh.write(text)
        _, js2, err2, _ = run_file(vpath, env)
        # false not derived, also not within the resource limit
        n = err2.count("error: assertion failed") + len(re.findall(r"Resource limit \(rlimit\) exceeded", err2))
        if js2 is None or "verified" not in js2.get("verification-results", {}):
            res["detail"] = "reachability copy not accepted: " + err2[-500:]
            return res
        if n < u.reach:
            res["detail"] = "vacuous: only %d of %d bodies have a reachable end" % (n, u.reach)
            return res
        res["detail"] = "end of body reachable in %d of %d functions" % (n, u.reach)
    if u.stubs:
        res["detail"] += "; contracts that other units assume, proved here: " + ", ".join(u.stubs)
    res["status"] = "proved"
    return res
