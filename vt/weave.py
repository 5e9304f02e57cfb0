"""Weaver: copies /repo/src into a shadow crate and injects the contracts of /verif/contracts.

Everything in the shadow crate is the text of /repo/src, token for token, except for
  * ghost text (requires/ensures/invariants/proof blocks/spec items) inserted at anchors,
  * `verus! { }` wrappers around the items under contract (contracted methods of an inherent impl are
    moved into an `impl` block of their own with the same header),
  * the rewrites listed in RULES and the `@rewrite`/`@mono`/`@expand` directives of the contract files, each recorded in
    the weave report,
  * dropped: `#[cfg(test)]` items, doc attributes, the modules named in DROP_MODS.
"""
import json, os, re, sys
import rustlex as R

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DROP_MODS = {"verif"}
# only functions and items under contract are taken from these (their impls are of traits of other crates, absent here)
EXTRACT_MODS = {"rand", "serde", "num_traits"}

WIDTHS = {
    # name: (word bits, arch dir)
    "x86_64": (64, "x86_64"),
    "g64": (64, "generic_64_bit"),
    "g32": (32, "generic_32_bit"),
    "g16": (16, "generic_16_bit"),
}


class FnSpec:
    def __init__(self, path, ret, src):
        self.path, self.ret, self.src = path, ret, src
        self.spec = ""
        self.attrs = []
        self.ins = []      # (where, arg, text)
        self.loops = {}    # idx -> (itername, text)
        self.rewrites = []  # (from, to, optional)
        self.trusted = None
        self.props = set()
        self.mono = []
        self.sig = None
        self.pre = ""
        self.opreq = False
        self.panics = None
        self.toolarge = None
        self.listed = False


class FileSpec:
    def __init__(self, path):
        self.path = path
        self.mod = ""
        self.fns = []
        self.items = []
        self.expand = []
        self.filerw = []
        self.closures = []
        self.itemrw = []
        self.impls = {}
        self.consts = {}
        self.strip = {}
        self.extern = set()
        self.tops = ""


def expand_for(lines, bits):
    """`@for $A $B in a,b c,d` .. `@endfor`: repeat the block with the substitutions."""
    out, i = [], 0
    while i < len(lines):
        if lines[i].startswith("@for "):
            names, _, vals = lines[i][5:].partition(" in ")
            j = i + 1
            d = 1
            while True:
                d += lines[j].startswith("@for ") - lines[j].startswith("@endfor")
                if d == 0:
                    break
                j += 1
            block = lines[i + 1:j]
            for v in vals.split():
                b = "\n".join(block)
                for n, x in sorted(zip(names.split(), v.split(",")), key=lambda t: -len(t[0])):
                    b = b.replace(n, x.replace("~", " "))
                out += [(i + 1 + k, l) for k, (_, l) in enumerate(expand_for(b.split("\n"), bits))]
            i = j + 1
        else:
            out.append((i + 1, lines[i]))
            i += 1
    return out


def parse_contracts(paths, width):
    files = {}
    cur = None
    fn = None
    sink = None
    bits = WIDTHS[width][0]
    for p in paths:
        base = os.path.basename(p)
        cond = [True]
        sink = None
        for ln, line in expand_for(open(p).read().split("\n"), bits):
            if line.startswith("@if "):
                c = line[4:].strip()
                cond.append(cond[-1] and eval(c, {"bits": bits, "width": width}))
                continue
            if line.startswith("@endif"):
                cond.pop()
                continue
            if not cond[-1]:
                continue
            if "$" in line:
                for k, v in (("$WBYTES", str(bits // 8)), ("$MWD", str({64: 41, 32: 21, 16: 11}[bits])), ("$BITS", str(bits)), ("$DBITS", str(2 * bits)), ("$BASE", hex(1 << bits)), ("$MAX", hex((1 << bits) - 1)), ("$DMAX", hex((1 << 2 * bits) - 1)), ("$SW", f"i{bits}"), ("$DW", f"u{2 * bits}"), ("$W", f"u{bits}")):
                    line = line.replace(k, v)
            if not line.startswith("@"):
                if sink:
                    sink(line + "\n")
                continue
            d, _, rest = line[1:].partition(" ")
            rest = rest.strip()
            if d == "#":
                continue
            if d == "file":
                cur = files.setdefault(rest, FileSpec(rest))
                fn = None
                sink = None
            elif d == "mod":
                def sink(t, c=cur):
                    c.mod += t
            elif d == "plain":
                def sink(t, c=cur):
                    c.tops += t
            elif d == "item":
                a = rest.split()
                cur.items.append(" ".join(a[:2]))
                cur.strip[" ".join(a[:2])] = a[3:]
                if a[2:3] == ["external"]:
                    cur.extern.add(" ".join(a[:2]))
                sink = None
            elif d == "static":
                # @static NAME ensures ..: an exec static whose initialiser is verified against the clause
                k, _, e = rest.partition(" ")
                cur.items.append("static " + k)
                cur.consts["static " + k] = e
                sink = None
            elif d == "const":
                # @const Type::NAME ensures ..: the verifier takes the value from this clause; a const assertion on the real
                # constant (in @plain, evaluated by rustc) justifies it
                k, _, e = rest.partition(" ")
                if "::" not in k:
                    k = "const " + k
                cur.items.append(k)
                cur.consts[k] = e
                sink = None
            elif d == "filerewrite":
                # @filerewrite `pat` => `text`: everywhere in the file, before anything else
                m = re.match(r"`(.*?)`\s*=>\s*`(.*?)`", rest)
                cur.filerw.append((m.group(1), m.group(2)))
                sink = None
            elif d == "itemrewrite":
                # @itemrewrite `pat` => `text`: in the item last named (contracts of trait methods)
                m = re.match(r"`(.*?)`\s*=>\s*`(.*?)`", rest)
                cur.itemrw.append((cur.items[-1], m.group(1), m.group(2)))
                sink = None
            elif d == "inlineclosure":
                # @inlineclosure NAME: `let mut NAME = |p, ..| BODY;` is removed and every call NAME(p, ..) replaced by BODY
                cur.closures.append(rest)
                sink = None
            elif d == "expand":
                cur.expand.append(rest)
                sink = None
            elif d == "impl":
                # extra ghost items inside a (trait) impl that is put under verus whole
                cur.impls.setdefault(R.norm(R.lex(rest)), "")
                def sink(t, c=cur, k=R.norm(R.lex(rest))):
                    c.impls[k] += t
            elif d in ("fn", "trusted"):
                m = re.match(r"(.*?)\s*(?:->\s*(\w+))?$", rest)
                path, ret = m.group(1).strip(), m.group(2)
                fn = FnSpec(path, ret, f"{base}:{ln}")
                if d == "trusted":
                    fn.trusted = True
                cur.fns.append(fn)
                def sink(t, f=fn):
                    f.spec += t
            elif d == "overlay":
                # a second contract set over the first: only the functions it names (@also) are verified here, all others stand by
                # their base contracts (verified by the checks of the other properties)
                files["overlay"] = True
                sink = None
            elif d == "also":
                # @also PATH: more contract text for a function that already has a contract
                path, _, name = rest.partition(" as ")
                c = [f for f in cur.fns if f.path == path.strip() and (not name or getattr(f, "method2fn", [""])[0] == name.strip() or any(m[2] == name.strip() for m in f.mono))]
                if not c:
                    raise SyntaxError(f"{p}:{ln}: no contract to extend for {rest}")
                fn = c[0]
                fn.listed = True
                def sink(t, f=fn):
                    if t.strip():
                        raise SyntaxError(f"{f.path}: clause text after @also: {t}")
            elif d == "toolarge":
                # the one condition (over the entry state) under which the function may refuse because a number is too large
                fn.toolarge = rest
                def sink(t, f=fn):
                    if t.strip():
                        raise SyntaxError(f"{f.path}: clause text after @toolarge: {t}")
            elif d == "attr":
                fn.attrs.append(rest)
                def sink(t, f=fn):
                    f.spec += t
            elif d == "mono":
                # @mono T=Word as name   (applies to the current fn)
                m = re.match(r"(\w+)\s*=\s*(.+?)\s+as\s+(\w+)$", rest)
                fn.mono.append((m.group(1), m.group(2).replace("'static_", "'static "), m.group(3)))
                # several parameters: @mono A=X;B=Y as name
                def sink(t, f=fn):
                    f.spec += t
            elif d == "defun":
                # @defun PARAM=path as name: a copy of the function with its function-valued parameter PARAM replaced by the
                # function `path` (the call sites name the copy through a rewrite); removes higher-order recursion
                m = re.match(r"(\w+)\s*=\s*(.+?)\s+as\s+(\w+)$", rest)
                fn.mono.append(m.groups())
                fn.defun = True
                def sink(t, f=fn):
                    f.spec += t
            elif d == "method2fn":
                # @method2fn fname SelfType [A::B=Type ...]: verify a trait-impl method as a free function (its body text,
                # `self`/`Self` substituted); the impl itself stays in place for the rest of the crate
                a = rest.split()
                fn.method2fn = (a[0], a[1], dict(x.split("=") for x in a[2:]))
                def sink(t, f=fn):
                    f.spec += t
            elif d == "rewrite":
                m = re.match(r"`(.*?)`\s*=>\s*`(.*?)`", rest)
                fn.rewrites.append((m.group(1), m.group(2)))
                def sink(t, f=fn):
                    f.spec += t
            elif d == "pre":
                # precondition of a method of an external trait (the verifier permits no `requires` there): the body is
                # verified under it and callers get the postcondition only when it holds
                fn.pre = (fn.pre + " && " if fn.pre else "") + "(" + rest + ")"
                def sink(t, f=fn):
                    f.spec += t
            elif d == "panics":
                # the one condition (over the entry state) under which the function may reach a documented panic: becomes the
                # precondition `COND ==> may_panic()`, and the panic functions require may_panic()
                fn.panics = rest
                def sink(t, f=fn):
                    f.spec += t
            elif d == "sig":
                m = re.match(r"`(.*?)`\s*=>\s*`(.*?)`", rest)
                fn.sig = (fn.sig or []) + [(m.group(1), m.group(2))]
                def sink(t, f=fn):
                    f.spec += t
            elif d == "loop":
                a = rest.split()
                idx = int(a[0])
                it = a[1] if len(a) > 1 else None
                fn.loops[idx] = [it, ""]
                fn.loopidx = getattr(fn, "loopidx", {})
                if "idx" in a[2:]:
                    fn.loopidx[idx] = a[1]
                    # over IDENT EXPR [rev]: the loop runs over the rest of a partly consumed slice iterator IDENT, which is EXPR
                    if "over" in a:
                        o = a.index("over")
                        fn.loopover = {**getattr(fn, "loopover", {}), idx: (a[o + 1], a[o + 2], "rev" in a[o + 3:])}
                    fn.loops[idx][0] = None
                fn.loopmut = getattr(fn, "loopmut", set()) | ({idx} if "iter_mut" in a[2:] else set())
                def sink(t, f=fn, i=idx):
                    f.loops[i][1] += t
            elif d == "loopinv":
                # @loopinv K: more clauses for the invariant of loop K
                lp = fn.loops[int(rest.strip())]
                if not re.search(r"\binvariant\b", lp[1]):
                    raise SyntaxError(f"{p}:{ln}: loop {rest} has no invariant")
                def sink(t, l=lp):
                    if t.strip():
                        l[1] = re.sub(r"\binvariant\b", lambda m: "invariant " + t.strip(), l[1], count=1)
            elif d in ("start", "tail", "ret", "loopstart", "looppre", "loopend", "loopbefore", "loopafter", "before", "after"):
                entry = [d, rest, ""]
                fn.ins.append(entry)
                def sink(t, e=entry):
                    e[2] += t
            elif d == "end":
                sink = None
            else:
                raise SyntaxError(f"{p}:{ln}: unknown directive @{d}")
    if files.pop("overlay", None):
        for fs in files.values():
            for f in fs.fns:
                if not f.listed:
                    f.trusted = True
    return files


MACRO_RULES = {
    "assert": "vp_assert",
    "debug_assert": "vp_assert",
    "assert_eq": "vp_assert_eq",
    "debug_assert_eq": "vp_assert_eq",
    "assert_ne": "vp_assert_ne",
    "panic": "vp_panic_macro",
    "unreachable": "vp_panic_macro",
    "const_assert": "vp_const_assert",
}


def pat_find(T, lo, hi, pat):
    """All token indices in [lo,hi) where the token sequence pat matches."""
    P = [t.s for t in R.lex(pat)] if isinstance(pat, str) else pat
    n = len(P)
    out = []
    for i in range(lo, hi - n + 1):
        if T[i].s == P[0] and all(T[i + k].s == P[k] for k in range(n)):
            out.append(i)
    return out


def mono_subst(g, ty):
    out = {}
    for i, x in enumerate((g + "=" + ty).split(";")):
        a, b = x.split("=", 1)
        out[a.strip()] = b.strip()
    return out


class Weave:
    def __init__(self, repo, out, width, contracts, demote=(), drop=()):
        self.repo, self.out, self.width = repo, out, width
        self.contracts = contracts
        self.demote = set(demote)  # fn ids turned into assumed contracts (only after a front-end failure)
        self.drop = set(drop)  # fn ids whose contract no longer fits the source: left out of the verified part
        self.report = {"functions": {}, "lost": [], "rewrites": [], "trusted": [], "missing": [], "dropped": [], "expanded": [], "items": []}
        self.linemap = {}  # out file -> list of (start line, end line, fn id)

    def note_rewrite(self, fid, a, b):
        self.report["rewrites"].append([fid, a, b])

    # -- one function -----------------------------------------------------
    def weave_fn(self, src, T, it, spec, fid, subst=None):
        """Return the woven text of the function."""
        edits = []  # (a, b, text, prio)
        lo, hi = it.kwstart, it.hi
        q = it.kw

        def ins(pos, text, pr=0):
            edits.append((pos, pos, text, pr))

        trusted = spec.trusted or fid in self.demote
        # attributes other than inline/must_use/doc are kept
        attrs = ""
        for (a, b) in it.attrs:
            s = R.norm(T[a:b])
            if re.match(r"# \[ (inline|must_use|doc|allow|deprecated|cfg_attr)\b", s):
                continue
            if s.startswith("# [ cfg"):
                attrs += src[T[a].a:T[b - 1].b] + "\n"
        for a in spec.attrs:
            if trusted and "loop_isolation" in a:
                continue
            attrs += a + "\n"
        if trusted:
            attrs = "#[verifier::external_body]\n" + attrs
        # return type naming
        if it.ret and spec.ret:
            a, b = T[it.ret[0]].a, T[it.ret[1] - 1].b
            ins(a, f"({spec.ret}: ", -1)
            ins(b, ")", 9)
        # spec clauses
        body = it.body
        if spec.panics and re.search(r"\bensures\b", spec.spec):
            # a function that returns has not panicked: its documented panic condition was false
            c = re.sub(r"\bself\b", "old(self)", spec.panics) if "&mut self" in re.sub(r"\s+", " ", src[T[it.kwstart].a:T[body].a]).replace("& mut", "&mut") and "old(self)" not in spec.panics else spec.panics
            spec.spec = re.sub(r"\bensures\b", f"ensures !({c}),", spec.spec, count=1)
        if spec.panics and spec.pre and not spec.opreq:
            spec.pre += f" && (({spec.panics}) ==> crate::vp_std::may_panic())"
        elif spec.panics and not spec.opreq:
            c = f"({spec.panics}) ==> crate::vp_std::may_panic(),"
            spec.spec = re.sub(r"\brequires\b", "requires " + c, spec.spec, count=1) if re.search(r"\brequires\b", spec.spec) else "    requires " + c + "\n" + spec.spec
        if spec.toolarge and not spec.opreq:
            c = f"({spec.toolarge}) ==> crate::vp_std::toobig()"
            if spec.pre or re.match(r"From\b|TryFrom\b|Clone\b", spec.path):
                spec.pre += (" && " if spec.pre else "") + f"({c})"
            else:
                if "&mut self" in re.sub(r"\s+", " ", src[T[it.kwstart].a:T[body].a]).replace("& mut", "&mut"):
                    c = re.sub(r"\bself\b", "old(self)", c)
                spec.spec = re.sub(r"\brequires\b", "requires " + c + ",", spec.spec, count=1) if re.search(r"\brequires\b", spec.spec) else "    requires " + c + "\n" + spec.spec
        if spec.spec.strip():
            sp = spec.spec.rstrip()
            if spec.pre and not spec.opreq:
                m = re.match(r"\s*ensures\b(.*)", sp, re.S)
                cl = [c.strip() for c in R.split_top(m.group(1)) if c.strip()]
                old = re.sub(r"\bself\b", "old(self)", spec.pre) if "&mut self" in re.sub(r"\s+", " ", src[T[it.kwstart].a:T[body].a]).replace("& mut", "&mut") else spec.pre
                sp = "ensures\n" + "".join(f"    {old} ==> ({c}),\n" for c in cl)
                if not trusted:
                    ins(T[body].b, f"\nproof {{ assume({spec.pre}); }}\n", -5)
                    self.report.setdefault("pre", []).append([fid, spec.pre])
            ins(T[body].a, "\n" + sp + "\n", 5)
        bend = T[body].m
        if not trusted:
            loops = R.find_loops(T, body)
            used = set()
            for idx, (itn, text) in spec.loops.items():
                if idx >= len(loops):
                    self.report["lost"].append([fid, f"loop {idx}"])
                    continue
                kw, inn, br = loops[idx]
                if idx in getattr(spec, "loopidx", {}):
                    # index desugaring of a `for` over a slice (same order, same elements):
                    #   for P in E / E.iter_mut() / E.iter() { BODY }
                    #   => let mut i = 0; while i < E.len() { let P = &mut E[i] / &E[i]; i += 1; BODY }
                    v = spec.loopidx[idx]
                    e, rev = None, False
                    if inn is not None:
                        toks = [T[x].s for x in range(inn + 1, br)]
                        br2 = br
                        if toks[-4:] == [".", "rev", "(", ")"]:
                            rev, br2 = True, br - 4
                            toks = toks[:-4]
                        ov = getattr(spec, "loopover", {}).get(idx)
                        if ov and toks == [ov[0]]:
                            e, rev, ref, toks = ov[1], ov[2], "&", [ov[0], "=", ov[1], ".iter()"]
                        elif ov:
                            toks = []
                        for suf, ref_ in (([".", "iter_mut", "(", ")"], "&mut "), ([".", "iter", "(", ")"], "&")):
                            if e is not None:
                                break
                            if toks[-4:] == suf:
                                ref = ref_
                                e = src[T[inn + 1].a:T[br2 - 5].b]
                                break
                        else:
                            if len(toks) == 1:
                                e, ref = toks[0], "&mut "
                            elif len(toks) == 2 and toks[0] == "&":
                                e, ref = toks[1], "&"
                            elif toks[:1] == ["&"] and toks[1] != "mut" and toks[2:3] == ["["] and T[inn + 3].m == br2 - 1:
                                # for P in &E[range]
                                e, ref = src[T[inn + 2].a:T[br2 - 1].b], "&"
                    if e is None:
                        self.report["lost"].append([fid, f"loop {idx}: iterator form changed"])
                        continue
                    pat = src[T[kw + 1].a:T[inn - 1].b]
                    if rev:
                        toks += [".rev()"]
                        edits.append((T[kw].a, T[br - 1].b, f"let mut {v}: usize = {e}.len(); while {v} > 0", 0))
                        ins(T[br].a, "\n" + text.rstrip() + "\n", 5)
                        ins(T[br].b, f"\n{v} -= 1; let {pat} = {ref}{e}[{v}];\n", -2)
                        self.note_rewrite(fid, f"for {pat} in {''.join(toks)}", f"let {v} = {e}.len(); while {v} > 0 with {v} -= 1; let {pat} = {ref}{e}[{v}]")
                        continue
                    edits.append((T[kw].a, T[br - 1].b, f"let mut {v}: usize = 0; while {v} < {e}.len()", 0))
                    ins(T[br].a, "\n" + text.rstrip() + "\n", 5)
                    ins(T[br].b, f"\nlet {pat} = {ref}{e}[{v}]; {v} += 1;\n", -2)
                    self.note_rewrite(fid, f"for {pat} in {''.join(toks)}", f"while {v} < {e}.len() with let {pat} = {ref}{e}[{v}]")
                    continue
                if itn:
                    if inn is None:
                        self.report["lost"].append([fid, f"loop {idx}: no longer a for loop"])
                        continue
                    ins(T[inn + 1].a, f"{itn}: ", 0)
                    if idx in getattr(spec, "loopmut", ()) and inn + 2 == br:
                        # `for w in words` with words: &mut [T] is `words.iter_mut()` by std's definition
                        ins(T[inn + 1].b, ".iter_mut()", 0)
                        self.note_rewrite(fid, f"for _ in {T[inn + 1].s}", f"for _ in {T[inn + 1].s}.iter_mut()")
                elif inn is not None and not itn:
                    pass
                ins(T[br].a, "\n" + text.rstrip() + "\n", 5)
            if len(loops) != (max(spec.loops) + 1 if spec.loops else 0):
                if len(loops) > len(spec.loops):
                    self.report["lost"].append([fid, f"{len(loops)} loops, contracts for {len(spec.loops)}"])
            for where, arg, text in spec.ins:
                text = "\n" + text.rstrip() + "\n"
                if where == "start":
                    ins(T[body].b, text, 0)
                elif where == "tail":
                    p = R.tail_pos(T, body)
                    ins(T[p].a, text, 0)
                elif where == "ret":
                    # `{ ..; e }` => `{ ..; let vp_ret = e; proof { .. } vp_ret }`
                    p = R.tail_pos(T, body)
                    if T[p].s == "}":
                        ins(T[p].a, text, 1)
                    else:
                        ins(T[p].a, " let vp_ret = ", 8)
                        ins(T[bend].a, ";\n" + text + " vp_ret ", 9)
                        self.note_rewrite(fid, "tail expression e", "let vp_ret = e; vp_ret")
                elif where in ("loopstart", "looppre", "loopend", "loopbefore", "loopafter"):
                    idx = int(arg)
                    if idx >= len(loops):
                        self.report["lost"].append([fid, f"{where} {idx}"])
                        continue
                    kw, inn, br = loops[idx]
                    if where == "looppre":
                        ins(T[br].b, text, -3)
                    elif where == "loopstart":
                        ins(T[br].b, text, 0)
                    elif where == "loopbefore":
                        # a loop label precedes
                        k = kw
                        if k >= 2 and T[k - 1].s == ":" and T[k - 2].k == "life":
                            k -= 2
                        ins(T[k].a, text, 0)
                    elif where == "loopafter":
                        ins(T[T[br].m].b, text, 0)
                    else:
                        e = T[br].m
                        semi = ""
                        if T[e - 1].s not in (";", "}", "{"):
                            semi = ";"
                        ins(T[e].a, semi + text, 0)
                else:
                    m = re.match(r"`(.*)`\s*(-?\d+|last)?\s*$", arg)
                    pat, nth = m.group(1), m.group(2)
                    hits = pat_find(T, body + 1, bend, pat)
                    n = 0 if nth is None else (len(hits) - 1 if nth == "last" else int(nth))
                    if n < 0 or n >= len(hits):
                        self.report["lost"].append([fid, f"{where} `{pat}` {nth or ''}"])
                        continue
                    h = hits[n]
                    if where == "before":
                        ins(T[h].a, text, 0)
                    else:
                        ins(T[h + len(R.lex(pat)) - 1].b, text, 0)
            # `mut self` is not in the verifier's subset: `let mut vp_self = self;` at the start of the body
            ms = [k for k in range(it.fnkw, body) if T[k].s == "mut" and T[k + 1].s == "self" and T[k - 1].s == "("]
            if ms:
                edits.append((T[ms[0]].a, T[ms[0] + 1].a, "", 1))
                ins(T[body].b, " let mut vp_self = self; ", -9)
                cv = [(T[h].a, T[h + len(R.lex(a)) - 1].b) for (a, _) in spec.rewrites for h in pat_find(T, body + 1, bend, a)]
                for k in range(body + 1, bend):
                    if T[k].s == "self" and T[k].k == "id" and not any(x <= T[k].a < y for x, y in cv):
                        edits.append((T[k].a, T[k].b, "vp_self", 1))
                self.note_rewrite(fid, "mut self", "self; let mut vp_self = self")
            # macro rewrites
            cov = [(T[h].a, T[h + len(R.lex(a)) - 1].b) for (a, _) in spec.rewrites for h in pat_find(T, body + 1, bend, a)]
            for i in range(body, bend):
                if T[i].k == "id" and T[i + 1].s == "!" and T[i].s in MACRO_RULES and not any(x <= T[i].a < y for x, y in cov):
                    # in a function with a documented panic (@panics) `panic!` is that panic: allowed where may_panic() holds
                    edits.append((T[i].a, T[i].b, "crate::" + ("vp_doc_panic_macro" if T[i].s == "panic" and spec.panics else MACRO_RULES[T[i].s]), 1))
            for (a, b) in spec.rewrites:
                hits = pat_find(T, body + 1, bend, a)
                for h in hits:
                    edits.append((T[h].a, T[h + len(R.lex(a)) - 1].b, b, 1))
                    self.note_rewrite(fid, a, b)
        for (a, b) in (spec.sig or []):
            hits = pat_find(T, it.kwstart, body, a)
            if not hits:
                self.report["lost"].append([fid, f"sig `{a}`"])
            for h in hits[:1]:
                edits.append((T[h].a, T[h + len(R.lex(a)) - 1].b, b, 1))
                self.note_rewrite(fid, a, b)
        if subst:
            cut = (0, 0)
            if getattr(spec, "defun", False):
                par = spec.mono[0][0]
                k = next(i for i in range(it.fnkw, body) if T[i].s == par)
                e = k
                while T[e].s not in (",", ")"):
                    e = R.skip_generics(T, e) if T[e].s == "<" else (T[e].m + 1 if T[e].s == "(" else e + 1)
                cut = (k, e + (T[e].s == ","))
                edits.append((T[k].a, T[cut[1] - 1].b, "", 1))
                self.note_rewrite(fid, f"function parameter {par}", subst[par])
            for i in range(it.kwstart, it.hi):
                if T[i].k == "id" and T[i].s in subst and not cut[0] <= i < cut[1] and not any(x <= T[i].a and T[i].b <= y and t != subst[T[i].s] for x, y, t, _ in edits if y > x):
                    edits.append((T[i].a, T[i].b, subst[T[i].s], 1))
            if "<drop-generics>" in subst:
                k = it.fnkw + 2
                if T[k].s == "<":
                    e = R.skip_generics(T, k)
                    edits = [x for x in edits if not (T[k].a <= x[0] < T[e - 1].b)]
                    edits.append((T[k].a, T[e - 1].b, "", 1))
                if it.where_:
                    a, b = it.where_
                    edits = [x for x in edits if not (T[a].a <= x[0] < T[b - 1].b)]
                    edits.append((T[a].a, T[b - 1].b, "", 1))
                edits = [x for x in edits if not (x[0] == T[it.fnkw + 1].a)]
                edits.append((T[it.fnkw + 1].a, T[it.fnkw + 1].b, subst["<name>"], 1))
        text = self.apply(src, T[q].a if q is not None else T[lo].a, T[hi - 1].b, edits)
        if trusted:
            self.report["trusted"].append(fid)
        self.report["functions"][fid] = {"spec": spec.src, "trusted": bool(spec.trusted), "demoted": fid in self.demote,
                                         "tokens": R.norm(T[it.kwstart:it.hi])}
        return attrs + f"/*@FN {fid}*/ " + text + f" /*@END {fid}*/"

    @staticmethod
    def apply(src, a0, b0, edits):
        edits = sorted((e for e in edits if e[0] >= a0 and e[1] <= b0), key=lambda e: (e[0], e[3], e[1]))
        out, pos = [], a0
        for a, b, text, _ in edits:
            if a < pos:
                if a == b:
                    out.append(text)
                    continue
                raise ValueError(f"overlapping edits: {text!r}")
            out.append(src[pos:a])
            out.append(text)
            pos = b
        out.append(src[pos:b0])
        return "".join(out)

    # -- one file ---------------------------------------------------------
    def expand_macros(self, src, names):
        """Textually expand invocations of single-arm macro_rules whose matcher is literal tokens and $x:ty / $x:ident parameters.
        The rule comes from the file itself or from helper_macros.rs."""
        for name in names:
            T = R.lex(src)
            items = R.parse_items(T, 0, len(T))
            rule = [i for i in items if i.kind == "macro_rules" and i.name == name]
            calls = [i for i in items if i.kind == "macro_call" and i.name == name]
            rsrc, RT = src, T
            if not rule and os.path.exists(os.path.join(self.repo, "src/helper_macros.rs")):
                rsrc = re.sub(r"(?m)^[ \t]*///.*$", "", open(os.path.join(self.repo, "src/helper_macros.rs")).read())
                RT = R.lex(rsrc)
                rule = [i for i in R.parse_items(RT, 0, len(RT)) if i.kind == "macro_rules" and i.name == name]
            if not rule or not calls:
                self.report["lost"].append(["expand", name])
                continue
            r = rule[0]
            po = r.body + 1
            pc = RT[po].m
            pattern = []  # ("lit", text) | ("par", name)
            k = po + 1
            while k < pc:
                if RT[k].s == "$":
                    pattern.append(("par", RT[k + 1].s, RT[k + 3].s))
                    k += 4
                else:
                    pattern.append(("lit", RT[k].s))
                    k += 1
            bo = pc + 3
            bc = RT[bo].m
            edits = [(T[r.lo].a, T[r.hi - 1].b, "", 0)] if RT is T else []
            for c in calls:
                k, end, sub = c.body + 1, T[c.body].m, {}
                for n, p in enumerate(pattern):
                    if p[0] == "lit":
                        if k < end and T[k].s == p[1]:
                            k += 1
                        elif p[1] != ",":
                            raise SyntaxError(f"macro {name}: expected {p[1]}")
                        continue
                    st = k
                    nxt = pattern[n + 1][1] if n + 1 < len(pattern) else None
                    while k < end and (k == st or (p[2] != "ident" and T[k].s != nxt)):
                        k = T[k].m + 1 if T[k].m is not None and T[k].m > k else k + 1
                    sub[p[1]] = src[T[st].a:T[k - 1].b]
                ed = []
                k = bo + 1
                while k < bc:
                    if RT[k].s == "$":
                        ed.append((RT[k].a, RT[k + 1].b, sub[RT[k + 1].s], 0))
                        k += 2
                    else:
                        k += 1
                text = self.apply(rsrc, RT[bo].b, RT[bc].a, ed)
                edits.append((T[c.lo].a, T[c.hi - 1].b, text, 0))
                self.report["expanded"].append(f"{name}!({', '.join(sub.values())})")
            src = self.apply(src, 0, len(src), edits)
        return src

    def inline_closure(self, rel, src, name):
        T = R.lex(src)
        for i in range(len(T) - 5):
            if T[i].s == "let" and T[i + 1].s == "mut" and T[i + 2].s == name and T[i + 3].s == "=" and T[i + 4].s == "|" or \
                    T[i].s == "let" and T[i + 1].s == name and T[i + 2].s == "=" and T[i + 3].s == "|":
                a = i + 5 if T[i + 1].s == "mut" else i + 4
                b = next(k for k in range(a, len(T)) if T[k].s == "|")
                params = [x.split(":")[0].strip() for x in src[T[a].a:T[b - 1].b].split(",")]
                e = b + 1
                while T[e].s != ";":
                    e = T[e].m + 1 if T[e].m is not None and T[e].m > e else e + 1
                bt = [t.s for t in T[b + 1:e]]
                body = src[T[b + 1].a:T[e - 1].b]
                edits = [(T[i].a, T[e].b, "", 0)]
                for k in range(e, len(T) - 1):
                    if T[k].s == name and T[k + 1].s == "(":
                        args = [x.strip() for x in src[T[k + 1].b:T[T[k + 1].m].a].split(",") if x.strip()]
                        if args != params or "return" in bt or "?" in bt and T[T[k + 1].m + 1].s != "?":
                            self.report["lost"].append([rel, f"closure {name} cannot be inlined"])
                            return src
                        edits.append((T[k].a, T[T[k + 1].m].b, f"({{ {body} }})" if not body.startswith("{") else f"({body})", 0))
                self.report["rewrites"].append([rel, f"closure {name}", "inlined at its calls"])
                return self.apply(src, 0, len(src), edits)
        return src

    def weave_file(self, rel, src, fs):
        src = re.sub(r"(?m)^[ \t]*///.*$", "", src)  # doc comments
        for (a, b) in (fs.filerw if fs else ()):
            T = R.lex(src)
            hits = pat_find(T, 0, len(T), a)
            src = self.apply(src, 0, len(src), [(T[h].a, T[h + len(R.lex(a)) - 1].b, b, 0) for h in hits])
            if hits:
                self.note_rewrite(rel, a, b)
        for n in (fs.closures if fs else ()):
            src = self.inline_closure(rel, src, n)
        if fs and fs.expand:
            src = self.expand_macros(src, fs.expand)
        T = R.lex(src)
        items = R.parse_items(T, 0, len(T))
        edits = []
        byname = {}

        def fid(path):
            return f"{rel}::{path}"

        if fs:
            for s in fs.fns:
                if fid(s.path) in self.drop or getattr(s, "method2fn", None) and fid(s.method2fn[0]) in self.drop:
                    continue
                byname.setdefault(s.path, []).append(s)
        seen = set()
        itemnames = set(fs.items) if fs else set()

        def cfg_test(it):
            return any(re.search(r"cfg \( (test|feature = \"(rand|serde)\")", R.norm(T[a:b])) for a, b in it.attrs)

        extract = rel.split(".")[0] in EXTRACT_MODS
        for it in items:
            if extract and (it.kind == "impl" or it.kind == "use" and re.search(r"\b(rand|serde|num_traits)\b", src[T[it.lo].a:T[it.hi - 1].b])
                            or it.kind not in ("impl", "use", "macro") and f"{it.kind} {it.name}" not in itemnames and (it.kind != "fn" or it.name not in byname or byname[it.name][0].mono)):
                edits.append((T[it.lo].a, T[it.hi - 1].b, "", -1))
                if not (it.kind == "impl" and any(n.startswith(it.name) for n in map(lambda x: R.norm(R.lex(x)), byname))):
                    self.report["dropped"].append(f"{rel}: {it.kind} {it.name}")
            if cfg_test(it):
                edits.append((T[it.lo].a, T[it.hi - 1].b, "", 0))
                self.report["dropped"].append(f"{rel}: {it.kind} {it.name} (cfg)")
                continue
            if it.kind == "fn" and it.name in byname:
                seen.add(it.name)
                outs = []
                keep = False
                for sp in byname[it.name]:
                    if sp.mono:
                        keep = True
                        for (g, ty, nm) in sp.mono:
                            outs.append(self.weave_fn(src, T, it, sp, fid(nm), {**mono_subst(g, ty), "<drop-generics>": 1, "<name>": nm}))
                    else:
                        outs.append(self.weave_fn(src, T, it, sp, fid(it.name)))
                text = "verus! {\n" + "\n".join(outs) + "\n}"
                if keep:
                    edits.append((T[it.hi - 1].b, T[it.hi - 1].b, "\n" + text, 0))
                else:
                    edits.append((T[it.lo].a, T[it.hi - 1].b, text, 0))
            elif it.kind == "impl":
                hn = it.name
                is_trait = bool(re.search(r"\bfor\b", hn))
                sel = {}
                m2f = []
                for ch in it.children:
                    for nm, sp in byname.items():
                        m = re.match(r"(.*)::(\w+)$", nm, re.S)
                        if m and R.norm(R.lex(m.group(1))) == hn and m.group(2) == ch.name and ch.kind == "fn":
                            for sp1 in sp:
                                if getattr(sp1, "method2fn", None):
                                    m2f.append((ch, sp1, nm))
                                else:
                                    sel[ch.name] = (ch, sp1, nm)
                            seen.add(nm)
                for (ch, sp, nm) in m2f:
                    nm2, st, assoc = sp.method2fn
                    # lifetime parameters of the impl header used by the self type
                    lts = sorted(set(re.findall(r"'[a-z]\w*", st)) - set(re.findall(r"'[a-z]\w*", src[T[ch.kwstart].a:T[ch.body].a].split("(")[0])))
                    lts = [x for x in lts if x != "'static"]
                    t2 = self.weave_fn(src, T, ch, sp, fid(nm2), {**mono_subst(sp.mono[0][0], sp.mono[0][1]), "<drop-generics>": 1, "<name>": ch.name} if sp.mono else None)
                    t2 = re.sub(r"\bfn\s+" + ch.name, "fn " + nm2, t2, count=1)
                    for a2, b2 in assoc.items():
                        t2 = t2.replace(a2, b2)
                    t2 = re.sub(r"(\(\s*)(&\s*mut\s+|&\s*(?:'static\s+)?|mut\s+)?self\b(?=\s*[,)])", lambda m: m.group(1) + ((m.group(2) or "") + "vp_self: " + st if (m.group(2) or "") in ("", "mut ") or m.group(2).split() == ["mut"] else "vp_self: " + m.group(2) + st), t2, count=1)
                    t2 = re.sub(r"\bSelf\b", st, t2)
                    t2 = re.sub(r"\bself\b", "vp_self", t2)
                    if lts:
                        t2 = re.sub(r"\bfn " + nm2 + r"\s*(<)?", lambda m: f"fn {nm2}<{', '.join(lts)}" + (", " if m.group(1) else ">"), t2, count=1)
                    if not re.search(r"\bpub\b", t2.split("fn " + nm2)[0]):
                        t2 = t2.replace("fn " + nm2, "pub(crate) fn " + nm2, 1)
                    self.note_rewrite(fid(nm2), f"method {nm}", f"free function {nm2} with the same body")
                    edits.append((T[it.hi - 1].b, T[it.hi - 1].b, "\nverus! {\n" + t2 + "\n}", 0))
                whole = is_trait or hn in (fs.impls if fs else {})
                if hn in (fs.impls if fs else {}) or (sel and whole):
                    ed = []
                    for ch, sp, nm in sel.values():
                        si = self.spec_impl(src, T, it, ch, sp) if is_trait else None
                        if si:
                            edits.append((T[it.hi - 1].b, T[it.hi - 1].b, "\nverus! {\n" + si + "\n}", 0))
                        ed.append((T[ch.lo].a, T[ch.hi - 1].b, self.weave_fn(src, T, ch, sp, fid(nm)), 0))
                    extra = fs.impls.get(hn, "")
                    if hn in fs.impls:
                        seen.add("impl " + hn)
                    ed.append((T[it.body].b, T[it.body].b, "\n" + extra, 0))
                    for ch in it.children:
                        if ch.kind == "fn" and ch.name not in sel and ch.body is not None:
                            # methods of the impl without a contract: assumed nothing, not verified
                            ed.append((T[ch.lo].a, T[ch.lo].a, "#[verifier::external]\n" if not is_trait else "#[verifier::external_body]\n", 0))
                    body = self.apply(src, T[it.lo].a, T[it.hi - 1].b, ed)
                    edits.append((T[it.lo].a, T[it.hi - 1].b, "verus! {\n" + body + "\n}", 0))
                elif sel:
                    outs = []
                    for ch, sp, nm in sel.values():
                        outs.append(self.weave_fn(src, T, ch, sp, fid(nm)))
                        edits.append((T[ch.lo].a, T[ch.hi - 1].b, "", 0))
                    hdr = src[T[it.header[0]].a:T[it.header[1] - 1].b]
                    edits.append((T[it.hi - 1].b, T[it.hi - 1].b, "\nverus! {\n" + hdr + " {\n" + "\n".join(outs) + "\n}\n}", 0))
                # consts of inherent impls asked for as items "Type::CONST"
                for ch in it.children:
                    key = f"{hn}::{ch.name}"
                    if ch.kind == "const" and key in itemnames:
                        seen.add("item " + key)
                        hdr = src[T[it.header[0]].a:T[it.header[1] - 1].b]
                        txt = src[T[ch.kw].a:T[ch.hi - 1].b]
                        if key in fs.consts:
                            m = re.match(r"(.*?)const(\s+\w+\s*:\s*[\w:]+)\s*=(.*);\s*$", txt, re.S)
                            c2 = fs.consts[key]
                            ext = c2.startswith("external ")
                            txt = f"{'#[verifier::external_body] ' if ext else ''}{m.group(1)}exec const{m.group(2)} {c2[9:] if ext else c2} {{ {m.group(3)} }}"
                        edits.append((T[ch.lo].a, T[ch.hi - 1].b, "", 0))
                        edits.append((T[it.hi - 1].b, T[it.hi - 1].b, "\nverus! {\n" + hdr + " {\n" + txt + "\n}\n}", 0))
            elif f"{it.kind} {it.name}" in itemnames:
                seen.add(f"item {it.kind} {it.name}")
                self.report["items"].append(f"{rel}: {it.kind} {it.name}")
                txt = src[T[it.lo].a:T[it.hi - 1].b]
                if it.kind == "static":
                    m = re.match(r"(.*?)static(\s+\w+\s*:\s*[\w:]+)\s*=(.*);\s*$", src[T[it.kw].a:T[it.hi - 1].b], re.S)
                    edits.append((T[it.lo].a, T[it.hi - 1].b, f"verus! {{ pub exec static{m.group(2)} {fs.consts['static ' + it.name]} {{ {m.group(3)} }} }}", 0))
                    continue
                if f"{it.kind} {it.name}" in fs.consts:
                    m = re.match(r"(.*?)const(\s+\w+\s*:\s*[\w:]+)\s*=(.*);\s*$", src[T[it.kw].a:T[it.hi - 1].b], re.S)
                    c2 = fs.consts[f"{it.kind} {it.name}"]
                    ext = c2.startswith("external ")
                    edits.append((T[it.lo].a, T[it.hi - 1].b, f"verus! {{ {'#[verifier::external_body] ' if ext else ''}pub exec const{m.group(2)} {c2[9:] if ext else c2} {{ {m.group(3)} }} }}", 0))
                    continue
                # Debug derives are irrelevant to the verifier
                txt = self.item_text(src, T, it, fs.strip.get(f"{it.kind} {it.name}", ()))
                for (n, a, b) in fs.itemrw:
                    if n == f"{it.kind} {it.name}":
                        T2 = R.lex(txt)
                        hits = pat_find(T2, 0, len(T2), a)
                        if not hits:
                            self.report["lost"].append([f"{rel}: {n}", f"item text `{a}`"])
                        txt = self.apply(txt, 0, len(txt), [(T2[h].a, T2[h + len(R.lex(a)) - 1].b, b, 0) for h in hits])
                        self.note_rewrite(f"{rel}: {n}", a, b)
                edits.append((T[it.lo].a, T[it.hi - 1].b, "verus! {\n" + ("#[verifier::external_body] " if f"{it.kind} {it.name}" in fs.extern else "") + txt + "\n}", 0))
        for nm in byname:
            if nm not in seen:
                self.report["missing"].append(fid(nm))
        for nm in itemnames:
            if "item " + nm not in seen:
                self.report["missing"].append(f"{rel}: item {nm}")
        for nm in (fs.impls if fs else {}):
            if "impl " + nm not in seen:
                self.report["missing"].append(f"{rel}: impl {nm}")
        text = self.apply(src, 0, len(src), edits)
        # visibility is widened so that specifications may mention crate-private types
        text = re.sub(r"pub\((?:crate|super)\)\s+(?=enum|struct|fn|const|unsafe|type|trait|exec)", "pub ", text)
        head = "#[allow(unused_imports)] use vstd::prelude::*;\n"
        # inner doc comments must come first
        lines = text.split("\n")
        k = 0
        while k < len(lines) and (lines[k].startswith("//") or not lines[k].strip()):
            k += 1
        text = "\n".join(lines[:k]) + "\n" + head + "\n".join(lines[k:])
        if fs and fs.tops.strip():
            text += "\n" + fs.tops
        if fs and fs.mod.strip():
            text += "\nverus! {\n" + fs.mod.replace("pub(crate)", "pub") + "\n}\n"
        return text

    OPS1 = {"Neg": "neg", "Not": "not"}
    OPS2 = {o: o.lower() for o in "Add Sub Mul Div Rem Shl Shr BitAnd BitOr BitXor".split()}
    OPS2 = {o: {"BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor"}.get(o, n) for o, n in OPS2.items()}

    def spec_impl(self, src, T, it, ch, sp):
        """The verifier's specification impl for an operator or conversion trait of core: states the precondition
        (callers are checked against it) and leaves the result to the `ensures` of the method."""
        hdr = re.sub(r"\s+", " ", src[T[it.header[0]].a:T[it.header[1] - 1].b])
        m = re.match(r"(?:impl)?\s*(<.*?>)?\s*(\w+)(?:\s*<(.*)>)? for (.*)$", hdr.strip())
        if not m:
            return None
        gen, tr, arg, ty = m.group(1) or "", m.group(2), m.group(3), m.group(4)
        sig = re.sub(r"\s+", " ", src[T[ch.kwstart].a:T[ch.body].a])
        pre = sp.pre or "true"
        if sp.panics:
            pre += f" && (({sp.panics}) ==> crate::vp_std::may_panic())"
        if sp.toolarge:
            pre += f" && (({sp.toolarge}) ==> crate::vp_std::toobig())"
        ms = re.search(r"\(\s*(?:&\s*mut\s+|mut\s+)?self\s*(?:,\s*(?:mut\s+)?(\w+)\s*:\s*(.*?)\s*,?\s*)?\)\s*(?:->|$|where)", sig)
        out = None
        for t in range(T[it.body].m and it.body, T[it.body].m):
            if T[t].s == "type" and T[t + 1].s == "Output":
                e = t
                while T[e].s != ";":
                    e += 1
                out = src[T[t + 3].a:T[e - 1].b]
        if tr == "From":
            return f"impl{gen} vstd::std_specs::convert::FromSpecImpl<{arg}> for {ty} {{\n    open spec fn obeys_from_spec() -> bool {{ false }}\n    open spec fn from_spec(v: {arg}) -> Self {{ arbitrary() }}\n}}"
        if tr == "TryFrom":
            return f"impl{gen} vstd::std_specs::convert::TryFromSpecImpl<{arg}> for {ty} {{\n    open spec fn obeys_try_from_spec() -> bool {{ false }}\n    open spec fn try_from_spec(v: {arg}) -> Result<Self, OutOfBoundsError> {{ arbitrary() }}\n}}"
        if not ms:
            return None
        asg = tr.endswith("Assign")
        base = tr[:-6] if asg else tr
        if base in self.OPS1 and out:
            n, par, arg2, res = self.OPS1[base], "", "", out
        elif base in self.OPS2 and ms.group(1) and (asg or out):
            n, par, arg2, res = self.OPS2[base] + ("_assign" if asg else ""), f", {ms.group(1)}: {ms.group(2)}", f"<{arg if arg is not None else ty}>", "&Self" if asg else out
        else:
            return None
        sp.opreq = True
        slf = "&self" if asg else "self"
        return (f"impl{gen} vstd::std_specs::ops::{tr}SpecImpl{arg2} for {ty} {{\n    open spec fn obeys_{n}_spec() -> bool {{ false }}\n"
                f"    open spec fn {n}_req({slf}{par}) -> bool {{ {pre} }}\n    open spec fn {n}_spec({slf}{par}) -> {res} {{ arbitrary() }}\n}}")

    def item_text(self, src, T, it, strip=()):
        t = src[T[it.lo].a:T[it.hi - 1].b]
        if it.kind == "const" and re.match(r"((#\[[^\]]*\]|///[^\n]*)\s*)*const\b", t):
            t = re.sub(r"\bconst\b", "pub const", t, count=1)
        if it.kind == "struct":
            t = re.sub(r"\bpub\s*\(\s*crate\s*\)", "pub", t)  # visibility does not change meaning
        if strip:
            for x in strip:
                # the derive is replaced by its expansion, given in the contract file
                t2 = re.sub(r"(#\[derive\([^\]]*?)\b" + x + r"\b,?\s*", r"\1", t, count=1)
                if t2 == t:
                    self.report["lost"].append([f"item {it.name}", f"no derive({x})"])
                t = t2
        return t

    def run(self):
        bits, arch = WIDTHS[self.width]
        files = parse_contracts(self.contracts, self.width)
        out = self.out
        os.makedirs(out, exist_ok=True)
        srcroot = os.path.join(self.repo, "src")
        done = set()
        allf = []
        for d, _, fl in os.walk(srcroot):
            for f in sorted(fl):
                if f.endswith(".rs"):
                    allf.append(os.path.relpath(os.path.join(d, f), srcroot))
        for rel in sorted(allf):
            src = open(os.path.join(srcroot, rel)).read()
            if rel == "lib.rs":
                text = self.lib(src, files)
            elif rel.split(".")[0] in DROP_MODS or rel.split(".")[0] in EXTRACT_MODS and rel not in files:
                continue
            elif rel == "arch/mod.rs":
                text = ("pub(crate) use arch_impl::add;\npub(crate) use arch_impl::digits;\npub(crate) use arch_impl::ntt;\npub(crate) use arch_impl::word;\n"
                        f"#[path = \"{arch}/mod.rs\"]\npub(crate) mod arch_impl;\n")
            elif rel.startswith("arch/") and rel not in self.arch_files(srcroot, arch):
                done.add(rel)  # another architecture
                continue
            else:
                text = self.weave_file(rel, src, files.get(rel))
            done.add(rel)
            o = os.path.join(out, rel)
            os.makedirs(os.path.dirname(o), exist_ok=True)
            with open(o, "w") as f:
                f.write(text)
            self.scan_lines(rel, text)
        for rel, fs in files.items():
            if rel not in done:
                if rel.startswith("vp_"):
                    with open(os.path.join(out, rel), "w") as f:
                        text = "#![allow(unused_imports)]\nuse vstd::prelude::*;\nuse crate::arch::word::*;\n" + fs.tops + "\nverus! {\n" + fs.mod + "\n}\n"
                        f.write(text)
                        self.scan_lines(rel, text)
                else:
                    self.report["missing"].append(f"file {rel}")
        return self.report

    @staticmethod
    def arch_files(srcroot, arch):
        r = {f"arch/{arch}/{f}" for f in os.listdir(os.path.join(srcroot, "arch", arch))}
        for p in re.findall(r'#\[path = "([^"]*)"\]', open(os.path.join(srcroot, "arch", arch, "mod.rs")).read()):
            r.add(os.path.normpath(os.path.join("arch", arch, p)))
        return r

    def scan_lines(self, rel, text):
        m = []
        st = {}
        for i, line in enumerate(text.split("\n"), 1):
            for x in re.finditer(r"/\*@(FN|END) (.*?)\*/", line):
                if x.group(1) == "FN":
                    st[x.group(2)] = i
                else:
                    m.append((st[x.group(2)], i, x.group(2)))
        self.linemap[rel] = m

    def lib(self, src, files):
        T = R.lex(src)
        items = R.parse_items(T, 0, len(T))
        mods = []
        for it in items:
            if it.kind == "mod" and it.name not in DROP_MODS and (it.name not in EXTRACT_MODS or it.name + ".rs" in files):
                mods.append(src[T[it.kwstart - 0].a:T[it.hi - 1].b] if it.kw == it.kwstart else src[T[it.kw].a:T[it.hi - 1].b])
            elif it.kind == "mod":
                self.report["dropped"].append(f"lib.rs: mod {it.name}")
        vps = [f[:-3] for f in files if f.startswith("vp_")]
        uses = [src[T[it.kw].a:T[it.hi - 1].b] for it in items if it.kind == "use"]
        return (
            "#![allow(dead_code, unused_imports, unused_macros, unused_variables, unused_mut, unexpected_cfgs, unused_attributes, unused_doc_comments, unused_parens, unused_braces, non_snake_case, non_upper_case_globals, unused_assignments, unused_unsafe, unfulfilled_lint_expectations, macro_expanded_macro_exports_accessed_by_absolute_paths)]\n"
            "#![allow(clippy::all)]\n"
            "extern crate alloc;\n#[macro_use]\nmod vp_macros {\n"
            "#[macro_export] macro_rules! vp_assert { ($e:expr $(, $($r:tt)*)?) => { if !($e) { crate::vp_panic() } } }\n"
            "#[macro_export] macro_rules! vp_assert_eq { ($a:expr, $b:expr $(, $($r:tt)*)?) => { if !($a == $b) { crate::vp_panic() } } }\n"
            "#[macro_export] macro_rules! vp_assert_ne { ($a:expr, $b:expr $(, $($r:tt)*)?) => { if $a == $b { crate::vp_panic() } } }\n"
            "#[macro_export] macro_rules! vp_const_assert { ($($r:tt)*) => { } }\n"
            "#[macro_export] macro_rules! vp_doc_panic_macro { ($($r:tt)*) => { crate::vp_std::documented_panic() } }\n"
            "#[macro_export] macro_rules! vp_panic_macro { ($($r:tt)*) => { crate::vp_panic() } }\n"
            "}\n"
            "#[allow(unused_imports)] use vstd::prelude::*;\n"
            "verus! { global size_of usize == 8; #[verifier::external_body] pub const fn vp_panic() -> ! requires false { panic!() } }\n"
            + "\n".join(uses) + "\n" + "\n".join(mods) + "\n" + "\n".join(f"pub mod {v};" for v in vps) + "\n"
        )


if __name__ == "__main__":
    import argparse, glob
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", required=True)
    ap.add_argument("--width", default="x86_64")
    ap.add_argument("--prop", default=os.environ.get("VP_PROP", "-"), help="also the contracts kept apart for this property")
    a = ap.parse_args()
    w = Weave(a.repo, a.out, a.width, sorted(glob.glob(os.path.join(VERIF, "contracts", "*.vc"))) + sorted(glob.glob(os.path.join(VERIF, "contracts", a.prop, "*.vc"))))
    r = w.run()
    for k in ("lost", "missing"):
        for x in r[k]:
            print(k, x, file=sys.stderr)
    json.dump({"report": r, "linemap": w.linemap}, open(os.path.join(a.out, "weave.json"), "w"), indent=1)
