"""Writes contracts/C19/*.vc: contracts of the mixed-primitive operators (one block per operator, helper and type)."""
import os, re
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "C19")
US = ["u8", "u16", "u32", "u64", "u128", "usize"]
SI = ["i8", "i16", "i32", "i64", "i128", "isize"]
UN = dict(zip(SI, US))
R = dict(add="{A} + {B}", sub="{A} - {B}", mul="{A} * {B}", div="tq({A}, {B})", rem="tr({A}, {B})", div_euclid="{A} / {B}", rem_euclid="{A} % {B}")
BW = dict(bitand="is_and", bitor="is_or", bitxor="is_xor", and_not="is_andnot")
DIVS = ("div", "rem", "div_rem", "div_euclid", "rem_euclid", "div_rem_euclid")
FILE = dict(add="add_ops.rs", sub="add_ops.rs", mul="mul_ops.rs", bitand="bits.rs", bitor="bits.rs", bitxor="bits.rs", and_not="bits.rs", **{d: "div_ops.rs" for d in DIVS})


def val(x, ty):
    "value of x of type ty as an int"
    return f"({x} as int)" if ty in US + SI else f"({x}.v() as int)"


def spec(op, a, b, r, rtys):
    "clauses: the result is the exact one (rtys: result type or pair)"
    if op in ("div_rem", "div_rem_euclid"):
        q, m = ("div", "rem") if op == "div_rem" else ("div_euclid", "rem_euclid")
        return spec(q, a, b, r + ".0", rtys[0]) + spec(m, a, b, r + ".1", rtys[1])
    w = [] if rtys in US + SI else [f"{r}.wf()"]
    if op in BW:
        return w + [f"{BW[op]}({val(r, rtys)}, {a}, {b})"]
    return w + [f"{val(r, rtys)} == {R[op].format(A=a, B=b)}"]


def panics(op, a, b, rtys):
    "the documented panic: division by zero or a result that is not representable"
    p = []
    if op in DIVS:
        p.append(f"{b} == 0")
    q = rtys if isinstance(rtys, str) else rtys[0]
    if q == "UBig":
        if op in BW:
            p.append({"bitand": f"({a} < 0 && {b} < 0)", "bitor": f"({a} < 0 || {b} < 0)", "bitxor": f"(({a} < 0) != ({b} < 0))", "and_not": f"({a} < 0 && {b} >= 0)"}[op])
        else:
            o = {"div_rem": "div", "div_rem_euclid": "div_euclid"}.get(op, op)
            p.append(R[o].format(A=a, B=b) + " < 0")
    return " || ".join(p)


class F:
    def __init__(self): self.by = {}
    def put(self, file, lines): self.by.setdefault(file, []).extend(lines)


def helper(out, ty, name, t, op, form, rtys, rewrites, start=""):
    """helper method `ty::name`, type t; form val|ref|assign"""
    fn = f"{ty.lower()}_{name}_{t}"
    L = [f"@fn {ty}::{name}" + ("" if form == "assign" else " -> r"), f"@mono T={t} as {fn}", f"@method2fn {fn} {ty}"]
    for a, b in rewrites:
        L.append(f"@rewrite `{a}` => `" + re.sub(r"\bself\b", "vp_self", b) + "`")
    s0 = "old(vp_self)" if form == "assign" else "vp_self"
    a, b = val(s0, ty), val("rhs", t)
    p = panics(op, a, b, rtys)
    if p: L.append("@panics " + p)
    L.append(f"    requires {s0}.wf()")
    r = "final(vp_self)" if form == "assign" else "r"
    L.append("    ensures " + ", ".join(spec(op, a, b, r, rtys)))
    if start: L += ["@start", start]
    out.put(FILE[op], L)


def binop(out):
    for t in US + SI:
        un = t in US
        kind = "unsigned" if un else "signed"
        big = f"crate::convert::ubig_from_unsigned_{t}(rhs)"
        ib = f"crate::convert::ibig_from_{kind}_{t}(rhs)"
        for op, sym in (("add", "+"), ("sub", "-"), ("mul", "*"), ("bitand", "&"), ("bitor", "|"), ("bitxor", "^"), ("and_not", None), ("div", "/")):
            meth = op in BW or op == "div"   # written as a method call on unsigned
            rty = "UBig"
            pf = f"proof {{ lemma_signs_all(); }}" if op in BW else ("proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }" if op == "div" and un else "")
            for form, nm in (("val", f"{op}_{kind}"), ("ref", f"{op}_ref_{kind}"), ("assign", f"{op}_assign_{kind}")):
                if form == "assign" and op == "and_not": continue
                rt = rty
                if op == "bitand" and un and form != "assign": rt = t
                if op == "bitand" and un and form == "ref": continue        # contracts/23_mixed.vc
                pf1 = pf.replace("vp_self.v()", "old(vp_self).v()") if form == "assign" else pf
                if un:
                    if form == "assign":
                        rw = [(f"* self {sym} = UBig :: from_unsigned ( rhs )".replace(f"{sym} =", f"{sym}="), f"self.{op}_assign({big})")] if op in ("add", "sub", "mul") else [("UBig :: from_unsigned ( rhs )", big)]
                    elif op == "bitand":
                        rw = [("self . bitand ( UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )", f"crate::convert::ubig_try_to_unsigned_{t}(&{{ let vp_and = self.bitand({big}); proof {{ lemma_and_le(vp_and.v() as int, vp_self.v() as int, rhs as int); }} vp_and }})")]
                    elif op in ("add", "sub", "mul", "div"):
                        rw = [(f"self {sym} UBig :: from_unsigned ( rhs )", f"self.{op}({big})")]
                    else:
                        rw = [("UBig :: from_unsigned ( rhs )", big)]
                else:
                    if form == "assign":
                        rw = [(f"mem :: take ( self ) . {op}_signed ( rhs )", f"ubig_{op}_signed_{t}(mem::take(self), rhs)")]
                    elif op == "bitand" and form == "ref":
                        rw = [("IBig :: from_signed ( rhs )", ib), ("self & rhs_signed . unsigned_abs ( )", "self.bitand(rhs_signed.unsigned_abs())"), ("IBig :: from ( self ) & rhs_signed", "IBig::from(self).bitand(rhs_signed)")]
                    elif op == "and_not":
                        rw = [("IBig :: from_signed ( rhs )", ib)]
                    else:
                        rw = [(f"IBig :: from ( self ) {sym} IBig :: from_signed ( rhs )", f"IBig::from(self).{op}({ib})")]
                helper(out, "UBig", nm, t, op, form, rt, rw, pf1)
        # IBig
        for op, sym in (("add", "+"), ("sub", "-"), ("mul", "*"), ("bitor", "|"), ("bitxor", "^"), ("and_not", None), ("div", "/"), ("div_euclid", None), ("rem_euclid", None), ("div_rem_euclid", None)):
            for form in ("val", "ref", "assign"):
                if form == "assign" and op in ("and_not", "div_euclid", "rem_euclid", "div_rem_euclid"): continue
                nm = {"val": f"{op}_primitive", "ref": f"{op}_ref_primitive", "assign": f"{op}_assign_primitive"}[form]
                rw = []
                if op in ("add", "sub", "mul"):
                    rw = [(f"* self {sym}= IBig :: from ( rhs )", f"self.{op}_assign(IBig::from(rhs))")] if form == "assign" else [(f"self {sym} IBig :: from ( rhs )", f"self.{op}(IBig::from(rhs))")]
                rt = {"rem_euclid": t, "div_rem_euclid": ("IBig", t)}.get(op, "IBig")
                pf = "proof { lemma_euclid_rem_fits(vp_self.v(), rhs as int); }" if op in ("rem_euclid", "div_rem_euclid") else ""
                helper(out, "IBig", nm, t, op, form, rt, rw, pf)
        for form, nm in (("val", "sub_from_primitive"), ("ref", "sub_ref_from_primitive")):
            fn = f"ibig_{nm}_{t}"
            out.put("add_ops.rs", [f"@fn IBig::{nm} -> r", f"@mono T={t} as {fn}", f"@method2fn {fn} IBig", "@rewrite `IBig :: from ( rhs ) - self` => `IBig::from(rhs).sub(vp_self)`", "    requires vp_self.wf()", "    ensures r.wf(), r.v() == rhs as int - vp_self.v()"])
        for form, nm in (("val", "bitand"), ("ref", "bitand_ref")):
            if un:
                helper(out, "IBig", nm + "_unsigned", t, "bitand", form, t, [("self . bitand ( IBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )", f"crate::convert::ibig_try_to_unsigned_{t}(&{{ let vp_and = self.bitand({ib}); proof {{ lemma_and_le(vp_and.v(), vp_self.v(), rhs as int); }} vp_and }})")])
            else:
                helper(out, "IBig", nm + "_signed", t, "bitand", form, "IBig", [("IBig :: from_signed ( rhs )", ib)])
        helper(out, "IBig", "bitand_assign_primitive", t, "bitand", "assign", "IBig", [])
        helper(out, "IBig", "rem_assign_primitive", t, "rem", "assign", "IBig", [])
        # division
        for form, r_ in (("val", ""), ("ref", "ref_")):
            if un:
                nn = "proof { lemma_trunc_nn(vp_self.v() as int, rhs as int); }"
                helper(out, "UBig", f"rem_{r_}unsigned", t, "rem", form, t, [("( self % UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )", f"crate::convert::ubig_try_to_unsigned_{t}(&self.rem({big}))")], nn)
                helper(out, "UBig", f"div_rem_{r_}unsigned", t, "div_rem", form, ("UBig", t), [("UBig :: from_unsigned ( rhs )", big), ("r . try_to_unsigned ( )", f"crate::convert::ubig_try_to_unsigned_{t}(&r)")], nn)
                helper(out, "IBig", f"rem_{r_}unsigned", t, "rem", form, "IBig", [("self % IBig :: from_unsigned ( rhs )", f"self.rem({ib})")])
                helper(out, "IBig", f"div_rem_{r_}unsigned", t, "div_rem", form, ("IBig", "IBig"), [("IBig :: from_unsigned ( rhs )", ib)])
            else:
                fit = "proof { lemma_trunc_rem_fits(vp_self.v() as int, rhs as int); }"
                euc = "proof { lemma_euclid_rem_fits(vp_self.v() as int, rhs as int); }"
                tos = f"crate::convert::ibig_try_to_signed_{t}"
                helper(out, "UBig", f"rem_{r_}signed", t, "rem", form, t, [("rhs . to_sign_magnitude ( )", f"crate::primitive::{t}_to_sign_magnitude(rhs)"), (f"self . rem_{r_}unsigned ( rhs_unsigned )", f"ubig_rem_{r_}unsigned_{UN[t]}(self, rhs_unsigned)"), ("T :: try_from_sign_magnitude (", f"crate::primitive::{t}_try_from_sign_magnitude(")], fit)
                helper(out, "UBig", f"div_rem_{r_}signed", t, "div_rem", form, ("UBig", t), [("IBig :: from_signed ( rhs )", ib), ("r . try_to_signed ( )", tos + "(&r)")], fit)
                helper(out, "UBig", f"div_euclid_{r_}signed", t, "div_euclid", form, "UBig", [("IBig :: from_signed ( rhs )", ib)])
                helper(out, "UBig", f"rem_euclid_{r_}signed", t, "rem_euclid", form, t, [(f"self . rem_{r_}signed ( rhs )", f"ubig_rem_{r_}signed_{t}(self, rhs)")], "proof { lemma_trunc_euclid_nn(vp_self.v() as int, rhs as int); }")
                helper(out, "UBig", f"div_rem_euclid_{r_}signed", t, "div_rem_euclid", form, ("UBig", t), [("IBig :: from_signed ( rhs )", ib), ("r . try_to_signed ( )", tos + "(&r)")], euc)
                helper(out, "IBig", f"rem_{r_}signed", t, "rem", form, t, [("( self % IBig :: from_signed ( rhs ) ) . try_to_signed ( )", f"{tos}(&self.rem({ib}))")], fit)
                helper(out, "IBig", f"div_rem_{r_}signed", t, "div_rem", form, ("IBig", t), [("IBig :: from_signed ( rhs )", ib), ("r . try_to_signed ( )", tos + "(&r)")], fit)
        if un:
            helper(out, "UBig", "rem_assign_unsigned", t, "rem", "assign", "UBig", [("UBig :: from_unsigned ( rhs )", big)], "proof { lemma_trunc_nn(old(vp_self).v() as int, rhs as int); }")
        else:
            helper(out, "UBig", "rem_assign_signed", t, "rem", "assign", "UBig", [("IBig :: from ( mem :: take ( self ) ) % IBig :: from_signed ( rhs )", f"IBig::from(mem::take(self)).rem({ib})")], "proof { lemma_trunc_rem_fits(old(vp_self).v() as int, rhs as int); }")


HEAD = {
    "bits.rs": '''@mod
/// signs of all bitwise results at once
pub proof fn lemma_signs_all()
    ensures forall|r: int, a: int, b: int| #[trigger] is_and(r, a, b) ==> ((r < 0) == (a < 0 && b < 0)), forall|r: int, a: int, b: int| #[trigger] is_or(r, a, b) ==> ((r < 0) == (a < 0 || b < 0)),
        forall|r: int, a: int, b: int| #[trigger] is_xor(r, a, b) ==> ((r < 0) == ((a < 0) != (b < 0))), forall|r: int, a: int, b: int| #[trigger] is_andnot(r, a, b) ==> ((r < 0) == (a < 0 && b >= 0))
{
    assert forall|r: int, a: int, b: int| #[trigger] is_and(r, a, b) implies ((r < 0) == (a < 0 && b < 0)) by { lemma_op_signs(r, a, b); }
    assert forall|r: int, a: int, b: int| #[trigger] is_or(r, a, b) implies ((r < 0) == (a < 0 || b < 0)) by { lemma_op_signs(r, a, b); }
    assert forall|r: int, a: int, b: int| #[trigger] is_xor(r, a, b) implies ((r < 0) == ((a < 0) != (b < 0))) by { lemma_op_signs(r, a, b); }
    assert forall|r: int, a: int, b: int| #[trigger] is_andnot(r, a, b) implies ((r < 0) == (a < 0 && b >= 0)) by { lemma_op_signs(r, a, b); }
}''',
    "div_ops.rs": '''@mod
/// truncated division of a nonnegative number by a nonnegative one is the floor division
pub proof fn lemma_trunc_nn(a: int, b: int) ensures a >= 0 && b > 0 ==> tq(a, b) == a / b && tr(a, b) == a % b && 0 <= tr(a, b) < b && tq(a, b) >= 0
{ if a >= 0 && b > 0 { lemma_trunc(a, b); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, b); vstd::arithmetic::div_mod::lemma_mod_bound(a, b); } }
pub proof fn lemma_trunc_rem_fits(a: int, b: int) ensures b != 0 ==> (if b < 0 { b } else { -b }) < tr(a, b) && tr(a, b) < (if b < 0 { -b } else { b }), b != 0 && a >= 0 ==> tr(a, b) >= 0 && tr(a, b) == a % (if b < 0 { -b } else { b })
{ if b != 0 { lemma_trunc(a, b); } }
pub proof fn lemma_trunc_euclid_nn(a: int, b: int) ensures b != 0 && a >= 0 ==> tr(a, b) == a % b
{ if b != 0 { lemma_trunc(a, b); lemma_euclid(a, b); } }
pub proof fn lemma_euclid_rem_fits(a: int, b: int) ensures b != 0 ==> 0 <= a % b && a % b < (if b < 0 { -b } else { b })
{ }''',
}

MAC=dict(add_ops=["impl_add_ubig_unsigned","impl_add_ubig_signed","impl_add_ibig_primitive"],mul_ops=["impl_mul_ubig_unsigned","impl_mul_ubig_signed","impl_mul_ibig_primitive"],div_ops=["impl_div_ubig_unsigned","impl_div_ubig_signed","impl_div_ibig_unsigned","impl_div_ibig_signed","impl_div_ibig_primitive"],bits=["impl_bit_ops_ubig_unsigned","impl_bit_ops_ubig_signed","impl_bit_ops_ibig_unsigned","impl_bit_ops_ibig_signed","impl_bit_ops_ibig_primitive"])
FW=["forward_binop_first_arg_by_value","forward_binop_second_arg_by_value","forward_div_rem_second_arg_by_value","forward_binop_swap_args","forward_binop_assign_arg_by_value"]
def listing():
    "the operator impls with a primitive operand after macro expansion: file -> [(impl header, method, body)]"
    import weave, rustlex as RL
    res={}
    for f,ms in MAC.items():
        w=weave.Weave('/repo','/tmp/x','x86_64',[])
        src=open(f'/repo/src/{f}.rs').read()
        src = re.sub(r"(?m)^[ \t]*///.*$", "", src)
        src=w.expand_macros(src,ms); src=w.expand_macros(src,[x for x in FW if x+"!" in src])
        T=RL.lex(src)
        L=[]
        for it in RL.parse_items(T,0,len(T)):
            if it.kind=="impl" and re.search(r"\b[ui](8|16|32|64|128|size)\b",it.name):
                for ch in it.children:
                    if ch.kind=="fn":
                        L.append((it.name,ch.name,RL.norm(T[ch.body:ch.hi])))
        res[f]=L
    return res

def impls(out):
    for f, L in listing().items():
        file = f + ".rs"
        fw = [x for x in FW if x + "!" in open(f"/repo/src/{file}").read()]
        out.put(file, [f"@expand {m}" for m in MAC[f] + fw])
        for hdr, meth, body in L:
            m = re.match(r"(\w+) < (& )?('\w+ )?(\w+) > for (& )?('\w+ )?(\w+)$", hdr)
            tr, rref, rty, lref, lty = m.group(1), bool(m.group(2)), m.group(4), bool(m.group(5)), m.group(7)
            asg = meth.endswith("_assign")
            op = meth[:-7] if asg else meth
            big, t = (lty, rty) if lty in ("UBig", "IBig") else (rty, lty)
            un = t in US
            # the documented result type
            if asg: rt = big
            elif op == "bitand" and un: rt = t
            elif op in ("rem", "rem_euclid"): rt = t if not (big == "IBig" and un and op == "rem") else "IBig"
            elif op in ("div_rem", "div_rem_euclid"): rt = (big, t if not (big == "IBig" and un and op == "div_rem") else "IBig")
            else: rt = big
            def v(x, ty, ref): return f"(*{x} as int)" if ty == t and ref else val(x, ty)
            L1 = [f"@fn {hdr}::{meth}" + ("" if asg else " -> r")]
            h = re.search(r"\b(self|rhs) \. (\w+_(?:un)?(?:signed|primitive)) \( (self|rhs) \)", body)
            if h:
                L1.append(f"@rewrite `{h.group(0)}` => `{big.lower()}_{h.group(2)}_{t}({h.group(1)}, {h.group(3)})`")
            a0, b0 = v("self", lty, lref), v("rhs", rty, rref)
            pre = ("self" if big == lty else "rhs") + ".wf()"
            L1.append(f"@pre {pre}")
            p = panics(op, a0, b0, rt)
            if p: L1.append("@panics " + p)
            if asg: L1.append("    ensures " + ", ".join(spec(op, val("old(self)", big), b0, "final(self)", rt)))
            else: L1.append("    ensures " + ", ".join(spec(op, a0, b0, "r", rt)))
            if big == "UBig" and un and op in ("div_euclid", "rem_euclid", "div_rem_euclid"):
                L1 += ["@start", f"proof {{ lemma_trunc_nn({a0}, {b0}); }}"]
            out.put(file, L1)


if __name__ == "__main__":
    for name, gen in (("1_helpers.vc", binop), ("2_impls.vc", impls)):
        out = F()
        gen(out)
        os.makedirs(OUT, exist_ok=True)
        with open(os.path.join(OUT, name), "w") as f:
            for file, lines in out.by.items():
                f.write(f"@file {file}\n")
                if name[0] == "1" and file in HEAD: f.write(HEAD[file] + "\n")
                f.write("\n".join(lines) + "\n")
