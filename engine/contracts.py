"""Callee contracts.  A caller is verified against the contract of the callee, not its body.

The contract of a pure conversion F says: F(x) is a partial function of its arguments, defined exactly when
ok_F(x), with value val_F(x).  Callers only see the symbols ok_F and val_F; the properties about the
conversions prove, from the body of F, what the symbols are.
"""
import z3
from values import *
from interp import State, mk_not, simp

PURE = {"rt_convert": "abort", "rt_query": "panic", "rt_response": "err"}


class Contracts:
    """mixin of World"""

    def setup_contracts(self, names):
        self.ct_fid = {}
        for n in names:
            fid = self.target(n)
            if fid is None:
                continue
            self.ct_fid[n] = fid
            self.I.contracts[self.P.fns[fid]["def"]] = self.handler(n)

    def target(self, root):
        """the item a root forwards to"""
        if root not in self.P.roots:
            return None
        b = self.P.fns[self.P.roots[root]]["body"]
        for blk in b["blocks"]:
            t = blk["t"]
            if t["k"] == "call":
                fid = t["f"].get("fn")
                if fid is not None and self.P.fns[fid]["body"] is not None and self.P.fns[fid]["def"].startswith("cw_ica_controller"):
                    return fid
        return None

    def modular(self, n):
        return n in getattr(self, "ct_fid", {})

    def ct_sym(self, n, vals):
        nm, args = f"ct!{n}", []
        for v in vals:
            if is_term(v):
                args.append(v)
            elif isinstance(v, Sym):
                nm += f"<{v.fn}>"
                args += list(v.args)
            else:
                return None
        return nm, tuple(args)

    def ct_ty(self, n):
        fid = self.ct_fid[n]
        t = self.P.fns[fid]["body"]["locals"][0]
        d = self.P.types[t]
        return d["args"][0] if PURE[n] != "panic" else t

    def ct(self, n, vals):
        nm, args = self.ct_sym(n, vals)
        return app(nm + ".ok", args, BOOL), self.I.leaf(self.ct_ty(n), nm, args)

    def handler(self, n):
        def h(I, st, cx, args):
            vals = []
            for a in args:
                v = I.snapshot(st, I.deref(st, a)) if not is_term(a) else a
                if isinstance(v, Adt) and len(v.fields) == 1 and is_term(v.fields[0]):
                    v = v.fields[0]
                vals.append(v)
            if self.ct_sym(n, vals) is None:
                return None
            ok, v = self.ct(n, vals)
            out = []
            from hooks import mk, err_leaf
            for s, yes in I.fork(st, [(ok, True), (mk_not(ok), False)]):
                if yes:
                    out.append((s, "ret", v if PURE[n] == "panic" else mk(I, cx.dty, "Ok", v)))
                    continue
                if PURE[n] in ("abort", "panic"):
                    out.append((s, "panic", f"{n} rejects its input"))
                if PURE[n] in ("abort", "err"):
                    nm, args2 = self.ct_sym(n, vals)
                    out.append((s, "ret", err_leaf(I, cx.dty, nm + ".err", args2)))
            return out
        return h
