"""Obligation generation: entry-point contracts against the symbolic outcomes of the real code."""
import time
import z3
from values import *
from interp import simp, mk_not
from patterns import *
from prover import Forall, Fail, Lost, skolem, short
from specs import And, Or, Not
from spec import ITEMS, MAPS


class Ob:
    __slots__ = ("name", "status", "detail", "model", "entry", "time", "beh")

    def __init__(self, name, status, detail="", model=None, entry=None, t=0.0, beh=None):
        self.name, self.status, self.detail, self.model, self.entry, self.time, self.beh = name, status, detail, model, entry, t, beh


def env_answers(st):
    """on this path: the chain answers every query it is asked, with what it is asked for, and converts every address"""
    seen, out = set(), []

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t):
            n = t.decl().name()
            if n in ("addr_canonical.ok", "addr_human.ok", "instantiate2_address.ok"):
                out.append(t)
            elif n.startswith("json_ok:") and leafs(t.arg(0), "chain_answer."):
                out.append(t)
            elif n in ("chain_answer.tag", "chain_answer.Ok.0.tag"):
                out.append(t == 0)
            for c in t.children():
                walk(c)
    for c in st.pc:
        walk(c)
    return out


def leafs(t, prefix):
    return z3.is_app(t) and (t.decl().name().startswith(prefix) or any(leafs(c, prefix) for c in t.children()))


class Checker:
    obs_prefix = ""
    ep_prefix = "ep_"
    items = ITEMS
    maps = MAPS
    keys = {"pending_queries": (("chan", STR), ("seq", INT))}

    def __init__(self, W):
        self.W = W
        self.obs = []
        self.by_name = {}
        self.worlds = []

    def ob(self, name, st, fn, entry=None, beh=None):
        """one obligation; st is the state (for its notes)"""
        t0 = time.time()
        status, detail, model = "proved", "", None
        try:
            fn()
        except Lost as e:
            status, detail = "undecided", "specification not anchored: " + e.msg
        except Fail as e:
            detail, model = e.msg, e.model
            status = "refuted" if e.model is not None else "undecided"
        except (Unsupported, KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception) as e:
            status, detail = "undecided", f"{type(e).__name__}: {e}"
        if status == "refuted" and st is not None and getattr(st, "notes", None):
            status, detail = "undecided", detail + " [path contains an abstracted call: " + "; ".join(list(st.notes)[:3]) + "]"
        o = Ob(self.obs_prefix + name, status, detail, model, entry, time.time() - t0, beh)
        self.obs.append(o)
        return status == "proved"

    # ------------------------------------------------------------------ entry contracts
    def entry(self, name, want=None, behs=None, accept=True, total=True, cover=True, only=None, pre=()):
        """check entry `name` against its behaviours.
        want    aspects to check (None: all)
        only    predicate on behaviour names
        accept  a call is accepted only when a behaviour's conditions hold
        total   a call whose behaviour's conditions hold (on an initialised contract) is not rejected
        """
        W, pr = self.W, self.W.pr
        res = {}
        if not self.ob(f"{name}: symbolic execution", None, lambda: res.__setitem__("e", W.ep(self.ep_prefix + name)), name):
            return None
        e = res["e"]
        if not self.ob(f"{name}: contract well-formed", None, lambda: res.__setitem__("b", (behs or getattr(W, "bh_" + name))(e)), name):
            return None
        self.against(name, e, res["b"], want, accept, total, cover, only, pre)
        return e

    def function(self, root, argn, behs, want=("value",), **kw):
        """check a library function (through its root) against behaviours"""
        W = self.W
        res = {}
        if not self.ob(f"{root[3:]}: symbolic execution", None, lambda: res.__setitem__("e", W.body(root, argn)), root):
            return None
        e = res["e"]
        if not self.ob(f"{root[3:]}: contract well-formed", None, lambda: res.__setitem__("b", behs(e)), root):
            return None
        self.against(root[3:], e, res["b"], want, **kw)
        return e

    def against(self, name, e, bhs, want=None, accept=True, total=True, cover=True, only=None, pre=()):
        W, pr = self.W, self.W.pr
        sel = [b for b in bhs if only is None or only(b.name)]
        covered = {b.name: False for b in sel}
        for o in e.oks:
            st = o.st
            for c in pre:
                st = st.copy().assume(simp(c))
            if accept and only is None:
                self.ob(f"{name}#{o.n}: an accepted call is in a specified case", st,
                        lambda: pr.prove(st, Or(*[And(*b.sel) if b.sel else z3.BoolVal(True) for b in bhs]) if bhs else z3.BoolVal(False), "accepted call"), name)
            for b in sel:
                s = pr.assume_all(st, b.sel)
                if b.sel and not pr.sat(s):
                    continue
                tag = f"{name}/{b.name}#{o.n}"
                if accept:
                    for i, c in enumerate(b.acc):
                        self.ob(f"{tag}: accepted only if condition {i + 1}", s, lambda: pr.prove_all(s, [c], f"accepted only if condition {i + 1}"), name, b.name)
                s2 = pr.assume_all(s, b.acc)
                if not pr.sat(s2):
                    continue
                if not covered[b.name] and pr.sat(pr.assume_all(s2, b.inv)):
                    covered[b.name] = True
                self.aspects(tag, name, o, s2, b, want)
        if total:
            for o in e.aborts:
                env = env_answers(o.st) if total == "env" else []
                for b in sel:
                    s = pr.assume_all(o.st, b.sel)
                    if b.sel and not pr.sat(s):
                        continue
                    self.ob(f"{name}/{b.name}#{o.n}: not rejected ({o.kind})", o.st,
                            lambda: pr.prove_not_all(s, b.acc + b.inv + env, f"rejected ({o.kind}) although every condition holds"), name, b.name)
        if cover:
            for b in sel:
                def cov():
                    if not covered[b.name]:
                        if any(x.st.notes for x in e.outs):
                            raise Lost("no accepting path found")
                        raise Fail(f"no accepting path for {b.name}", model="none")
                self.ob(f"{name}/{b.name}: reachable", None, cov, name, b.name)

    def aspects(self, tag, entry, o, s, b, want):
        W, pr = self.W, self.W.pr
        ok = lambda a: (want is None or a in want or a.split(":")[0] in want) and a not in b.free
        v = o.v
        if "msgs" in b.post and ok("msgs"):
            self.ob(f"{tag}: messages", s, lambda: pr.match(s, W.F(v, "messages"), b.post["msgs"], "messages"), entry, b.name)
        if "events" in b.post and ok("events"):
            self.ob(f"{tag}: events", s, lambda: pr.match(s, W.F(v, "events"), b.post["events"], "events"), entry, b.name)
        if "value" in b.post and ok("value"):
            self.ob(f"{tag}: returned value", s, lambda: pr.match(s, v, b.post["value"], "result"), entry, b.name)
        for ns in self.items:
            k = f"item:{ns}"
            if ok(k):
                self.ob(f"{tag}: stored {ns}", s, lambda: self.item(o, s, ns, b.post.get(k)), entry, b.name)
        for ns in self.maps:
            k = f"map:{ns}"
            if ok(k):
                self.ob(f"{tag}: stored {ns}", s, lambda: self.map(o, s, ns, b.post.get(k)), entry, b.name)

    def item(self, o, s, ns, p):
        W, pr = self.W, self.W.pr
        if p is None and ("item", ns) not in o.st.store and ("havoc",) not in o.st.store:
            pr.stats["trivial"] += 1
            return
        p1, v1 = W.post(o, ns)
        if p is None:
            return self.unchanged(s, W.pre(ns), (p1, v1), ns)
        if p[0] == "absent":
            return pr.prove(s, Not(p1), f"{ns} is absent")
        pr.prove(s, p1, f"{ns} is stored")
        pr.match(s, v1, p[1], ns)

    def unchanged(self, s, pre, post, what):
        pr = self.W.pr
        p0, v0 = pre
        p1, v1 = post
        pr.prove(s, p0 == p1, f"{what} is stored iff it was")
        if pr.I.feasible(s, simp(p1)):
            pr.eq(s.copy().assume(simp(p1)), v1, v0, what)

    def map(self, o, s, ns, entries):
        W, pr = self.W, self.W.pr
        if not any(k[0] in ("map", "havoc") and (len(k) < 2 or k[1] == ns) for k in o.st.store) and not entries:
            pr.stats["trivial"] += 1
            return
        for k, p in entries or []:
            for s2, p1, v1 in self.lookups(o, s, ns, k):
                if p[0] == "absent":
                    pr.prove(s2, Not(p1), f"{ns} at the key is absent")
                else:
                    pr.prove(s2, p1, f"{ns} at the key is stored")
                    pr.match(s2, v1, p[1], f"{ns}[key]")
        # any other key
        kk = tuple(z3.Const("key!" + n, t) for n, t in self.keys[ns])
        s3 = s.copy()
        for k, _ in entries or []:
            s3.assume(Or(*[a != b for a, b in zip(kk, k)]))
        for s4, p1, v1 in self.lookups(o, s3, ns, kk):
            self.unchanged(s4, W.map_pre(ns, kk), (p1, v1), f"{ns}[other key]")

    def lookups(self, o, s, ns, k):
        import hooks
        out = []
        for s2, p, v in hooks.map_lookup(self.W.I, s, ns, self.W.map_ty(ns), k):
            out.append((s2, p, v))
        return out

    # ------------------------------------------------------------------ result
    def summary(self):
        c = {"proved": 0, "refuted": 0, "undecided": 0}
        for o in self.obs:
            c[o.status] += 1
        return c
