"""Contracts -> Verus proof functions."""

import re

from cxx2verus import Translator, Place, R, Unsupported, ident, strip_anon, BOUNDS
from cxxlib import LibEnv


class Restart(Exception):
    pass


class Gen(Translator):
    def __init__(self, dump, unit):
        super().__init__(dump, unit)
        self.recursive = set()
        unit.setdefault("_rec", {})
        self.done = {}         # function id -> dict(text, mods, outs, ...)
        self.in_progress = []
        self.order = []
        self.names = {}
        self.by_contract = {}
        for key in self.contracts:
            f = self.resolve(key)
            self.by_contract[f["id"]] = key
            # the same function seen from other translation units
            for g in dump.functions.values():
                if g["id"] != f["id"] and g["name"] == f["name"] and g["file"] == f["file"] and \
                        g["line"] == f["line"] and self.sig(g) == self.sig(f):
                    self.by_contract[g["id"]] = key

    # ---- naming -------------------------------------------------------
    def sig(self, f):
        return [self.d.ty(self.d.strip(p["type"]))["str"].replace("const ", "") for p in f["params"]]

    def resolve(self, key):
        m = re.match(r"([^(]*?)(\((.*)\))?$", key) if not key.endswith("operator()") else None
        name, args = (m.group(1), m.group(3)) if m else (key, None)
        cands = [f for f in self.d.by_name.get(name, []) if not f.get("dup")]
        if args is not None:
            want = [a.strip() for a in args.split(",")] if args.strip() else []
            cands = [f for f in cands if len(f["params"]) == len(want)
                     and all(w == "*" or w in s for w, s in zip(want, self.sig(f)))]
        if len(cands) == 0:
            raise Unsupported(f"function {key} not found in the source")
        if len(cands) > 1:
            raise Unsupported(f"function {key} is ambiguous: {[self.sig(c) for c in cands]}")
        return cands[0]

    def contract_of(self, f):
        key = self.by_contract.get(f["id"])
        return self.contracts[key] if key is not None else None

    def canonical(self, f):
        key = self.by_contract[f["id"]]
        return self.resolve(key)

    def functional_key(self, f):
        c = self.contract_of(f)
        return c.get("fun") if c else None

    def fn_name(self, f):
        key = self.by_contract.get(f["id"], f["name"])
        c = self.contracts.get(key, {})
        return c.get("rust") or "vc_" + ident(key)

    # ---- signatures ----------------------------------------------------
    def is_out_param(self, p):
        ty = self.d.ty(p["type"])
        if ty["k"] == "ref":
            inner = self.d.ty(ty["t"])
            return not inner.get("const")
        if ty["k"] == "ptr":
            inner = self.d.ty(ty["t"])
            return not inner.get("const") and inner["k"] != "function" and not self.is_opaque_ptr(ty)
        return False

    def val_str(self, t):
        ty = self.d.ty(t)
        s = ty["str"]
        return s[6:] if s.startswith("const ") and ty["k"] not in ("ref", "ptr") else s

    def is_opaque_ptr(self, ty):
        return False

    def param_rt(self, p):
        ty = self.d.ty(p["type"])
        if self.is_out_param(p):
            return "int" if self.is_charptr(ty["t"]) else self.local_rt(self.rt(ty["t"]))
        if self.is_charptr(p["type"]):
            return "int"
        return self.rt(p["type"])

    def result_components(self, f, c):
        f = self.canonical(f)
        out = []
        if self.mods_this(f):
            out.append(("this", self.this_rt(f), None))
        for p in f["params"]:
            if self.is_out_param(p):
                out.append(("out", self.param_rt(p), p["name"]))
        ret = self.d.ty(self.d.strip(f["ret"]))
        if not (ret["k"] == "builtin" and ret["n"] == "void"):
            out.append(("ret", self.ret_rt(f), None))
        if self.throws(f):
            out.append(("exc", "bool", None))
        return out

    def ret_rt(self, f):
        if self.is_charptr(f["ret"]):
            return "int"
        return self.local_rt(self.rt(f["ret"]))

    def result_rt(self, f, c):
        comps = self.result_components(f, c)
        if not comps:
            return "()"
        if len(comps) == 1:
            return comps[0][1]
        return "(" + ", ".join(x[1] for x in comps) + ")"

    def result_ret(self, f, c, nm):
        comps = self.result_components(f, c)
        i = [x[0] for x in comps].index("ret")
        return nm if len(comps) == 1 else f"{nm}.{i}"

    def this_rt(self, f):
        return self.struct(strip_anon(f["class"]))

    def mods_this(self, f):
        if not f.get("class") or f.get("static"):
            return False
        m = self.modset(f)
        return m is None or bool(m)

    def modset(self, f):
        f = self.canonical(f) if f["id"] in self.by_contract else f
        info = self.translate(f)
        return info["mods"]

    def throws(self, f):
        f = self.canonical(f) if f["id"] in self.by_contract else f
        return self.translate(f)["throws"]

    # ---- translation of one contracted function ---------------------------
    def translate(self, f):
        if f["id"] in self.done:
            return self.done[f["id"]]
        c = self.contract_of(f)
        if f["id"] in self.in_progress:
            # recursion: the modification set is found by iteration
            self.recursive.add(f["id"])
            mods, thr = self.unit["_rec"].get(self.by_contract[f["id"]], (set(), False))
            return dict(mods=set(mods), throws=thr)
        self.in_progress.append(f["id"])
        try:
            info = self._translate(f, c)
        finally:
            self.in_progress.pop()
        key = self.by_contract[f["id"]]
        if f["id"] in self.recursive:
            mods, thr = self.unit["_rec"].get(key, (set(), False))
            if not (set(info["mods"]) <= set(mods)) or (info["throws"] and not thr):
                self.unit["_rec"][key] = (set(mods) | set(info["mods"]), thr or info["throws"])
                raise Restart()
            info["mods"], info["throws"] = set(mods), thr
        self.done[f["id"]] = info
        self.order.append(f["id"])
        return info

    def rec_name(self, f):
        """calls inside a recursive cycle use a copy of the contract"""
        n = self.fn_name(f)
        return n + "_rec" if self.canonical(f)["id"] in self.in_progress else n

    def _translate(self, f, c):
        env = LibEnv(self, f, c)
        key = self.by_contract[f["id"]]
        params = []
        cname = {}
        given = c.get("params")
        is_method = f.get("class") and not f.get("static") and not f.get("ctor")
        body_head = []
        if is_method or f.get("ctor"):
            rt = self.struct(strip_anon(f["class"]))
            if is_method:
                params.append(("pre", rt))
                body_head.append(("s", rt, "pre"))
            else:
                body_head.append(("s", rt, "havoc()"))
            env.this = Place("s", (), None)
            env.top_this = "s"
            env.rts["s"] = rt
            env.rts["pre"] = rt
        outs = []
        hid = c.get("container")
        for i, p in enumerate(f["params"]):
            nm = ident(given[i] if given and i < len(given) else (p["name"] or f"p{i}"))
            rt = self.param_rt(p)
            if i in c.get("literals", ()):
                # pointer to a text which ends with a terminator
                params.append((nm, "Seq<i8>"))
                local, z = f"{nm}_l", f"{nm}_z"
                body_head.append((z, "Seq<i8>", f"{nm}.push(0i8)"))
                body_head.append((local, "int", "0"))
                env.rts[nm] = env.rts[z] = "Seq<i8>"
                env.rts[local] = "int"
                env.mutvars.add(local)
                env.scope_vars.append(local)
                env.contof[local] = Place(z, (), None)
                env.vars[p["id"]] = R(local, p["type"], "int", place=Place(local, (), p["type"]), cont=Place(z, (), None))
                continue
            out = self.is_out_param(p)
            pn = f"pre_{nm}" if out else nm
            params.append((pn, rt))
            local = f"{nm}_l"
            env.param_names[nm] = local
            body_head.append((local, rt, pn))
            env.rts[local] = rt
            env.rts[pn] = rt
            env.mutvars.add(local)
            env.scope_vars.append(local)
            ty = self.d.ty(p["type"])
            pt = ty["t"] if ty["k"] in ("ref", "ptr") and out else p["type"]
            cont = None
            if hid and rt == "int" and (self.is_iter(pt) or self.is_charptr(pt)):
                cont = Place(hid[0], (), None)
                env.contof[local] = cont
            pl = Place(local, (), pt)
            if ty["k"] == "ptr" and out:
                al = R(local, pt, rt, place=pl, cont=cont)
                rr = R(local, p["type"], "ptrto", place=None)
                rr.alias = al
                env.vars[p["id"]] = rr
                outs.append((p["name"], nm, local, rt))
            else:
                env.vars[p["id"]] = R(local, pt, rt, place=pl, cont=cont,
                                      rev=self.is_rev_iter(pt)) if cont is not None else pl
                if out:
                    outs.append((p["name"], nm, local, rt))
        if hid:
            params.append((hid[0], hid[1]))
            env.rts[hid[0]] = hid[1]
        for g, grt in c.get("ghosts", ()):
            params.append((g, grt))
            env.rts[g] = grt
            env.ghost_bind[g] = g
        for callee_g, text in c.get("ghost_pass", {}).items():
            env.ghost_bind[callee_g] = text
        # result variable
        ret = self.d.ty(self.d.strip(f["ret"]))
        has_ret = not (ret["k"] == "builtin" and ret["n"] == "void") and not f.get("ctor")
        frame = dict(rv="rv", ret="retf", cont=None, rt="()", ctype=f["ret"], single=None, rev=False, place=None)
        if has_ret:
            frame["rt"] = self.ret_rt(f)
            env.rts["rv"] = frame["rt"]
            env.mutvars.add("rv")
            env.scope_vars.append("rv")
        env.rts["retf"] = "bool"
        env.scope_vars.append("retf")
        env.inl.append(frame)
        env.callstack.append(f["id"])
        for h in [*c.get("entry", ()), *c.get("exit", ())]:
            m = re.match(r"\s*s\.(\w+)\s*=", h)
            if m:
                env.writes[0].add(("s", m.group(1)))
        if f.get("ctor"):
            self.ctor_inits(env, f)
        env.stmts(f["body"]["body"] if f["body"]["k"] == "block" else [f["body"]])
        writes = env.writes[0]
        mods = None
        if is_method:
            if ("s", None) in writes:
                mods = {x[0] for x in self.structs[env.rts["s"]]}
            else:
                mods = {b for a, b in writes if a == "s" and b}
        elif f.get("ctor"):
            mods = {x[0] for x in self.structs[env.rts["s"]]}
        else:
            mods = set()
        throws = "exc" in env.jumps[0]
        info = dict(mods=mods, throws=throws, env=env, params=params, outs=outs, head=body_head, has_ret=has_ret,
                    frame=frame, key=key, f=f, contract=c, method=is_method)
        return info

    def ctor_inits(self, env, f):
        rt = env.rts["s"]
        have = set()
        recn = strip_anon(f["class"])
        fields = {ident(x["name"]): x for x in self.d.records[recn]["fields"]}
        for i in f["inits"]:
            if "field" in i:
                fname = ident(i["field"])
                frt = next((x[1] for x in self.structs[rt] if x[0] == fname), None)
                if frt is None:
                    continue
                r = env.ex(i["init"])
                env.assign(Place("s", (("f", fname),), None), env.store(r, frt))
                have.add(fname)
            elif "base" in i:
                pass
        for (fn_, frt, fd) in self.structs[rt]:
            if fn_ not in have and fd is not None:
                env.assign(Place("s", (("f", fn_),), None), env.default_of(frt, fd["type"]))

    # ---- text ------------------------------------------------------------
    def text(self, info):
        f, c, env = info["f"], info["contract"], info["env"]
        name = self.fn_name(f)
        comps = []
        if info["method"] and info["mods"] or f.get("ctor"):
            comps.append(("post", env.rts["s"], "s"))
        for (pname, nm, local, rt) in info["outs"]:
            comps.append((f"post_{nm}", rt, local))
        if info["has_ret"]:
            comps.append(("ret", info["frame"]["rt"], "rv"))
        if info["throws"]:
            comps.append(("exc", "bool", "exc"))
        single = len(comps) == 1
        subst = {}
        for i, (n, rt, v) in enumerate(comps):
            subst[n] = "res" if single else f"res.{i}"
        if "post" not in subst:
            subst["post"] = "pre"
        if "exc" not in subst:
            subst["exc"] = "false"

        def sub(t):
            return re.sub(r"\b(post_\w+|post|ret|exc)\b", lambda m: subst.get(m.group(0), m.group(0)), t)

        out = []
        lines = out.append
        plist = ", ".join(f"{n}: {rt}" for n, rt in info["params"])
        rrt = "()" if not comps else comps[0][1] if single else "(" + ", ".join(x[1] for x in comps) + ")"
        attrs = c.get("attrs", "")
        if attrs:
            lines(attrs)
        lines(f"proof fn {name}({plist})" + (f" -> (res: {rrt})" if comps else ""))
        req = [(l, t) for l, t in self.clauses(c.get("requires", ()))]
        if req:
            lines("  requires")
            for l, t in req:
                lines(f"    ({t}), //@req {l}")
        ens = [(l, sub(t)) for l, t in self.clauses([*c.get("ensures", ()), *c.get("assumed", ())])]
        if c.get("fun"):
            args = ", ".join(n for n, _ in info["params"])
            ens.insert(0, ("value", f"{subst['ret']} == {c['fun']}({args})"))
        if info["method"] and info["mods"]:
            allf = [x[0] for x in self.structs[env.rts["s"]]]
            if set(allf) - set(info["mods"]):
                body = ", ".join(f"{m}: {subst['post']}.{m}" for m in sorted(info["mods"]))
                ens.append(("frame", f"{subst['post']} == ({env.rts['s']} {{ {body}, ..pre }})"))
        if ens:
            lines("  ensures")
            for l, t in ens:
                lines(f"    ({t}), //@ens {l}")
        if c.get("decreases"):
            lines(f"  decreases {c['decreases']}")
        if f["id"] in self.recursive:
            twin = ["// induction on the call depth: same contract, used by calls inside the recursion",
                    "#[verifier::external_body]"] + [x for x in out if x != attrs]
            twin = [x.replace(f"proof fn {name}(", f"proof fn {name}_rec(").replace("//@ens", "// ens") for x in twin]
            out = twin + ["{ unimplemented!() }"] + out
            lines = out.append
        lines("{")
        for h in c.get("hide", ()):
            lines(f"  hide({h});")
        for n, rt, v in info["head"]:
            lines(f"  let mut {n}: {rt} = {v};")
        if info["has_ret"]:
            lines(f"  let mut rv: {info['frame']['rt']} = havoc();")
        lines("  let mut retf: bool = false;")
        lines("  let mut exc: bool = false;")
        for n, rt, v in info["head"]:
            for fn, frt, fld in self.structs.get(rt, ()):
                size = self.array_size(fld["type"]) if fld is not None else None
                if size is not None:
                    lines(f"  assume({n}.{fn}.len() == {size}); // array type")
        for rt, size in sorted(env.sizeofs.items()):
            lines(f"  assume(size_of::<{rt}>() == {size}); // sizeof")
        for h in c.get("entry", ()):
            lines("  " + h)
        out.extend(env.lines)
        for h in c.get("exit", ()):
            lines("  " + h.replace("{s}", "s"))
        for l, t in self.clauses(c.get("assumed", ())):
            self.notes.add(f"assumed of {info['key']}: {l}")
            final = {n: v for n, rt, v in comps}
            final.setdefault("post", "pre")
            t = re.sub(r"\b(post_\w+|post|ret|exc)\b", lambda m: final.get(m.group(0), m.group(0)), t)
            lines(f"  assume({t}); // {l}")
        lines("  @@END@@")
        if comps:
            lines("  " + (comps[0][2] if single else "(" + ", ".join(x[2] for x in comps) + ")"))
        lines("}")
        return "\n".join(out)

    def array_size(self, t):
        ty = self.d.ty(self.d.strip(t))
        if ty["k"] == "array":
            return ty["size"]
        if ty["k"] == "record" and strip_anon(ty["n"]) == "std::array":
            return ty["args"][1]["int"]
        return None

    def clauses(self, cl):
        res = []
        for i, x in enumerate(cl):
            if isinstance(x, (tuple, list)):
                res.append((x[0], x[1]))
            else:
                res.append((f"clause{i}", x))
        return res

    def decls(self):
        """struct and enum definitions, in dependency order"""
        out = []
        for name in self.struct_order:
            if name in self.enums:
                alts = ", ".join(f"V{i}({a})" for i, a in enumerate(self.enums[name]))
                out.append(f"#[verifier::ext_equal]\npub enum {name} {{ {alts} }}")
            else:
                fs = ", ".join(f"pub {n}: {rt}" for n, rt, _ in self.structs[name])
                out.append(f"#[verifier::ext_equal]\npub struct {name} {{ {fs} }}")
        return "\n".join(out)
