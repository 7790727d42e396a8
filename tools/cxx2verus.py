"""Mechanical translation of C++ functions (as dumped by cppdump) to Verus ghost code.

Every function that has a contract becomes one Verus `proof fn` whose
requires/ensures are the contract and whose body is the translated C++ body.
Functions without a contract are translated in place at each call (inlined), so
extracting a helper does not need a new contract.  Loops are cut at their head
with the loop invariants (assert / havoc / assume), `break`, `continue`,
`return` and `throw` leave with everything known on their path.

Values are mathematical: std::vector, std::string and friends are Seq<T>,
std::optional is Option<T>, iterators are indices into a statically known
container, a pointer to const is an optional (identity, value) pair.
"""

import json
import re


class Unsupported(Exception):
    pass


RUST_KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let
loop match mod move mut pub ref return self Self static struct super trait true type unsafe use
where while async await dyn abstract become box do final macro override priv typeof unsized virtual
yield try assert assume requires ensures invariant decreases forall exists choose spec proof exec
ghost tracked int nat old string""".split())

INT_RT = {
    "char": "i8", "signed char": "i8", "unsigned char": "u8", "short": "i16",
    "unsigned short": "u16", "int": "i32", "unsigned int": "u32", "long": "i64",
    "unsigned long": "u64", "long long": "i64", "unsigned long long": "u64",
    "wchar_t": "i32", "char32_t": "u32", "char16_t": "u16",
}
BOUNDS = {
    "i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535),
    "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1),
    "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1),
}


def ident(name):
    n = re.sub(r"[^A-Za-z0-9_]", "_", name)
    return n + "_" if n in RUST_KEYWORDS else n


def strip_anon(qname):
    return re.sub(r"\(anonymous namespace\)::", "", qname)


class Place:
    """An lvalue: a Rust variable and a path of fields and indices."""

    def __init__(self, root, path=(), ctype=None):
        self.root, self.path, self.ctype = root, tuple(path), ctype

    def field(self, name, ctype):
        return Place(self.root, self.path + (("f", name),), ctype)

    def index(self, idx, ctype):
        return Place(self.root, self.path + (("i", idx),), ctype)

    def opt(self, ctype):
        return Place(self.root, self.path + (("o",),), ctype)

    def elem(self, n, ctype):
        return Place(self.root, self.path + (("t", n),), ctype)

    def get(self):
        return self._get(len(self.path))

    def _get(self, n):
        s = self.root
        for p in self.path[:n]:
            if p[0] == "f":
                s = f"{s}.{p[1]}"
            elif p[0] == "i":
                s = f"{s}[{p[1]}]"
            elif p[0] == "o":
                s = f"{s}->Some_0"
            elif p[0] == "t":
                s = f"{s}.{p[1]}"
        return s


class R:
    """Translated expression."""

    def __init__(self, s, ctype, rt, cont=None, place=None, lam=None, fn=None, rev=False, parts=None):
        self.s, self.ctype, self.rt = s, ctype, rt
        self.cont, self.place, self.lam, self.fn, self.rev = cont, place, lam, fn, rev
        self.parts = parts

    def __repr__(self):
        return f"R({self.s}:{self.rt})"


class Dump:
    """Declarations of all translation units of a check."""

    def __init__(self, tus):
        self.types = []
        self.functions = {}
        self.by_name = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        seen = set()
        for n, tu in enumerate(tus):
            self._add(tu, n, seen)

    def _add(self, tu, n, seen):
        off = len(self.types)
        idoff = (n + 1) * 10_000_000

        def fix_arg(a):
            if isinstance(a, int):
                return a + off
            if isinstance(a, dict) and "pack" in a:
                return {"pack": [fix_arg(x) for x in a["pack"]]}
            return a

        for t in tu["types"]:
            t = dict(t)
            for k in ("t", "u", "ret"):
                if k in t:
                    t[k] += off
            if "args" in t:
                t["args"] = [fix_arg(a) for a in t["args"]]
            if "id" in t:
                t["id"] += idoff
            self.types.append(t)

        def fix(x):
            if isinstance(x, dict):
                r = {}
                for k, v in x.items():
                    if k in ("t", "type", "ret", "ct", "underlying") and isinstance(v, int):
                        r[k] = v + off
                    elif k in ("id", "rec", "hold") and isinstance(v, int):
                        r[k] = v + idoff
                    elif k in ("ptypes", "bases"):
                        r[k] = [a + off for a in v]
                    elif k == "targs":
                        r[k] = [fix_arg(a) for a in v]
                    elif k == "base" and isinstance(v, int):
                        r[k] = v + off
                    elif k == "values":
                        r[k] = v
                    else:
                        r[k] = fix(v)
                return r
            if isinstance(x, list):
                return [fix(v) for v in x]
            return x

        for f in fix(tu["functions"]):
            f["name"] = strip_anon(f["name"])
            self.functions[f["id"]] = f
            sig = (f["name"], f["file"], f["line"], tuple(self.types[p["type"]]["str"] for p in f["params"]),
                   str([self.targ_str(a) for a in f.get("targs", [])]))
            if sig in seen:
                f["dup"] = True
                continue
            seen.add(sig)
            self.by_name.setdefault(f["name"], []).append(f)
        for r in fix(tu["records"]):
            self.records.setdefault(strip_anon(r["name"]), r)
        for e in fix(tu["enums"]):
            self.enums.setdefault(strip_anon(e["name"]), e)
        for g in fix(tu["globals"]):
            g["name"] = strip_anon(g["name"])
            self.globals[g["id"]] = g
            self.globals.setdefault(g["name"], g)

    # ---- renamed fields and functions ----
    def signature(self, f):
        return [self.types[f["ret"]]["str"]] + [self.types[p["type"]]["str"] for p in f["params"]]

    def baseline(self):
        """names the contracts refer to, as found in the tree they were written for"""
        recs = {n: [[x["name"], self.types[x["type"]]["str"]] for x in r["fields"]] for n, r in self.records.items()}
        fns = {}
        for n, fs in self.by_name.items():
            fns[n] = [[f["file"].split("/src/")[-1], self.signature(f)] for f in fs]
        return dict(records=recs, functions=fns)

    def recover(self, base):
        """a field or function that only changed its name keeps the name the contracts use"""
        self.renamed = []
        fields = {}
        for n, old in base["records"].items():
            rec = self.records.get(n)
            if rec is None:
                continue
            names = [x["name"] for x in rec["fields"]]
            oldnames = [x[0] for x in old]
            missing = [x for x in old if x[0] not in names]
            new = [(x["name"], self.types[x["type"]]["str"]) for x in rec["fields"] if x["name"] not in oldnames]
            for ty in {m[1] for m in missing}:
                a = [m[0] for m in missing if m[1] == ty]
                b = [x[0] for x in new if x[1] == ty]
                if len(a) == len(b):
                    for o, nn in zip(a, b):
                        fields[(n, nn)] = o
                        self.renamed.append(f"{n}::{nn} (was {o})")
        funcs = {}
        for n, olds in base["functions"].items():
            if n in self.by_name or "operator" in n:
                continue
            scope = n.rsplit("::", 1)[0] if "::" in n else ""
            cands = [k for k in self.by_name if k not in base["functions"]
                     and (k.rsplit("::", 1)[0] if "::" in k else "") == scope
                     and sorted(map(str, ([f["file"].split("/src/")[-1], self.signature(f)] for f in self.by_name[k]))) ==
                     sorted(map(str, olds))]
            if len(cands) == 1 and cands[0] not in funcs:
                funcs[cands[0]] = n
                self.renamed.append(f"{cands[0]} (was {n})")
        if not fields and not funcs:
            return

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "member" and isinstance(x.get("rec"), str):
                    key = (strip_anon(x["rec"]), x["name"])
                    if key in fields:
                        x["name"] = fields[key]
                if isinstance(x.get("callee"), str) and strip_anon(x["callee"]) in funcs:
                    new = funcs[strip_anon(x["callee"])]
                    x["callee"] = new
                    if "method" in x:
                        x["method"] = new.rsplit("::", 1)[-1]
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)

        for f in self.functions.values():
            cls = strip_anon(f.get("class") or "")
            for i in f.get("inits", ()):
                if (cls, i.get("field")) in fields:
                    i["field"] = fields[(cls, i["field"])]
            walk(f)
        for n, r in self.records.items():
            for x in r["fields"]:
                if (n, x["name"]) in fields:
                    x["name"] = fields[(n, x["name"])]
        for k, n in funcs.items():
            self.by_name[n] = self.by_name.pop(k)
            for f in self.functions.values():
                if f["name"] == k:
                    f["name"] = n

    def targ_str(self, a):
        if isinstance(a, int):
            return self.types[a]["str"]
        if isinstance(a, dict) and "pack" in a:
            return [self.targ_str(x) for x in a["pack"]]
        return str(a)

    # ---- C++ type helpers (types are ids into self.types) ----
    def ty(self, t):
        return self.types[t]

    def strip(self, t):
        """without reference"""
        while self.types[t]["k"] == "ref":
            t = self.types[t]["t"]
        return t

    def ratio(self, t):
        m = re.search(r"std::ratio<(-?\d+)(?:, ?(-?\d+))?>", self.ty(self.strip(t))["str"])
        if not m:
            return (1, 1)
        return (int(m.group(1)), int(m.group(2) or 1))

    def rec_name(self, t):
        t = self.types[self.strip(t)]
        return strip_anon(t["n"]) if t["k"] == "record" else None

    def args(self, t):
        return self.types[self.strip(t)].get("args", [])


SEQ_RECORDS = ("std::vector", "std::initializer_list", "std::deque", "std::list")
STR_RECORDS = ("std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view")


class Translator:
    def __init__(self, dump, unit):
        self.d = dump
        self.unit = unit
        self.structs = {}        # rust name -> list of (field, rust type)
        self.struct_order = []
        self.enum_types = {}
        self.enums = {}          # rust name -> list of types
        self.counter = 0
        self.contracts = unit.get("contracts", {})
        self.externals = unit.get("externals", {})
        self.functional = unit.get("functional", {})
        self.ghost_fields = unit.get("ghost_fields", {})
        self.drop_fields = unit.get("drop_fields", {})
        self.iter_fields = unit.get("iter_fields", {})
        self.opaque = unit.get("opaque", {})
        self.safety = unit.get("safety", True)
        self.ufs = {}
        self.safety_off = set(unit.get("safety_off", ()))
        self.inlined = set()
        self.used_contracts = set()
        self.dropped_calls = set()
        self.dropped_fields = set()
        self.trusted_calls = set()
        self.modset_cache = {}
        self.notes = set()

    # =====================================================================
    # types
    # =====================================================================
    def is_seq(self, t):
        t = self.d.strip(t)
        ty = self.d.ty(t)
        if ty["k"] == "array":
            return True
        if ty["k"] != "record":
            return False
        n = strip_anon(ty["n"])
        if n in SEQ_RECORDS or n in STR_RECORDS or n == "std::array":
            return True
        if n == "Range":
            return True
        rec = self.d.records.get(n)
        if rec and not rec["fields"] and len(rec["bases"]) == 1 and self.is_seq(rec["bases"][0]):
            return True
        return False

    def seq_elem(self, t):
        t = self.d.strip(t)
        ty = self.d.ty(t)
        if ty["k"] == "array":
            return ty["t"]
        n = strip_anon(ty["n"])
        if n in SEQ_RECORDS or n in STR_RECORDS or n == "std::array":
            return ty["args"][0]
        if n == "Range":
            return self.iter_elem(ty["args"][0])
        rec = self.d.records[n]
        return self.seq_elem(rec["bases"][0])

    def is_iter(self, t):
        t = self.d.strip(t)
        ty = self.d.ty(t)
        if ty["k"] == "record":
            n = strip_anon(ty["n"])
            return n in ("__gnu_cxx::__normal_iterator", "std::reverse_iterator")
        return False

    def is_rev_iter(self, t):
        ty = self.d.ty(self.d.strip(t))
        return ty["k"] == "record" and strip_anon(ty["n"]) == "std::reverse_iterator"

    def iter_elem(self, t):
        ty = self.d.ty(self.d.strip(t))
        n = strip_anon(ty["n"])
        if n == "__gnu_cxx::__normal_iterator":
            return self.d.ty(ty["args"][0])["t"]
        if n == "std::reverse_iterator":
            return self.iter_elem(ty["args"][0])
        raise Unsupported("iterator " + ty["str"])

    def is_charptr(self, t):
        ty = self.d.ty(self.d.strip(t))
        return ty["k"] == "ptr" and self.d.ty(ty["t"]).get("n") in ("char", "unsigned char")

    def rt(self, t):
        """Rust type of a C++ type"""
        t = self.d.strip(t)
        ty = self.d.ty(t)
        k = ty["k"]
        if k == "builtin":
            n = ty["n"]
            if n == "bool":
                return "bool"
            if n == "void":
                return "()"
            if n in INT_RT:
                return INT_RT[n]
            if n in ("double", "float"):
                return "Real"
            if n == "std::nullptr_t":
                return "()"
        elif k == "enum":
            return self.rt(ty["u"])
        elif k == "array":
            return f"Seq<{self.rt(ty['t'])}>"
        elif k == "ptr":
            if self.d.ty(ty["t"])["k"] in ("builtin",) and self.d.ty(ty["t"])["n"] in ("char",):
                return "CStr"
            pt = self.d.ty(ty["t"])
            if pt["k"] == "function":
                return "Opaque"
            return f"Option<Ptr<{self.rt(ty['t'])}>>"
        elif k == "record":
            n = strip_anon(ty["n"])
            if n in self.opaque:
                return self.opaque[n]
            if self.is_seq(t):
                return f"Seq<{self.rt(self.seq_elem(t))}>"
            if self.is_iter(t):
                return "int"
            if n == "std::optional":
                return f"Option<{self.rt(ty['args'][0])}>"
            if n in ("std::pair", "std::tuple"):
                args = ty["args"]
                if n == "std::tuple":
                    args = args[0]["pack"]
                return "(" + ", ".join(self.rt(a) for a in args) + ("," if len(args) == 1 else "") + ")"
            if n == "std::variant":
                return self.variant(ty)
            if n == "std::unique_ptr":
                return f"Option<{self.rt(ty['args'][0])}>"
            if n in ("std::chrono::duration", "std::chrono::time_point"):
                return self.chrono(ty)
            if n in ("std::function", "std::basic_regex", "std::regex"):
                return "Opaque"
            if n in self.d.records:
                return self.struct(n)
        elif k == "function":
            return "Opaque"
        raise Unsupported("type " + ty["str"])

    def chrono(self, ty):
        # durations are kept in their own tick unit
        t = ty
        if strip_anon(t["n"]) == "std::chrono::time_point":
            return "int"
        rep = self.rt(t["args"][0])
        return "Real" if rep == "Real" else rep

    def variant(self, ty):
        args = [self.rt(a) for a in ty["args"][0]["pack"]]
        name = "Variant_" + "_".join(ident(a) for a in args)
        if name not in self.enums:
            self.enums[name] = args
            self.enum_types[name] = ty
            self.struct_order.append(name)
        return name

    def struct(self, n):
        name = ident(n.replace("::", "_"))
        if name in self.structs:
            return name
        self.structs[name] = None   # guards recursion
        rec = self.d.records[n]
        fields = []
        for i, b in enumerate(rec["bases"]):
            try:
                brt = self.rt(b)
            except Unsupported:
                self.dropped_fields.add(f"{n} base {self.d.ty(b)['str']}")
                continue
            fields.append(("base" if i == 0 else f"base{i}", brt, None))
        for f in rec["fields"]:
            if f["name"] in self.drop_fields.get(n, ()):
                self.dropped_fields.add(f"{n}::{f['name']}")
                continue
            try:
                frt = self.rt(f["type"])
            except Unsupported:
                self.dropped_fields.add(f"{n}::{f['name']}")
                continue
            fields.append((ident(f["name"]), frt, f))
        for gname, grt in self.ghost_fields.get(n, ()):
            fields.append((gname, grt, None))
        self.structs[name] = fields
        self.struct_order.append(name)
        return name

    def is_unsigned(self, rt):
        return rt in ("u8", "u16", "u32", "u64")

    def local_rt(self, rt):
        # 64 bit integers and iterators live as mathematical integers
        return "int" if rt in ("u64", "i64") else rt

    # =====================================================================
    # expressions
    # =====================================================================
    def fresh(self, base):
        self.counter += 1
        return f"{ident(base)}_{self.counter}"

    def coerce(self, r, target):
        if r.rt == target:
            return r.s
        if r.rt == "lit" and target in BOUNDS:
            v = int(r.s)
            return f"{v}{target}" if v >= 0 else f"(({v}) as {target})"
        if r.rt == "lit" and target == "int":
            v = int(r.s)
            return f"{v}int" if v >= 0 else f"({v}int)"
        nums = set(BOUNDS) | {"int", "lit", "nat"}
        if r.rt in nums and target in nums:
            return f"(({r.s}) as {target})"
        if r.rt == "CStr" and target.startswith("Seq<"):
            return r.s
        if r.rt == "bool" and target in nums:
            return f"(if {r.s} {{ 1{target} }} else {{ 0{target} }})"
        if r.rt == "none" and target.startswith("Option<"):
            return f"Option::<{target[7:-1]}>::None"
        if target.startswith("Option<") and target[7:-1] == r.rt:
            return f"Some({r.s})"
        if r.rt == "CStr" and target == "Seq<i8>":
            return r.s
        raise Unsupported(f"cannot convert {r.rt} to {target} ({r.s})")

    def num(self, r):
        """as mathematical integer text"""
        if r.rt == "lit":
            return f"{r.s}int" if int(r.s) >= 0 else f"({r.s}int)"
        if r.rt == "int":
            return r.s
        return f"({r.s} as int)"


class Env:
    """Per contracted function translation state."""

    def __init__(self, tr, fn, contract):
        self.sizeofs = {}
        self.tr, self.fn, self.contract = tr, fn, contract
        self.lines = []
        self.indent = 1
        self.vars = {}         # decl id -> Place or R (value) or lambda
        self.rts = {}          # rust var -> rust type
        self.contof = {}       # rust var (iterator) -> container Place
        self.writes = [set()]
        self.this = None
        self.pure = 0
        self.pc = []        # conditions under which a pure expression is evaluated
        self.pobs = None    # obligations of the predicate being translated
        self.obls = []
        self.loops = []        # stack of dict(brk, cont)
        self.inl = []          # stack of inline frames: dict(ret, rv)
        self.jumps = [set()]   # escaping jump flags
        self.callstack = []
        self.loopcount = 0
        self.exc = "exc"
        self.scope_vars = []   # rust vars in scope (for invariant templates)
        self.line = fn["line"]
        self.uses_exc = False
        self.catch = 0
        self.mutvars = set()
        self.ghost_bind = {}
        self.param_names = {}
        self.top_this = None
        self.extra_roots = set()
        self.elem_ct = None

    # ---- output ----
    def emit(self, s):
        if self.pure:
            raise Unsupported("statement needed inside a pure expression: " + s)
        self.lines.append("  " * self.indent + s)

    def obligation(self, kind, cond, detail=""):
        if self.pure:
            if self.pobs is not None:
                self.pobs.append((kind, self.line, detail, f"({' && '.join(self.pc + ['true'])}) ==> ({cond})"))
            return
        if kind in self.tr.safety_off or (not self.tr.safety and kind != "contract" and kind not in self.tr.unit.get("checked", ())):
            self.emit(f"assume({cond});")
            return
        self.emit(f"assert({cond}); //@ob {kind} line {self.line} {detail}")

    def declare(self, name, rt, value, mut=True):
        self.emit(f"let {'mut ' if mut else ''}{name}: {rt} = {value};")
        self.rts[name] = rt
        self.scope_vars.append(name)
        for w in self.writes:
            pass

    def temp(self, base, rt, value):
        n = self.tr.fresh(base)
        self.declare(n, rt, value, mut=False)
        return n

    # ---- writing places ----
    def assign(self, place, value):
        """place := value (rust text, already coerced)"""
        if self.pure:
            raise Unsupported("assignment in pure expression")
        path = place.path
        if "exc" in self.jumps[-1]:
            # the statement has thrown before it got here
            value = f"(if exc {{ {place.get()} }} else {{ {value} }})"
        # innermost index/option position: rebuild from there
        k = len(path)
        while k > 0 and path[k - 1][0] in ("f", "t") and not any(p[0] in ("i", "o") for p in path[:k]):
            k -= 1
        if not any(p[0] in ("i", "o") for p in path):
            target = place.get()
            self.emit(f"{target} = {value};")
        else:
            # functional update up to the first index/option
            first = next(i for i, p in enumerate(path) if p[0] in ("i", "o"))
            base = Place(place.root, path[:first])
            val = self._rebuild(base.get(), path[first:], value)
            self.emit(f"{base.get()} = {val};")
        self.record_write(place)

    def _rebuild(self, cur, path, value):
        if not path:
            return value
        p, rest = path[0], path[1:]
        if p[0] == "i":
            return f"{cur}.update({p[1]}, {self._rebuild(f'{cur}[{p[1]}]', rest, value)})"
        if p[0] == "o":
            return f"Some({self._rebuild(f'{cur}->Some_0', rest, value)})"
        if p[0] == "f":
            sname = self._struct_of(cur, p[1])
            return f"{sname} {{ {p[1]}: {self._rebuild(f'{cur}.{p[1]}', rest, value)}, ..{cur} }}"
        if p[0] == "t":
            raise Unsupported("nested tuple update")
        raise Unsupported("rebuild")

    def _struct_of(self, cur, field):
        # find struct by walking types
        rt = self.type_of_path(cur)
        return rt

    def type_of_path(self, text):
        # text is root followed by .f, [..], ->Some_0
        m = re.match(r"[A-Za-z_0-9]+", text)
        root = m.group(0)
        rt = self.rts[root]
        i = m.end()
        while i < len(text):
            if text[i] == "[":
                depth = 0
                j = i
                while True:
                    if text[j] in "[(":
                        depth += 1
                    elif text[j] in "])":
                        depth -= 1
                        if depth == 0:
                            break
                    j += 1
                i = j + 1
                assert rt.startswith("Seq<"), (text, rt)
                rt = rt[4:-1]
            elif text.startswith("->Some_0", i):
                i += len("->Some_0")
                rt = rt[7:-1]
            elif text[i] == ".":
                m = re.match(r"\.([A-Za-z_0-9]+)", text[i:])
                f = m.group(1)
                i += m.end()
                if f.isdigit():
                    raise Unsupported("tuple path")
                fs = self.tr.structs.get(rt)
                if fs is None:
                    raise Unsupported("path " + text)
                rt = next(t for (n, t, _) in fs if n == f)
            else:
                raise Unsupported("path " + text)
        return rt

    def record_write(self, place):
        key = (place.root, place.path[0][1] if place.path and place.path[0][0] == "f" else None)
        for w in self.writes:
            w.add(key)

    # =====================================================================
    # values
    # =====================================================================
    def as_value(self, p, ctype):
        return R(p.get(), ctype, self.rt_of_place(p, ctype), place=p, cont=self.contof.get(p.get()))

    def rt_of_place(self, p, ctype):
        try:
            return self.type_of_path(p.get())
        except (Unsupported, KeyError, StopIteration):
            return self.tr.rt(ctype)

    def lookup(self, node):
        did = node["id"]
        if did in self.vars:
            v = self.vars[did]
            if isinstance(v, Place):
                return self.as_value(v, node["t"])
            return v
        return None

    def place(self, node):
        r = self.ex(node)
        if r.place is None:
            raise Unsupported(f"not an lvalue: {node['k']} {r.s}")
        return r.place

    def val(self, node, target=None):
        r = self.ex(node)
        if target is not None:
            return self.tr.coerce(r, target)
        return r.s

    def cond(self, node):
        r = self.ex(node)
        if r.rt != "bool":
            raise Unsupported(f"condition of type {r.rt}")
        return r.s

    def stable(self, r, base="t"):
        """an R whose text does not change when places are written later"""
        if self.pure or r.lam or r.fn or r.parts is not None:
            return r
        if re.fullmatch(r"-?[0-9]+[a-z0-9]*|true|false", r.s) or r.rt in ("lit", "none"):
            return r
        if r.s in self.rts and r.s not in self.mutable_names:
            return r
        rt = r.rt if r.rt != "lit" else "int"
        n = self.temp(base, rt, r.s)
        return R(n, r.ctype, rt, cont=r.cont, rev=r.rev)

    mutable_names = frozenset()

    def ex(self, n):
        k = n["k"]
        if "line" in n:
            self.line = n["line"]
        m = getattr(self, "ex_" + k, None)
        if m is None:
            raise Unsupported(f"expression {k} {n.get('n', '')} (line {n.get('line')})")
        return m(n)

    def ex_unsupported(self, n):
        raise Unsupported(f"expression {n.get('n')} (line {n.get('line')})")

    def ex_int(self, n):
        return R(n["v"], n["t"], "lit")

    def ex_bool(self, n):
        return R("true" if n["v"] else "false", n["t"], "bool")

    def ex_null(self, n):
        return R("None", n["t"], "none")

    def ex_str(self, n):
        body = ", ".join(f"{v if v < 128 else v - 256}i8" for v in n["v"])
        s = f"seq![{body}]" if n["v"] else "Seq::<i8>::empty()"
        return R(s, n["t"], "Seq<i8>")

    def ex_zero(self, n):
        return self.default_value(n["t"])

    def ex_this(self, n):
        return R(self.this.get(), n["t"], self.rts.get(self.this.root), place=self.this)

    def ex_ref(self, n):
        dk = n["dk"]
        if dk == "enumconst":
            return R(n["v"], n["t"], "lit")
        r = self.lookup(n)
        if r is not None:
            return r
        if "v" in n:
            return R(n["v"], n["t"], "lit")
        if dk == "function":
            return R(n["qname"], n["t"], "fn", fn=n)
        if dk == "global":
            q = strip_anon(n["qname"])
            if q in self.tr.unit.get("globals", {}):
                g = self.tr.unit["globals"][q]
                return R(g[0], n["t"], g[1])
            g = self.tr.d.globals.get(n["id"]) or self.tr.d.globals.get(q)
            if g and "init" in g and self.tr.d.ty(g["type"]).get("const"):
                saved = self.this
                r = self.ex(g["init"])
                self.this = saved
                r = R(self.tr.coerce(r, self.tr.rt(g["type"])), n["t"], self.tr.rt(g["type"]))
                # a constant container: bind once so iterators can refer to it
                if not self.pure:
                    name = self.temp(n["name"], r.rt, r.s)
                    return R(name, n["t"], r.rt, place=Place(name, (), n["t"]))
                return r
        raise Unsupported(f"reference to {n['qname']}")

    def ex_member(self, n):
        base = self.ex(n["base"])
        fname = ident(n["name"])
        bt = n["base"]["t"]
        if n["arrow"] and n["base"]["k"] != "this":
            base = self.deref(base, n["base"])
        if n["rec"] and strip_anon(n["rec"]) in ("std::pair",):
            i = {"first": 0, "second": 1}[n["name"]]
            if base.parts is not None:
                return base.parts[i]
            rt = self.tuple_parts(base.rt)[i]
            place = base.place.elem(i, n["t"]) if base.place else None
            return R(f"{base.s}.{i}", n["t"], rt, place=place,
                     cont=base.cont[i] if isinstance(base.cont, tuple) else None)
        recname = strip_anon(n["rec"])
        fs = self.tr.structs.get(self.tr.struct(recname)) if recname in self.tr.d.records else None
        fname = self.tr.unit.get("_field_alias", {}).get((recname, fname), fname)
        if fs is None or fname not in [f[0] for f in fs]:
            raise Unsupported(f"member {n['rec']}::{n['name']}")
        frt = next(f[1] for f in fs if f[0] == fname)
        if base.place is not None:
            p = base.place.field(fname, n["t"])
            cont = None
            key = (recname, n["name"])
            if key in self.tr.iter_fields:
                cpath = self.tr.iter_fields[key]
                cont = base.place.field(cpath, None)
            return R(p.get(), n["t"], frt, place=p, cont=cont)
        b = base.s
        if not re.fullmatch(r"[A-Za-z0-9_\.]+", b):
            b = f"({b})"
        return R(f"{b}.{fname}", n["t"], frt)

    def tuple_parts(self, rt):
        inner = rt[1:-1]
        parts, depth, cur = [], 0, ""
        for ch in inner:
            if ch in "<(":
                depth += 1
            elif ch in ">)":
                depth -= 1
            if ch == "," and depth == 0:
                parts.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            parts.append(cur.strip())
        return parts

    def deref(self, r, node=None):
        """*r for pointers, iterators, optionals and smart pointers"""
        if r.rt == "ptrto" or (r.parts is None and getattr(r, "alias", None) is not None):
            return r.alias
        t = r.ctype
        if t is not None and self.tr.is_iter(t):
            return self.deref_iter(r)
        if r.rt and r.rt.startswith("Option<Ptr<"):
            self.obligation("null-deref", f"{r.s}.is_some()", "pointer")
            inner = r.rt[len("Option<Ptr<"):-2]
            return R(f"({r.s})->Some_0.v", self.pointee(t), inner)
        if r.rt and r.rt.startswith("Option<"):
            self.obligation("empty-optional", f"{r.s}.is_some()", "optional")
            inner = r.rt[7:-1]
            p = r.place.opt(None) if r.place else None
            s = p.get() if p else f"({r.s})->Some_0"
            ct = None
            if t is not None:
                a = self.tr.d.args(t)
                ct = a[0] if a and isinstance(a[0], int) else None
            return R(s, ct, inner, place=p)
        if r.rt == "int" and r.cont is not None and t is not None and self.tr.d.ty(self.tr.d.strip(t))["k"] == "ptr":
            return self.deref_iter(r)
        if r.rt == "CStr":
            raise Unsupported("char pointer dereference")
        raise Unsupported(f"dereference of {r.rt}")

    def pointee(self, t):
        ty = self.tr.d.ty(self.tr.d.strip(t))
        return ty.get("t")

    def deref_iter(self, r):
        if r.cont is None:
            raise Unsupported("iterator without container")
        pt = self.tr.d.ty(self.tr.d.strip(r.ctype))
        et = pt["t"] if pt["k"] == "ptr" else self.tr.iter_elem(r.ctype)
        idx = f"({self.numtext(r)}) - 1" if r.rev else self.numtext(r)
        c = r.cont
        ct = c.get() if isinstance(c, Place) else c
        self.obligation("iterator-range", f"0 <= {idx} && {idx} < {ct}.len()", "dereference")
        if isinstance(c, Place):
            if not self.pure and not re.fullmatch(r"[A-Za-z0-9_]+", idx):
                idx = self.temp("ix", "int", idx)
            elif not self.pure and idx in self.mutable_names:
                idx = self.temp("ix", "int", idx)
            elif not self.pure and idx in self.rts and self.is_mut(idx):
                idx = self.temp("ix", "int", idx)
            p = c.index(idx, et)
            return R(p.get(), et, self.tr.rt(et), place=p)
        return R(f"{ct}[{idx}]", et, self.tr.rt(et))

    def is_mut(self, name):
        return name in self.mutvars

    def numtext(self, r):
        return self.tr.num(r) if r.rt != "int" else r.s

    # ---- casts ----
    def ex_cast(self, n):
        ck = n["ck"]
        e = n["e"]
        if ck == "DerivedToBase":
            r = self.ex(e)
            if self.tr.is_seq(n["t"]):
                return R(r.s, n["t"], r.rt, place=r.place, cont=r.cont)
            dty = self.tr.d.ty(self.tr.d.strip(e["t"]))
            tgt = self.tr.d.rec_name(n["t"])
            if dty["k"] == "ptr":
                # upcast of this or of a pointer
                inner = self.tr.d.ty(dty["t"])
                src = strip_anon(inner["n"])
                tgt = strip_anon(self.tr.d.ty(self.tr.d.ty(self.tr.d.strip(n["t"]))["t"])["n"])
            else:
                src = strip_anon(dty["n"])
            rec = self.tr.d.records.get(src)
            if rec is None or tgt not in self.tr.d.records:
                return r     # library base, interface
            for i, b in enumerate(rec["bases"]):
                if self.tr.d.rec_name(b) == tgt:
                    fname = "base" if i == 0 else f"base{i}"
                    if r.rt == "ptrto":
                        al = r.alias
                        p = al.place.field(fname, b) if al.place is not None else None
                        na = R(p.get() if p else f"({al.s}).{fname}", b, self.tr.rt(b), place=p)
                        rr = R(na.s, n["t"], "ptrto", place=p)
                        rr.alias = na
                        return rr
                    if r.place is not None:
                        p = r.place.field(fname, n["t"])
                        return R(p.get(), n["t"], self.tr.rt(b), place=p)
                    return R(f"({r.s}).{fname}", n["t"], self.tr.rt(b))
            return r
        if ck in ("LValueToRValue", "NoOp", "ArrayToPointerDecay", "FunctionToPointerDecay"):
            r = self.ex(e)
            if ck == "ArrayToPointerDecay":
                return R(r.s, n["t"], r.rt, place=r.place, cont=r.cont)
            return r
        if ck == "NullToPointer":
            return R("None", n["t"], "none")
        r = self.ex(e)
        if ck == "IntegralCast":
            return self.int_cast(r, n["t"])
        if ck == "IntegralToBoolean":
            if r.rt == "bool":
                return r
            return R(f"({self.tr.num(r)} != 0)", n["t"], "bool")
        if ck == "PointerToBoolean":
            if r.rt == "ptrto":
                return R("true", n["t"], "bool")
            return R(f"{r.s}.is_some()", n["t"], "bool")
        if ck == "ToVoid":
            return r
        if ck in ("FloatingCast", "IntegralToFloating", "FloatingToIntegral"):
            raise Unsupported("floating point")
        if ck == "BitCast" and (r.rt == "ptrto" or r.cont is not None):
            # the same object, seen as bytes
            rr = R(r.s, n["t"], r.rt, cont=r.cont, place=r.place)
            if r.rt == "ptrto":
                rr.alias = r.alias
            return rr
        if ck in ("BitCast", "DerivedToBasePointer", "Dependent"):
            raise Unsupported("cast " + ck)
        raise Unsupported("cast " + ck)

    def int_cast(self, r, t):
        target = self.tr.rt(t)
        if target == "bool":
            return r
        if r.rt == "bool":
            return R(f"(if {r.s} {{ 1int }} else {{ 0int }})", t, "int", parts=None) if False else \
                BoolInt(r.s, t)
        if isinstance(r, BoolInt):
            return BoolInt(r.b, t)
        src = r.ctype
        if r.rt == "lit":
            v = int(r.s)
            lo, hi = BOUNDS[target]
            if lo <= v <= hi:
                return R(r.s, t, "lit")
            return R(str((v - lo) % (hi - lo + 1) + lo), t, "lit")
        srt = self.tr.rt(src) if src is not None else r.rt
        if srt in BOUNDS and target in BOUNDS:
            sl, sh = BOUNDS[srt]
            tl, th = BOUNDS[target]
            if tl <= sl and sh <= th:
                return R(r.s, t, r.rt, cont=r.cont)
        res = R(f"wrap_{target}({self.tr.num(r)})", t, "int", cont=r.cont)
        if srt == "u64" and target == "i64":
            # offset of an iterator: containers are smaller than 2^63
            res.offset = self.tr.num(r)
        return res

    # ---- operators ----
    def ex_unop(self, n):
        op = n["op"]
        e = n["e"]
        if op == "&":
            if e["k"] == "opcall" and e.get("op") == "*" and self.tr.is_iter(e["args"][0]["t"]):
                # address of an element: the position in its container
                it = self.ex(e["args"][0])
                if it.cont is not None and not it.rev and self.tr.rt(e["t"]) == "i8":
                    self.deref_iter(it)
                    return R(self.numtext(it), n["t"], "int", cont=it.cont)
            if e["k"] == "unop" and e.get("op") == "*" and self.tr.is_charptr(e["e"]["t"]):
                it = self.ex(e["e"])
                if it.rt == "int" and it.cont is not None:
                    self.deref_iter(it)
                    return R(self.numtext(it), n["t"], "int", cont=it.cont)
            r = self.ex(e)
            if r.place is not None:
                rr = R(r.s, n["t"], "ptrto", place=r.place, cont=r.cont)
                rr.alias = r
                return rr
            rr = R(r.s, n["t"], "ptrto")
            rr.alias = r
            return rr
        if op == "*":
            if e["k"] == "this":
                return self.ex(e)
            r = self.ex(e)
            if r.rt == "ptrto":
                return r.alias
            return self.deref(r, e)
        if op == "!":
            return R(f"!({self.cond(e)})", n["t"], "bool")
        if op == "-":
            r = self.ex(e)
            if r.rt == "lit":
                return R(str(-int(r.s)), n["t"], "lit")
            return self.arith(f"(-{self.tr.num(r)})", n["t"])
        if op == "+":
            return self.ex(e)
        if op == "~":
            r = self.ex(e)
            if r.rt == "lit":
                lo, hi = BOUNDS[self.tr.rt(n["t"])]
                v = ~int(r.s)
                return R(str((v - lo) % (hi - lo + 1) + lo), n["t"], "lit")
            lo, hi = BOUNDS[self.tr.rt(n["t"])]
            x = self.tr.num(r)
            return self.arith(f"({hi} - {x})" if lo == 0 else f"(-({x}) - 1)", n["t"])
        if op in ("++", "--"):
            r = self.ex(e)
            return self.incdec(r, op, n["postfix"], n["t"])
        raise Unsupported("unary " + op)

    def incdec(self, r, op, postfix, t):
        p = r.place
        if p is None:
            raise Unsupported("++ on rvalue")
        delta = 1 if op == "++" else -1
        if r.rev:
            delta = -delta
        rt = self.rt_of_place(p, t)
        cur = r.s
        oldv = None
        if postfix and not self.stmt_ctx:
            oldv = self.temp("old", rt, cur)
        if self.tr.is_iter(t) or rt == "int" or r.cont is not None:
            self.assign(p, f"{cur} {'+' if delta > 0 else '-'} 1")
        else:
            res = self.arith(f"({self.tr.num(R(cur, t, rt))} {'+' if delta > 0 else '-'} 1)", t)
            self.assign(p, self.tr.coerce(res, rt))
        if oldv:
            return R(oldv, t, rt, cont=r.cont, rev=r.rev)
        return R(p.get(), t, rt, place=p, cont=r.cont, rev=r.rev)

    stmt_ctx = False

    def arith(self, text, t):
        """integer result of C++ type t: checks or wraps the range"""
        rt = self.tr.rt(t)
        if rt == "bool":
            raise Unsupported("bool arithmetic")
        if rt == "Real":
            raise Unsupported("floating point")
        if rt in ("i32", "i16", "i8", "i64"):
            lo, hi = BOUNDS[rt]
            self.obligation("signed-overflow", f"{lo} <= {text} <= {hi}")
            return R(text, t, "int")
        if rt == "u64":
            self.obligation("unsigned-wrap", f"0 <= {text} <= {BOUNDS[rt][1]}")
            return R(text, t, "int")
        return R(f"wrap_{rt}({text})", t, "int")

    def ex_binop(self, n):
        op = n["op"]
        if op == "=":
            return self.assign_node(n["l"], n["r"], n["t"])
        if op == ",":
            self.stmt_expr(n["l"])
            return self.ex(n["r"])
        if op in ("&&", "||"):
            return self.shortcircuit(n)
        l = self.ex(n["l"])
        if not self.pure and self.has_effects(n["r"]):
            l = self.stable(l, "l")
        r = self.ex(n["r"])
        return self.binary(op, l, r, n["t"])

    def has_effects(self, n):
        """syntactic: may evaluating n write state?"""
        if isinstance(n, dict):
            k = n.get("k")
            if k in ("cassign",) or (k == "binop" and n["op"] == "=") or \
               (k == "unop" and n["op"] in ("++", "--")):
                return True
            if k in ("call", "mcall", "opcall") and n.get("inroot"):
                return True
            if k == "opcall" and n["op"] in ("++", "--", "=", "+=", "()"):
                return True
            if k == "lambda":
                return False
            return any(self.has_effects(v) for v in n.values())
        if isinstance(n, list):
            return any(self.has_effects(v) for v in n)
        return False

    def shortcircuit(self, n):
        op = n["op"]
        l = self.cond(n["l"])
        if self.pure:
            self.pc.append(l if op == "&&" else f"!({l})")
            r = self.cond(n["r"])
            self.pc.pop()
            return R(f"({l} {op} {r})", n["t"], "bool")
        # evaluate rhs under the guard when it needs statements
        mark = len(self.lines)
        self.indent += 1
        vm = len(self.scope_vars)
        r = self.cond(n["r"])
        self.indent -= 1
        extra = self.lines[mark:]
        if not extra:
            return R(f"({l} {op} {r})", n["t"], "bool")
        del self.lines[mark:]
        del self.scope_vars[vm:]
        res = self.tr.fresh("sc")
        self.declare(res, "bool", l if op == "&&" else l)
        self.mutvars.add(res)
        self.emit(f"if {res if op == '&&' else '!' + res} {{")
        self.lines += extra
        self.lines.append("  " * (self.indent + 1) + f"{res} = {r};")
        self.emit("}")
        return R(res, n["t"], "bool")

    def binary(self, op, l, r, t):
        # pointers and iterators
        if op in ("==", "!=") and (l.rt == "none" or r.rt == "none"):
            x = r if l.rt == "none" else l
            if x.rt == "ptrto":
                return R("false" if op == "==" else "true", t, "bool")
            return R(f"{x.s}.{'is_none' if op == '==' else 'is_some'}()", t, "bool")
        if l.rt and r.rt and l.rt.startswith("Option<Ptr<") and op in ("==", "!="):
            rr = self.tr.coerce(self.to_ptr(r, l.rt), l.rt)
            s = f"ptr_eq({l.s}, {rr})"
            return R(s if op == "==" else f"!{s}", t, "bool")
        if r.rt and r.rt.startswith("Option<Ptr<") and l.rt == "ptrto":
            return self.binary(op, r, l, t)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if l.rt == "bool" and r.rt == "bool":
                return R(f"({l.s} {op} {r.s})", t, "bool")
            if isinstance(l, BoolInt) and isinstance(r, BoolInt) and op in ("==", "!="):
                return R(f"({l.b} {op} {r.b})", t, "bool")
            nums = set(BOUNDS) | {"int", "lit"}
            if l.rt in nums and r.rt in nums:
                a = l.s if l.rt != "lit" else self.tr.num(l)
                b = r.s if r.rt != "lit" else self.tr.num(r)
                if l.rev and op in ("<", ">", "<=", ">="):
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
                if op in ("<", "<=") and a.endswith(")") is False and " as " in a:
                    a = f"({a})"
                return R(f"({a} {op} {b})", t, "bool")
            raise Unsupported(f"comparison {l.rt} {op} {r.rt}")
        if op in ("^", "&", "|") and isinstance(l, BoolInt) and isinstance(r, BoolInt):
            if op == "^":
                return BoolInt(f"({l.b} != {r.b})", t)
            return BoolInt(f"({l.b} {'&&' if op == '&' else '||'} {r.b})", t)
        a, b = self.tr.num(l), self.tr.num(r)
        if l.rt == "lit" and r.rt == "lit":
            x, y = int(l.s), int(r.s)
            v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                 "<<": lambda: x << y, ">>": lambda: x >> y, "|": lambda: x | y,
                 "&": lambda: x & y}.get(op)
            if v:
                v = v()
                lo, hi = BOUNDS[self.tr.rt(t)]
                if lo <= v <= hi:
                    return R(str(v), t, "lit")
        if op in ("+", "-"):
            ct = self.tr.d.ty(self.tr.d.strip(t))
            if ct["k"] == "ptr":
                if l.cont is not None and l.rt == "int" and r.cont is None:
                    return R(f"({a} {op} {self.offtext(r)})", t, "int", cont=l.cont)
                raise Unsupported("pointer arithmetic")
            if l.cont is not None and r.cont is not None and op == "-":
                return R(f"({a} - {b})", t, "int")
            return self.arith(f"({a} {op} {b})", t)
        if op == "*":
            return self.arith(f"({a} * {b})", t)
        if op in ("/", "%"):
            self.obligation("division", f"{b} != 0")
            return self.arith(f"c_{'div' if op == '/' else 'mod'}({a}, {b})", t)
        if op in ("<<", ">>", "&", "|", "^"):
            rt = self.tr.rt(t)
            if op in ("<<", ">>"):
                width = {"i32": 32, "u32": 32, "u64": 64, "i64": 64}[rt]
                self.obligation("shift-range", f"0 <= {b} < {width}")
            if rt in ("u64", "u32"):
                return R(f"((({a}) as {rt}) {op} (({b}) as {rt}))", t, rt)
            if op in ("&", "|", "^"):
                return R(f"((({a}) as {rt}) {op} (({b}) as {rt}))", t, rt)
            if op == "<<" and l.rt == "lit":
                return self.arith(f"shl({a}, {b})", t)
            raise Unsupported("signed shift")
        raise Unsupported("operator " + op)

    def to_ptr(self, r, rt):
        """value of pointer type"""
        if r.rt == "ptrto":
            inner = rt[len("Option<Ptr<"):-2]
            al = r.alias
            ident_ = self.addr(al)
            return R(f"Some(Ptr {{ id: {ident_}, v: {self.tr.coerce(al, inner)} }})", r.ctype, rt)
        if r.rt == "none":
            return R(f"Option::<{rt[7:-1]}>::None", r.ctype, rt)
        return r

    def addr(self, r):
        # object identity is not modelled: two pointers may or may not be equal
        if self.pure:
            return "arbitrary::<int>()"
        return self.temp("addr", "int", "havoc()")

    def unknown(self, rt):
        """a value nothing is known about"""
        if self.pure:
            return "arbitrary()"
        return self.temp("unk", rt, "havoc()")

    def ex_cassign(self, n):
        l = self.ex(n["l"])
        op = n["op"][:-1]
        r = self.ex(n["r"])
        if l.rt == "bool":
            p = l.place
            rs = r.s if r.rt == "bool" else r.b if isinstance(r, BoolInt) else None
            if rs is None:
                raise Unsupported("bool compound assignment")
            m = {"|": "||", "&": "&&", "^": "!="}[op]
            self.assign(p, f"({l.s} {m} {rs})")
            return R(p.get(), n["t"], "bool", place=p)
        rt = self.rt_of_place(l.place, n["t"])
        ct = n["ct"]
        res = self.binary(op, R(l.s, l.ctype, rt), r, ct)
        if self.tr.rt(ct) != self.tr.rt(n["t"]):
            res = self.int_cast(res, n["t"])
        self.assign(l.place, self.tr.coerce(res, rt))
        return R(l.place.get(), n["t"], rt, place=l.place)

    def ex_cond(self, n):
        c = self.cond(n["c"])
        if self.pure:
            self.pc.append(c)
            a = self.ex(n["a"])
            self.pc[-1] = f"!({c})"
            b = self.ex(n["b"])
            self.pc.pop()
            a, b, rt = self.unify(a, b, n["t"])
            return R(f"(if {c} {{ {a} }} else {{ {b} }})", n["t"], rt)
        # statements of the branches stay under their condition
        outs = []
        vm = len(self.scope_vars)
        for x in (n["a"], n["b"]):
            mark = len(self.lines)
            self.indent += 1
            r = self.ex(x)
            self.indent -= 1
            outs.append((r, self.lines[mark:]))
            del self.lines[mark:]
            del self.scope_vars[vm:]
        (ra, la), (rb, lb) = outs
        a, b, rt = self.unify(ra, rb, n["t"])
        cont = ra.cont if ra.cont is not None else rb.cont
        if not la and not lb:
            return R(f"(if {c} {{ {a} }} else {{ {b} }})", n["t"], rt, cont=cont)
        res = self.tr.fresh("ce")
        self.declare(res, rt, "havoc()")
        self.mutvars.add(res)
        self.emit(f"if {c} {{")
        self.lines += la
        self.lines.append("  " * (self.indent + 1) + f"{res} = {a};")
        self.emit("} else {")
        self.lines += lb
        self.lines.append("  " * (self.indent + 1) + f"{res} = {b};")
        self.emit("}")
        return R(res, n["t"], rt, cont=cont)

    def unify(self, a, b, t):
        if a.rt == b.rt and a.rt not in ("lit", "none", "ptrto"):
            if isinstance(a, BoolInt):
                return self.tr.num(a), self.tr.num(b), "int"
            return a.s, b.s, a.rt
        try:
            rt = self.tr.rt(t)
        except Unsupported:
            rt = a.rt
        if rt.startswith("Option<Ptr<"):
            a, b = self.to_ptr(a, rt), self.to_ptr(b, rt)
        nums = set(BOUNDS) | {"int", "lit"}
        if a.rt in nums and b.rt in nums:
            return self.tr.num(a), self.tr.num(b), "int"
        return self.tr.coerce(a, rt), self.tr.coerce(b, rt), rt

    def ex_index(self, n):
        b = self.ex(n["base"])
        i = self.ex(n["i"])
        return self.index(b, i, n["t"])

    def index(self, b, i, t):
        idx = self.tr.num(i)
        if i.rt == "lit":
            idx = f"{i.s}int" if int(i.s) >= 0 else f"({i.s}int)"
        self.obligation("index-range", f"0 <= {idx} && {idx} < {b.s}.len()", "subscript")
        rt = self.tr.rt(t)
        if b.place is not None:
            if not self.pure and not re.fullmatch(r"[0-9]+int", idx):
                idx = self.temp("ix", "int", idx)
            p = b.place.index(idx, t)
            return R(p.get(), t, rt, place=p)
        return R(f"({b.s})[{idx}]", t, rt)

    # ---- assignment ----
    def assign_node(self, ln, rn, t):
        r = self.ex(rn)
        l = self.ex(ln)
        return self.assign_to(l, r, t, ln)

    def assign_to(self, l, r, t, ln=None):
        if l.parts is not None:
            # std::tie(a, b) = tuple
            rs = self.stable(r, "tup")
            for i, (pl, prt) in enumerate(zip(l.parts, self.tuple_parts(rs.rt))):
                self.assign(pl.place, self.tr.coerce(R(f"{rs.s}.{i}", None, prt), self.rt_of_place(pl.place, None)))
            return R("()", t, "()")
        p = l.place
        if p is None:
            raise Unsupported("assignment to rvalue")
        rt = l.rt
        bits = (ln or {}).get("bits")
        v = self.store(r, rt)
        if bits and rt in BOUNDS and self.tr.d.ty(self.tr.d.strip(t))["k"] != "enum":
            v = f"((({v}) as int) % {2**bits}) as {rt}"
        self.assign(p, v)
        if r.cont is not None:
            self.contof[p.get()] = r.cont
        return R(p.get(), t, rt, place=p, cont=r.cont)

    def store(self, r, rt):
        if rt.startswith("Option<Ptr<"):
            r = self.to_ptr(r, rt)
        if rt in self.tr.enums and r.rt != rt:
            return self.to_variant(r, r.ctype, self.tr.enum_types[rt], rt)
        return self.tr.coerce(r, rt)

    # ---- construction ----
    def default_value(self, t):
        rt = self.tr.rt(t)
        return R(self.default_of(rt, t), t, rt)

    def default_of(self, rt, t=None):
        if rt == "bool":
            return "false"
        if rt in BOUNDS:
            return f"0{rt}"
        if rt == "int":
            return "0int"
        if rt.startswith("Seq<"):
            if t is not None:
                ty = self.tr.d.ty(self.tr.d.strip(t))
                size = None
                if ty["k"] == "array":
                    size, et = ty["size"], ty["t"]
                elif ty["k"] == "record" and strip_anon(ty["n"]) == "std::array":
                    size, et = ty["args"][1]["int"], ty["args"][0]
                if size is not None:
                    return f"Seq::new({size}nat, |_i: int| {self.default_of(self.tr.rt(et), et)})"
            return f"Seq::<{rt[4:-1]}>::empty()"
        if rt.startswith("Option<"):
            return f"Option::<{rt[7:-1]}>::None"
        if rt in self.tr.structs:
            vals = []
            for (fn, frt, f) in self.tr.structs[rt]:
                if f is not None and "init" in f:
                    r = self.ex(f["init"])
                    vals.append(f"{fn}: {self.store(r, frt)}")
                else:
                    vals.append(f"{fn}: {self.default_of(frt, f['type'] if f else None)}")
            return f"{rt} {{ {', '.join(vals)} }}"
        if rt in self.tr.enums:
            return f"{rt}::V0({self.default_of(self.tr.enums[rt][0])})"
        if rt.startswith("("):
            return "(" + ", ".join(self.default_of(p) for p in self.tuple_parts(rt)) + ")"
        if rt in ("Opaque", "Real"):
            return "arbitrary()"
        raise Unsupported("default value of " + rt)

    def ex_initlist(self, n):
        t = n["t"]
        ty = self.tr.d.ty(self.tr.d.strip(t))
        args = n["args"]
        if ty["k"] == "array" or self.tr.is_seq(t):
            et = self.tr.seq_elem(t)
            # std::array has one nested list
            if len(args) == 1 and args[0] and args[0]["k"] == "initlist" and not self.tr.is_seq(et):
                return self.ex(dict(args[0], t=t))
            ert = self.tr.rt(et)
            vals = [self.store(self.ex(a), ert) for a in args]
            size = ty.get("size")
            s = f"seq![{', '.join(vals)}]" if vals else f"Seq::<{ert}>::empty()"
            return R(s, t, f"Seq<{ert}>")
        if ty["k"] == "record":
            n_ = strip_anon(ty["n"])
            if n_ in ("std::pair", "std::tuple"):
                rt = self.tr.rt(t)
                vals = [self.store(self.ex(a), prt) for a, prt in zip(args, self.tuple_parts(rt))]
                return R("(" + ", ".join(vals) + ")", t, rt)
            rt = self.tr.rt(t)
            if rt in self.tr.structs:
                rec = self.tr.d.records[n_]
                names = []
                for i, b in enumerate(rec["bases"]):
                    names.append("base" if i == 0 else f"base{i}")
                for f in rec["fields"]:
                    names.append(ident(f["name"]))
                vals = {}
                for nm, a in zip(names, args):
                    frt = next((x[1] for x in self.tr.structs[rt] if x[0] == nm), None)
                    if frt is None:
                        continue
                    if a is None:
                        vals[nm] = self.default_of(frt)
                    else:
                        vals[nm] = self.store(self.ex(a), frt)
                return R(self.struct_lit(rt, vals), t, rt)
            if rt == "()":
                return R("()", t, rt)
            if not args:
                return self.default_value(t)
        if not args:
            return self.default_value(t)
        if len(args) == 1:
            r = self.ex(args[0])
            return R(r.s, t, r.rt, place=None, cont=r.cont)
        raise Unsupported("initializer list for " + ty["str"])

    def struct_lit(self, rt, vals):
        out = []
        for (fn, frt, f) in self.tr.structs[rt]:
            if fn in vals:
                out.append(f"{fn}: {vals[fn]}")
            elif f is not None and "init" in f:
                out.append(f"{fn}: {self.store(self.ex(f['init']), frt)}")
            else:
                out.append(f"{fn}: {self.default_of(frt, f['type'] if f else None)}")
        return f"{rt} {{ {', '.join(out)} }}"

    def ex_construct(self, n):
        t = n["t"]
        args = [a for a in n["args"]]
        cls = strip_anon(n["class"])
        rt = None
        if self.tr.is_iter(t):
            if not args:
                return R("0int", t, "int")
            r = self.ex(args[0])
            return R(r.s, t, "int", cont=r.cont, rev=self.tr.is_rev_iter(t), place=None)
        if n["copy"] or n["move"]:
            r = self.ex(args[0])
            if n["move"] and getattr(r, "moved", False) and r.place is not None and not self.pure \
                    and r.rt.startswith("Seq<"):
                v = self.temp("mv", r.rt, r.s)
                self.moved_from(r)
                return R(v, t, r.rt)
            # value copy: keeps the text, drops the place
            return R(r.s, t, r.rt, cont=r.cont, rev=r.rev, parts=r.parts, lam=r.lam)
        tyr = self.tr.d.ty(self.tr.d.strip(t))
        if tyr.get("lambda"):
            return self.ex(args[0])
        if self.tr.is_seq(t):
            return self.construct_seq(n, t, args)
        if cls == "std::optional":
            rt = self.tr.rt(t)
            if not args or self.tr.d.rec_name(args[0]["t"]) in ("std::nullopt_t",):
                return R(f"Option::<{rt[7:-1]}>::None", t, rt)
            r = self.ex(args[0])
            if r.rt == rt:
                return R(r.s, t, rt)
            return R(f"Some({self.store(r, rt[7:-1])})", t, rt)
        if cls in ("std::pair", "std::tuple"):
            rt = self.tr.rt(t)
            parts = self.tuple_parts(rt)
            rs = [self.ex(a) for a in args]
            if len(rs) == 1 and rs[0].rt == rt:
                return R(rs[0].s, t, rt, cont=rs[0].cont)
            if not rs:
                return self.default_value(t)
            if len(rs) != len(parts):
                raise Unsupported("tuple construction")
            vals = [self.store(r, p) for r, p in zip(rs, parts)]
            return R("(" + ", ".join(vals) + ("," if len(vals) == 1 else "") + ")", t, rt,
                     cont=tuple(r.cont for r in rs) if any(r.cont is not None for r in rs) else None)
        if cls == "std::variant":
            rt = self.tr.rt(t)
            r = self.ex(args[0])
            if r.rt == rt:
                return R(r.s, t, rt)
            return R(self.to_variant(r, args[0]["t"], tyr, rt), t, rt)
        if cls == "std::unique_ptr":
            rt = self.tr.rt(t)
            if not args:
                return R(f"Option::<{rt[7:-1]}>::None", t, rt)
            r = self.ex(args[0])
            return R(self.tr.coerce(r, rt), t, rt)
        if cls in ("std::chrono::duration",):
            rt = self.tr.rt(t)
            if not args:
                return R("real_zero()", t, rt) if rt == "Real" else R("0int", t, "int")
            r = self.ex(args[0])
            src = self.tr.d.ty(self.tr.d.strip(args[0]["t"]))
            if rt == "Real":
                if r.rt == "Real":
                    return R(r.s, t, rt)
                if src["k"] == "record":
                    num, den = self.tr.d.ratio(args[0]["t"])
                    return R(f"real_duration({self.numtext(r)}, {num}, {den})", t, rt)
                return R(f"real_duration({self.numtext(r)}, 1, 1)", t, rt)
            if src["k"] == "record":
                (n1, d1), (n2, d2) = self.tr.d.ratio(args[0]["t"]), self.tr.d.ratio(t)
                if (n1 * d2) % (d1 * n2):
                    raise Unsupported("duration conversion")
                return R(f"({self.numtext(r)} * {(n1 * d2) // (d1 * n2)})", t, "int")
            return R(self.tr.num(r), t, "int")
        if cls in self.tr.opaque:
            ort = self.tr.opaque[cls]
            for a in args[:1]:
                if ort.startswith("Seq<") and (self.tr.is_seq(a["t"]) or self.tr.is_charptr(a["t"])):
                    return R(self.tr.coerce(self.ex(a), ort), t, ort)
            if self.pure:
                return R("arbitrary()", t, ort)
            return R(self.temp("op", ort, "havoc()"), t, ort)
        f = self.tr.d.functions.get(n["id"])
        if f is not None and f.get("ctor"):
            return self.inline_ctor(f, args, t)
        if n["default"] or not args:
            if cls in self.tr.d.records:
                return self.default_value(t)
        if len(args) == 1 and n["userprovided"] is False:
            return self.ex(args[0])
        if cls in ("std::function",):
            return self.ex(args[0]) if args else R("arbitrary()", t, "Opaque")
        raise Unsupported(f"constructor {n['callee']} (line {n.get('line')})")

    def moved_from(self, r):
        """contents of a moved-from container: a vector is empty, a string is unspecified"""
        rn = self.tr.d.rec_name(r.ctype) if r.ctype is not None else None
        if rn and "basic_string" in rn:
            self.assign(r.place, self.temp("mvd", r.rt, "havoc()"))
        else:
            self.assign(r.place, f"Seq::<{r.rt[4:-1]}>::empty()")

    def to_variant(self, r, t, vty, rt):
        alts = vty["args"][0]["pack"]
        # exact C++ alternative by canonical type
        src = self.tr.d.strip(t)
        sstr = self.tr.d.ty(src)["str"].replace("const ", "") if True else ""
        for i, a in enumerate(alts):
            astr = self.tr.d.ty(a)["str"]
            if astr.replace("const ", "") == sstr:
                art = self.tr.enums[rt][i]
                return f"{rt}::V{i}({self.store(r, art)})"
        if r.rt in ("none", "ptrto"):
            for i, a in enumerate(alts):
                if self.tr.d.ty(a)["k"] == "ptr":
                    return f"{rt}::V{i}({self.store(r, self.tr.enums[rt][i])})"
        raise Unsupported(f"variant alternative {sstr}")

    def construct_seq(self, n, t, args):
        rt = self.tr.rt(t)
        ert = rt[4:-1]
        if not args:
            return self.default_value(t)
        rs = [self.ex(a) for a in args if not self.is_allocator(a)]
        if not rs:
            return self.default_value(t)
        if len(rs) == 1:
            r = rs[0]
            if r.rt == rt:
                return R(r.s, t, rt)
            if r.rt == "CStr":
                return R(r.s, t, rt)
            if r.rt in BOUNDS or r.rt in ("int", "lit"):
                return R(f"seq_fill(({self.tr.num(r)}) as nat, {self.default_of(ert)})", t, rt)
        if len(rs) == 2 and rs[0].cont is not None and rs[1].cont is None and self.tr.is_charptr(args[0]["t"]):
            # pointer and length
            c = rs[0].cont
            a, b = self.numtext(rs[0]), self.numtext(rs[1])
            cs = c.get() if isinstance(c, Place) else c
            self.obligation("memory-range", f"0 <= {a} && 0 <= {b} && {a} + {b} <= {cs}.len()", "text")
            return R(f"{cs}.subrange({a}, {a} + {b})", t, rt)
        if len(rs) == 2 and rs[0].cont is not None:
            # iterator pair
            c = rs[0].cont
            a, b = self.numtext(rs[0]), self.numtext(rs[1])
            cs = c.get() if isinstance(c, Place) else c
            self.obligation("iterator-range", f"0 <= {a} && {a} <= {b} && {b} <= {cs}.len()", "range")
            return R(f"{cs}.subrange({a}, {b})", t, rt)
        if len(rs) == 2 and (rs[1].rt == ert or rs[1].rt == "lit"):
            return R(f"seq_fill(({self.tr.num(rs[0])}) as nat, {self.tr.coerce(rs[1], ert)})", t, rt)
        raise Unsupported(f"sequence constructor (line {n.get('line')})")

    def is_allocator(self, a):
        rn = self.tr.d.rec_name(a["t"])
        return rn is not None and rn.startswith("std::allocator")

    # ---- lambda ----
    def ex_lambda(self, n):
        caps = {}
        for c in n["captures"]:
            if "id" in c and "init" in c:
                r = self.ex(c["init"])
                self.vars[c["id"]] = r
            elif "id" in c and not c["byref"] and not self.pure:
                v = self.vars.get(c["id"])
                if isinstance(v, Place):
                    rt = self.rt_of_place(v, v.ctype)
                    nm = self.temp(c["name"], rt, v.get())
                    caps[c["id"]] = Place(nm, (), v.ctype)
        return R("lambda", n["t"], "lambda", lam=(n, caps, self.this))

    def pure_pred(self, lam, elem_rt, nargs=1, arg_texts=None, rng=None):
        """lambda or function reference as Rust closure text / applied expression;
        with the range (container, from, to) it is applied to, its obligations for every element"""
        if rng is not None and arg_texts is None and nargs == 1 and self.tr.safety:
            saved, spc = self.pobs, self.pc
            self.pobs, self.pc = [], []
            try:
                text = self.pure_pred(lam, elem_rt, nargs)
                obs = self.pobs
            finally:
                self.pobs, self.pc = saved, spc
            m = re.match(r"\|(\w+): ", text)
            cs, lo, hi = rng
            for kind, line, detail, cond in obs:
                i = self.tr.fresh("q")
                sl, self.line = self.line, line
                self.obligation(kind, f"forall|{i}: int| #![trigger {cs}[{i}]] {lo} <= {i} < {hi} ==> "
                                      f"{{ let {m.group(1)} = {cs}[{i}]; {cond} }}", detail)
                self.line = sl
            return text
        if lam.fn is not None:
            f = self.tr.d.functions.get(lam.fn["id"])
            params = f["params"] if f else None
            if arg_texts is None:
                v = [self.tr.fresh("x") for _ in range(nargs)]
                body = self.pure_call_fn(f, [R(x, p["type"], elem_rt) for x, p in zip(v, params)])
                return "|" + ", ".join(f"{x}: {elem_rt}" for x in v) + "| " + body.s
            return self.pure_call_fn(f, [R(x, p["type"], elem_rt) for x, p in zip(arg_texts, params)]).s
        if lam.lam is None:
            raise Unsupported("predicate")
        n, caps, this = lam.lam
        if len(n["bodies"]) != 1:
            raise Unsupported("generic lambda with several instantiations")
        b = n["bodies"][0]
        saved = dict(self.vars)
        sthis = self.this
        self.this = this
        self.vars.update(caps)
        if arg_texts is None:
            v = [self.tr.fresh(p["name"] or "x") for p in b["params"]]
        else:
            v = arg_texts
        rts = elem_rt if isinstance(elem_rt, (list, tuple)) else [elem_rt] * len(b["params"])
        for p, x, ert in zip(b["params"], v, rts):
            if re.fullmatch(r"[A-Za-z_0-9]+", x):
                self.vars[p["id"]] = Place(x, (), p["type"])
                self.rts[x] = ert
            else:
                self.vars[p["id"]] = R(x, p["type"], ert)
        self.pure += 1
        try:
            r = self.pure_body(b["body"], b["ret"])
        finally:
            self.pure -= 1
            self.vars = saved
            self.this = sthis
        s = self.tr.coerce(r, self.tr.rt(b["ret"]))
        if arg_texts is not None:
            return s
        return "|" + ", ".join(f"{x}: {ert}" for x, ert in zip(v, rts)) + "| " + s

    def pure_call_fn(self, f, args):
        if f is None:
            raise Unsupported("pure call to unknown function")
        key = self.tr.functional_key(f)
        if key:
            self.tr.used_contracts.add(f["name"])
            rts = [self.tr.rt(p["type"]) for p in f["params"]]
            return R(f"{key}({', '.join(self.tr.coerce(a, rt) for a, rt in zip(args, rts))})",
                     f["ret"], self.tr.rt(f["ret"]))
        if f["id"] in self.callstack:
            raise Unsupported("recursion in pure function " + f["name"])
        self.tr.inlined.add(f["name"])
        self.callstack.append(f["id"])
        saved = dict(self.vars)
        self.pure += 1
        try:
            lets = ""
            for p, a in zip(f["params"], args):
                if a.lam or a.fn or a.rt in ("ptrto",) or a.parts is not None:
                    self.vars[p["id"]] = a
                else:
                    self.vars[p["id"]] = R(f"({a.s})" if not re.fullmatch(r"[A-Za-z0-9_\.]+", a.s) else a.s,
                                           p["type"], a.rt, cont=a.cont, place=a.place, rev=a.rev)
            r = self.pure_body(f["body"], f["ret"])
            rr = R(self.tr.coerce(r, self.tr.rt(f["ret"])) if not r.cont else r.s, f["ret"],
                   self.tr.rt(f["ret"]), cont=r.cont, rev=r.rev)
            return rr
        finally:
            self.pure -= 1
            self.vars = saved
            self.callstack.pop()

    def pure_body(self, st, ret):
        r = self.pure_stmts([st])
        if r is None:
            raise Unsupported("pure body without return")
        return r

    def pure_stmts(self, sts):
        if not sts:
            return None
        st, rest = sts[0], sts[1:]
        k = st["k"]
        if k == "block":
            return self.pure_stmts(list(st["body"]) + rest)
        if k == "return":
            return self.ex(st["e"])
        if k == "decl":
            wraps = []
            for v in st["vars"]:
                r = self.ex(v["init"])
                if r.lam or r.fn:
                    self.vars[v["id"]] = r
                    continue
                self.vars[v["id"]] = R(f"({r.s})" if not re.fullmatch(r"[A-Za-z0-9_\.]+", r.s) else r.s,
                                       v["type"], r.rt, cont=r.cont, rev=r.rev, place=r.place)
            return self.pure_stmts(rest)
        if k == "if":
            saved = dict(self.vars)
            if st.get("init"):
                return self.pure_stmts([st["init"], dict(st, init=None)] + rest)
            if st.get("condvar"):
                v = st["condvar"]
                r = self.ex(v["init"])
                self.vars[v["id"]] = R(r.s, v["type"], r.rt, cont=r.cont, place=r.place)
                if r.rt == "ptrto":
                    self.vars[v["id"]] = r
            c = self.cond(st["cond"])
            self.pc.append(c)
            a = self.pure_stmts([st["then"]] + (rest if not self.always_jumps(st["then"]) else []))
            self.pc[-1] = f"!({c})"
            self.vars = saved if not st.get("condvar") else dict(saved)
            els = [st["else"]] if st.get("else") else []
            b = self.pure_stmts(els + (rest if not (els and self.always_jumps(els[0])) else []))
            self.pc.pop()
            if a is None or b is None:
                raise Unsupported("pure if without value")
            at, bt, rt = self.unify(a, b, a.ctype)
            return R(f"(if {c} {{ {at} }} else {{ {bt} }})", a.ctype, rt, cont=a.cont or b.cont)
        if k == "expr" and st["e"]["k"] == "binop" and st["e"]["op"] == "=" and \
                st["e"]["l"]["k"] == "ref" and st["e"]["l"]["id"] in self.vars:
            # rebinding of a local in a pure function
            r = self.ex(st["e"]["r"])
            v = self.vars[st["e"]["l"]["id"]]
            rt = v.rt if isinstance(v, R) else self.rt_of_place(v, v.ctype)
            if rt == "lit":
                rt = self.tr.rt(st["e"]["l"]["t"])
            self.vars[st["e"]["l"]["id"]] = R(f"({self.tr.coerce(r, rt)})", st["e"]["l"]["t"], rt)
            return self.pure_stmts(rest)
        if k == "switch":
            return self.pure_switch(st, rest)
        if k == "expr" and self.ignorable(st["e"]):
            return self.pure_stmts(rest)
        raise Unsupported(f"statement {k} in pure function (line {st.get('line')})")

    def pure_switch(self, st, rest):
        cv = self.ex(st["cond"])
        groups = self.switch_groups(st)
        out, default = [], None
        every = [l for labels, _ in groups for l in labels if l != "default"]
        for labels, body in groups:
            if not any(self.always_jumps(x) for x in body):
                raise Unsupported("pure switch fallthrough")
            body = [b for b in body if b["k"] != "break"]
            saved = dict(self.vars)
            if "default" in labels:
                self.pc.append(" && ".join([f"{self.tr.num(cv)} != {l}" for l in every if l not in labels] + ["true"]))
            else:
                self.pc.append("(" + " || ".join(f"{self.tr.num(cv)} == {l}" for l in labels) + ")")
            r = self.pure_stmts(body + rest)
            self.pc.pop()
            self.vars = saved
            if "default" in labels:
                default = r
            else:
                out.append((labels, r))
        if default is None:
            self.pc.append(" && ".join([f"{self.tr.num(cv)} != {l}" for l in every] + ["true"]))
            default = self.pure_stmts(rest)
            self.pc.pop()
        res = default
        for labels, r in reversed(out):
            c = " || ".join(f"{self.tr.num(cv)} == {l}" for l in labels)
            a, b, rt = self.unify(r, res, r.ctype)
            res = R(f"(if {c} {{ {a} }} else {{ {b} }})", r.ctype, rt)
        return res

    def switch_groups(self, st):
        """[(labels, statements)] with explicit fallthrough expansion"""
        flat = []   # (labels, stmt)

        def walk(s, labels):
            if s["k"] == "case":
                walk(s["body"], labels + [s["const"]])
            elif s["k"] == "default":
                walk(s["body"], labels + ["default"])
            else:
                flat.append((labels, s))
        for s in st["body"]["body"]:
            walk(s, [])
        groups = []
        for labels, s in flat:
            if labels:
                groups.append((labels, [s]))
            else:
                if not groups:
                    raise Unsupported("switch body")
                groups[-1][1].append(s)
        # expand fallthrough
        res = []
        for i, (labels, body) in enumerate(groups):
            b = list(body)
            j = i
            while not (b and self.ends_switch_group(b)) and j + 1 < len(groups):
                j += 1
                b += groups[j][1]
            res.append((labels, b))
        return res

    def ends_switch_group(self, body):
        return any(self.always_jumps(s) for s in body)

    # =====================================================================
    # calls
    # =====================================================================
    def ignorable(self, e):
        if e["k"] in ("call", "mcall") and strip_anon(e.get("callee", "")) in self.tr.unit.get("ignore", ()):
            return True
        return False

    def ex_call(self, n):
        name = strip_anon(n.get("callee", ""))
        if not name:
            r = self.ex(n["fn"])
            if r.lam:
                return self.call_lambda(r, n["args"], n["t"])
            raise Unsupported("indirect call")
        return self.call(n, name, n["args"], None)

    def ex_mcall(self, n):
        name = strip_anon(n.get("callee", ""))
        return self.call(n, name, n["args"], n["obj"])

    def ex_opcall(self, n):
        name = strip_anon(n.get("callee", ""))
        args = n["args"]
        op = n["op"]
        h = getattr(self, "op_" + {"==": "eq", "!=": "ne", "*": "deref", "->": "arrow", "++": "incdec",
                                   "--": "incdec", "+": "plus", "-": "minus", "[]": "subscript",
                                   "=": "assign", "()": "callop", "+=": "pluseq", "<": "lt", ">": "gt",
                                   "<=": "le", ">=": "ge", "-=": "minuseq"}.get(op, "none"), None)
        if n.get("inroot") and op not in ():
            # user defined operator
            cls = strip_anon(n.get("class", ""))
            if cls in ("Range",):
                return self.range_method(n, "operator" + op, args[1:], args[0])
            if op == "()" and self.tr.d.ty(self.tr.d.strip(args[0]["t"])).get("lambda"):
                r = self.ex(args[0])
                return self.call_lambda(r, args[1:], n["t"])
            if op == "=" and n["id"] not in self.tr.d.functions:
                return self.op_assign(n, args)     # implicitly defined
            if n.get("class"):
                return self.call(n, name, args[1:], args[0])
            return self.call(n, name, args, None)
        if h is None:
            raise Unsupported(f"operator {op} {name} (line {n.get('line')})")
        return h(n, args)

    # -- library operators
    def op_eq(self, n, args, neg=False):
        a, b = self.ex(args[0]), self.ex(args[1])
        t = n["t"]
        if a.rt == "int" and b.rt == "int" or (a.cont is not None or b.cont is not None):
            return R(f"({self.numtext(a)} {'!=' if neg else '=='} {self.numtext(b)})", t, "bool")
        if a.rt.startswith("Option<") and b.rt.startswith("Option<"):
            return R(f"({a.s} {'!=' if neg else '=='} {b.s})", t, "bool")
        if a.rt.startswith("Seq<"):
            bs = self.tr.coerce(b, a.rt)
            s = f"({a.s} =~= {bs})"
            return R(f"!{s}" if neg else s, t, "bool")
        if a.rt.startswith("Option<") and not b.rt.startswith("Option<"):
            inner = a.rt[7:-1]
            s = f"({a.s} == Some({self.tr.coerce(b, inner)}))"
            return R(f"!{s}" if neg else s, t, "bool")
        if a.rt == b.rt:
            return R(f"({a.s} {'!=' if neg else '=='} {b.s})", t, "bool")
        nums = set(BOUNDS) | {"int", "lit"}
        if a.rt in nums and b.rt in nums:
            return R(f"({self.tr.num(a)} {'!=' if neg else '=='} {self.tr.num(b)})", t, "bool")
        raise Unsupported(f"== on {a.rt} and {b.rt}")

    def op_ne(self, n, args):
        return self.op_eq(n, args, True)

    def cmp(self, n, args, op):
        a, b = self.ex(args[0]), self.ex(args[1])
        nums = set(BOUNDS) | {"int", "lit"}
        if a.rt in nums and b.rt in nums:
            return R(f"({self.numtext(a)} {op} {self.numtext(b)})", n["t"], "bool")
        raise Unsupported("comparison of " + a.rt)

    def op_lt(self, n, args):
        return self.cmp(n, args, "<")

    def op_gt(self, n, args):
        return self.cmp(n, args, ">")

    def op_le(self, n, args):
        return self.cmp(n, args, "<=")

    def op_ge(self, n, args):
        return self.cmp(n, args, ">=")

    def op_deref(self, n, args):
        r = self.ex(args[0])
        return self.deref(r)

    def op_arrow(self, n, args):
        r = self.ex(args[0])
        d = self.deref(r)
        # a pointer to the element: ex_member derefs again
        rr = R(d.s, n["t"], "ptrto", place=d.place)
        rr.alias = d
        return rr

    def op_incdec(self, n, args):
        r = self.ex(args[0])
        return self.incdec(r, n["op"], len(args) == 2, self.tr.d.strip(args[0]["t"]))

    def offtext(self, r):
        return getattr(r, "offset", None) or self.numtext(r)

    def op_plus(self, n, args):
        a, b = self.ex(args[0]), self.ex(args[1])
        if a.cont is not None or self.tr.is_iter(args[0]["t"]):
            if a.rev:
                return R(f"({self.numtext(a)} - {self.offtext(b)})", n["t"], "int", cont=a.cont, rev=True)
            return R(f"({self.numtext(a)} + {self.offtext(b)})", n["t"], "int", cont=a.cont)
        if a.rt.startswith("Seq<") or b.rt.startswith("Seq<"):
            rt = a.rt if a.rt.startswith("Seq<") else b.rt
            x = a.s if a.rt == rt else f"seq![{self.tr.coerce(a, rt[4:-1])}]"
            y = b.s if b.rt == rt else f"seq![{self.tr.coerce(b, rt[4:-1])}]"
            return R(f"{x}.add({y})", n["t"], rt)
        if a.rt == "int" and b.rt == "int":
            return R(f"({a.s} + {b.s})", n["t"], "int")
        if "Real" in (a.rt, b.rt):
            return R("arbitrary()", n["t"], self.tr.rt(n["t"]))
        raise Unsupported("operator+")

    def op_minus(self, n, args):
        a, b = self.ex(args[0]), self.ex(args[1])
        if "Real" in (a.rt, b.rt):
            return R("arbitrary()", n["t"], self.tr.rt(n["t"]))
        cont = a.cont if self.tr.is_iter(n["t"]) else None
        if a.rev:
            if b.rev:
                return R(f"({self.offtext(b)} - {self.numtext(a)})", n["t"], "int")
            return R(f"({self.numtext(a)} + {self.offtext(b)})", n["t"], "int", cont=cont, rev=True)
        return R(f"({self.numtext(a)} - {self.offtext(b)})", n["t"], "int", cont=cont)

    def op_pluseq(self, n, args):
        a = self.ex(args[0])
        b = self.ex(args[1])
        if a.rt.startswith("Seq<"):
            y = b.s if b.rt == a.rt else f"seq![{self.tr.coerce(b, a.rt[4:-1])}]"
            self.assign(a.place, f"{a.s}.add({y})")
            return a
        if a.rt == "int":
            self.assign(a.place, f"{a.s} + {self.offtext(b)}")
            return R(a.place.get(), n["t"], "int", place=a.place, cont=a.cont)
        raise Unsupported("operator+=")

    def op_minuseq(self, n, args):
        a = self.ex(args[0])
        b = self.ex(args[1])
        if a.rt == "int":
            self.assign(a.place, f"{a.s} - {self.offtext(b)}")
            return R(a.place.get(), n["t"], "int", place=a.place, cont=a.cont)
        raise Unsupported("operator-=")

    def op_subscript(self, n, args):
        b = self.ex(args[0])
        i = self.ex(args[1])
        if self.tr.is_iter(args[0]["t"]):
            return self.deref_iter(R(f"({b.s} + {self.numtext(i)})", b.ctype, "int", cont=b.cont))
        return self.index(b, i, n["t"])

    def op_assign(self, n, args):
        r = self.ex(args[1])
        l = self.ex(args[0])
        if l.rt.startswith("Option<") and r.rt != l.rt and r.rt != "none" and not l.rt.startswith("Option<Ptr<"):
            rn = self.tr.d.rec_name(args[1]["t"])
            if rn == "std::nullopt_t":
                self.assign(l.place, f"Option::<{l.rt[7:-1]}>::None")
            else:
                self.assign(l.place, f"Some({self.store(r, l.rt[7:-1])})")
            return R(l.place.get(), n["t"], l.rt, place=l.place)
        if l.rt in self.tr.enums and r.rt != l.rt:
            vty = self.tr.d.ty(self.tr.d.strip(args[0]["t"]))
            self.assign(l.place, self.to_variant(r, args[1]["t"], vty, l.rt))
            return R(l.place.get(), n["t"], l.rt, place=l.place)
        if getattr(r, "moved", False) and r.place is not None and r.rt.startswith("Seq<"):
            v = self.temp("mv", r.rt, r.s)
            self.assign(r.place, self.temp("mvd", r.rt, "havoc()"))
            r = R(v, r.ctype, r.rt)
        return self.assign_to(l, r, n["t"])

    def op_callop(self, n, args):
        r = self.ex(args[0])
        if r.lam:
            return self.call_lambda(r, args[1:], n["t"])
        name = strip_anon(n.get("callee", ""))
        return self.call(n, name, args[1:], args[0])

    def op_none(self, n, args):
        raise Unsupported("operator " + n["op"])

    # -- general call
    def call(self, n, name, args, obj):
        unit = self.tr.unit
        t = n["t"]
        if name in unit.get("ignore", ()):
            self.tr.dropped_calls.add(name)
            return R("()", t, "()")
        if name in self.tr.externals:
            return self.external(n, name, args, obj)
        lib = self.library(n, name, args, obj)
        if lib is not None:
            return lib
        f = self.tr.d.functions.get(n["id"])
        if f is None and n.get("inroot"):
            # defined in another translation unit of this check
            cands = [g for g in self.tr.d.by_name.get(name, ())
                     if len(g["params"]) == len(n.get("ptypes", []))
                     and [self.tr.val_str(p["type"]) for p in g["params"]] ==
                     [self.tr.val_str(p) for p in n["ptypes"]]]
            if len(cands) == 1:
                f = cands[0]
        if f is not None:
            if strip_anon(n.get("class", "")) == "Range":
                return self.range_method(n, n.get("method"), args, obj)
            c = self.tr.contract_of(f)
            if c is not None and not (self.pure and self.tr.functional_key(f)):
                if not (self.pure and not self.tr.functional_key(f)):
                    return self.call_contract(f, c, args, obj, n)
            if self.pure:
                try:
                    if obj is not None:
                        return self.pure_method(f, args, obj)
                    return self.pure_call_fn(f, [self.ex(a) for a in args])
                except Unsupported:
                    r = self.uninterpreted(f, args, obj, n)
                    if r is None:
                        raise
                    return r
            return self.inline(f, args, obj, n)
        raise Unsupported(f"call to {name} (line {n.get('line')})")

    def uninterpreted(self, f, args, obj, n):
        """a side effect free function in a condition: an unknown function of its arguments"""
        if any(self.tr.is_out_param(p) for p in f["params"]) or f.get("ctor"):
            return None
        member = f.get("class") and not f.get("static")
        if member and not f.get("const"):
            return None
        rt = self.tr.rt(f["ret"])
        if rt in ("()", "ptrto") or self.tr.is_iter(f["ret"]):
            return None
        texts, rts = [], []
        if member:
            if obj is None:
                texts.append(self.this.get())
                rts.append(self.tr.struct(strip_anon(f["class"])))
            else:
                o = self.ex(obj)
                if o.rt == "ptrto":
                    o = o.alias
                elif n.get("arrow") and obj["k"] != "this":
                    o = self.deref(o)
                texts.append(o.s)
                rts.append(self.tr.struct(strip_anon(f["class"])))
        for p, a in zip(f["params"], args):
            r = self.ex(a)
            if r.lam or r.fn:
                return None
            prt = self.tr.param_rt(p)
            texts.append(self.tr.coerce(self.to_ptr(r, prt) if prt.startswith("Option<Ptr<") else r, prt))
            rts.append(prt)
        name = "uf_" + ident(f["name"] + "_" + "_".join(rts))
        self.tr.ufs[name] = f"pub uninterp spec fn {name}({', '.join(f'a{i}: {x}' for i, x in enumerate(rts))}) -> {rt};"
        self.tr.inlined.discard(f["name"])
        return R(f"{name}({', '.join(texts)})", f["ret"], rt)

    def pure_method(self, f, args, obj):
        o = self.ex(obj)
        if o.rt == "ptrto":
            o = o.alias
        elif o.rt and o.rt.startswith("Option<"):
            o = self.deref(o)
        saved = self.this
        if o.place is None:
            # bind by text
            pl = TextPlace(o.s, o.ctype)
            self.rts[pl.root] = o.rt
            self.this = pl
        else:
            self.this = o.place
        try:
            argv = [self.ex_with_this(a, saved) for a in args]
            return self.pure_call_fn(f, argv)
        finally:
            self.this = saved

    def ex_with_this(self, n, this):
        cur = self.this
        self.this = this
        try:
            return self.ex(n)
        finally:
            self.this = cur

    # -- externals: effects given by the unit
    def external(self, n, name, args, obj):
        x = self.tr.externals[name]
        self.tr.trusted_calls.add(name)
        a = [self.ex(v) for v in args]
        o = self.ex(obj) if obj is not None else None
        if callable(x):
            return x(self, n, a, o)
        texts = [v.s if v.rt != "lit" else v.s for v in a]
        fmt = dict(this=self.this.get() if self.this else "", obj=o.s if o else "")
        for i, v in enumerate(texts):
            fmt[f"a{i}"] = v
        if x.get("bytes"):
            # the memory an argument points to
            ptr, size = (a[i] for i in x["bytes"])
            k = self.numtext(self.stable(size, "n"))
            fmt["bytes"] = self.temp("mem", "Seq<i8>", self.bytes_at(ptr, k))
        ret = x.get("ret")
        rt = x.get("rt") or self.tr.rt(n["t"])
        if ret is None and rt != "()":
            if self.pure:
                raise Unsupported("external without value in pure code: " + name)
            fmt["ret"] = self.temp("xr", rt, "havoc()")
            ret = "{ret}"
        if x.get("throws"):
            self.throw_if(self.temp("xt", "bool", "havoc()"))
        for stx in x.get("effect", ()):
            m = re.match(r"\s*([\w\.{}]+)\s*=", stx)
            txt = stx.format(**fmt)
            self.emit(txt)
            tgt = m.group(1).format(**fmt)
            parts = tgt.split(".")
            key = (parts[0], parts[1] if len(parts) > 1 else None)
            for w in self.writes:
                w.add(key)
        if ret is None:
            return R("()", n["t"], "()")
        txt = ret.format(**fmt)
        if x.get("proof"):
            nm = self.temp("xr", rt, txt)
            return R(nm, n["t"], rt)
        return R(txt, n["t"], rt)

    # -- contracted call
    def call_contract(self, f, c, args, obj, n):
        self.tr.used_contracts.add(f["name"])
        fk = self.tr.functional_key(f)
        if fk:
            a = [self.ex(v) for v in args]
            rts = [self.tr.rt(p["type"]) for p in f["params"]]
            al = [self.tr.coerce(self.to_ptr(x, rt) if rt.startswith("Option<Ptr<") else x, rt)
                  for x, rt in zip(a, rts)]
            if f.get("class") and not f.get("static"):
                o = self.ex(obj)
                o = self.deref(o) if (n.get("arrow") and obj["k"] != "this" and o.rt != "ptrto") else (o.alias if o.rt == "ptrto" else o)
                al = [o.s] + al
            if self.pure and self.pobs is not None and self.tr.safety:
                names = ([("pre", al[0])] if f.get("class") and not f.get("static") else [])
                given = c.get("params")
                names += [(given[i] if given and i < len(given) else (p["name"] or f"p{i}"), t)
                          for i, (p, t) in enumerate(zip(f["params"], al[len(names):]))]
                lets = "".join(f"let {x} = {t}; " for x, t in names)
                for rq in c.get("requires", ()):
                    self.obligation("contract", f"{{ {lets}{rq} }}", "precondition of " + f["name"])
            rret = self.tr.rt(f["ret"])
            if c.get("requires") and not self.pure:
                # call the verified function so that its precondition is checked
                nm = self.temp("fr", self.tr.result_rt(f, c), f"{self.tr.fn_name(f)}({', '.join(al)})")
                return R(self.tr.result_ret(f, c, nm), f["ret"], rret)
            cont = None
            if self.tr.is_iter(f["ret"]):
                cont = self.cont_from_args(a)
            return R(f"{fk}({', '.join(al)})", f["ret"], rret, cont=cont)
        if self.pure:
            raise Unsupported("contracted call in pure expression: " + f["name"])
        outs = []
        texts = []
        this_place = None
        if f.get("class") and not f.get("static") and not f.get("ctor"):
            if obj is None:
                this_place = self.this
            else:
                o = self.ex(obj)
                if o.rt == "ptrto":
                    o = o.alias
                elif n.get("arrow") and obj["k"] != "this":
                    o = self.deref(o)
                this_place = o.place
                if this_place is None:
                    if self.tr.mods_this(f):
                        raise Unsupported("method on rvalue")
                    this_place = None
                    texts.append(o.s)
            if this_place is not None:
                texts.append(this_place.get())
                if self.tr.mods_this(f):
                    outs.append(("this", this_place, None))
        conts = {}
        for pi, (p, a) in enumerate(zip(f["params"], args)):
            r = self.ex(a)
            rt = self.tr.param_rt(p)
            if pi in c.get("literals", ()):
                # the text up to its terminator
                z = r.cont.get() if isinstance(r.cont, Place) else None
                if r.rt == "int" and z and z.endswith("_z"):
                    texts.append(f"(if {r.s} == 0 {{ {z[:-2]} }} else {{ c_text({z}.subrange({r.s}, {z}.len() as int)) }})")
                    continue
                if r.rt != "Seq<i8>":
                    raise Unsupported("text argument " + str(r.rt))
                texts.append(r.s if a["k"] == "str" or a.get("e", {}).get("k") == "str" else f"c_text({r.s})")
                continue
            if self.tr.is_out_param(p):
                pl = r.place if r.rt != "ptrto" else r.alias.place
                if pl is None:
                    raise Unsupported("out parameter without place")
                outs.append((p["name"], pl, rt))
                texts.append(self.tr.coerce(R(pl.get(), None, self.rt_of_place(pl, p["type"])), rt))
            else:
                texts.append(self.store(r, rt))
            if r.cont is not None:
                conts[p["name"]] = r.cont
            elif r.rt == "ptrto" and r.alias.cont is not None:
                conts[p["name"]] = r.alias.cont
        hid = c.get("container")
        if hid:
            # hidden container argument for iterator parameters
            cc = next(iter(conts.values()), None)
            if cc is None:
                raise Unsupported("container of iterator argument unknown")
            texts.append(cc.get() if isinstance(cc, Place) else cc)
        for g in c.get("ghost_args", ()):
            texts.append(self.ghost_arg(g, f))
        rrt = self.tr.result_rt(f, c)
        call = f"{self.tr.rec_name(f)}({', '.join(texts)})"
        if rrt == "()":
            self.emit(call + ";")
            self.scan_throw(f, c, None)
            return R("()", f["ret"], "()")
        nm = self.temp("cr", rrt, call)
        comps = self.tr.result_components(f, c)
        single = len(comps) == 1
        get = lambda i: nm if single else f"{nm}.{i}"
        ret = R("()", f["ret"], "()")
        for i, (kind, rt, pname) in enumerate(comps):
            if kind == "this":
                pl = next(pl for (k2, pl, _) in outs if k2 == "this")
                mods = self.tr.modset(f)
                self.write_back(pl, get(i), mods)
            elif kind == "out":
                pl = next(pl for (k2, pl, _) in outs if k2 == pname)
                self.assign(pl, self.tr.coerce(R(get(i), None, rt), self.rt_of_place(pl, None)))
            elif kind == "ret":
                cont = None
                if self.tr.is_iter(f["ret"]):
                    cont = self.cont_from_args([self.ex(a) for a in args]) if True else None
                ret = R(get(i), f["ret"], rt, cont=cont)
            elif kind == "exc":
                self.throw_if(get(i))
        return ret

    def ghost_arg(self, g, f):
        b = self.ghost_bind.get(g)
        if b is None:
            raise Unsupported(f"ghost argument {g} for {f['name']} not available")
        return b

    def write_back(self, pl, newtext, mods):
        if mods is None or pl.path:
            self.assign(pl, newtext)
            return
        # the callee's frame clause says that nothing else changed
        if "exc" in self.jumps[-1]:
            newtext = f"(if exc {{ {pl.root} }} else {{ {newtext} }})"
        self.emit(f"{pl.root} = {newtext};")
        for m in sorted(mods):
            self.record_write(pl.field(m, None))

    def scan_throw(self, f, c, nm):
        pass

    def cont_from_args(self, a):
        for r in a:
            if r.cont is not None:
                return r.cont
            if r.rt == "ptrto" and r.alias.cont is not None:
                return r.alias.cont
            if r.place is not None and r.rt.startswith("Seq<"):
                return r.place
        return None

    # -- throw
    def throw_if(self, cond):
        self.use_exc()
        self.emit(f"if {cond} {{ exc = true; }}")
        self.note_write("exc")
        self.pending_jump("exc")

    def use_exc(self):
        self.uses_exc = True

    def note_write(self, name):
        for w in self.writes:
            w.add((name, None))

    def ex_throw(self, n):
        self.use_exc()
        self.emit("exc = true;")
        self.note_write("exc")
        self.pending_jump("exc")
        return R("()", n["t"], "()")

    def pending_jump(self, flag):
        self.jumps[-1].add(flag)

    # -- inlining
    def bind_param(self, p, r):
        """bind parameter decl p to the argument r"""
        ty = self.tr.d.ty(p["type"])
        if r.lam or r.fn:
            self.vars[p["id"]] = r
            return
        if r.rt == "ptrto":
            if ty["k"] == "ptr":
                self.vars[p["id"]] = r
                return
        if ty["k"] == "ref" and r.place is not None:
            self.vars[p["id"]] = r.place
            if r.cont is not None:
                self.contof[r.place.get()] = r.cont
            return
        if ty["k"] == "ptr" and r.rt and r.rt.startswith("Option<Ptr<"):
            nm = self.tr.fresh(p["name"] or "p")
            self.declare(nm, r.rt, r.s)
            self.mutvars.add(nm)
            self.vars[p["id"]] = Place(nm, (), p["type"])
            return
        if self.tr.is_iter(p["type"]) or (ty["k"] == "ptr" and r.rt == "int" and r.cont is not None):
            nm = self.tr.fresh(p["name"] or "p")
            self.declare(nm, "int", self.numtext(r))
            self.mutvars.add(nm)
            self.vars[p["id"]] = R(nm, p["type"], "int", cont=r.cont, rev=r.rev, place=Place(nm, (), p["type"]))
            if r.cont is not None:
                self.contof[nm] = r.cont
            return
        rt = self.tr.local_rt(self.tr.rt(p["type"]))
        if rt == "CStr":
            rt = r.rt
        nm = self.tr.fresh(p["name"] or "p")
        self.declare(nm, rt, self.store(r, rt))
        self.mutvars.add(nm)
        self.vars[p["id"]] = Place(nm, (), p["type"])

    def inline(self, f, args, obj, n):
        if f["id"] in self.callstack or len(self.callstack) > 24:
            raise Unsupported("recursive inlining of " + f["name"])
        self.tr.inlined.add(f["name"])
        # the simplest form: a pure expression
        simple = self.try_pure_inline(f, args, obj, n)
        if simple is not None:
            return simple
        saved_vars, saved_this = dict(self.vars), self.this
        argv = [self.ex(a) for a in args]
        if f.get("class") and not f.get("static") and obj is not None:
            o = self.ex(obj)
            if o.rt == "ptrto":
                o = o.alias
            elif n.get("arrow") and obj["k"] != "this":
                o = self.deref(o)
            if o.place is None:
                nm = self.tr.fresh("obj")
                self.declare(nm, o.rt, o.s)
                self.mutvars.add(nm)
                newthis = Place(nm, (), o.ctype)
            else:
                newthis = o.place
        else:
            newthis = self.this
        for p, r in zip(f["params"], argv):
            self.bind_param(p, r)
        for p in f["params"][len(argv):]:
            if "default" in p:
                self.bind_param(p, self.ex(p["default"]))
        self.this = newthis
        line = self.line
        r = self.inline_body(f["body"], f["ret"], f["id"], f["name"])
        self.line = line
        self.vars, self.this = self.merge_vars(saved_vars), saved_this
        return r

    def merge_vars(self, saved):
        return saved

    def try_pure_inline(self, f, args, obj, n):
        """expression-bodied functions become expressions (no temporaries)"""
        body = f["body"]
        sts = body["body"] if body["k"] == "block" else [body]
        if self.has_loop_or_effect(body):
            return None
        st = (list(self.lines), self.tr.counter, set(self.scope_vars), self.indent, dict(self.vars), self.this,
              list(self.callstack), list(self.scope_vars))
        # obligations of arguments and body are collected and emitted where the call is
        collect = not self.pure and self.tr.safety
        outer = self.pobs, self.pc
        if collect:
            self.pobs, self.pc = [], []
        try:
            if obj is not None and f.get("class"):
                self.pure += 1
                try:
                    r = self.pure_method2(f, args, obj, n)
                finally:
                    self.pure -= 1
            else:
                self.pure += 1
                try:
                    argv = [self.ex(a) for a in args]
                    r = self.pure_call_fn(f, argv)
                finally:
                    self.pure -= 1
            if len(r.s) > 600:
                raise Unsupported("too long")
            if collect:
                obs, line = self.pobs, self.line
                self.pobs, self.pc = outer
                for kind, self.line, detail, cond in obs:
                    self.obligation(kind, cond, detail)
                self.line = line
            return r
        except Unsupported:
            self.pobs, self.pc = outer
            self.lines = st[0]
            self.indent = st[3]
            self.vars, self.this = st[4], st[5]
            self.callstack = st[6]
            self.scope_vars = st[7]
            return None

    def pure_method2(self, f, args, obj, n):
        o = self.ex(obj)
        if o.rt == "ptrto":
            o = o.alias
        elif n.get("arrow") and obj["k"] != "this":
            o = self.deref(o)
        if o.place is None:
            raise Unsupported("rvalue object")
        argv = [self.ex(a) for a in args]
        saved = self.this
        self.this = o.place
        try:
            return self.pure_call_fn(f, argv)
        finally:
            self.this = saved

    def has_loop_or_effect(self, n):
        if isinstance(n, dict):
            if n.get("k") in ("while", "for", "forrange", "do", "try", "throw", "lambda"):
                return n.get("k") != "lambda"
            if n.get("k") in ("index", "opcall") and n.get("op") in ("[]",):
                return True      # keep bounds obligations
            if n.get("k") == "opcall" and n.get("op") in ("*", "->"):
                return True
            if n.get("k") == "mcall" and n.get("method") in ("front", "back"):
                return True
            return any(self.has_loop_or_effect(v) for v in n.values())
        if isinstance(n, list):
            return any(self.has_loop_or_effect(v) for v in n)
        return False

    def inline_body(self, body, ret, fid, name):
        ret_t = self.tr.d.strip(ret)
        rrt = "()"
        isref = self.tr.d.ty(ret)["k"] == "ref"
        frame = dict(rv=None, ret=None, cont=None, rt=None, ctype=ret, place=None, rev=False, single=None)
        if not (self.tr.d.ty(ret_t)["k"] == "builtin" and self.tr.d.ty(ret_t)["n"] == "void"):
            try:
                rrt = self.tr.local_rt(self.tr.rt(ret_t))
            except Unsupported:
                if isref:
                    rrt = None
                else:
                    raise
            frame["rt"] = rrt
        # single trailing return: no result variable needed
        sts = body["body"] if body["k"] == "block" else [body]
        nret = self.count_returns(body)
        tail = sts and sts[-1]["k"] == "return"
        self.callstack.append(fid)
        saved_loops = self.loops
        self.loops = []
        self.inl.append(frame)
        if nret == 0 or (nret == 1 and tail):
            frame["single"] = True
            self.stmts(sts)
            res = frame.get("result", R("()", ret, "()"))
        else:
            frame["rv"] = self.tr.fresh("rv")
            frame["ret"] = self.tr.fresh("ret")
            if rrt and rrt != "()":
                self.declare(frame["rv"], rrt, "havoc()")
                self.mutvars.add(frame["rv"])
            self.declare(frame["ret"], "bool", "false")
            self.mutvars.add(frame["ret"])
            self.jumps.append(set())
            self.stmts(sts)
            esc = self.jumps.pop()
            esc.discard(frame["ret"])
            for e in esc:
                self.pending_jump(e)
            if rrt and rrt != "()":
                res = R(frame["rv"], ret, rrt, cont=frame["cont"], rev=frame["rev"])
            else:
                res = R("()", ret, "()")
        self.inl.pop()
        self.loops = saved_loops
        self.callstack.pop()
        return res

    def count_returns(self, n):
        if isinstance(n, dict):
            if n.get("k") == "lambda":
                return 0
            c = 1 if n.get("k") == "return" else 0
            return c + sum(self.count_returns(v) for v in n.values())
        if isinstance(n, list):
            return sum(self.count_returns(v) for v in n)
        return 0

    def inline_ctor(self, f, args, t, argv=None):
        self.tr.inlined.add(f["name"])
        rt = self.tr.rt(t)
        if rt not in self.tr.structs:
            raise Unsupported("constructor of " + rt)
        argv = argv if argv is not None else [self.ex(a) for a in args]
        saved_vars, saved_this = dict(self.vars), self.this
        for p, r in zip(f["params"], argv):
            if self.pure or (r.rt in ("lit",) or r.lam):
                self.vars[p["id"]] = R(r.s, p["type"], r.rt, cont=r.cont)
            else:
                self.vars[p["id"]] = R(r.s, p["type"], r.rt, cont=r.cont, place=r.place)
        vals = {}
        recn = strip_anon(self.tr.d.ty(self.tr.d.strip(t))["n"])
        fields = {ident(x["name"]): x for x in self.tr.d.records[recn]["fields"]}
        body = f["body"]["body"] if f["body"]["k"] == "block" else [f["body"]]
        obj = None
        if body:
            obj = self.tr.fresh("newobj")
            self.declare(obj, rt, "havoc()")
            self.mutvars.add(obj)
            self.this = Place(obj, (), t)
        for i in f["inits"]:
            if "field" in i:
                fname = ident(i["field"])
                frt = next((x[1] for x in self.tr.structs[rt] if x[0] == fname), None)
                if frt is None:
                    continue
                r = self.ex(i["init"])
                v = self.store(r, frt)
                bits = fields.get(fname, {}).get("bits")
                if bits and frt in BOUNDS and self.tr.d.ty(self.tr.d.strip(fields[fname]["type"]))["k"] != "enum" \
                        and r.rt != "lit":
                    v = f"((({v}) as int) % {2**bits}) as {frt}"
                vals[fname] = v
                if obj:
                    self.emit(f"{obj}.{fname} = {v};")
            elif "base" in i:
                fs = [x for x in self.tr.structs[rt] if x[0].startswith("base")]
                if fs:
                    vals[fs[0][0]] = self.store(self.ex(i["init"]), fs[0][1])
                    if obj:
                        self.emit(f"{obj}.{fs[0][0]} = {vals[fs[0][0]]};")
        lit = self.struct_lit(rt, vals)
        if body:
            for (fn_, frt, fd) in self.tr.structs[rt]:
                if fn_ not in vals:
                    self.emit(f"{obj}.{fn_} = {self.default_of(frt, fd['type'] if fd else None)};")
            self.inline_body(f["body"], f["ret"], f["id"], f["name"])
            self.vars, self.this = saved_vars, saved_this
            return R(obj, t, rt, place=Place(obj, (), t))
        self.vars, self.this = saved_vars, saved_this
        return R(lit, t, rt)

    def call_lambda(self, r, args, t):
        n, caps, this = r.lam
        argv = [self.ex(a) for a in args]
        return self.apply_lambda(r, argv, [a["t"] for a in args])

    def apply_lambda(self, r, argv, argts=()):
        n, caps, this = r.lam
        b = n["bodies"][0]
        if len(n["bodies"]) > 1:
            sig = [self.tr.d.ty(self.tr.d.strip(a))["str"].replace("const ", "") for a in argts]
            for bb in n["bodies"]:
                if [self.tr.d.ty(self.tr.d.strip(p["type"]))["str"].replace("const ", "") for p in bb["params"]] == sig:
                    b = bb
        saved_vars, saved_this = dict(self.vars), self.this
        self.vars.update(caps)
        self.this = this
        if self.pure:
            for p, a in zip(b["params"], argv):
                self.vars[p["id"]] = R(a.s, p["type"], a.rt, cont=a.cont, place=a.place)
            res = self.pure_body(b["body"], b["ret"])
        else:
            for p, a in zip(b["params"], argv):
                self.bind_param(p, a)
            res = self.inline_body(b["body"], b["ret"], ("lam", n["rec"]), "lambda")
        self.vars, self.this = saved_vars, saved_this
        return res

    # =====================================================================
    # statements
    # =====================================================================
    def always_jumps(self, s):
        if s is None:
            return False
        k = s["k"]
        if k in ("return", "break", "continue"):
            return True
        if k == "block":
            return any(self.always_jumps(x) for x in s["body"])
        if k == "if":
            return bool(s.get("else")) and self.always_jumps(s["then"]) and self.always_jumps(s["else"])
        if k == "expr":
            return s["e"]["k"] == "throw"
        if k in ("case", "default"):
            return self.always_jumps(s["body"])
        if k == "switch":
            try:
                groups = self.switch_groups(s)
            except Unsupported:
                return False
            has_default = any("default" in l for l, _ in groups)
            return has_default and all(
                any(x["k"] in ("return",) or (self.always_jumps(x) and x["k"] != "break"
                    and not self.contains_break(x)) for x in b) for _, b in groups)
        return False

    def contains_break(self, n):
        if isinstance(n, dict):
            if n.get("k") == "break":
                return True
            if n.get("k") in ("while", "for", "forrange", "do", "switch", "lambda"):
                return False
            return any(self.contains_break(v) for v in n.values())
        if isinstance(n, list):
            return any(self.contains_break(v) for v in n)
        return False

    def stmts(self, sts):
        for i, st in enumerate(sts):
            self.jumps.append(set())
            rest = sts[i + 1:]
            handled = self.stmt(st, rest)
            esc = self.jumps.pop()
            for e in esc:
                self.pending_jump(e)
            if handled:
                return
            if esc and rest:
                if self.always_jumps(st):
                    return
                flags = sorted(esc)
                self.emit("if " + " && ".join(f"!{x}" for x in flags) + " {")
                self.indent += 1
                vm = len(self.scope_vars)
                saved = dict(self.vars)
                self.stmts(rest)
                del self.scope_vars[vm:]
                self.indent -= 1
                self.emit("}")
                return

    def stmt(self, st, rest=()):
        """returns True when `rest` was consumed"""
        self.line = st.get("line", self.line)
        k = st["k"]
        if k == "block":
            vm = len(self.scope_vars)
            if not rest:
                self.stmts(st["body"])
                return False
            self.emit("{")
            self.indent += 1
            self.stmts(st["body"])
            self.indent -= 1
            self.emit("}")
            del self.scope_vars[vm:]
            return False
        if k == "expr":
            self.stmt_expr(st["e"])
            return False
        if k == "decl":
            for v in st["vars"]:
                self.declare_var(v)
            return False
        if k == "if":
            return self.stmt_if(st, rest)
        if k == "return":
            self.stmt_return(st)
            return False
        if k == "break":
            fl = self.loops[-1]["brk"]
            self.emit(f"{fl} = true;")
            self.note_write(fl)
            self.pending_jump(fl)
            return False
        if k == "continue":
            lp = next(l for l in reversed(self.loops) if l["kind"] == "loop")
            fl = lp["cont"]
            self.emit(f"{fl} = true;")
            self.note_write(fl)
            self.pending_jump(fl)
            return False
        if k in ("while", "for", "forrange", "do"):
            self.loop(st)
            return False
        if k == "switch":
            self.stmt_switch(st)
            return False
        if k == "try":
            self.stmt_try(st)
            return False
        raise Unsupported(f"statement {k} {st.get('n', '')} (line {st.get('line')})")

    def stmt_expr(self, e):
        if self.ignorable(e):
            self.tr.dropped_calls.add(strip_anon(e["callee"]))
            return
        # assignments, calls, increments: value unused
        self.stmt_ctx = True
        try:
            if e["k"] == "cond" and "__assert_fail" in json.dumps(e["b"]):
                never = '"k": "str"' in json.dumps(e["c"]) or '"k": "string"' in json.dumps(e["c"])
                self.obligation("assertion", "false" if never else self.cond(e["c"]))
                return
            if e["k"] == "cond":
                c = self.cond(e["c"])
                self.emit(f"if {c} {{")
                self.indent += 1
                self.stmt_expr(e["a"])
                self.indent -= 1
                self.emit("} else {")
                self.indent += 1
                self.stmt_expr(e["b"])
                self.indent -= 1
                self.emit("}")
                return
            self.ex(e)
        finally:
            self.stmt_ctx = False

    def declare_var(self, v):
        ty = self.tr.d.ty(v["type"])
        if v.get("static") and not ty.get("const"):
            # whatever earlier calls left in it
            rt = self.tr.rt(v["type"])
            nm = self.tr.fresh(v["name"])
            self.declare(nm, rt, "havoc()")
            self.mutvars.add(nm)
            self.vars[v["id"]] = Place(nm, (), v["type"])
            self.tr.notes.add("static local variables start with any value")
            return
        if "bindings" in v:
            self.stmt_ctx = False
            r = self.ex(v["init"])
            r = self.stable(r, "bind")
            if r.rt.startswith("("):
                for i, b in enumerate(v["bindings"]):
                    prt = self.tuple_parts(r.rt)[i]
                    nm = self.tr.fresh(b["name"])
                    self.declare(nm, prt, f"{r.s}.{i}")
                    self.mutvars.add(nm)
                    cont = r.cont[i] if isinstance(r.cont, tuple) else None
                    pl = Place(nm, (), b["type"])
                    self.vars[b["id"]] = R(nm, b["type"], prt, place=pl, cont=cont) if cont is not None else pl
                    if "hold" in b:
                        self.vars[b["hold"]] = self.vars[b["id"]]
                return
            if r.rt in self.tr.structs:
                fs = self.tr.structs[r.rt]
                for (fn_, frt, _), b in zip(fs, v["bindings"]):
                    self.vars[b["id"]] = R(f"{r.s}.{fn_}", b["type"], frt)
                return
            raise Unsupported("structured binding of " + r.rt)
        if "init" not in v:
            rt = self.tr.local_rt(self.tr.rt(v["type"]))
            nm = self.tr.fresh(v["name"])
            self.declare(nm, rt, "havoc()")
            self.mutvars.add(nm)
            self.vars[v["id"]] = Place(nm, (), v["type"])
            return
        save = self.stmt_ctx
        self.stmt_ctx = False
        r = self.ex(v["init"])
        self.stmt_ctx = save
        if r.lam or r.fn:
            self.vars[v["id"]] = r
            return
        if r.rt == "ptrto":
            # pointer to a local object: alias; keep as reassignable only if const
            if self.tr.d.ty(ty["t"] if ty["k"] == "ptr" else v["type"])["k"] in ("record", "builtin", "enum") and \
                    self.ptr_var_is_fixed(v):
                self.vars[v["id"]] = r
                return
        if ty["k"] == "ref":
            if r.place is not None:
                self.vars[v["id"]] = r.place if not r.rev else r
                if r.cont is not None:
                    self.contof[r.place.get()] = r.cont
                return
        if self.tr.is_iter(v["type"]) or r.cont is not None and r.rt == "int":
            nm = self.tr.fresh(v["name"])
            self.declare(nm, "int", self.numtext(r))
            self.mutvars.add(nm)
            self.vars[v["id"]] = R(nm, v["type"], "int", cont=r.cont, rev=r.rev or self.tr.is_rev_iter(v["type"]),
                                   place=Place(nm, (), v["type"]))
            if r.cont is not None:
                self.contof[nm] = r.cont
            return
        rt = self.tr.local_rt(self.tr.rt(v["type"]))
        if rt == "CStr":
            rt = r.rt
        nm = self.tr.fresh(v["name"])
        self.declare(nm, rt, self.store(r, rt))
        self.mutvars.add(nm)
        pl = Place(nm, (), v["type"])
        self.vars[v["id"]] = pl if r.cont is None else R(nm, v["type"], rt, cont=r.cont, place=pl)

    def ptr_var_is_fixed(self, v):
        return self.tr.d.ty(v["type"]).get("const") or True

    def stmt_if(self, st, rest):
        if st.get("init") or st.get("condvar"):
            # scope for the declared variable
            inner = dict(st)
            pre = []
            if st.get("init"):
                pre.append(st["init"])
                inner["init"] = None
            if st.get("condvar"):
                pre.append({"k": "decl", "vars": [st["condvar"]], "line": st["line"]})
                inner["condvar"] = None
            # declared names are unique, so flattening the scope is safe
            for p in pre:
                self.stmt(p)
            return self.stmt_if(inner, rest)
        c = self.cond(st["cond"])
        if "exc" in self.jumps[-1]:
            self.emit("if !exc {")
            consumed = self.if_parts(st, c, rest)
            self.emit("}")
            return consumed
        return self.if_parts(st, c, rest)

    def if_parts(self, st, c, rest):
        then, els = st["then"], st.get("else")
        tj, ej = self.always_jumps(then), self.always_jumps(els) if els else False
        vm = len(self.scope_vars)
        consumed = False
        self.emit(f"if {c} {{")
        self.indent += 1
        if ej and not tj and rest:
            self.stmts([then] + list(rest))
            consumed = True
        else:
            self.stmts([then])
        del self.scope_vars[vm:]
        self.indent -= 1
        if els or (tj and rest):
            self.emit("} else {")
            self.indent += 1
            body = [els] if els else []
            if tj and not ej and rest:
                body += list(rest)
                consumed = True
            self.stmts(body)
            del self.scope_vars[vm:]
            self.indent -= 1
        self.emit("}")
        return consumed or (tj and ej)

    def stmt_return(self, st):
        fr = self.inl[-1]
        if st.get("e") is not None and fr["rt"] != "()":
            self.stmt_ctx = False
            r = self.ex(st["e"])
            if fr["single"]:
                fr["result"] = self.adapt_result(r, fr)
                return
            if fr["rt"] is None:
                raise Unsupported("returning reference")
            if r.cont is not None and fr["cont"] is None:
                fr["cont"] = r.cont
                fr["rev"] = r.rev
            self.emit(f"{fr['rv']} = {self.store(r, fr['rt'])};")
            self.note_write(fr["rv"])
        elif st.get("e") is not None:
            self.stmt_expr(st["e"])
        if fr["single"]:
            return
        self.emit(f"{fr['ret']} = true;")
        self.note_write(fr["ret"])
        self.pending_jump(fr["ret"])

    def adapt_result(self, r, fr):
        ct = fr["ctype"]
        isref = self.tr.d.ty(ct)["k"] == "ref"
        if r.parts is not None or r.lam:
            return r
        if fr["rt"] is not None and r.rt not in (fr["rt"],) and r.rt != "ptrto":
            s = self.store(r, fr["rt"])
            return R(s, ct, fr["rt"], cont=r.cont, rev=r.rev)
        if r.rt == "ptrto" and fr["rt"] and fr["rt"].startswith("Option<Ptr<"):
            s = self.store(r, fr["rt"])
            return R(s, ct, fr["rt"])
        return R(r.s, ct, r.rt, cont=r.cont, rev=r.rev, place=r.place if isref else None)

    def stmt_switch(self, st):
        if st.get("init"):
            self.stmt(st["init"])
        cv = self.stable(self.ex(st["cond"]), "sw")
        groups = self.switch_groups(st)
        brk = self.tr.fresh("swb")
        self.declare(brk, "bool", "false")
        self.mutvars.add(brk)
        self.loops.append(dict(kind="switch", brk=brk, cont=None))
        all_labels = [l for labels, _ in groups for l in labels if l != "default"]
        self.jumps.append(set())
        first = True
        order = [g for g in groups if "default" not in g[0]] + [g for g in groups if "default" in g[0]]
        vm = len(self.scope_vars)
        opened = 0
        for labels, body in order:
            if "default" in labels:
                cond = "true"
            else:
                cond = " || ".join(f"{cv.s} == {l}" for l in labels)
            self.emit(("if " if first else "else if ") + f"{cond} {{")
            self.indent += 1
            self.stmts(body)
            del self.scope_vars[vm:]
            self.indent -= 1
            self.emit("}")
            first = False
        esc = self.jumps.pop()
        esc.discard(brk)
        for e in esc:
            self.pending_jump(e)
        self.loops.pop()

    def stmt_try(self, st):
        self.use_exc()
        self.jumps.append(set())
        self.stmts([st["body"]])
        esc = self.jumps.pop()
        had = "exc" in esc
        esc.discard("exc")
        vm = len(self.scope_vars)
        if had and st["handlers"]:
            self.emit("if exc {")
            self.indent += 1
            self.emit("exc = false;")
            self.note_write("exc")
            self.jumps.append(set())
            for h in st["handlers"][:1]:
                if h.get("var"):
                    nm = self.tr.fresh("caught")
                    self.vars[h["var"]["id"]] = R(nm, h["var"]["type"], "Opaque")
                self.stmts([h["body"]])
            esc2 = self.jumps.pop()
            esc |= esc2
            self.indent -= 1
            self.emit("}")
            del self.scope_vars[vm:]
        for e in esc:
            self.pending_jump(e)

    # ---- loops ----
    def loop(self, st):
        k = st["k"]
        self.loopcount += 1
        lid = self.tr.fresh("L")
        line = st.get("line", self.line)
        vm0 = len(self.scope_vars)
        self.emit(f"// loop {lid} (line {line})")
        idx = None
        cont_expr = None
        if k == "for" and st.get("init"):
            self.stmt(st["init"])
        rng = None
        if k == "forrange":
            rng = self.ex(st["range"])
            if not rng.rt.startswith("Seq<"):
                raise Unsupported("range-for over " + str(rng.rt))
            idx = self.tr.fresh("ri")
            if rng.place is None:
                nm = self.temp("range", rng.rt, rng.s)
                rng = R(nm, rng.ctype, rng.rt, place=Place(nm, (), rng.ctype))
            self.declare(idx, "int", "0")
            self.mutvars.add(idx)
        if k == "synth":
            lo = self.temp("lo", "int", st["lo"])
            hi = self.temp("hi", "int", st["hi"])
            idx = self.tr.fresh("ri")
            self.declare(idx, "int", "0")
            self.mutvars.add(idx)
            rng = R(st["c"].get(), None, f"Seq<{st['et']}>", place=st["c"])
        brk, cnt = self.tr.fresh("brk"), self.tr.fresh("cont")
        self.declare(brk, "bool", "false")
        self.declare(cnt, "bool", "false")
        self.mutvars.update((brk, cnt))
        # snapshot of the state at loop entry, for invariants
        entry = self.tr.fresh("le")
        if self.this is not None:
            self.emit(f"let {entry} = {self.this_root()};")
            self.rts[entry] = self.rts[self.this_root()]
        # translate the body into a side buffer, collecting what it writes
        outer_lines = self.lines
        self.lines = []
        self.writes.append(set())
        self.jumps.append(set())
        self.loops.append(dict(kind="loop", brk=brk, cont=cnt))
        self.indent += 1
        vm = len(self.scope_vars)
        head_mark = 0
        if k == "forrange":
            c = f"{idx} < {rng.s}.len()"
            self.note_write(idx)
        elif k == "synth":
            c = f"{idx} < {hi} - {lo}"
            self.note_write(idx)
        elif k == "do":
            c = "true"
        elif st.get("condvar"):
            self.declare_var(st["condvar"])
            c = self.cond(st["cond"])
        else:
            c = self.cond(st["cond"]) if st.get("cond") else "true"
        head = self.lines
        self.lines = []
        self.indent += 1
        if k == "forrange":
            held = self.temp("held", "int", f"{rng.s}.len() as int") if self.tr.safety and not self.pure else None
            self.bind_range_var(st["var"], rng, idx)
        if k == "synth":
            ei = self.temp("ei", "int", f"{hi} - 1 - {idx}" if st["rev"] else f"{lo} + {idx}")
            pl = st["c"].index(ei, st["ect"])
            if st.get("parts"):
                self.apply_lambda(st["fn"], [R(f"{pl.get()}.{i}", None, prt) for i, prt in enumerate(st["parts"])])
            else:
                self.apply_lambda(st["fn"], [R(pl.get(), st["ect"], st["et"], place=pl)])
        else:
            self.stmts([st["body"]] if st["body"] else [])
        bodyjumps = self.jumps[-1]
        contflag = cnt in bodyjumps
        if contflag:
            self.emit(f"{cnt} = false;")
        leave = sorted(j for j in bodyjumps if j != cnt)
        if leave:
            self.emit("if " + " && ".join(f"!{x}" for x in leave) + " {")
            self.indent += 1
        if k == "forrange" and held:
            self.obligation("range-changed", f"{rng.s}.len() == {held}")
        if k in ("forrange", "synth"):
            self.emit(f"{idx} = {idx} + 1;")
        elif k == "for" and st.get("inc"):
            self.stmt_expr(st["inc"])
        elif k == "do":
            dc = self.cond(st["cond"])
            self.emit(f"if {dc} {{")
            self.indent += 1
        invs_at = len(self.lines)
        step_indent = self.indent
        self.emit("@@STEP@@")
        self.emit("assume(false);")
        if k == "do":
            self.indent -= 1
            self.emit("}")
        if leave:
            self.indent -= 1
            self.emit("}")
        self.indent -= 1
        body_lines = self.lines
        self.lines = []
        del self.scope_vars[vm:]
        self.indent -= 1
        self.loops.pop()
        esc = self.jumps.pop()
        writes = self.writes.pop()
        for w in self.writes:
            w |= writes
        self.lines = outer_lines
        # variables known before the loop that the loop writes
        known = set(self.scope_vars) | {self.this_root()} | {"exc"} | self.extra_roots
        hav = sorted(((a, b or "") for a, b in writes if a in known))
        whole = {a for a, b in hav if not b}
        hav = [(a, b) for a, b in hav if not b or a not in whole]
        bound = (f"{hi} - {lo}" if k == "synth" else f"{rng.s}.len()") if idx else None
        invs = self.invariants(lid, hav, idx, rng, entry, bound)
        ind = "  " * self.indent
        for a in sorted({a for a, b in hav}):
            if any(f"{entry}_{a}" in inv for _, inv in invs):
                self.lines.append(f"{ind}let {entry}_{a} = {a};")
        for n_, inv in invs:
            self.lines.append(f"{ind}assert({inv}); //@inv {lid} {n_} init line {line}")
        for a, b in hav:
            self.lines.append(f"{ind}{a}{'.' + b if b else ''} = havoc();")
            if not b:
                self.type_assume(a)
        flags_now = [f for f in (brk, cnt) if (f, None) in writes]
        for f in flags_now:
            self.lines.append(f"{ind}{f} = false;")
        # flags of enclosing frames are false at the loop head
        for a, b in hav:
            if not b and (a.startswith("ret_") or a in ("exc", "retf") or a.startswith("brk_") or a.startswith("cont_")
                          or a.startswith("swb_")):
                if a not in flags_now:
                    self.lines.append(f"{ind}{a} = false;")
        for n_, inv in invs:
            self.lines.append(f"{ind}assume({inv}); //@invassume {lid} {n_}")
        def reindent(ls, delta):
            return ["  " * delta + l for l in ls]
        self.lines += [l[2:] if l.startswith("  " * (self.indent + 1)) else l for l in head]
        self.emit(f"if {c} {{")
        for l in body_lines:
            if l.strip() == "@@STEP@@":
                pad = l[:len(l) - len(l.lstrip())]
                for n_, inv in invs:
                    self.lines.append(f"{pad}assert({inv}); //@inv {lid} {n_} step line {line}")
            else:
                self.lines.append(l)
        self.emit("}")
        for e in esc:
            if e not in (brk, cnt):
                self.pending_jump(e)
        # names declared for this loop stay visible (they are unique)

    def this_root(self):
        return self.top_this

    def type_assume(self, a):
        pass

    def invariants(self, lid, hav, idx, rng, entry, bound):
        res = []
        n = 0
        intvars = [a for a, b in hav if not b and self.rts.get(a) == "int"]
        if idx is not None:
            res.append(("range-index", f"0 <= {idx} && {idx} <= {bound}"))
        for v in intvars:
            if v == idx:
                continue
            c = self.contof.get(v)
            if c is None:
                for vv in self.vars.values():
                    if isinstance(vv, R) and vv.s == v and vv.cont is not None:
                        c = vv.cont
            if c is not None:
                ct = c.get() if isinstance(c, Place) else c
                res.append(("iter-low", f"0 <= {v}"))
                res.append(("iter-high", f"{v} <= {ct}.len()"))
            else:
                res.append(("int-low", f"0 <= {v}"))
        pool = list(self.contract.get("invs", ()))
        unsigned = [a for a, b in hav if not b and self.rts.get(a) in BOUNDS]
        for label, tmpl in pool:
            for txt in self.expand(tmpl, intvars, hav, idx, rng, entry):
                res.append((label, txt))
        pruned = self.tr.unit.get("_pruned", {}).get(self.tr.fn_name(self.fn), set())
        out = []
        for i, (label, txt) in enumerate(res):
            nm = f"{lid}#{i}"
            if nm in pruned:
                continue
            out.append((f"{i} [{label}]", txt))
        return out

    def expand(self, tmpl, intvars, hav, idx, rng, entry):
        """instantiate an invariant template for one loop"""
        t = tmpl.replace("{s}", self.top_this or "s").replace("{e}", entry)
        if "{c}" in t:
            if rng is None:
                return []
            t = t.replace("{c}", rng.s)
        while t.startswith("{w:"):
            # only for loops writing that field
            m = re.match(r"\{w:(\w+)\}(.*)", t, re.S)
            if not any(b == m.group(1) or (not b and a == self.top_this) for a, b in hav):
                return []
            t = m.group(2)
        while t.startswith("{nw:"):
            m = re.match(r"\{nw:(\w+)\}(.*)", t, re.S)
            if any(b == m.group(1) for a, b in hav):
                return []
            t = m.group(2)
        outs = [t]
        # {i}: every integer variable the loop writes (index variables)
        if "{i}" in t:
            outs = [t.replace("{i}", v) for v in (([idx] if idx else []) + [v for v in intvars if v != idx])]
        # {v:type}: every variable of that Rust type written by the loop
        res = []
        for o in outs:
            m = re.search(r"\{v:([^}]+)\}", o)
            if m:
                cands = [a for a, b in hav if not b and self.rts.get(a) == m.group(1)]
                for c in cands:
                    res.append(o.replace(m.group(0), c).replace("{v0}", f"{entry}_{c}"))
            else:
                res.append(o)
        outs, res = res, []
        for o in outs:
            m = re.search(r"\{x:([^}]+)\}", o)
            if m:
                for c in [a for a in self.scope_vars if self.rts.get(a) == m.group(1)
                          and not re.fullmatch(r"retf|exc|(brk|cont)_\d+", a)]:
                    if "{x0}" in o and not any(a == c for a, b in hav):
                        continue
                    res.append(o.replace(m.group(0), c).replace("{x0}", f"{entry}_{c}"))
            else:
                res.append(o)
        for kind in "yz":
            outs, res = res, []
            for o in outs:
                m = re.search(r"\{%s:([^}]+)\}" % kind, o)
                if m:
                    for c in [a for a in self.scope_vars if self.rts.get(a) == m.group(1) and a != "rv"]:
                        res.append(o.replace(m.group(0), c))
                else:
                    res.append(o)
        # {p:name}: function parameter
        final = []
        for o in res:
            ok = True
            for m in re.findall(r"\{p:(\w+)\}", o):
                if m in self.param_names:
                    o = o.replace("{p:%s}" % m, self.param_names[m])
                else:
                    ok = False
            if ok:
                final.append(o)
        return final

    def bind_range_var(self, v, rng, idx):
        et = self.tr.seq_elem(rng.ctype)
        ty = self.tr.d.ty(v["type"])
        p = rng.place.index(idx, et)
        if "bindings" in v:
            rt = rng.rt[4:-1]
            nm = self.temp("el", rt, p.get())
            if rt.startswith("("):
                for i, b in enumerate(v["bindings"]):
                    self.vars[b["id"]] = R(f"{nm}.{i}", b["type"], self.tuple_parts(rt)[i])
                    if "hold" in b:
                        self.vars[b["hold"]] = self.vars[b["id"]]
            elif rt in self.tr.structs:
                for (fn_, frt, _), b in zip(self.tr.structs[rt], v["bindings"]):
                    self.vars[b["id"]] = R(f"{nm}.{fn_}", b["type"], frt)
            else:
                raise Unsupported("structured binding")
            return
        if ty["k"] == "ref":
            self.vars[v["id"]] = p
        else:
            rt = self.tr.local_rt(self.tr.rt(v["type"]))
            nm = self.tr.fresh(v["name"])
            self.declare(nm, rt, self.store(R(p.get(), et, rng.rt[4:-1]), rt))
            self.mutvars.add(nm)
            self.vars[v["id"]] = Place(nm, (), v["type"])


class TextPlace(Place):
    """read-only place for an rvalue text"""

    def __init__(self, text, ctype):
        super().__init__(f"({text})", (), ctype)


class BoolInt(R):
    """a bool promoted to an integer type"""

    def __init__(self, b, t):
        super().__init__(f"(if {b} {{ 1int }} else {{ 0int }})", t, "int")
        self.b = b
