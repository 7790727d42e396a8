"""Meaning of the C++ standard library calls the translated code uses.

Everything here is the documented behaviour of the library, stated over the
mathematical values of the translation.  It is part of the trusted base.
"""

import re

from cxx2verus import Env, R, Place, Unsupported, BOUNDS, BoolInt, strip_anon, ident, INT_RT

SEQ_CLASSES = ("std::vector", "std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view",
               "std::array", "std::initializer_list", "std::deque", "KeySequence", "Range")


class LibEnv(Env):

    # ------------------------------------------------------------------
    def library(self, n, name, args, obj):
        t = n["t"]
        cls = strip_anon(n.get("class", "") or "")
        method = n.get("method")
        if obj is not None and (cls in SEQ_CLASSES or cls.startswith("std::_Vector_base")):
            return self.seq_method(n, method, args, obj)
        if obj is not None and cls in ("std::optional", "std::_Optional_base_impl", "std::_Optional_payload_base"):
            return self.optional_method(n, method, args, obj)
        if obj is not None and cls in ("std::unique_ptr",):
            return self.unique_ptr_method(n, method, args, obj)
        if obj is not None and cls == "std::reverse_iterator" and method == "base":
            r = self.ex(obj)
            return R(r.s, t, "int", cont=r.cont, rev=False)
        if obj is not None and cls == "std::chrono::duration" and method == "count":
            r = self.ex(obj)
            if r.rt == "Real":
                raise Unsupported("floating point duration")
            return R(self.numtext(r), t, "int")
        if obj is not None and name.startswith("std::function") and name.endswith("operator()"):
            o = self.ex(obj)
            if o.lam or o.fn:
                return self.call_lambda(o, args, t)
            return self.function_object(o, args, t)
        if obj is not None and name.startswith("std::function") and name.endswith("operator bool") and not self.pure:
            return R(self.temp("callable", "bool", "havoc()"), t, "bool")
        m = re.match(r"std::(?:__cxx11::)?numeric_limits<(.*)>::(max|min|lowest)$", name)
        if m and m.group(1) in INT_RT:
            lo, hi = BOUNDS[INT_RT[m.group(1)]]
            return R(str(hi if m.group(2) == "max" else lo), t, "lit")
        if name.startswith("std::") or name.startswith("__gnu_cxx::"):
            short = name.split("::")[-1]
            h = getattr(self, "std_" + short, None)
            if h is None:
                if name in ("std::chrono::duration_cast",):
                    return self.duration_cast(n, args)
                raise Unsupported(f"library function {name} (line {n.get('line')})")
            return h(n, args)
        if name == "memcpy":
            return self.std_memcpy(n, args)
        if name in ("isspace", "isalnum"):
            return getattr(self, "std_" + name)(n, args)
        if name in ("abs", "labs"):
            return self.std_abs(n, args)
        return None

    def sizeof(self, t):
        size = self.tr.d.ty(self.tr.d.strip(t)).get("sizeof")
        if size is None:
            raise Unsupported("size of " + self.tr.d.ty(t).get("str", "type"))
        return size

    def bytes_at(self, r, k):
        """the k bytes at the address r"""
        if r.rt == "ptrto":
            a = r.alias
            size = self.sizeof(a.ctype)
            self.sizeofs[a.rt] = size
            self.obligation("memory-range", f"{k} <= {size}", "memcpy")
            b = f"bytes_of::<{a.rt}>({a.s})"
            return f"(if {k} == {size} {{ {b} }} else {{ {b}.subrange(0, {k}) }})"
        if r.cont is not None:
            cs = r.cont.get() if isinstance(r.cont, Place) else r.cont
            x = self.numtext(r)
            self.obligation("memory-range", f"0 <= {x} && {x} + {k} <= {cs}.len()", "memcpy")
            return f"{cs}.subrange({x}, {x} + {k})"
        raise Unsupported("memory of " + str(r.rt))

    def std_memcpy(self, n, args):
        d, s, k = [self.ex(a) for a in args]
        k = self.numtext(self.stable(k, "n"))
        b = self.temp("mem", "Seq<i8>", self.bytes_at(s, k))
        if d.rt == "ptrto":
            a = d.alias
            if a.place is None:
                raise Unsupported("memcpy to a temporary")
            size = self.sizeof(a.ctype)
            self.sizeofs[a.rt] = size
            self.obligation("memory-range", f"{k} == {size}", "memcpy")
            self.assign(a.place, f"of_bytes::<{a.rt}>({b})")
        elif isinstance(d.cont, Place):
            x = self.numtext(self.stable(R(self.numtext(d), None, "int"), "ix"))
            cs = d.cont.get()
            self.obligation("memory-range", f"0 <= {x} && {x} + {k} <= {cs}.len()", "memcpy")
            self.assign(d.cont, f"seq_splice({cs}, {x}, {b})")
        else:
            raise Unsupported("memcpy to " + str(d.rt))
        return R("()", n["t"], "()")

    def function_object(self, o, args, t):
        """call of a std::function nothing is known about: its result is unknown (it may be impure)"""
        a = [self.ex(x) for x in args]
        rt = self.tr.rt(t)
        if self.pure:
            rts = [self.tr.local_rt(x.rt) if x.rt != "lit" else "int" for x in a]
            name = "uf_call_" + ident("_".join(rts) + "_" + rt)
            self.tr.ufs[name] = f"pub uninterp spec fn {name}(f: Opaque, {', '.join(f'a{i}: {x}' for i, x in enumerate(rts))}) -> {rt};"
            return R(f"{name}({', '.join([o.s] + [x.s for x in a])})", t, rt)
        if rt == "()":
            return R("()", t, "()")
        r = self.temp("fcall", rt, "havoc()")
        for name, (label, fact) in self.tr.unit.get("function_results", {}).items():
            if o.s.endswith("." + name):
                self.emit(f"assume({fact.replace('{r}', r)});")
                self.tr.notes.add(f"assumed of {name}: {label}")
        return R(r, t, rt)

    def range_method(self, n, method, args, obj):
        if method and method.startswith("operator"):
            method = method[len("operator"):]
            if method == "[]":
                b = self.ex(obj)
                i = self.ex(args[0])
                return self.index(b, i, n["t"])
        return self.seq_method(n, method, args, obj)

    # ------------------------------------------------------------------
    def obj_value(self, n, obj):
        o = self.ex(obj)
        if o.rt == "ptrto":
            o = o.alias
        elif n.get("arrow") and obj["k"] != "this":
            o = self.deref(o)
        return o

    def cont_of(self, o):
        """container handle for iterators"""
        if o.place is not None:
            return o.place
        if self.pure:
            return o.s
        nm = self.temp("cc", o.rt, o.s)
        return Place(nm, (), o.ctype)

    def iter_r(self, o, pos, t, rev=False):
        c = self.cont_of(o)
        cs = c.get() if isinstance(c, Place) else c
        s = {"begin": "0int", "end": f"({cs}.len() as int)"}[pos]
        return R(s, t, "int", cont=c, rev=rev)

    def seq_method(self, n, method, args, obj):
        o = self.obj_value(n, obj)
        t = n["t"]
        if not o.rt or not o.rt.startswith("Seq<"):
            if o.rt == "CStr":
                pass
            else:
                raise Unsupported(f"method {method} on {o.rt}")
        ert = o.rt[4:-1]
        p = o.place
        s = o.s

        def A(i):
            return self.ex(args[i])

        def nonempty(what):
            self.obligation("non-empty", f"{s}.len() > 0", what)
        if method in ("begin", "cbegin"):
            return self.iter_r(o, "begin", t)
        if method in ("end", "cend"):
            return self.iter_r(o, "end", t)
        if method in ("rbegin", "crbegin"):
            return self.iter_r(o, "end", t, rev=True)
        if method in ("rend", "crend"):
            return self.iter_r(o, "begin", t, rev=True)
        if method in ("size", "length"):
            return R(f"({s}.len() as int)", t, "int")
        if method == "empty":
            return R(f"({s}.len() == 0)", t, "bool")
        if method in ("front", "back"):
            nonempty(method)
            idx = "0int" if method == "front" else f"{s}.len() - 1"
            if p is not None:
                if not self.pure and method == "back":
                    idx = self.temp("ix", "int", idx)
                pl = p.index(idx, t)
                return R(pl.get(), t, ert, place=pl)
            return R(f"({s})[{idx}]", t, ert)
        if method in ("[]", "operator[]", "at"):
            i = A(0)
            if method == "at":
                raise Unsupported("at()")
            return self.index(o, i, t)
        if method == "data" or method == "c_str":
            c = self.cont_of(o)
            rr = R("0int", t, "int", cont=c)
            rr.whole = o
            return rr
        if method in ("reserve", "shrink_to_fit"):
            if not self.pure:
                self.invalidate(p)
            return R("()", t, "()")
        if method == "max_size":
            raise Unsupported("max_size")
        if method in ("push_back", "emplace_back"):
            v = self.emplace_value(o, args)
            self.assign(p, f"{s}.push({v})")
            self.invalidate(p)
            if method == "emplace_back" and not self.pure:
                pl = p.index(self.temp("ix", "int", f"{p.get()}.len() - 1"), t)
                return R(pl.get(), t, ert, place=pl)
            return R("()", t, "()")
        if method == "pop_back":
            nonempty("pop_back")
            self.assign(p, f"{s}.drop_last()")
            return R("()", t, "()")
        if method == "clear":
            self.assign(p, f"Seq::<{ert}>::empty()")
            return R("()", t, "()")
        if method == "resize":
            r = A(0)
            k = self.numtext(self.stable(r, "n"))
            fill = self.default_of(ert, None) if len(args) < 2 else self.tr.coerce(A(1), ert)
            self.assign(p, f"seq_resize({s}, {k}, {fill})")
            self.invalidate(p)
            return R("()", t, "()")
        if method == "erase":
            return self.seq_erase(n, o, args)
        if method == "insert":
            return self.seq_insert(n, o, args)
        if method in ("append", "+="):
            if len(args) == 1:
                r = A(0)
                self.assign(p, f"{s}.add({self.tr.coerce(r, o.rt)})")
                return o
            if len(args) == 2:
                a = A(0)
                b = A(1)
                if a.cont is not None:
                    cs = a.cont.get() if isinstance(a.cont, Place) else a.cont
                    x, y = self.numtext(a), self.numtext(b)
                    if b.cont is None:
                        y = f"({x} + {y})"
                    self.obligation("iterator-range", f"0 <= {x} && {x} <= {y} && {y} <= {cs}.len()", "append")
                    self.assign(p, f"{s}.add({cs}.subrange({x}, {y}))")
                    return o
            raise Unsupported("append")
        if method == "substr":
            a = self.numtext(A(0)) if args else "0int"
            if len(args) < 2 or args[1]["k"] == "ref" and args[1].get("name") == "npos":
                k = None
            else:
                k = self.numtext(A(1))
            self.obligation("substr-position", f"0 <= {a} && {a} <= {s}.len()", "substr")
            if k is None:
                return R(f"{s}.subrange({a}, {s}.len() as int)", t, o.rt)
            return R(f"seq_substr({s}, {a}, {k})", t, o.rt)
        if method == "remove_prefix":
            k = self.numtext(self.stable(A(0), "n"))
            self.obligation("remove_prefix", f"0 <= {k} && {k} <= {s}.len()", "remove_prefix")
            self.assign(p, f"{s}.subrange({k}, {s}.len() as int)")
            return R("()", t, "()")
        if method == "remove_suffix":
            k = self.numtext(self.stable(A(0), "n"))
            self.obligation("remove_suffix", f"0 <= {k} && {k} <= {s}.len()", "remove_suffix")
            self.assign(p, f"{s}.subrange(0, {s}.len() - {k})")
            return R("()", t, "()")
        if method == "find":
            r = A(0)
            frm = self.numtext(A(1)) if len(args) > 1 else "0int"
            if r.rt.startswith("Seq<"):
                return R(f"str_find({s}, {r.s}, {frm})", t, "int")
            return R(f"str_find_char({s}, {self.tr.coerce(r, ert)}, {frm})", t, "int")
        if method == "rfind":
            raise Unsupported("rfind")
        if method == "compare" and len(args) == 3:
            raise Unsupported("compare")
        if method and method.startswith("operator basic_string_view"):
            return R(s, t, o.rt, place=p)
        if method in ("operator=", "assign"):
            r = A(0)
            if len(args) == 1:
                self.assign(p, self.store(r, o.rt))
                return o
            if len(args) == 2 and r.cont is not None:
                b = A(1)
                cs = r.cont.get() if isinstance(r.cont, Place) else r.cont
                self.assign(p, f"{cs}.subrange({self.numtext(r)}, {self.numtext(b)})")
                return o
        if method == "swap":
            r = A(0)
            return self.swap(o, r, t)
        if method == "fill":
            r = A(0)
            self.assign(p, f"Seq::new({s}.len(), |_i: int| {self.tr.coerce(r, ert)})")
            return R("()", t, "()")
        raise Unsupported(f"method {method} of a sequence (line {n.get('line')})")

    def emplace_value(self, o, args):
        ert = o.rt[4:-1]
        rs = [self.ex(a) for a in args]
        if len(rs) == 1 and (rs[0].rt == ert or not (ert in self.tr.structs)):
            return self.store(rs[0], ert)
        if not rs:
            return self.default_of(ert, self.tr.seq_elem(o.ctype))
        if ert in self.tr.structs:
            # constructor with matching arity
            et = self.tr.seq_elem(o.ctype)
            rec = self.tr.d.rec_name(et)
            for f in self.tr.d.by_name.get(f"{rec}::{rec.split('::')[-1]}", []):
                if f.get("ctor") and len(f["params"]) == len(args):
                    r = self.inline_ctor(f, args, et)
                    return r.s
        if ert.startswith("("):
            parts = self.tuple_parts(ert)
            if len(parts) == len(rs):
                return "(" + ", ".join(self.store(r, p) for r, p in zip(rs, parts)) + ")"
        raise Unsupported("emplace_back " + ert)

    def seq_erase(self, n, o, args):
        p, t = o.place, n["t"]
        a0 = args[0]
        # erase(remove_if(begin(v), end(v), pred), end(v))
        inner = self.strip_iter_conv(a0)
        if len(args) == 2 and inner["k"] == "call" and strip_anon(inner.get("callee", "")) in (
                "std::remove_if", "std::remove"):
            r = self.remove_call(inner, whole=o)
            self.ex(args[1])
            return r
        i = self.ex(a0)
        i = self.stable(R(self.numtext(i), a0["t"], "int", cont=i.cont), "er")
        s = p.get()
        if len(args) == 1:
            self.obligation("iterator-range", f"0 <= {i.s} && {i.s} < {s}.len()", "erase")
            self.assign(p, f"{s}.remove({i.s})")
        else:
            j = self.ex(args[1])
            j = self.stable(R(self.numtext(j), a0["t"], "int"), "er")
            self.obligation("iterator-range", f"0 <= {i.s} && {i.s} <= {j.s} && {j.s} <= {s}.len()", "erase")
            self.assign(p, f"seq_erase({s}, {i.s}, {j.s})")
        return R(i.s, t, "int", cont=p)

    def strip_iter_conv(self, n):
        while n["k"] == "construct" and self.tr.is_iter(n["t"]) and len(n["args"]) == 1:
            n = n["args"][0]
        return n

    def invalidate(self, p):
        """the elements may have moved: iterators into p mean nothing any more"""
        if p is None or self.pure:
            return
        at = p.get()
        names = [v for v, c in self.contof.items() if isinstance(c, Place) and c.get() == at]
        names += [v.s for v in self.vars.values() if isinstance(v, R) and v.rt == "int" and isinstance(v.cont, Place) and v.cont.get() == at]
        for nm in dict.fromkeys(names):
            if nm in self.mutvars and nm in self.scope_vars:
                self.assign(Place(nm, (), None), self.temp("moved", "int", "havoc()"))
        for (rec, field), cont in self.tr.iter_fields.items():
            if p.path and p.path[-1] == ("f", cont):
                base = Place(p.root, p.path[:-1], None)
                if self.type_of_path(base.get()) == self.tr.struct(rec):
                    self.assign(base.field(field, None), self.temp("moved", "int", "havoc()"))

    def seq_insert(self, n, o, args):
        p, t = o.place, n["t"]
        if len(args) == 3:
            i = R(self.temp("ins", "int", self.numtext(self.ex(args[0]))), None, "int")
            a, b = self.ex(args[1]), self.ex(args[2])
            if a.cont is None:
                raise Unsupported("insert")
            cs = a.cont.get() if isinstance(a.cont, Place) else a.cont
            x, y = self.numtext(a), self.numtext(b)
            s = p.get()
            self.obligation("iterator-range", f"0 <= {i.s} && {i.s} <= {s}.len() && 0 <= {x} && {x} <= {y} && {y} <= {cs}.len()", "insert")
            self.assign(p, f"seq_insert_range({s}, {i.s}, {cs}.subrange({x}, {y}))")
            self.invalidate(p)
            return R(i.s, t, "int", cont=p)
        if len(args) == 2:
            i = R(self.temp("ins", "int", self.numtext(self.ex(args[0]))), None, "int")
            v = self.ex(args[1])
            s = p.get()
            self.obligation("iterator-range", f"0 <= {i.s} && {i.s} <= {s}.len()", "insert")
            if v.rt == o.rt:
                self.assign(p, f"seq_insert_range({s}, {i.s}, {v.s})")
            else:
                self.assign(p, f"{s}.insert({i.s}, {self.store(v, o.rt[4:-1])})")
            self.invalidate(p)
            return R(i.s, t, "int", cont=p)
        raise Unsupported("insert")

    def optional_method(self, n, method, args, obj):
        o = self.obj_value(n, obj)
        t = n["t"]
        if not (o.rt or "").startswith("Option<"):
            raise Unsupported("optional of " + str(o.rt))
        inner = o.rt[7:-1]
        if method in ("has_value", "operator bool"):
            return R(f"{o.s}.is_some()", t, "bool")
        if method == "reset":
            self.assign(o.place, f"Option::<{inner}>::None")
            return R("()", t, "()")
        if method == "value":
            self.obligation("empty-optional", f"{o.s}.is_some()", "value()")
            p = o.place.opt(None) if o.place else None
            return R(f"({o.s})->Some_0" if not p else p.get(), t, inner, place=p)
        if method == "value_or":
            r = self.ex(args[0])
            return R(f"(if {o.s}.is_some() {{ {o.s}->Some_0 }} else {{ {self.store(r, inner)} }})", t, inner)
        if method == "emplace":
            vals = [self.ex(a) for a in args]
            if not vals and inner == "Opaque":
                self.assign(o.place, "Some(arbitrary())")
                return R("()", t, "()")
            if len(vals) == 1:
                self.assign(o.place, f"Some({self.store(vals[0], inner)})")
                return R("()", t, "()")
        if method == "operator=":
            return self.op_assign(n, [obj] + args)
        raise Unsupported("optional::" + str(method))

    def unique_ptr_method(self, n, method, args, obj):
        o = self.obj_value(n, obj)
        if method in ("operator bool",):
            return R(f"{o.s}.is_some()", n["t"], "bool")
        if method == "get":
            return R(o.s, n["t"], o.rt, place=o.place)
        if method == "reset" and not args:
            self.assign(o.place, f"Option::<{o.rt[7:-1]}>::None")
            return R("()", n["t"], "()")
        raise Unsupported("unique_ptr::" + str(method))

    # ------------------------------------------------------------------
    # free functions
    def _range_fn(self, n, args, pos, rev=False):
        o = self.ex(args[0])
        return self.iter_r(o, pos, n["t"], rev)

    def std_begin(self, n, args):
        return self._range_fn(n, args, "begin")

    std_cbegin = std_begin

    def std_end(self, n, args):
        return self._range_fn(n, args, "end")

    std_cend = std_end

    def std_rbegin(self, n, args):
        return self._range_fn(n, args, "end", True)

    def std_rend(self, n, args):
        return self._range_fn(n, args, "begin", True)

    def std_size(self, n, args):
        o = self.ex(args[0])
        return R(f"({o.s}.len() as int)", n["t"], "int")

    def std_empty(self, n, args):
        o = self.ex(args[0])
        return R(f"({o.s}.len() == 0)", n["t"], "bool")

    def std_data(self, n, args):
        o = self.ex(args[0])
        return R("0int", n["t"], "int", cont=self.cont_of(o))

    def std_move(self, n, args):
        r = self.ex(args[0])
        rr = R(r.s, r.ctype, r.rt, cont=r.cont, place=r.place, rev=r.rev, parts=r.parts, lam=r.lam)
        rr.moved = True
        return rr

    def std_forward(self, n, args):
        return self.ex(args[0])

    std_as_const = std_forward
    std_ref = std_forward

    def std_exchange(self, n, args):
        o = self.ex(args[0])
        v = self.ex(args[1])
        old = self.temp("xch", o.rt, o.s)
        self.assign(o.place, self.store(v, o.rt))
        return R(old, n["t"], o.rt)

    def std_swap(self, n, args):
        a, b = self.ex(args[0]), self.ex(args[1])
        return self.swap(a, b, n["t"])

    def swap(self, a, b, t):
        ta = self.temp("swp", a.rt, a.s)
        self.assign(a.place, b.place.get())
        self.assign(b.place, ta)
        return R("()", t, "()")

    def std_next(self, n, args, sign=1):
        r = self.ex(args[0])
        k = self.ex(args[1]) if len(args) > 1 else R("1", None, "lit")
        sg = sign * (-1 if r.rev else 1)
        return R(f"({self.numtext(r)} {'+' if sg > 0 else '-'} {self.numtext(k)})", n["t"], "int",
                 cont=r.cont, rev=r.rev)

    def std_prev(self, n, args):
        return self.std_next(n, args, -1)

    def std_advance(self, n, args):
        r = self.ex(args[0])
        k = self.ex(args[1])
        self.assign(r.place, f"{r.s} {'-' if r.rev else '+'} {self.numtext(k)}")
        return R("()", n["t"], "()")

    def std_distance(self, n, args):
        a, b = self.ex(args[0]), self.ex(args[1])
        if a.rev:
            a, b = b, a
        return R(f"({self.numtext(b)} - {self.numtext(a)})", n["t"], "int")

    def std_make_reverse_iterator(self, n, args):
        r = self.ex(args[0])
        return R(r.s, n["t"], "int", cont=r.cont, rev=True)

    def std_tie(self, n, args):
        parts = []
        for a in args:
            r = self.ex(a)
            if r.place is None:
                raise Unsupported("tie")
            parts.append(r)
        return R("tie", n["t"], "tie", parts=parts)

    def std_make_pair(self, n, args):
        rs = [self.ex(a) for a in args]
        rt = self.tr.rt(n["t"])
        return R("(" + ", ".join(self.store(r, p) for r, p in zip(rs, self.tuple_parts(rt))) + ")", n["t"], rt)

    std_make_tuple = std_make_pair

    def std_make_optional(self, n, args):
        rt = self.tr.rt(n["t"])
        return R(f"Some({self.store(self.ex(args[0]), rt[7:-1])})", n["t"], rt)

    def std_min(self, n, args):
        return self.minmax(n, args, "<=")

    def std_max(self, n, args):
        return self.minmax(n, args, ">=")

    def minmax(self, n, args, op):
        if len(args) != 2:
            raise Unsupported("min/max")
        a, b = self.numtext(self.stable(self.ex(args[0]))), self.numtext(self.stable(self.ex(args[1])))
        return R(f"(if {a} {op} {b} {{ {a} }} else {{ {b} }})", n["t"], "int")

    def std_clamp(self, n, args):
        v, lo, hi = [self.numtext(self.stable(self.ex(a))) for a in args]
        return R(f"(if {v} < {lo} {{ {lo} }} else if {hi} < {v} {{ {hi} }} else {{ {v} }})", n["t"], "int")

    def std_abs(self, n, args):
        r = self.ex(args[0])
        v = self.numtext(self.stable(r))
        lo, hi = BOUNDS[self.tr.rt(n["t"])]
        self.obligation("signed-overflow", f"{v} > {lo}", "abs")
        return R(f"(if {v} < 0 {{ -{v} }} else {{ {v} }})", n["t"], "int")

    def duration_cast(self, n, args):
        src = self.tr.d.ty(self.tr.d.strip(args[0]["t"]))
        dst = self.tr.d.ty(self.tr.d.strip(n["t"]))
        r = self.ex(args[0])
        if src["str"].replace("const ", "") == dst["str"].replace("const ", ""):
            return R(r.s, n["t"], r.rt)
        (n1, d1), (n2, d2) = self.tr.d.ratio(args[0]["t"]), self.tr.d.ratio(n["t"])
        drt = self.tr.rt(n["t"])
        if r.rt == "Real" and drt != "Real":
            return R(f"real_ticks({r.s}, {n2}, {d2})", n["t"], "int")
        if r.rt != "Real" and drt == "Real":
            return R(f"real_duration({self.numtext(r)}, {n1}, {d1})", n["t"], "Real")
        if r.rt == "Real":
            return R(r.s, n["t"], "Real")
        num, den = n1 * d2, d1 * n2
        import math
        g = math.gcd(num, den)
        num, den = num // g, den // g
        txt = f"({self.numtext(r)} * {num})" if num != 1 else self.numtext(r)
        return R(f"c_div({txt}, {den})" if den != 1 else txt, n["t"], "int")

    # -- variants and tuples
    def std_get(self, n, args):
        r = self.ex(args[0])
        ta = n.get("targs", [None])[0]
        if isinstance(ta, dict) and "int" in ta:
            i = ta["int"]
            if r.parts is not None:
                return r.parts[i]
            prt = self.tuple_parts(r.rt)[i]
            cont = r.cont[i] if isinstance(r.cont, tuple) else None
            return R(f"{r.s}.{i}", n["t"], prt, cont=cont)
        if r.rt in self.tr.enums:
            i = self.alternative(args[0]["t"], ta)
            self.obligation("variant-alternative", f"{r.s} is V{i}", "std::get")
            return R(f"{r.s}->V{i}_0", n["t"], self.tr.enums[r.rt][i])
        raise Unsupported("std::get on " + r.rt)

    def alternative(self, vt, ta):
        ty = self.tr.d.ty(self.tr.d.strip(vt))
        if ty["k"] == "ptr":
            ty = self.tr.d.ty(ty["t"])
        alts = ty["args"][0]["pack"]
        want = self.tr.d.ty(ta)["str"]
        for i, a in enumerate(alts):
            if self.tr.d.ty(a)["str"] == want:
                return i
        raise Unsupported("variant alternative " + want)

    def std_get_if(self, n, args):
        r = self.ex(args[0])
        if r.rt == "ptrto":
            r = r.alias
        if r.rt not in self.tr.enums:
            raise Unsupported("get_if")
        i = self.alternative(args[0]["t"], n["targs"][0])
        art = self.tr.enums[r.rt][i]
        return R(f"(if {r.s} is V{i} {{ Some(Ptr {{ id: 0int, v: {r.s}->V{i}_0 }}) }} "
                 f"else {{ Option::<Ptr<{art}>>::None }})", n["t"], f"Option<Ptr<{art}>>")

    def std_holds_alternative(self, n, args):
        r = self.ex(args[0])
        i = self.alternative(args[0]["t"], n["targs"][0])
        return R(f"({r.s} is V{i})", n["t"], "bool")

    # -- algorithms
    def iter_pair(self, args):
        a, b = self.ex(args[0]), self.ex(args[1])
        c = a.cont if a.cont is not None else b.cont
        if c is None:
            raise Unsupported("algorithm on iterators of an unknown container")
        cs = c.get() if isinstance(c, Place) else c
        lo, hi = self.numtext(a), self.numtext(b)
        if a.rev:
            lo, hi = hi, lo
        whole = (lo == "0int" and hi == f"({cs}.len() as int)")
        if not whole:
            self.obligation("iterator-range", f"0 <= {lo} && {lo} <= {hi} && {hi} <= {cs}.len()", "range")
        et = None
        for x in (args[0], args[1]):
            if self.tr.is_iter(x["t"]):
                et = self.tr.rt(self.tr.iter_elem(x["t"]))
                self.elem_ct = self.tr.iter_elem(x["t"])
                break
            ty = self.tr.d.ty(self.tr.d.strip(x["t"]))
            if ty["k"] == "ptr":
                et = self.tr.rt(ty["t"])
                self.elem_ct = ty["t"]
                break
        return c, cs, lo, hi, a.rev, et, whole

    def eq_pred(self, et, v):
        """equality predicate as closure text for std::find and friends"""
        x = self.tr.fresh("x")
        return f"|{x}: {et}| {self.elem_eq(et, x, v)}"

    def elem_eq(self, et, x, v):
        rec = self.tr.d.rec_name(self.elem_ct) if self.elem_ct is not None else None
        if et in self.tr.structs and rec:
            for nm in (f"{rec}::operator==",):
                fs = self.tr.d.by_name.get(nm)
                if fs:
                    saved = self.this
                    self.rts[x] = et
                    self.this = Place(x, (), self.elem_ct)
                    self.pure += 1
                    try:
                        r = self.pure_call_fn(fs[0], [R(v, fs[0]["params"][0]["type"], et)])
                    finally:
                        self.pure -= 1
                        self.this = saved
                    return r.s
            for f in self.tr.d.by_name.get("operator==", []):
                if len(f["params"]) == 2 and self.tr.d.rec_name(f["params"][0]["type"]) == rec:
                    self.pure += 1
                    try:
                        r = self.pure_call_fn(f, [R(x, f["params"][0]["type"], et), R(v, f["params"][1]["type"], et)])
                    finally:
                        self.pure -= 1
                    return r.s
            raise Unsupported("operator== of " + rec)
        return f"({x} == {v})"

    def find_common(self, n, args, pred, rng):
        c, cs, lo, hi, rev, et, whole = rng
        fnm = "seq_rfind" if rev else "seq_find"
        txt = f"{fnm}({cs}, {lo}, {hi}, {pred})"
        if self.pure:
            return R(txt, n["t"], "int", cont=c, rev=rev)
        nm = self.temp("fi", "int", txt)
        return R(nm, n["t"], "int", cont=c, rev=rev)

    def std_find_if(self, n, args):
        rng = self.iter_pair(args)
        pred = self.pure_pred(self.ex(args[2]), rng[5], rng=rng[1:4])
        return self.find_common(n, args, pred, rng)

    def std_find_if_not(self, n, args):
        rng = self.iter_pair(args)
        head, body = self.pure_pred(self.ex(args[2]), rng[5], rng=rng[1:4]).split("| ", 1)
        return self.find_common(n, args, f"{head}| !({body})", rng)

    def std_find(self, n, args):
        rng = self.iter_pair(args)
        v = self.tr.coerce(self.stable(self.ex(args[2])), rng[5])
        return self.find_common(n, args, self.eq_pred(rng[5], v), rng)

    def std_any_of(self, n, args, fn="seq_any"):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        pred = self.pure_pred(self.ex(args[2]), et, rng=(cs, lo, hi))
        return R(f"{fn}({cs}, {lo}, {hi}, {pred})", n["t"], "bool")

    def std_all_of(self, n, args):
        return self.std_any_of(n, args, "seq_all")

    def std_none_of(self, n, args):
        r = self.std_any_of(n, args)
        return R(f"!{r.s}", n["t"], "bool")

    def std_count_if(self, n, args):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        pred = self.pure_pred(self.ex(args[2]), et, rng=(cs, lo, hi))
        return R(f"seq_count({cs}, {lo}, {hi}, {pred})", n["t"], "int")

    def std_count(self, n, args):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        v = self.tr.coerce(self.stable(self.ex(args[2])), et)
        return R(f"seq_count({cs}, {lo}, {hi}, {self.eq_pred(et, v)})", n["t"], "int")

    def remove_call(self, n, whole=None):
        args = n["args"]
        c, cs, lo, hi, rev, et, is_whole = self.iter_pair(args)
        if not is_whole or rev:
            raise Unsupported("remove_if on a part")
        if strip_anon(n["callee"]) == "std::remove":
            v = self.tr.coerce(self.stable(self.ex(args[2])), et)
            pred = self.eq_pred(et, v)
        else:
            pred = self.pure_pred(self.ex(args[2]), et, rng=(cs, lo, hi))
        head, body = pred.split("| ", 1)
        npred = f"{head}| !({body})"
        if whole is not None:
            self.assign(whole.place, f"seq_filter({whole.place.get()}, {npred})")
            return R("0int", n["t"], "int", cont=whole.place)
        # kept elements first, unspecified elements behind
        kept = self.temp("kept", f"Seq<{et}>", f"seq_filter({cs}, {npred})")
        tail = self.temp("tail", f"Seq<{et}>", "havoc()")
        self.emit(f"assume({tail}.len() == {cs}.len() - {kept}.len());")
        self.assign(c, f"{kept}.add({tail})")
        return R(f"({kept}.len() as int)", n["t"], "int", cont=c)

    def std_remove_if(self, n, args):
        return self.remove_call(n)

    std_remove = std_remove_if

    def std_stable_partition(self, n, args):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        if not whole or rev:
            raise Unsupported("partial stable_partition")
        pred = self.pure_pred(self.ex(args[2]), et, rng=(cs, lo, hi))
        head, body = pred.split("| ", 1)
        a = self.temp("parta", f"Seq<{et}>", f"seq_filter({cs}, {pred})")
        b = self.temp("partb", f"Seq<{et}>", f"seq_filter({cs}, {head}| !({body}))")
        self.assign(c, f"{a}.add({b})")
        return R(f"({a}.len() as int)", n["t"], "int", cont=c)

    def std_sort(self, n, args):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        if not whole or rev:
            raise Unsupported("partial sort")
        if len(args) == 3:
            less = self.pure_pred(self.ex(args[2]), et, 2)
        else:
            less = f"|a: {et}, b: {et}| a < b"
        new = self.temp("sorted", f"Seq<{et}>", "havoc()")
        self.emit(f"assume(seq_sorted({new}, {less}) && {new}.to_multiset() =~= {cs}.to_multiset() && {new}.len() == {cs}.len());")
        self.assign(c, new)
        return R("()", n["t"], "()")

    std_stable_sort = std_sort

    def std_lower_bound(self, n, args):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        v = self.ex(args[2])
        if len(args) == 4:
            lam = self.ex(args[3])
            x = self.tr.fresh("x")
            b = lam.lam[0]["bodies"][0]
            vrt = self.tr.rt(b["params"][1]["type"])
            vs = self.tr.coerce(self.stable(v), vrt)
            body = self.pure_pred(lam, [et, vrt], 2, [x, vs])
        else:
            vs = self.tr.coerce(self.stable(v), et)
            x = self.tr.fresh("x")
            body = f"({x} < {vs})"
        # requires the range to be partitioned with respect to the predicate
        pred = f"|{x}: {et}| {body}"
        if rev:
            self.obligation("partitioned", f"seq_rpartitioned({cs}, {lo}, {hi}, {pred})", "lower_bound")
            nm = self.temp("lb", "int", f"seq_rlower({cs}, {lo}, {hi}, {pred})")
        else:
            self.obligation("partitioned", f"seq_partitioned({cs}, {lo}, {hi}, {pred})", "lower_bound")
            nm = self.temp("lb", "int", f"seq_lower({cs}, {lo}, {hi}, {pred})")
        return R(nm, n["t"], "int", cont=c, rev=rev)

    def std_reverse(self, n, args):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        if not whole:
            raise Unsupported("partial reverse")
        self.assign(c, f"{cs}.reverse()")
        return R("()", n["t"], "()")

    def std_is_sorted(self, n, args):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        return R(f"seq_sorted({cs}, |a: {et}, b: {et}| a < b)", n["t"], "bool")

    def std_fill(self, n, args):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        v = self.tr.coerce(self.stable(self.ex(args[2])), et)
        self.assign(c, f"Seq::new({cs}.len(), |_i: int| if {lo} <= _i && _i < {hi} {{ {v} }} else {{ {cs}[_i] }})")
        return R("()", n["t"], "()")

    def std_equal(self, n, args):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        b = self.ex(args[2])
        bs = b.cont.get() if isinstance(b.cont, Place) else b.cont
        x = self.numtext(b)
        if len(args) == 4:
            y = self.numtext(self.ex(args[3]))
            return R(f"({cs}.subrange({lo}, {hi}) =~= {bs}.subrange({x}, {y}))", n["t"], "bool")
        self.obligation("iterator-range", f"0 <= {x} && {x} + ({hi} - {lo}) <= {bs}.len()", "equal")
        return R(f"({cs}.subrange({lo}, {hi}) =~= {bs}.subrange({x}, {x} + ({hi} - {lo})))", n["t"], "bool")

    def std_for_each(self, n, args):
        c, cs, lo, hi, rev, et, whole = self.iter_pair(args)
        fn = self.ex(args[2])
        if fn.lam is None or not isinstance(c, Place):
            raise Unsupported("for_each")
        self.loop({"k": "synth", "c": c, "lo": lo, "hi": hi, "rev": rev, "fn": fn, "et": et,
                   "line": n.get("line", self.line), "ect": self.elem_ct})
        return R("()", n["t"], "()")

    def std_isspace(self, n, args):
        return BoolInt(f"c_isspace({self.numtext(self.ex(args[0]))})", n["t"])

    def std_isalnum(self, n, args):
        return BoolInt(f"c_isalnum({self.numtext(self.ex(args[0]))})", n["t"])

    def std_make_unique(self, n, args):
        rt = self.tr.rt(n["t"])
        inner = rt[7:-1]
        et = self.tr.d.ty(self.tr.d.strip(n["t"]))["args"][0]
        argv = [self.ex(a) for a in args]
        if len(argv) == 1 and argv[0].rt == inner:
            return R(f"Some({argv[0].s})", n["t"], rt)
        cls = strip_anon(self.tr.d.ty(self.tr.d.strip(et))["n"])
        cands = [f for f in self.tr.d.functions.values() if f.get("ctor") and strip_anon(f.get("class", "")) == cls
                 and not f.get("dup") and len(f["params"]) >= len(argv)
                 and all("default" in p for p in f["params"][len(argv):])]
        if len({(f["file"], f["line"]) for f in cands}) != 1:
            raise Unsupported("make_unique of " + cls)
        f = cands[0]
        for p in f["params"][len(argv):]:
            argv.append(self.ex(p["default"]))
        r = self.inline_ctor(f, [], et, argv=argv)
        return R(f"Some({r.s})", n["t"], rt)

    def std_bind(self, n, args):
        return R("havoc()" if not self.pure else "arbitrary()", n["t"], "Opaque")
