"""Abstract semantics of the C++ standard library functions the repository uses."""
from terms import *
from values import *

MATH = {"sqrt", "fabs", "abs", "fmax", "fmin", "max", "min", "pow", "sin", "cos", "tan", "exp", "log", "floor", "ceil", "round", "lround", "trunc", "rint",
        "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "fmod", "isnan", "isinf", "isfinite", "hypot"}


class StdModel:
    def __init__(self, I):
        self.I = I

    def default_content(self, r, name):
        n = r["name"]
        if n in ("std::vector", "std::list", "std::deque", "std::forward_list"):
            return ListV(())
        if n == "std::function":
            return OpaqueV(("function", name, "empty"))
        if n in ("std::basic_string", "std::__cxx11::basic_string"):
            return OpaqueV(("str", ""))
        return OpaqueV((n, name))

    def global_var(self, info):
        n = info["n"]
        if n in ("std::cout", "std::cerr", "std::clog"):
            return TempLV(OpaqueV("stream"))
        return TempLV(OpaqueV(n))

    def member(self, b, e):
        v = self.I.load(b) if isinstance(b, LV) else b
        if isinstance(v, ListV) and e["n"] in ("first", "second") and len(v.d) == 2:
            return ElemLV(b if isinstance(b, LV) else TempLV(v), 0 if e["n"] == "first" else 1)
        if isinstance(v, OpaqueV):
            return TempLV(OpaqueV((v.what, e["n"])))
        return None

    def init_list(self, r, vals, e):
        vs = [self.I.load(v) for v in vals]
        if len(vs) == 1 and isinstance(vs[0], (ListV, MatV)):
            return vs[0]
        return ListV(vs)

    def construct(self, rec, args, e, g):
        I = self.I
        n = rec["name"]
        if n in ("std::plus", "std::minus", "std::multiplies", "std::divides"):
            return OpaqueV(("functor", {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/"}[n.split("::")[-1]]))
        if n in ("std::pair", "std::tuple"):
            if len(args) == 1 and isinstance(I.load(args[0]), ListV):
                return I.load(args[0])
            return ListV([I.load(a) for a in args])
        if n in ("std::vector", "std::list", "std::deque"):
            if not args:
                return ListV(())
            v = I.load(args[0])
            if isinstance(v, (ListV, MatV)):
                return v
            if isinstance(v, int):
                x = I.load(args[1]) if len(args) > 1 and not isinstance(I.load(args[1]), OpaqueV) else I.zero_of(rec["args"][0]["t"])
                return ListV([x] * v)
        if n == "std::array":
            if args:
                return I.load(args[0])
            return I.default_content(e["t"], "tmp")
        if n == "std::initializer_list":
            return I.load(args[0])
        if n == "std::function":
            if args:
                v = I.load(args[0])
                if isinstance(v, (Closure, FnRef)):
                    return v
                if v is None:
                    return OpaqueV(("function", "null", "empty"))
                return v
            return OpaqueV(("function", "tmp", "empty"))
        if args and len(args) == 1:
            v = I.load(args[0])
            if isinstance(v, (OpaqueV, ListV, Closure, Ptr)):
                return v
        return OpaqueV((n, "tmp"))

    def call(self, f, obj, args, e):
        I = self.I
        eg = I.eg
        name, q = f["name"], f["q"]
        if obj is None:
            if name in ("begin", "end", "cbegin", "cend") and len(args) == 1:
                v = I.load(args[0])
                lv = args[0] if isinstance(args[0], LV) else TempLV(v)
                if isinstance(v, (MatV, ListV)):
                    return Ptr("elem", lv, 0 if "begin" in name else len(v.d))
            if name in MATH and (q.startswith("std::") or "::" not in q or q.startswith("Eigen::")):
                vals = [I.load(a) for a in args]
                if name in ("max", "min") and len(vals) == 1 and isinstance(vals[0], (ListV, MatV)):
                    r = vals[0].d[0]
                    for x in vals[0].d[1:]:
                        r = eg.mx(r, x) if name == "max" else eg.mn(r, x)
                    return r
                if name == "abs" and isinstance(vals[0], int):
                    return abs(vals[0])
                nm = {"fmax": "max", "fmin": "min"}.get(name, name)
                if nm in ("max", "min"):
                    return (eg.mx if nm == "max" else eg.mn)(I.num(vals[0]), I.num(vals[1]))
                if nm == "lround":
                    nm = "round"
                r = eg.mathfn(nm, vals)
                return r
            if name == "clamp":
                a, lo, hi = [I.num(x) for x in args]
                return eg.mn(eg.mx(a, lo), hi)
            if name in ("copy_n", "copy"):
                return self.copy(name, args)
            if name == "sort":
                return self.sort(args)
            if name in ("fill_n", "fill"):
                b = I.load(args[0])
                n = I.intval(args[1]) if name == "fill_n" else I.load(args[1]).off - b.off
                v = I.load(args[2])
                for k in range(n):
                    I.store(I.ptr_deref(b, k), v)
                return Ptr(b.kind, b.m, b.off + n)
            if name == "transform":
                return self.transform(args)
            if name in ("accumulate",):
                b, en = I.load(args[0]), I.load(args[1])
                acc = I.load(args[2])
                for k in range(en.off - b.off):
                    x = I.load(I.ptr_deref(b, k))
                    acc = I.load(eg.callfn(I.load(args[3]), [acc, x])) if len(args) > 3 else eg.binop("+", acc, x)
                return acc
            if name in ("inner_product",):
                b, en, b2 = I.load(args[0]), I.load(args[1]), I.load(args[2])
                acc = I.load(args[3])
                for k in range(en.off - b.off):
                    acc = eg.binop("+", acc, eg.binop("*", I.load(I.ptr_deref(b, k)), I.load(I.ptr_deref(b2, k))))
                return acc
            if name == "iota":
                b, en = I.load(args[0]), I.load(args[1])
                v = I.num(args[2])
                for k in range(en.off - b.off):
                    I.store(I.ptr_deref(b, k), v + k)
                return None
            if name in ("for_each",):
                b, en = I.load(args[0]), I.load(args[1])
                for k in range(en.off - b.off):
                    eg.callfn(I.load(args[2]), [I.ptr_deref(b, k)])
                return None
            if name in ("max_element", "min_element"):
                b, en = I.load(args[0]), I.load(args[1])
                m = [I.load(I.ptr_deref(b, k)) for k in range(en.off - b.off)]
                return Ptr("obj", TempLV((maxv if name == "max_element" else minv)(*[P(x) for x in m])))
            if name in ("any_of", "all_of", "none_of", "count_if", "find_if", "remove_if"):
                b, en = I.load(args[0]), I.load(args[1])
                fo = args[2] if isinstance(args[2], StructObj) else I.load(args[2])
                rs = [I.load(eg.callfn(fo, [I.ptr_deref(b, k)])) for k in range(en.off - b.off)]
                if name in ("find_if", "remove_if"):
                    rs = [self.truth(r) for r in rs]
                    if name == "find_if":
                        return Ptr(b.kind, b.m, b.off + (rs.index(True) if True in rs else len(rs)))
                    kept = [I.load(I.ptr_deref(b, k)) for k, r in enumerate(rs) if not r]
                    for k, x in enumerate(kept):
                        I.store(I.ptr_deref(b, k), x)
                    return Ptr(b.kind, b.m, b.off + len(kept))
                if name == "count_if":
                    t = ZERO
                    for r in rs:
                        t = t + P(r)
                    return int(t.const()) if t.is_const() else t
                acc = False if name != "all_of" else True
                for r in rs:
                    if name == "all_of":
                        acc = r if acc is True else (acc if r is True else land(P(acc), P(r)))
                    else:
                        acc = r if acc is False else (acc if r is False else lor(P(acc), P(r)))
                if name == "none_of":
                    acc = (not acc) if isinstance(acc, bool) else lnot(P(acc))
                return acc
            if name == "swap":
                a, b = args
                va, vb = I.load(a), I.load(b)
                I.store(a, vb)
                I.store(b, va)
                return None
            if name in ("move", "forward", "addressof", "cref", "ref"):
                if name == "addressof":
                    return Ptr("obj", args[0])
                return args[0]
            if name in ("infinity", "epsilon", "max", "min", "lowest", "quiet_NaN", "denorm_min"):
                return self.limits(f, name)
            if name in ("exit", "abort", "terminate", "__assert_fail", "__assert"):
                import interp
                raise interp.AbortPath()
            if name in ("now", "get_time"):
                return OpaqueV(("time", I.loc()))
            if name in ("duration_cast", "time_point_cast"):
                return OpaqueV(("dur", I.loc()))
            if name in ("make_pair", "make_tuple"):
                return ListV([I.load(a) for a in args])
            if name == "get" and args and isinstance(I.load(args[0]), ListV):
                ta = [a for a in f.get("targs", []) if isinstance(a, int)]
                return ElemLV(args[0] if isinstance(args[0], LV) else TempLV(I.load(args[0])), ta[0])
            if name in ("printf", "fprintf", "puts", "fflush", "setprecision", "setw", "to_string", "endl"):
                return OpaqueV("io")
            if name == "operator<<":
                return args[0]
            if name.startswith("operator"):
                vals = [I.load(a) for a in args]
                if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
                    if isinstance(vals[0], OpaqueV) or isinstance(vals[1], OpaqueV) if len(vals) > 1 else True:
                        return self.fn_null(vals, name)
                    return I.compare(name[8:], vals[0], vals[1])
                if any(isinstance(v, OpaqueV) for v in vals):
                    return OpaqueV((name, I.loc()))
                if name[8:] in ("+", "-", "*", "/"):
                    return eg.binop(name[8:], vals[0], vals[1])
            if name in ("signbit",):
                return cmp0("<", P(I.num(args[0])))
            if name in ("__builtin_expect",):
                return I.load(args[0])
            if name == "memcpy":
                I.unsupported("memcpy")
            return NotImplemented
        # methods ------------------------------------------------------------------------
        v = I.load(obj) if isinstance(obj, LV) else obj
        if isinstance(v, (MatV, ListV)) and (q.startswith("std::")):
            n = len(v.d)
            lv = obj if isinstance(obj, LV) else TempLV(v)
            if name in ("operator[]", "at"):
                k = I.intval(args[0])
                if not (0 <= k < n):
                    I.event("oob", "%s[%d] of %d" % (q, k, n))
                    import interp
                    raise interp.AbortPath()
                return ElemLV(lv, k)
            if name == "size":
                return n
            if name == "empty":
                return n == 0
            if name in ("data", "begin", "cbegin"):
                return Ptr("elem", lv, 0)
            if name in ("end", "cend"):
                return Ptr("elem", lv, n)
            if name == "fill":
                x = I.load(args[0])
                I.store(lv, MatV(v.r, v.c, [x] * n) if isinstance(v, MatV) else ListV([x] * n))
                return None
            if name in ("push_back", "emplace_back"):
                if name == "push_back" or len(args) == 1:
                    x = I.load(args[0])
                else:
                    x = ListV([I.load(a) for a in args])
                if isinstance(x, StructObj):
                    I.unsupported("container of structs")
                I.store(lv, ListV(tuple(v.d) + (x,)))
                return None
            if name in ("push_front", "emplace_front"):
                x = I.load(args[0]) if len(args) == 1 else ListV([I.load(a) for a in args])
                if isinstance(x, StructObj):
                    I.unsupported("container of structs")
                I.store(lv, ListV((x,) + tuple(v.d)))
                return None if name == "push_front" else ElemLV(lv, 0)
            if name in ("front", "back", "pop_front", "pop_back") and n == 0:
                I.event("oob", "%s of an empty container" % q)
                import interp
                raise interp.AbortPath()
            if name == "pop_front":
                I.store(lv, ListV(v.d[1:]))
                return None
            if name == "remove_if":
                fo = args[0] if isinstance(args[0], StructObj) else I.load(args[0])
                gone = [self.truth(I.eg.callfn(fo, [ElemLV(lv, k)])) for k in range(n)]
                I.store(lv, ListV([x for x, g in zip(v.d, gone) if not g]))
                return None
            if name == "erase":
                b = I.load(args[0])
                k2 = I.load(args[1]).off if len(args) > 1 else b.off + 1
                if not (0 <= b.off <= k2 <= n):
                    I.event("oob", "%s of element %d of %d" % (q, b.off, n))
                    import interp
                    raise interp.AbortPath()
                I.store(lv, ListV(tuple(v.d[:b.off]) + tuple(v.d[k2:])))
                return Ptr("elem", lv, b.off)
            if name in ("insert", "emplace") and isinstance(I.load(args[0]), Ptr):
                k = I.load(args[0]).off
                x = I.load(args[1]) if name == "insert" else ListV([I.load(a) for a in args[1:]])
                I.store(lv, ListV(tuple(v.d[:k]) + (x,) + tuple(v.d[k:])))
                return Ptr("elem", lv, k)
            if name in ("front", "back"):
                return ElemLV(lv, 0 if name == "front" else n - 1)
            if name in ("reserve",):
                return None
            if name == "clear":
                I.store(lv, ListV(()))
                return None
            if name == "pop_back":
                I.store(lv, ListV(v.d[:-1]))
                return None
            if name in ("resize", "assign"):
                k = I.intval(args[0])
                x = I.load(args[1]) if len(args) > 1 else ZERO
                I.store(lv, ListV(tuple(v.d[:k]) + (x,) * (k - n) if name == "resize" else (x,) * k))
                return None
            if name == "operator=":
                I.store(lv, I.load(args[0]))
                return lv
        if isinstance(v, (Closure, FnRef)) and name in ("operator()",):
            return I.call_closure(v, args)
        if isinstance(v, (Closure, FnRef, OpaqueV)) and name == "operator bool":
            if isinstance(v, (Closure, FnRef)):
                return True
            return ap(atom("b", "nonempty", str(v.what), ind=True))
        if isinstance(v, OpaqueV) and isinstance(v.what, tuple) and v.what[0] == "functor" and name == "operator()":
            return eg.callfn(v, args)
        if isinstance(v, OpaqueV) and name == "operator()":
            h = I.hooks.get("indirect")
            if h:
                return h(I, e, v, args)
            return OpaqueV(("callresult", I.loc()))
        if isinstance(v, (OpaqueV, Closure, FnRef)) or isinstance(v, UninitV):
            if name == "operator=":
                w = I.load(args[0])
                if isinstance(obj, LV):
                    I.store(obj, OpaqueV(("function", "null", "empty")) if w is None else w)
                return obj
            if name == "operator<<":
                return obj
            if name == "count":
                return I.fresh("duration")
            return OpaqueV((name, I.loc()))
        if isinstance(v, Ptr):
            if name in ("operator*",):
                return I.ptr_deref(v, 0)
            if name == "operator[]":
                return I.ptr_deref(v, I.intval(args[0]))
            if name == "operator->":
                return v
            if name in ("operator++", "operator--"):
                I.store(obj, Ptr(v.kind, v.m, v.off + (1 if name == "operator++" else -1)))
                return v if args else obj
            if name == "operator=" and isinstance(obj, LV) and isinstance(I.load(args[0]), Ptr):
                I.store(obj, I.load(args[0]))
                return obj
            if name in ("operator+", "operator-"):
                return I.ptr_arith(name[8:], v, I.load(args[0]))
            if name in ("operator!=", "operator=="):
                return I.compare(name[8:], v, I.load(args[0]))
        return NotImplemented

    def truth(self, r):
        r = self.I.load(r) if isinstance(r, LV) else r
        if isinstance(r, bool):
            return r
        p = P(r)
        if not p.is_const():
            self.I.unsupported("undecided predicate on the elements of a container")
        return bool(p.const())

    def fn_null(self, vals, name):
        r = ap(atom("b", "nonempty", str(getattr(vals[0], "what", "?")), ind=True))
        if isinstance(vals[0], (Closure, FnRef)):
            r = ONE
        return r if name == "operator!=" else ONE - r

    def limits(self, f, name):
        rec = self.I.prog.records.get(f.get("rec"))
        tid = rec["args"][0]["t"] if rec and rec.get("args") else None
        k = self.I.kindt(tid) if tid else "float"
        if k == "int":
            t = self.I.prog.deref(tid)
            w = t.get("w", 32)
            if name == "max":
                return 2 ** (w - 1) - 1 if not t.get("u") else 2 ** w - 1
            return -(2 ** (w - 1)) if not t.get("u") else 0
        if name == "lowest":
            return -var("DBL_max")
        if name == "infinity":
            return var("INFINITY")
        if name == "epsilon" and self.I.numeric is not None:
            return const(Fraction(1, 2 ** (23 if self.I.prog.deref(tid).get("s") == "float" else 52)))
        return var("DBL_" + name)

    def sort(self, args):
        I = self.I
        b, e = I.load(args[0]), I.load(args[1])
        n = e.off - b.off
        vals = [I.load(I.ptr_deref(b, k)) for k in range(n)]
        if not all(P(v).is_const() for v in vals) or len(args) > 3:
            I.unsupported("std::sort of unknown values")
        if len(args) == 3:
            import functools
            fo = I.load(args[2])

            def less(a, b):
                r = I.load(I.eg.callfn(fo, [a, b]))
                if not isinstance(r, bool):
                    r = P(r)
                    if not r.is_const():
                        I.unsupported("std::sort by an undecided order")
                    r = bool(r.const())
                return r
            vals = sorted(vals, key=functools.cmp_to_key(lambda a, b: -1 if less(a, b) else (1 if less(b, a) else 0)))
        else:
            vals = sorted(vals, key=lambda v: P(v).const())
        for k in range(n):
            I.store(I.ptr_deref(b, k), vals[k])
        return None

    def copy(self, name, args):
        I = self.I
        src = I.load(args[0])
        if name == "copy_n":
            n = I.intval(args[1])
        else:
            n = I.load(args[1]).off - src.off
        dst = I.load(args[2])
        vals = [I.load(I.ptr_deref(src, k)) for k in range(n)]
        for k in range(n):
            I.store(I.ptr_deref(dst, k), vals[k])
        return Ptr(dst.kind, dst.m, dst.off + n)

    def transform(self, args):
        I = self.I
        b, e = I.load(args[0]), I.load(args[1])
        n = e.off - b.off
        if len(args) == 4:
            dst, fo = I.load(args[2]), I.load(args[3])
            for k in range(n):
                I.store(I.ptr_deref(dst, k), self.keepint(I.ptr_deref(dst, k), I.load(I.eg.callfn(fo, [I.load(I.ptr_deref(b, k))]))))
            return Ptr(dst.kind, dst.m, dst.off + n)
        b2, dst, fo = I.load(args[2]), I.load(args[3]), I.load(args[4])
        for k in range(n):
            v = I.eg.callfn(fo, [I.load(I.ptr_deref(b, k)), I.load(I.ptr_deref(b2, k))])
            I.store(I.ptr_deref(dst, k), self.keepint(I.ptr_deref(dst, k), I.load(v)))
        return Ptr(dst.kind, dst.m, dst.off + n)

    def keepint(self, lv, v):
        old = self.I.load(lv)
        if isinstance(old, int) and isinstance(v, Poly) and v.is_const():
            return int(v.const())
        return v
