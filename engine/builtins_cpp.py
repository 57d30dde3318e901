"""Models of the standard library / LLVM support functions the program uses.
Every model states the documented contract of the function on the term level;
anything not listed here stays an uninterpreted function of its arguments."""
import re

import interp as M
from interp import (EMPTY, DIAG, STREAMS, STRINGS, as_pieces, base_name, elem_of, is_bool_t, is_container_t, is_int_t,
                    is_map_t, is_opt_t, is_ptr, is_ref, is_set_t, is_stream_t, is_string_t, mk_add, mk_at, mk_size,
                    mkcat, piececat, seq_items, strip_t, find_ops, subst)
from terms import (BOOL, EMPTYSTR, FALSE, INT, NONE, NONNULL, NULL, STR, T, TRUE, UNIT, build, is_const, tree_paths)

CASTS = {"llvm::isa", "llvm::isa_and_nonnull", "llvm::isa_and_present", "llvm::cast", "llvm::cast_or_null",
         "llvm::cast_if_present", "llvm::dyn_cast", "llvm::dyn_cast_or_null", "llvm::dyn_cast_if_present",
         "llvm::unique_dyn_cast"}


def split_q(q):
    i = q.find("::(conv ")
    if i >= 0:
        return q[:i], q[i + 2:]
    p = q.rsplit("::", 1)
    return (p[0], p[1]) if len(p) == 2 else ("", q)


SEQ_CLS = re.compile(
    r"^(llvm::(SmallVector\w*|SmallString|StringRef|StringLiteral|ArrayRef|MutableArrayRef|iterator_range|TinyPtrVector|cl::list_storage|cl::list)|"
    r"std::(vector|basic_string|deque|list|array|initializer_list|basic_string_view|stack|queue|priority_queue|_Vector_base))$")
MAP_CLS = re.compile(r"^(llvm::(DenseMap\w*|SmallDenseMap|StringMap\w*|MapVector|SmallMapVector)|std::(map|unordered_map|multimap|unordered_multimap))$")
SET_CLS = re.compile(r"^(llvm::(DenseSet|SmallDenseSet|SmallPtrSet\w*|SmallSet|StringSet|SetVector|SmallSetVector|detail::DenseSetImpl)|std::(set|unordered_set|multiset))$")
ITER_CLS = re.compile(r"(iterator|Iterator|iter)(_base|_impl)?$|^__gnu_cxx::__normal_iterator$|::_Rb_tree\w*iterator$|::_Node_\w*iterator$|^llvm::df_iterator$|^llvm::po_iterator$")
SMART = {"std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "llvm::IntrusiveRefCntPtr",
         "clang::QualType", "std::reference_wrapper", "clang::CanQual", "clang::DeclAccessPair", "clang::OptionalFileEntryRef"}


def target(I, st, l):
    """Follows references held in cells."""
    for _ in range(6):
        v = I.read(st, l)
        if v.op in ("addr", "alias"):
            l = v.a[0]
        else:
            break
    return l


def recv(I, st, e):
    """[(state, lvalue of the object a member function is called on)]"""
    o, args = e[2], e[3]
    t = o.get("ot", "") or o.get("a0", "")
    out = []
    if is_ptr(t):
        for x, v in I.ev(st, args[0]):
            out.append((x, target(I, x, I.deref(v))))
        return out
    for x, l in I.lv(st, args[0]):
        l = target(I, x, l)
        if l.op == "rv" and l.a[0].op in ("dyn", "dynn"):
            l = T("ext", l.a[0].a[1])
        out.append((x, l))
    return out


def val(I, st, l):
    v = I.read(st, l)
    for _ in range(6):
        if v.op in ("addr", "alias"):
            v = I.read(st, v.a[0])
        else:
            break
    return v


def held(I, st, l):
    """The object a smart pointer refers to: not what has been done to that object."""
    v = val(I, st, l)
    if l.op == "ext" and v.op == "cat" and (v.a[0] is l.a[0] or v.a[0].op == "alias" and v.a[0].a[0] is l):
        return l.a[0]
    return v


def contains(I, st, c, k):
    """[(state, bool)]"""
    if c is EMPTY:
        return [(st, False)]
    k = I.norm_obj(k)
    if I.new_key(c, k):
        return [(st, False)]
    it = seq_items(c)
    if it is not None:
        if any(x is k for x in it):
            return [(st, True)]
        if len(it) <= 40:
            out = []
            pend = [st]
            for x in it:
                nxt = []
                for s in pend:
                    for y, b in I.t_eq(s, x, k):
                        if b:
                            out.append((y, True))
                        else:
                            nxt.append(y)
                pend = nxt
            return out + [(s, False) for s in pend]
    if c.op == "cat":
        # the last operation decides if it concerns the same key
        last = c.a[-1]
        if last.op in ("add", "push") and last.a[0] is k:
            return [(st, True)]
        if last.op in ("put", "putnew", "ensure") and last.a[0] is k:
            return [(st, True)]
        if last.op == "erase" and last.a[0] is k:
            return [(st, False)]
        if c.a[0] is EMPTY and len(c.a) == 2 and last.op in ("add", "put", "putnew"):
            return I.t_eq(st, last.a[0], k)
    return I.fork(st, T("contains", c, k))


def map_at(c, k):
    if c.op == "cat":
        last = c.a[-1]
        if last.op in ("put", "putnew") and last.a[0] is k:
            return last.a[1]
    return T("at", c, k)


def wrap(I, rs, want_lv):
    if not want_lv:
        return rs
    return [(x, T("rv", v)) for x, v in rs]


def pieces_for(I, st, node, v):
    """Text pieces emitted for a value of the given expression."""
    return as_pieces(v)


def emit(I, st, l, v):
    """Streams v into the stream l; [(state)]"""
    v = I.strip_addr(st, v)
    if v.op == "lsep":
        flag = v.a[1]
        out = []
        for x, b in I.truth(st, flag, "bool"):
            if not b:
                I.mutate(x, l, as_pieces(v.a[0]))
            out.append(x)
        return out
    I.mutate(st, l, as_pieces(v))
    return [st]


def stream_out(I, st, e, want_lv):
    o, args = e[2], e[3]
    out = []
    for x, l in I.lv(st, args[0]):
        l = target(I, x, l)
        # separators change state when they are printed
        a = args[1]
        for y, al in I.lv(x, a):
            v = val(I, y, al)
            if v.op == "lsep":
                tgt = target(I, y, al)
                flag = v.a[1]
                for z, b in I.truth(y, flag, "bool"):
                    if not b:
                        I.mutate(z, l, as_pieces(v.a[0]))
                    I.write(z, tgt, T("lsep", v.a[0], FALSE))
                    out.append((z, l))
                continue
            for z, w in I.split(y, v):
                if w.op == "closure":
                    w = I.closure_summary(z, w)
                if w.op == "null" and is_string_t(I.ty(a)):
                    w = EMPTYSTR
                I.mutate(z, l, as_pieces(w))
                out.append((z, l))
    if want_lv:
        return out
    return [(x, T("addr", l)) for x, l in out]


# ---------------------------------------------------------------- casts
def do_cast(I, st, e, want_lv):
    o, args = e[2], e[3]
    name = split_q(o["q"])[1]
    ta = list(o.get("ta", []))
    if name.startswith("isa"):
        targs = ta[:-1] if len(ta) > 1 else ta
    else:
        targs = ta[:1]
    out = []
    for x, v in I.ev(st, args[0]):
        v = I.strip_addr(x, v)
        nul = name.endswith(("_or_null", "_if_present", "_nonnull", "_present"))
        v = I.norm_obj(v) if not (v.op == "dynn") else v
        base = v.a[1] if v.op == "dynn" else v
        if name.startswith("isa"):
            states = [x]
            if nul:
                states = []
                for y, b in I.truth(x, v, "*"):
                    if b:
                        states.append(y)
                    else:
                        out.append((y, FALSE))
            for y in states:
                pend = [y]
                for t in targs:
                    nxt = []
                    for z in pend:
                        for w, b in I.isa(z, base, t):
                            if b:
                                out.append((w, TRUE))
                            else:
                                nxt.append(w)
                    pend = nxt
                out += [(z, FALSE) for z in pend]
        elif name.startswith("cast"):
            if nul:
                for y, b in I.truth(x, v, "*"):
                    out.append((y, v if b else NULL))
            else:
                if not is_const(base):
                    r = I.theory.implied(x.pc, T("isa", base, targs[0]))
                    I.theory.stype.setdefault(base, None) if False else None
                out.append((x, base))
        else:
            t = targs[0]
            if v.op == "null":
                out.append((x, NULL))
            elif nul:
                for y, b in I.truth(x, v, "*"):
                    if not b:
                        out.append((y, NULL))
                        continue
                    for z, c in I.isa(y, base, t):
                        out.append((z, base if c else NULL))
            else:
                for z, c in I.isa(x, base, t):
                    out.append((z, base if c else NULL))
    return wrap(I, out, want_lv)


# ---------------------------------------------------------------- algorithms
def arg_lv(I, e_):
    """Argument for a callable: element as an lvalue."""
    if is_const(e_) or e_.op in ("pair", "struct", "some", "itat", "iter"):
        return T("rv", e_)
    return T("ext", e_)


def seq_of(I, x, ls):
    """Collection denoted by a range value or an iterator pair."""
    return I.coll(x, val(I, x, ls))


def algo(I, st, e, want_lv):
    o, args = e[2], e[3]
    q = o["q"]
    ns, name = split_q(q)
    pair_form = ns in ("std",) and name not in ("for_each1",)
    if ns.startswith("std::ranges"):
        pair_form = False
    n0 = 2 if pair_form else 1
    out = []
    if q in ("llvm::interleaveComma", "llvm::interleave"):
        for x, ls in I.lvs(st, args):
            coll = I.coll(x, val(I, x, ls[0]))
            sep = STR(", ")
            between = None
            if is_stream_t((o.get("at") or ["", ""])[1]) or is_stream_t(o.get("pt", ["", ""])[1]):
                dst = target(I, x, ls[1])
                rest = ls[2:]
                if q == "llvm::interleave":
                    sep = val(I, x, rest[-1])
                    rest = rest[:-1]
            else:
                dst = None
                rest = ls[1:2]
                between = val(I, x, ls[2])
            f = val(I, x, rest[0]) if rest else None
            cell = I.alloc(x, TRUE)
            x.env["keep.ilv%d" % len(x.env)] = cell

            def run(z, el, f=f, sep=sep, dst=dst, between=between, cell=cell):
                r = []
                for w, b in I.truth(z, I.read(z, cell), "bool"):
                    I.write(w, cell, FALSE)
                    cur = [w]
                    if not b:
                        if between is not None:
                            cur = [y for y, _ in I.apply(w, between, [])]
                        else:
                            I.mutate(w, dst, as_pieces(sep))
                    for y in cur:
                        if f is None:
                            I.mutate(y, dst, as_pieces(el))
                            r.append((y, None))
                        else:
                            r += [(u, None) for u, _ in I.apply(y, f, [arg_lv(I, el)])]
                return r
            for y, c in I.each(x, coll, run):
                out.append((y, UNIT))
        return wrap(I, out, want_lv)
    if q in ("llvm::make_filter_range", "llvm::map_range"):
        for x, ls in I.lvs(st, args):
            f = val(I, x, ls[1])
            if f.op not in ("closure", "func"):
                return None
            out.append((x, T("filterby" if name == "make_filter_range" else "mapped", I.coll(x, val(I, x, ls[0])), f)))
        return wrap(I, out, want_lv)
    if name in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if", "for_each", "find", "is_contained",
                "count", "copy", "copy_if", "transform", "append_range", "erase_if", "remove_if"):
        for x, ls in I.lvs(st, args):
            if pair_form:
                a, b = val(I, x, ls[0]), val(I, x, ls[1])
                coll = I.range_of(a, b)
                rest = ls[2:]
            else:
                own = I.own_range(x, None, ls[0] if ls[0].op != "rv" else T("ext", ls[0].a[0]), base_name((o.get("at") or [""])[0]))
                coll = own[0][1] if own is not None and len(own) == 1 else I.coll(x, val(I, x, ls[0]))
                rest = ls[1:]
            if name in ("find", "is_contained", "count"):
                k = I.norm_obj(val(I, x, rest[0]))
                at0 = (o.get("at") or [""])[0]
                if name == "is_contained" and (is_set_t(at0) or is_map_t(at0)):
                    out += [(y, BOOL(b)) for y, b in contains(I, x, coll, k)]
                    continue

                def run(z, el, k=k):
                    return [(y, ("ret", T("itat", el, coll)) if b else None) for y, b in I.t_eq(z, el, k)]
                for y, c in I.each(x, coll, run):
                    if name == "find":
                        out.append((y, c[1] if c is not None else T("iter", coll, "end")))
                    elif name == "count":
                        out.append((y, T("countv", coll, k)))
                    else:
                        out.append((y, BOOL(c is not None)))
                continue
            if name in ("any_of", "all_of", "none_of", "find_if", "find_if_not"):
                f = val(I, x, rest[0])
                stop = name in ("any_of", "none_of", "find_if")

                def run(z, el, f=f, stop=stop):
                    r = []
                    for y, v in I.apply(z, f, [arg_lv(I, el)]):
                        v = I.strip_addr(y, v)
                        for w, b in I.truth(y, v, "bool"):
                            r.append((w, ("ret", T("itat", el, coll)) if b == stop else None))
                    return r
                for y, c in I.each(x, coll, run):
                    if name.startswith("find_if"):
                        out.append((y, c[1] if c is not None else T("iter", coll, "end")))
                    else:
                        hit = c is not None
                        out.append((y, BOOL(hit if name == "any_of" else not hit)))
                continue
            if name == "for_each":
                f = val(I, x, rest[0])

                def run(z, el, f=f):
                    return [(y, None) for y, _ in I.apply(z, f, [arg_lv(I, el)])]
                for y, c in I.each(x, coll, run):
                    out.append((y, f if f.op != "closure" else UNIT))
                continue
            if name == "count_if":
                f = val(I, x, rest[0])
                cell = I.alloc(x, INT(0))

                def run(z, el, f=f, cell=cell):
                    r = []
                    for y, v in I.apply(z, f, [arg_lv(I, el)]):
                        for w, b in I.truth(y, I.strip_addr(y, v), "bool"):
                            if b:
                                I.write(w, cell, mk_add(I.read(w, cell), 1))
                            r.append((w, None))
                    return r
                for y, c in I.each(x, coll, run):
                    out.append((y, I.read(y, cell)))
                continue
            if name in ("copy", "copy_if", "transform", "append_range"):
                if name == "append_range":
                    dst = target(I, x, ls[0])
                    coll = I.coll(x, val(I, x, ls[1]))
                    f = None
                else:
                    d = val(I, x, rest[0])
                    if d.op != "backins":
                        return None
                    dst = d.a[0]
                    f = val(I, x, rest[1]) if len(rest) > 1 else None

                def run(z, el, f=f, dst=dst):
                    if f is None:
                        I.mutate(z, dst, [T("push", el)])
                        return [(z, None)]
                    r = []
                    for y, v in I.apply(z, f, [arg_lv(I, el)]):
                        if name == "transform":
                            I.mutate(y, dst, [T("push", I.strip_addr(y, v))])
                            r.append((y, None))
                        else:
                            for w, b in I.truth(y, I.strip_addr(y, v), "bool"):
                                if b:
                                    I.mutate(w, dst, [T("push", el)])
                                r.append((w, None))
                    return r
                for y, c in I.each(x, coll, run):
                    out.append((y, UNIT))
                continue
            if name in ("erase_if", "remove_if"):
                l = target(I, x, ls[0])
                f = val(I, x, rest[0])
                cell = I.alloc(x, EMPTY)

                def run(z, el, f=f, cell=cell):
                    r = []
                    for y, v in I.apply(z, f, [arg_lv(I, el)]):
                        for w, b in I.truth(y, I.strip_addr(y, v), "bool"):
                            if not b:
                                I.mutate(w, cell, [T("push", el)])
                            r.append((w, None))
                    return r
                if name == "remove_if":
                    return None
                for y, c in I.each(x, coll, run):
                    I.write(y, l, I.read(y, cell))
                    out.append((y, UNIT))
                continue
        return wrap(I, out, want_lv)
    if name in ("sort", "stable_sort"):
        for x, ls in I.lvs(st, args):
            i = 0
            if pair_form:
                a = val(I, x, ls[0])
                src = args[0]
                l = None
                if a.op == "iter":
                    l = iter_owner(I, st, src)
                if l is None:
                    return None
                cmp_ = ls[2] if len(ls) > 2 else None
            else:
                l = target(I, x, ls[0])
                cmp_ = ls[1] if len(ls) > 1 else None
            f = T("less")
            if cmp_ is not None:
                f = val(I, x, cmp_)
                f = comparator(I, x, f)
            I.write(x, l, mk_sorted(I.read(x, l), f))
            out.append((x, UNIT))
        return wrap(I, out, want_lv)
    return None


def mk_sorted(v, f):
    it = seq_items(v)
    if it is not None and len(it) < 2:
        return v
    return T("sorted", v, f)


def comparator(I, st, f):
    f = I.callable_value(st, f)
    if f.op == "closure":
        return I.closure_summary(st, f)
    return f


def iter_owner(I, st, node):
    """Lvalue of the container whose begin() a node denotes."""
    if node[0] == "call" and split_q(node[2]["q"])[1] in ("begin", "cbegin"):
        r = recv(I, st, node) if node[2].get("m") else [(x, target(I, x, l)) for x, l in I.lv(st, node[3][0])]
        if len(r) == 1:
            return r[0][1]
    return None


def template_args(t):
    """Top-level template arguments of a std::tuple type."""
    m = re.match(r"^(?:const )?std::tuple<(.*)>(?: *&&?)?$", t)
    if not m:
        return None
    out, depth, cur = [], 0, ""
    for c in m.group(1):
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


# ---------------------------------------------------------------- containers
def container(I, st, e, want_lv, cls, name):
    o, args = e[2], e[3]
    is_map = MAP_CLS.match(cls) is not None
    is_set = SET_CLS.match(cls) is not None
    ct = strip_t(o.get("ot", "") or o.get("a0", ""))
    if is_set_t(ct):
        is_set, is_map = True, False
    out = []

    def with_args(n=None):
        for x, l in recv(I, st, e):
            for y, ls in I.lvs(x, args[1:] if n is None else args[1:1 + n]):
                yield y, l, [I.strip_addr(y, val(I, y, a)) for a in ls], ls

    if name in ("size", "length"):
        return wrap(I, [(x, mk_size(val(I, x, l))) for x, l, _, _ in with_args()], want_lv)
    if name == "empty":
        for x, l, _, _ in with_args():
            v = val(I, x, l)
            out += [(y, BOOL(b)) for y, b in I.t_lt(x, mk_size(v), INT(1))]
        return wrap(I, out, want_lv)
    if name in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
        for x, l, _, _ in with_args():
            v = val(I, x, l)
            k = name.lstrip("c") if name not in ("rbegin", "rend") else name
            if k in ("rbegin", "rend"):
                v = T("reverse", v)
                k = k[1:]
            out.append((x, T("iter", v, k)))
        return wrap(I, out, want_lv)
    if name in ("front", "back", "top"):
        for x, l, _, _ in with_args():
            v = val(I, x, l)
            i = INT(0) if name == "front" else T("lastidx", v)
            if cls == "std::priority_queue":
                i = T("topidx")
            if want_lv:
                w = mk_at(v, i)
                out.append((x, T("idxlv", l, i) if l.op in ("loc", "fld") and w.op in ("at", "struct", "cat") else T("ext", w)))
            else:
                out.append((x, mk_last(v) if i.op == "lastidx" else mk_at(v, i)))
        return out
    if name in ("operator[]", "at") and not is_map:
        for x, l, vs, _ in with_args():
            v = val(I, x, l)
            i = vs[0]
            w = mk_at(v, i)
            if want_lv:
                out.append((x, T("idxlv", l, i) if l.op in ("loc", "fld") and w.op in ("at", "struct", "cat") and not is_ptr(o.get("t", "")) or l.op == "loc" else T("ext", w)))
            else:
                out.append((x, w))
        return out
    if is_map and name == "at":
        return [(x, T("ext", map_at(val(I, x, l), vs[0])) if want_lv else map_at(val(I, x, l), vs[0])) for x, l, vs, _ in with_args()]
    if is_map and name == "operator[]":
        for x, l, vs, _ in with_args():
            k = I.norm_obj(vs[0])
            s = T("slot", l, k)
            out.append((x, s if want_lv else I.read(x, s)))
        return out
    if name in ("count", "contains") and (is_map or is_set):
        for x, l, vs, _ in with_args():
            out += [(y, INT(1) if b and name == "count" else INT(0) if name == "count" else BOOL(b))
                    for y, b in contains(I, x, val(I, x, l), vs[0])]
        return wrap(I, out, want_lv)
    if name == "find" and (is_map or is_set):
        for x, l, vs, _ in with_args():
            c = val(I, x, l)
            for y, b in contains(I, x, c, vs[0]):
                k = I.norm_obj(vs[0])
                if b:
                    if is_map:
                        at = map_at(c, k)
                        out.append((y, T("itat", T("pair", k, at), c, l if l.op != "rv" else T("ext", c))))
                    else:
                        out.append((y, T("itat", k, c)))
                else:
                    out.append((y, T("iter", c, "end")))
        return wrap(I, out, want_lv)
    if name == "lookup" and is_map:
        rt = strip_t(o.get("rt", "")) if not is_ptr(o.get("rt", "")) else o["rt"]
        for x, l, vs, _ in with_args():
            c = val(I, x, l)
            for y, b in contains(I, x, c, vs[0]):
                if b:
                    w = map_at(c, I.norm_obj(vs[0]))
                    if is_ptr(rt) and "TypedefNameDecl" in rt:
                        # (aliases are recorded from existing declarations)
                        NONNULL.add(w)
                    out.append((y, w))
                else:
                    out.append((y, NULL if is_ptr(rt) else INT(0) if is_int_t(rt) else FALSE if is_bool_t(rt) else I.default_struct(y, rt)))
        return wrap(I, out, want_lv)
    if name in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint") and (is_map or is_set):
        for x, l, vs, ls in with_args():
            c = val(I, x, l)
            if is_set:
                if len(vs) == 2 and vs[0].op == "iter":
                    coll = I.range_of(vs[0], vs[1])

                    def run(z, el, l=l):
                        I.mutate(z, l, [T("add", el)])
                        return [(z, None)]
                    out += [(y, UNIT) for y, _ in I.each(x, coll, run)]
                    continue
                if vs and vs[0].op == "list":
                    I.mutate(x, l, [T("add", v) for v in vs[0].a])
                    out.append((x, UNIT))
                    continue
                k = I.norm_obj(vs[0])
                used = getattr(I, "result_used", True)
                for y, b in contains(I, x, c, k):
                    if not b:
                        I.mutate(y, l, [T("add", k)])
                    out.append((y, T("pair", T("itat", k, c), BOOL(not b))))
                continue
            if len(vs) == 1:
                k, v = I.get_i(vs[0], 0), I.get_i(vs[0], 1)
            elif name == "try_emplace" and len(vs) == 1:
                k, v = vs[0], UNIT
            else:
                k, v = vs[0], vs[1] if len(vs) > 1 else UNIT
            if name == "try_emplace" and len(vs) == 1:
                k, v = vs[0], T("dflt")
            k = I.norm_obj(k)
            if name == "insert_or_assign":
                I.mutate(x, l, [T("put", k, v)])
                out.append((x, UNIT))
                continue
            for y, b in contains(I, x, c, k):
                if not b:
                    I.mutate(y, l, [T("put", k, v)])
                    nv = v
                else:
                    nv = map_at(c, k)
                out.append((y, T("pair", T("itat", T("pair", k, nv), c, l), BOOL(not b))))
        return wrap(I, out, want_lv)
    if name in ("push_back", "emplace_back", "push", "emplace") or (name == "insert" and not is_map and not is_set and cls.startswith("llvm::SetVector")):
        for x, l, vs, _ in with_args():
            if cls.startswith("std::basic_string") or cls == "llvm::SmallString" or (len(vs) == 1 and "SmallVector" in ct and "<char" in ct):
                I.mutate(x, l, as_pieces(vs[0]))
                out.append((x, UNIT))
                continue
            v = vs[0] if len(vs) == 1 else element(I, x, ct, vs)
            I.mutate(x, l, [T("push", I.norm_obj(v))])
            out.append((x, v))
        return wrap(I, out, want_lv)
    if name == "append" and not is_map and not is_set:
        for x, l, vs, _ in with_args():
            if cls.startswith("std::basic_string") or cls == "llvm::SmallString":
                if len(vs) == 1:
                    I.mutate(x, l, as_pieces(vs[0]))
                elif vs[0].op == "int" and vs[1].op == "char":
                    I.mutate(x, l, [STR(vs[1].a[0] * vs[0].a[0])])
                else:
                    I.mutate(x, l, [T("h", T("substr", *vs))])
                out.append((x, UNIT))
                continue
            coll = I.range_of(vs[0], vs[1]) if len(vs) == 2 else I.coll(x, vs[0])

            def run(z, el, l=l):
                I.mutate(z, l, [T("push", el)])
                return [(z, None)]
            out += [(y, UNIT) for y, _ in I.each(x, coll, run)]
        return wrap(I, out, want_lv)
    if name == "insert" and not is_map and not is_set:
        for x, l, vs, _ in with_args():
            if len(vs) == 3 and vs[0].op == "iter" and vs[0].a[1] == "end" and vs[1].op == "iter":
                coll = I.range_of(vs[1], vs[2])

                def run(z, el, l=l):
                    I.mutate(z, l, [T("push", el)])
                    return [(z, None)]
                out += [(y, UNIT) for y, _ in I.each(x, coll, run)]
            else:
                I.mutate(x, l, [T("insertat", *vs)])
                out.append((x, UNIT))
        return wrap(I, out, want_lv)
    if name == "erase":
        for x, l, vs, _ in with_args():
            if is_map or is_set:
                k = vs[0]
                if k.op == "itat":
                    k = I.get_i(k.a[0], 0) if is_map else k.a[0]
                    I.mutate(x, l, [T("erase", k)])
                    out.append((x, UNIT))
                    continue
                c = val(I, x, l)
                for y, b in contains(I, x, c, k):
                    if b:
                        I.mutate(y, l, [T("erase", I.norm_obj(k))])
                    out.append((y, BOOL(b)))
            else:
                I.mutate(x, l, [T("eraseat", *vs)])
                out.append((x, UNIT))
        return wrap(I, out, want_lv)
    if name == "clear":
        for x, l, _, _ in with_args():
            I.write(x, l, EMPTYSTR if cls in STRINGS else EMPTY)
            out.append((x, UNIT))
        return wrap(I, out, want_lv)
    if name in ("pop_back", "pop", "pop_back_val", "pop_front"):
        for x, l, _, _ in with_args():
            c = val(I, x, l)
            last = mk_last(c) if name in ("pop_back", "pop_back_val") else mk_at(c, INT(0))
            if c.op == "cat" and c.a[-1].op == "push" and name.startswith("pop_back"):
                I.write(x, l, mkcat(c.a[0], c.a[1:-1]))
            else:
                I.mutate(x, l, [T(name.replace("_val", ""))])
            out.append((x, last))
        return wrap(I, out, want_lv)
    if name in ("reserve", "shrink_to_fit"):
        return wrap(I, [(x, UNIT) for x, _, _, _ in with_args()], want_lv)
    if name == "swap":
        for x, l, vs, ls in with_args():
            l2 = target(I, x, ls[0])
            a, b = I.read(x, l), I.read(x, l2)
            I.write(x, l, b)
            I.write(x, l2, a)
            out.append((x, UNIT))
        return wrap(I, out, want_lv)
    if name in ("keys", "values") and is_map:
        for x, l, _, _ in with_args():
            out.append((x, T(name, val(I, x, l))))
        return wrap(I, out, want_lv)
    if name == "operator=":
        return assign(I, st, e, want_lv)
    if name in ("operator==", "operator!="):
        return None
    if name == "operator+=":
        for x, l, vs, _ in with_args():
            I.mutate(x, l, as_pieces(vs[0]))
            out.append((x, l))
        return out if want_lv else [(x, I.read(x, l)) for x, l in out]
    return None


def mk_last(v):
    if v.op == "cat" and v.a[-1].op == "push":
        return v.a[-1].a[0]
    it = seq_items(v)
    if it:
        return it[-1]
    return T("at", v, T("lastidx", v))


def element(I, st, ct, vs):
    """Element built in place from constructor arguments."""
    m = re.search(r"<(.*)>", ct)
    el = m.group(1) if m else ""
    d = 0
    for i, c in enumerate(el):
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif c == "," and d == 0:
            el = el[:i]
            break
    el = strip_t(el)
    if base_name(el) in STRINGS and vs:
        return vs[0]
    if not vs:
        return I.default_value(st, el)
    if base_name(el) in ("std::pair", "std::tuple"):
        return T("pair", *vs)
    return T("make", base_name(el), *vs)


def assign(I, st, e, want_lv):
    """operator= of library types."""
    o, args = e[2], e[3]
    out = []
    t = o.get("a0", "") or o.get("ot", "")
    for x, v in I.ev(st, args[1]):
        v = I.strip_addr(x, v)
        for y, l in I.lv(x, args[0]):
            l = target(I, y, l) if I.read(y, l).op == "alias" else l
            w = v
            if is_opt_t(t):
                src = I.ty(args[1])
                pt = (o.get("pt") or [""])[0]
                if is_nullopt(args[1]) or v is NONE:
                    w = NONE
                elif is_opt_t(pt):
                    w = v
                elif v.op not in ("some",):
                    w = T("some", v)
            elif v.op == "null" and is_string_t(t):
                w = EMPTYSTR
            elif v.op == "list" or v.op == "struct" and not v.a[1]:
                w = mkcat(EMPTY, [T("push", z) for z in v.a]) if v.op == "list" else I.default_value(y, t)
            I.write(y, l, w)
            out.append((y, l))
    if want_lv:
        return out
    return [(x, I.read(x, l)) for x, l in out]


def is_nullopt(n):
    return n[0] == "ref" and n[2].get("q", "").endswith("nullopt") or \
        (n[0] == "construct" and n[2].get("rec") == "std::nullopt_t")


def optional(I, st, e, want_lv, name):
    o, args = e[2], e[3]
    out = []
    if name in ("has_value", "(conv bool)"):
        for x, l in recv(I, st, e):
            out += [(y, BOOL(b)) for y, b in I.t_has(x, val(I, x, l))]
        return wrap(I, out, want_lv)
    if name in ("operator*", "operator->", "value"):
        for x, l in recv(I, st, e):
            v = val(I, x, l)
            for y, w in I.split(x, v):
                r = w.a[0] if w.op == "some" else T("val", w)
                I.note_type(r, o.get("t", ""))
                if name == "operator->":
                    # pointer to the contained object
                    if r.op in ("struct", "cat", "upd") or r.op == "val":
                        p = T("addr", T("optin", l)) if l.op != "rv" else T("addr", I.alloc(y, r))
                    else:
                        p = r
                    out.append((y, T("rv", p) if want_lv else p))
                elif want_lv:
                    out.append((y, T("optin", l) if l.op != "rv" else T("rv", r)))
                else:
                    out.append((y, r))
        return out
    if name == "value_or":
        for x, l in recv(I, st, e):
            v = val(I, x, l)
            for y, d in I.ev(x, args[1]):
                for z, b in I.t_has(y, v):
                    w = (v.a[0] if v.op == "some" else T("val", v)) if b else I.strip_addr(z, d)
                    out.append((z, w))
        return wrap(I, out, want_lv)
    if name == "reset":
        for x, l in recv(I, st, e):
            I.write(x, l, NONE)
            out.append((x, UNIT))
        return wrap(I, out, want_lv)
    if name == "emplace":
        for x, l in recv(I, st, e):
            for y, vs in I.evs(x, args[1:]):
                v = vs[0] if len(vs) == 1 else T("obj", "?", *vs)
                I.write(y, l, T("some", v))
                out.append((y, v))
        return wrap(I, out, want_lv)
    if name == "operator=":
        return assign(I, st, e, want_lv)
    return None


def compare(I, st, e, want_lv, op):
    args = e[3]
    o = e[2]
    out = []
    for x, ls in I.lvs(st, args[:2]):
        a, b = I.strip_addr(x, val(I, x, ls[0])), I.strip_addr(x, val(I, x, ls[1]))
        at = o.get("at") or o.get("pt") or ["", ""]
        if is_nullopt(args[1]):
            b = NONE
        if is_nullopt(args[0]):
            a = NONE
        if op in ("==", "!="):
            for y, r in I.t_eq(x, a, b):
                out.append((y, BOOL(r if op == "==" else not r)))
        else:
            if op in ("<", ">="):
                rs = I.t_lt(x, a, b)
            else:
                rs = I.t_lt(x, b, a)
            neg = op in ("<=", ">=")
            out += [(y, BOOL(r != neg)) for y, r in rs]
    return wrap(I, out, want_lv)


def concat(I, st, e, want_lv):
    out = []
    for x, vs in I.evs(st, e[3][:2]):
        vs = [I.strip_addr(x, v) for v in vs]
        out.append((x, mkcat(EMPTY, as_pieces(vs[0]) + as_pieces(vs[1])) or EMPTYSTR))
    return wrap(I, out, want_lv)


def iterator(I, st, e, want_lv, cls, name):
    o, args = e[2], e[3]
    out = []
    if name in ("operator*", "operator->"):
        for x, l in recv(I, st, e):
            v = val(I, x, l)
            r, lvl = deref_iter(I, x, v)
            if name == "operator->":
                if r.op in ("pair", "struct", "cat", "upd", "some") or (lvl is not None and lvl.op != "ext"):
                    p = T("addr", lvl if lvl is not None else I.alloc(x, r))
                else:
                    p = r
                out.append((x, T("rv", p) if want_lv else p))
            elif want_lv:
                out.append((x, lvl if lvl is not None else (T("ext", r) if r.op not in ("pair", "struct", "cat") and not is_const(r) else T("rv", r))))
            else:
                out.append((x, r))
        return out
    if name in ("operator++", "operator--", "operator+=", "operator-="):
        by = name in ("operator+=", "operator-=")
        for x, l in recv(I, st, e):
            for y, vs in (I.evs(x, args[1:2]) if by else [(x, [INT(1)])]):
                v, k = val(I, y, l), vs[0]
                back = name in ("operator--", "operator-=")
                if k.op == "int":
                    n = -k.a[0] if back else k.a[0]
                    w = v
                    if w.op == "next" and isinstance(w.a[1], int):
                        w, n = w.a[0], w.a[1] + n
                    w = T("next", w, n) if n else w
                else:
                    w = T("next", v, T("arith", "-", INT(0), k) if back else k)
                I.write(y, l, w)
                out.append((y, T("rv", v) if not by and len(args) > 1 else l))
        return out if want_lv else [(x, l.a[0] if l.op == "rv" else val(I, x, l)) for x, l in out]
    if name == "getPathLength":
        return wrap(I, [(x, T("pathlen", deref_iter(I, x, val(I, x, l))[0])) for x, l in recv(I, st, e)], want_lv)
    if name == "getPath":
        for x, l in recv(I, st, e):
            for y, i in I.ev(x, args[1]):
                out.append((y, T("pathat", deref_iter(I, y, val(I, y, l))[0], i)))
        return wrap(I, out, want_lv)
    if name == "skipChildren":
        for x, l in recv(I, st, e):
            el = deref_iter(I, x, val(I, x, l))[0]
            I.mutate(x, T("ext", T("dfsctl")), [T("skip", el)])
            out.append((x, UNIT))
        return wrap(I, out, want_lv)
    if name == "operator=":
        return assign(I, st, e, want_lv)
    return None


def deref_iter(I, st, v):
    """(value, lvalue or None) an iterator points at."""
    if v.op == "itat":
        if len(v.a) > 2 and v.a[0].op == "pair":
            # writable entry of a map
            return v.a[0], T("mapent", v.a[2], v.a[0].a[0], v.a[0].a[1])
        return v.a[0], None
    if v.op == "iter" and v.a[1] == "begin":
        return mk_at(v.a[0], INT(0)), None
    if v.op == "next" and v.a[0].op == "iter" and v.a[0].a[1] == "begin":
        return mk_at(v.a[0].a[0], INT(v.a[1])), None
    if v.op == "next" and v.a[0].op == "iter" and v.a[0].a[1] == "end" and v.a[1] == -1:
        return mk_last(v.a[0].a[0]), None
    return T("deref", v), None


def string_method(I, st, e, want_lv, cls, name):
    o, args = e[2], e[3]
    out = []
    if name in ("str", "c_str", "data", "vec", "(conv llvm::StringRef)", "(conv std::basic_string)", "getSingleStringRef") or name.startswith("(conv"):
        for x, l in recv(I, st, e):
            v = val(I, x, l)
            if name == "c_str" and v.op not in ("str", "cstr") and v is not EMPTY:
                v = T("cstr", v)      # what follows a NUL is lost
            out.append((x, v))
        return wrap(I, out, want_lv)
    if name in ("equals", "isStr", "equals_insensitive1"):
        for x, l in recv(I, st, e):
            for y, v in I.ev(x, args[1]):
                out += [(z, BOOL(b)) for z, b in I.t_eq(y, val(I, y, l), I.strip_addr(y, v))]
        return wrap(I, out, want_lv)
    if name == "consume_front":
        for x, l in recv(I, st, e):
            for y, p in I.ev(x, args[1]):
                v = val(I, y, l)
                for z, b in I.fork(y, T("p", T("call", "llvm::StringRef::starts_with", (), v, p))):
                    if b:
                        n = mk_size(p)
                        I.write(z, l, T("drop", v, n))
                    out.append((z, BOOL(b)))
        return wrap(I, out, want_lv)
    if name in ("drop_front", "drop_back", "take_front", "substr", "slice"):
        for x, l in recv(I, st, e):
            for y, vs in I.evs(x, args[1:]):
                v = val(I, y, l)
                vs = [I.strip_addr(y, w) for w in vs]
                whole = lambda w: w.op == "int" and w.a[0] in (18446744073709551615, -1) or w.op == "global" and str(w.a[0]).endswith("::npos")
                if name == "drop_front":
                    out.append((y, mk_drop(v, vs[0] if vs else INT(1))))
                elif name == "take_front":
                    out.append((y, T("take", v, vs[0] if vs else INT(1))))
                elif name in ("substr", "slice") and (len(vs) == 1 or whole(vs[1])):
                    out.append((y, mk_drop(v, vs[0])))
                elif name == "substr" or name == "slice" and "ArrayRef" in cls:
                    out.append((y, T("take", mk_drop(v, vs[0]), vs[1])))
                elif name == "slice":
                    n = vs[1] if vs[0].op == "int" and vs[0].a[0] == 0 else mk_add(vs[1], -vs[0].a[0]) if vs[0].op == "int" else None
                    out.append((y, T("take", mk_drop(v, vs[0]), n) if n is not None else T("call", "llvm::StringRef::slice", (), v, *vs)))
                else:
                    out.append((y, T("call", "llvm::StringRef::" + name, (), v, *vs)))
        return wrap(I, out, want_lv)
    if name == "startswith":
        for x, l in recv(I, st, e):
            for y, v in I.ev(x, args[1]):
                out.append((y, T("p", T("call", "llvm::StringRef::starts_with", (), val(I, y, l), I.strip_addr(y, v)))))
        return wrap(I, out, want_lv)
    if name == "starts_with" and o.get("pt") and "char" == strip_t(o["pt"][0]):
        for x, l in recv(I, st, e):
            for y, v in I.ev(x, args[1]):
                w = STR(v.a[0]) if v.op == "char" else v
                out.append((y, T("p", T("call", "llvm::StringRef::starts_with", (), val(I, y, l), w))))
        return wrap(I, out, want_lv)
    if name == "concat" and cls == "llvm::Twine":
        return concat(I, st, e, want_lv)
    return None


def mk_drop(v, k):
    if k.op == "int" and k.a[0] == 0:
        return v
    if v.op == "str" and k.op == "int":
        return STR(v.a[0][k.a[0]:])
    if k.op == "size" and k.a[0] is v:
        return EMPTYSTR
    return T("drop", v, k)


RANGE_ENDS = {}
for _n, _r in (("decls", "decls"), ("bases", "bases"), ("vbases", "vbases"), ("param", "parameters"),
               ("enumerator", "enumerators"), ("ctor", "ctors"), ("method", "methods"), ("field", "fields"),
               ("shadow", "shadows"), ("redecls", "redecls"), ("chain", "chain")):
    RANGE_ENDS[_n + "_begin"] = (_r, "begin")
    RANGE_ENDS[_n + "_end"] = (_r, "end")


def builtin(I, st, e, want_lv):
    o, args = e[2], e[3]
    q = o["q"]
    cls, name = split_q(q)
    if o.get("repo"):
        return repo_builtin(I, st, e, want_lv, q)
    if q in CASTS:
        return do_cast(I, st, e, want_lv)
    if q in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::unwrap_reference",
             "llvm::to_vector1", "std::move_if_noexcept"):
        if want_lv:
            return I.lv(st, args[0])
        return I.ev(st, args[0])
    if q in ("std::addressof", "std::__addressof"):
        return wrap(I, [(x, I.addr_of(x, l)) for x, l in I.lv(st, args[0])], want_lv)
    if q in ("llvm::utostr", "llvm::itostr", "std::to_string", "llvm::to_string", "llvm::to_vector", "llvm::toStringRef1", "llvm::Twine::str"):
        return wrap(I, [(x, I.strip_addr(x, v)) for x, v in I.ev(st, args[0])], want_lv)
    if q in ("std::make_pair", "std::make_tuple", "std::tie1"):
        return wrap(I, [(x, T("pair", *[I.strip_addr(x, v) for v in vs])) for x, vs in I.evs(st, args)], want_lv)
    if q in ("std::get", "std::get_if1"):
        ta = o.get("ta", [""])
        out = []
        for x, ls in I.lvs(st, args[:1]):
            if re.match(r"^\d+$", str(ta[0])):
                v = val(I, x, ls[0])
                r = I.get_i(v, int(ta[0]))
                out.append((x, T("ext", r) if want_lv else r))
            else:
                l = T("fld", target(I, x, ls[0]), "<%s>" % ta[0])
                out.append((x, l if want_lv else I.read(x, l)))
        return out
    if q == "std::apply" and len(args) == 2:
        ts = template_args((o.get("ta") or ["", ""])[1])
        if ts is None:
            return None
        out = []
        for x, ls in I.lvs(st, args):
            tgt = target(I, x, ls[1])
            out += I.apply(x, val(I, x, ls[0]), [T("fld", tgt, "<%s>" % t) for t in ts])
        return wrap(I, out, want_lv)
    if q == "std::make_unique" or q == "std::make_shared":
        out = []
        for x, vs in I.evs(st, args):
            vs = [I.strip_addr(x, v) for v in vs]
            out.append((x, T("make", base_name(o["ta"][0]), *vs)))
        return wrap(I, out, want_lv)
    if q in ("llvm::make_error", "llvm::createStringError"):
        return wrap(I, [(x, T("errval", T("mkerr", tuple(o.get("ta", [])[:1]), *[I.strip_addr(x, v) for v in vs])))
                        for x, vs in I.evs(st, args)], want_lv)
    if q == "std::make_optional":
        return wrap(I, [(x, T("some", v)) for x, v in I.ev(st, args[0])], want_lv)
    if q == "std::swap":
        out = []
        for x, ls in I.lvs(st, args):
            a, b = target(I, x, ls[0]), target(I, x, ls[1])
            va, vb = I.read(x, a), I.read(x, b)
            I.write(x, a, vb)
            I.write(x, b, va)
            out.append((x, UNIT))
        return wrap(I, out, want_lv)
    if q == "std::exchange":
        out = []
        for x, l in I.lv(st, args[0]):
            l = target(I, x, l)
            for y, v in I.ev(x, args[1]):
                old = I.read(y, l)
                I.write(y, l, v)
                out.append((y, old))
        return wrap(I, [r for y, v in out for r in I.split(y, v)], want_lv)
    if q in ("std::min", "std::max"):
        out = []
        for x, vs in I.evs(st, args[:2]):
            a, b = [I.strip_addr(x, v) for v in vs]
            for y, lt in I.t_lt(x, b, a):
                out.append((y, (b if lt else a) if name == "min" else (a if lt else b)))
        return wrap(I, out, want_lv)
    if q in ("std::begin", "std::end", "llvm::adl_begin", "llvm::adl_end", "std::cbegin", "std::cend"):
        out = []
        for x, l in I.lv(st, args[0]):
            out.append((x, T("iter", val(I, x, l), "begin" if name.endswith("begin") else "end")))
        return wrap(I, out, want_lv)
    if q in ("std::size", "llvm::range_size", "llvm::size"):
        return wrap(I, [(x, mk_size(val(I, x, l))) for x, l in I.lv(st, args[0])], want_lv)
    if q in ("std::empty",):
        out = []
        for x, l in I.lv(st, args[0]):
            out += [(y, BOOL(b)) for y, b in I.t_lt(x, mk_size(val(I, x, l)), INT(1))]
        return wrap(I, out, want_lv)
    if q in ("std::next", "std::prev"):
        out = []
        for x, vs in I.evs(st, args):
            k = vs[1] if len(vs) > 1 else INT(1)
            n = k.a[0] if k.op == "int" else k
            if isinstance(n, int) and name == "prev":
                n = -n
            v = vs[0]
            if v.op == "next" and isinstance(n, int) and isinstance(v.a[1], int):
                v, n = v.a[0], v.a[1] + n
            out.append((x, T("next", v, n)))
        return wrap(I, out, want_lv)
    if q == "std::distance":
        out = []
        for x, vs in I.evs(st, args):
            out.append((x, distance(vs[0], vs[1])))
        return wrap(I, out, want_lv)
    if q in ("std::back_inserter",):
        return wrap(I, [(x, T("backins", target(I, x, l))) for x, l in I.lv(st, args[0])], want_lv)
    if q in ("llvm::make_range",):
        return wrap(I, [(x, I.range_of(*vs) if len(vs) == 2 else vs[0]) for x, vs in I.evs(st, args)], want_lv)
    if q in ("llvm::reverse",):
        out = []
        for x, l in I.lv(st, args[0]):
            v = val(I, x, l)
            it = seq_items(v)
            out.append((x, T("list", *reversed(it)) if it is not None else v.a[0] if v.op == "reverse" else T("reverse", v)))
        return wrap(I, out, want_lv)
    if q == "llvm::enumerate" and len(args) == 1:
        return wrap(I, [(x, T("enumerate", val(I, x, l))) for x, l in I.lv(st, args[0])], want_lv)
    if q == "llvm::seq":
        out = []
        for x, vs in I.evs(st, args):
            lo, hi = (vs[0], vs[1]) if len(vs) == 2 else (INT(0), vs[0])
            if lo.op == "int" and lo.a[0] == 0 and hi.op == "size":
                out.append((x, T("range", lo, hi)))
            else:
                out.append((x, T("range", lo, hi)))
        return wrap(I, out, want_lv)
    if q in ("llvm::drop_begin",):
        out = []
        for x, vs in I.evs(st, args):
            out.append((x, T("drop", I.strip_addr(x, vs[0]), vs[1] if len(vs) > 1 else INT(1))))
        return wrap(I, out, want_lv)
    if q in ("llvm::df_begin", "llvm::df_end", "llvm::po_begin", "llvm::po_end", "llvm::df_ext_begin", "llvm::df_ext_end"):
        out = []
        for x, ls in I.lvs(st, args):
            vs = [I.strip_addr(x, val(I, x, l)) for l in ls]
            kind = "dfs" if "df" in name else "po"
            if "ext" in name:
                vs = vs[:1]
                vs.append(T("ext"))
            out.append((x, T("iter", T(kind, *vs), "begin" if name.endswith("begin") else "end")))
        return wrap(I, out, want_lv)
    if q in ("llvm::depth_first", "llvm::post_order"):
        kind = "dfs" if name == "depth_first" else "po"
        return wrap(I, [(x, T(kind, I.strip_addr(x, v))) for x, v in I.ev(st, args[0])], want_lv)
    if q in ("llvm::join", "llvm::interleave", "llvm::interleaveComma"):
        r = join(I, st, e, want_lv, name)
        if r is not None:
            return r
    if q in ("llvm::errs", "llvm::outs", "llvm::nulls"):
        return [(st, T("ext", T(name)) if want_lv else T(name))]
    if (cls in ("llvm", "std", "std::ranges")) and args:
        r = algo(I, st, e, want_lv)
        if r is not None:
            return r
    # ---- operators
    op = o.get("op")
    if op in ("==", "!=", "<", ">", "<=", ">=") and len(args) >= 2 and not o.get("repo"):
        t0 = o.get("a0", "")
        return compare(I, st, e, want_lv, op)
    if op == "+=" and len(args) == 2 and not o.get("m") and is_string_t(o.get("a0", "")):
        out = []
        for x, l in I.lv(st, args[0]):
            l = target(I, x, l)
            for y, v in I.ev(x, args[1]):
                I.mutate(y, l, as_pieces(I.strip_addr(y, v)))
                out.append((y, l))
        return out if want_lv else [(x, I.read(x, l)) for x, l in out]
    if op == "+" and len(args) == 2 and (is_string_t(o.get("rt", "")) or base_name(o.get("rt", "")) in STRINGS):
        return concat(I, st, e, want_lv)
    if op == "<<" and len(args) == 2:
        t0 = base_name(o.get("a0", ""))
        if t0 in STREAMS or is_stream_t(o.get("rt", "")):
            return stream_out(I, st, e, want_lv)
        if "Diagnostic" in t0 or "Diagnostic" in o.get("rt", ""):
            out = []
            for x, l in I.lv(st, args[0]):
                for y, v in I.ev(x, args[1]):
                    v = I.strip_addr(y, v)
                    if v.op == "closure":
                        v = T("fn")
                    I.mutate(y, T("ext", DIAG), [T("darg", I.norm_obj(v))])
                    out.append((y, l))
            return out if want_lv else [(x, T("diagb")) for x, _ in out]
    if cls in STREAMS:
        if name == "write_escaped":
            out = []
            for x, l in recv(I, st, e):
                for y, vs in I.evs(x, args[1:]):
                    I.mutate(y, l, [T("h", T("esc", I.strip_addr(y, vs[0])))])
                    out.append((y, l))
            return out if want_lv else [(x, UNIT) for x, _ in out]
        if name == "write":
            out = []
            for x, l in recv(I, st, e):
                for y, vs in I.evs(x, args[1:]):
                    v = I.strip_addr(y, vs[0])
                    I.mutate(y, l, as_pieces(v))
                    out.append((y, l))
            return out if want_lv else [(x, UNIT) for x, _ in out]
        if name == "indent":
            out = []
            for x, l in recv(I, st, e):
                for y, vs in I.evs(x, args[1:]):
                    I.mutate(y, l, [STR(" " * vs[0].a[0])] if vs[0].op == "int" else [T("indent", vs[0])])
                    out.append((y, l))
            return out if want_lv else [(x, UNIT) for x, _ in out]
        if name == "flush":
            return wrap(I, [(x, UNIT) for x, _ in recv(I, st, e)], want_lv)
        if name == "str":
            return wrap(I, [(x, val(I, x, l)) for x, l in recv(I, st, e)], want_lv)
    # ---- optional
    if cls == "std::optional" or cls.startswith("std::_Optional"):
        r = optional(I, st, e, want_lv, name)
        if r is not None:
            return r
    if cls in ("llvm::Expected", "llvm::ErrorOr", "clang::CustomizableOptional", "llvm::Error", "std::error_code"):
        r = expected(I, st, e, want_lv, cls, name)
        if r is not None:
            return r
    if cls == "llvm::ListSeparator" and name.startswith("(conv"):
        out = []
        for x, l in recv(I, st, e):
            v = val(I, x, l)
            if v.op != "lsep":
                return None
            for y, b in I.truth(x, v.a[1], "bool"):
                I.write(y, l, T("lsep", v.a[0], FALSE))
                out.append((y, EMPTYSTR if b else v.a[0]))
        return wrap(I, out, want_lv)
    if cls in SMART:
        if name in ("operator->", "get", "getDecl1", "operator Decl"):
            return wrap(I, [(x, I.norm_obj(held(I, x, l))) for x, l in recv(I, st, e)], want_lv)
        if name == "operator*":
            out = []
            for x, l in recv(I, st, e):
                v = held(I, x, l)
                d = I.deref(v)
                out.append((x, d if want_lv else I.read(x, d)))
            return out
        if name == "(conv bool)":
            out = []
            for x, l in recv(I, st, e):
                out += [(y, BOOL(b)) for y, b in I.truth(x, val(I, x, l), "*")]
            return wrap(I, out, want_lv)
        if name == "operator=":
            return assign(I, st, e, want_lv)
        if name == "reset":
            out = []
            for x, l in recv(I, st, e):
                for y, vs in I.evs(x, args[1:]):
                    I.write(y, l, vs[0] if vs else NULL)
                    out.append((y, UNIT))
            return wrap(I, out, want_lv)
        if name == "release" and cls == "std::unique_ptr":
            out = []
            for x, l in recv(I, st, e):
                v = val(I, x, l)
                I.write(x, l, NULL)
                out.append((x, v))
            return wrap(I, out, want_lv)
    if cls == "llvm::StringSwitch":
        return string_switch(I, st, e, want_lv, name)
    if cls == "llvm::detail::DenseMapPair" or cls in ("llvm::StringMapEntry", "std::pair", "llvm::StringMapEntryBase"):
        if name in ("getFirst", "getSecond", "getKey", "getValue", "first", "second"):
            out = []
            for x, l in recv(I, st, e):
                f = T("fld", l, "std::pair::first" if name in ("getFirst", "getKey", "first") else "std::pair::second")
                if want_lv:
                    out.append((x, f if l.op != "rv" else T("ext", I.get_field(x, l.a[0], f.a[1]))))
                else:
                    out.append((x, I.read(x, f)))
            return out
    if cls in ("llvm::detail::result_pair", "llvm::detail::enumerator_result"):
        if name in ("index", "value"):
            out = []
            for x, l in recv(I, st, e):
                v = I.get_i(val(I, x, l), 0 if name == "index" else 1)
                out.append((x, T("ext", v) if want_lv else v))
            return out
    if o.get("m"):
        sc = cls
        if sc in ("llvm::StringRef", "std::basic_string", "llvm::SmallString", "llvm::Twine", "std::basic_string_view", "llvm::StringLiteral", "clang::IdentifierInfo", "llvm::ArrayRef"):
            r = string_method(I, st, e, want_lv, cls, name)
            if r is not None:
                return r
        if SEQ_CLS.match(sc) or MAP_CLS.match(sc) or SET_CLS.match(sc) or sc in ("llvm::SmallVectorBase",):
            r = container(I, st, e, want_lv, cls, name)
            if r is not None:
                return r
        if ITER_CLS.search(cls) or name in ("skipChildren", "getPathLength"):
            r = iterator(I, st, e, want_lv, cls, name)
            if r is not None:
                return r
        if name == "operator=" and len(args) == 2:
            return assign(I, st, e, want_lv)
        if cls == "clang::DiagnosticErrorTrap" or name == "hasErrorOccurred" and cls == "clang::DiagnosticErrorTrap":
            if name == "hasErrorOccurred":
                out = []
                for x, l in recv(I, st, e):
                    out.append((x, T("p", T("errors_since", diag_len(I, x)))))
                return wrap(I, out, want_lv)
        if name in ("Report", "Diag") and cls in ("clang::DiagnosticsEngine", "clang::Sema", "clang::Preprocessor"):
            out = []
            for x, vs in I.evs(st, args):
                vs = [I.strip_addr(x, v) for v in vs]
                kind = vs[-1]
                I.mutate(x, T("ext", DIAG), [T("diag", kind, *[v for v in vs[1:-1]])])
                out.append((x, T("diagb")))
            return wrap(I, out, want_lv)
        if cls == "clang::Token" and name in ("is", "isNot", "isOneOf"):
            out = []
            for x, l in recv(I, st, e):
                k = T("call", "clang::Token::getKind", (), I.norm_obj(val(I, x, l)))
                for y, vs in I.evs(x, args[1:]):
                    cur = [y]
                    for v in vs:
                        nxt = []
                        for z in cur:
                            for w, b in I.t_eq(z, k, v):
                                if b:
                                    out.append((w, BOOL(name != "isNot")))
                                else:
                                    nxt.append(w)
                        cur = nxt
                    out += [(z, BOOL(name == "isNot")) for z in cur]
            return wrap(I, out, want_lv)
        if name == "isInvalid" and cls in ("clang::SourceLocation", "clang::SourceRange"):
            out = []
            for x, l in recv(I, st, e):
                v = T("call", cls + "::isValid", (), I.norm_obj(val(I, x, l)))
                out += [(y, BOOL(not b)) for y, b in I.truth(x, v, "bool")]
            return wrap(I, out, want_lv)
        if name in RANGE_ENDS and o.get("const") and len(args) == 1:
            rng, end = RANGE_ENDS[name]
            out = []
            for x, l in recv(I, st, e):
                out.append((x, T("iter", T("call", cls + "::" + rng, (), I.norm_obj(val(I, x, l))), end)))
            return wrap(I, out, want_lv)
        if name == "isOverloadedOperator" and cls == "clang::FunctionDecl":
            out = []
            for x, l in recv(I, st, e):
                v = T("call", "clang::FunctionDecl::getOverloadedOperator", (), I.norm_obj(val(I, x, l)))
                out += [(y, BOOL(not b)) for y, b in I.t_eq(x, v, T("enum", "clang::OverloadedOperatorKind", "OO_None"))]
            return wrap(I, out, want_lv)
        if name == "getNumParams" and cls == "clang::FunctionDecl" or name == "param_size":
            out = []
            for x, l in recv(I, st, e):
                out.append((x, mk_size(T("call", "clang::FunctionDecl::parameters", (), I.norm_obj(val(I, x, l))))))
            return wrap(I, out, want_lv)
        if cls == "clang::DeclAccessPair" and name in ("getDecl", "operator->", "get"):
            return wrap(I, [(x, I.norm_obj(val(I, x, l))) for x, l in recv(I, st, e)], want_lv)
        if (cls, name) in COUNTED:
            rng = COUNTED[cls, name]
            out = []
            for x, l in recv(I, st, e):
                r = T("call", cls + "::" + rng, (), I.norm_obj(val(I, x, l)))
                if name.startswith("getNum"):
                    out.append((x, mk_size(r)))
                else:
                    out += [(y, mk_at(r, i)) for y, i in I.ev(x, args[1])]
            return wrap(I, out, want_lv)
        if name in ("hasSameUnqualifiedType", "hasSameType") and cls == "clang::ASTContext" and len(args) == 3:
            out = []
            for x, vs in I.evs(st, args[1:]):
                if name == "hasSameUnqualifiedType":
                    vs = [unqualified(v) for v in vs]
                vs = sorted(vs, key=str)
                out += [(y, BOOL(b)) for y, b in I.truth(x, T("p", T("call", "clang::ASTContext::" + name, (), *vs)), "bool")]
            return wrap(I, out, want_lv)
        if name == "param_empty" and cls == "clang::FunctionDecl":
            out = []
            for x, l in recv(I, st, e):
                out += [(y, BOOL(b)) for y, b in I.t_lt(x, mk_size(T("call", "clang::FunctionDecl::parameters", (), I.norm_obj(val(I, x, l)))), INT(1))]
            return wrap(I, out, want_lv)
        if name == "getParamDecl" and cls == "clang::FunctionDecl":
            out = []
            for x, l in recv(I, st, e):
                for y, i in I.ev(x, args[1]):
                    out.append((y, mk_at(T("call", "clang::FunctionDecl::parameters", (), I.norm_obj(val(I, y, l))), i)))
            return wrap(I, out, want_lv)
    return None


COUNTED = {("clang::CXXConstructExpr", "getNumArgs"): "arguments", ("clang::CXXConstructExpr", "getArg"): "arguments",
           ("clang::CallExpr", "getNumArgs"): "arguments", ("clang::CallExpr", "getArg"): "arguments",
           ("clang::InitListExpr", "getNumInits"): "inits", ("clang::InitListExpr", "getInit"): "inits",
           ("clang::CXXRecordDecl", "getNumBases"): "bases"}


def unqualified(v):
    while v.op == "call" and re.match(r"clang::QualType::(with(Const|Volatile|Restrict)|getUnqualifiedType)$", v.a[0]):
        v = v.a[2]
    return v


def diag_len(I, st):
    v = st.store.get((DIAG, "@"))
    return T("now", v if v is not None else DIAG)


def distance(a, b):
    if a.op == "iter" and a.a[1] == "begin":
        if b.op == "itat" and b.a[1] is a.a[0] and b.a[0].op == "fw":
            return T("idxof", b.a[0].a[0], b.a[0].a[1])
        if b.op == "iter" and b.a[1] == "end" and b.a[0] is a.a[0]:
            return mk_size(a.a[0])
    if b.op == "itat" and a.op == "iter" and a.a[1] == "begin":
        # an element of a container filled one by one
        c = a.a[0]
        if c.op == "cat" and c.a[0] is EMPTY:
            for n, p in enumerate(c.a[1:]):
                if p.op != "push":
                    break
                if p.a[0] is b.a[0]:
                    return INT(n)
        fws = set(find_ops(b.a[0], {"fw"}))
        if M.filled(c) is not None and len(fws) == 1:
            f = next(iter(fws))
            n, p = M.filled(c)
            rows = tree_paths(p.a[1])
            if f.a[0] is p.a[0] and len(rows) == 1 and subst(rows[0][1].a[1].a[0], {elem_of(f.a[0]): f}) is b.a[0]:
                return mk_add(T("idxof", f.a[0], f.a[1]), n)
    return T("distance", a, b)


def expected(I, st, e, want_lv, cls, name):
    o, args = e[2], e[3]
    out = []
    if name == "(conv bool)":
        for x, l in recv(I, st, e):
            v = val(I, x, l)
            if v.op == "someok":
                out.append((x, TRUE))
            elif v.op == "errval":
                out.append((x, FALSE if cls != "llvm::Error" else TRUE))
            elif v.op == "noerror":
                out.append((x, FALSE))
            else:
                out += [(y, BOOL(b)) for y, b in I.fork(x, T("has", v))]
        return wrap(I, out, want_lv)
    if name in ("operator*", "get", "operator->"):
        for x, l in recv(I, st, e):
            v = val(I, x, l)
            r = v.a[0] if v.op == "someok" else T("val", v)
            out.append((x, (T("ext", r) if r.op not in ("struct", "cat") else T("rv", r)) if want_lv and name != "operator->" else T("rv", r) if want_lv else r))
        return out
    if name == "takeError":
        for x, l in recv(I, st, e):
            v = val(I, x, l)
            out.append((x, v if v.op == "errval" else T("noerror") if v.op == "someok" else T("errval", T("errof", v))))
        return wrap(I, out, want_lv)
    if name == "success":
        return wrap(I, [(st, T("noerror"))], want_lv)
    return None


def string_switch(I, st, e, want_lv, name):
    o, args = e[2], e[3]
    out = []
    if name in ("Case", "CaseLower", "Cases", "Default", "StartsWith", "EndsWith") or name.startswith("(conv"):
        for x, l in I.lv(st, args[0]):
            v = val(I, x, l)
            if v.op != "ssw":
                v = T("ssw", v, T("unset"))
            s, res = v.a
            if name.startswith("(conv"):
                out.append((x, res))
                continue
            for y, vs in I.evs(x, args[1:]):
                vs = [I.strip_addr(y, w) for w in vs]
                if res.op != "unset":
                    out.append((y, v if name != "Default" else res))
                    continue
                if name == "Default":
                    out.append((y, vs[-1]))
                    continue
                if name in ("Case", "Cases"):
                    pend = [y]
                    for lit in vs[:-1]:
                        nxt = []
                        for z in pend:
                            for w, b in I.t_eq(z, s, lit):
                                if b:
                                    out.append((w, T("ssw", s, vs[-1])))
                                else:
                                    nxt.append(w)
                        pend = nxt
                    out += [(z, v) for z in pend]
                else:
                    for z, b in I.fork(y, T("p", T("call", "llvm::StringSwitch::" + name, (), s, vs[0]))):
                        out.append((z, T("ssw", s, vs[-1]) if b else v))
        return wrap(I, out, want_lv)
    return None


def join(I, st, e, want_lv, name):
    o, args = e[2], e[3]
    return None


def repo_builtin(I, st, e, want_lv, q):
    o, args = e[2], e[3]
    if q == "genpybind::Diagnostics::report" and len(args) == 2:
        out = []
        for x, vs in I.evs(st, args):
            vs = [I.norm_obj(I.strip_addr(x, v)) for v in vs]
            I.mutate(x, T("ext", DIAG), [T("diag", vs[1], vs[0])])
            out.append((x, T("diagb")))
        return wrap(I, out, want_lv)
    return None
