"""Models of the standard-library operations the analysed code uses (alloc, str, slices, fmt, maps)."""
import re
from interp import *

EXACT = {}
PATS = []


def nat(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATS.append((re.compile(rx), f))
        return f
    return d


class Natives:
    def lookup(self, I, f):
        n = f["n"]
        if "::rcs::" in n:
            n = f["n"] = n.replace("alloc::rcs::", "alloc::")
        g = EXACT.get(n)
        if g is not None:
            return g
        for rx, g in PATS:
            if rx.search(n):
                return g
        return None


def unit(I=None):
    return Agg(None, 0, [])


def deref1(v):
    """value behind one reference"""
    if isinstance(v, Ref):
        return v.o[v.k]
    if isinstance(v, BoxV):
        return v.c[0]
    return v


def lst(v):
    """python list behind &Vec / &[T] / &[T;N] / VecDeque..."""
    v = peel(v)
    if isinstance(v, VecV):
        return v.l
    if isinstance(v, SliceRef):
        return v.items() if (v.a, v.b) != (0, len(v.l)) else v.l
    if isinstance(v, list):
        return v
    raise Undecided("not a list: %r" % (v,))


def sl(v):
    """SliceRef view"""
    v = peel(v)
    if isinstance(v, VecV):
        return SliceRef(v.l)
    if isinstance(v, SliceRef):
        return v
    if isinstance(v, list):
        return SliceRef(v)
    raise Undecided("not a slice: %r" % (v,))


def mp(v):
    v = peel(v)
    if isinstance(v, MapV):
        return v
    raise Undecided("not a map: %r" % (v,))


def truth(I, v, why):
    """python bool of an abstract boolean, splitting when undecided"""
    if isinstance(v, int):
        return bool(v)
    return I.decide(2, why) == 1


def helper(f, key, t=None):
    for tid, hs in f.get("h", {}).items():
        if key in hs and (t is None or int(tid) == t):
            return hs[key]
    return None


def drain(I, f, v, pref=None):
    """items of any iterable value v (by value)"""
    x = v
    if isinstance(x, Ref):
        y = x.o[x.k]
        if isinstance(y, It):
            q = y.q[:]
            y.q.clear()
            return q
        if isinstance(y, (VecV, list)):
            l = lst(y)
            return [Ref(l, i) for i in range(len(l))]
        if isinstance(y, MapV):
            return map_items(I, y, False)
    if isinstance(x, It):
        return x.q[:]
    if isinstance(x, VecV):
        return x.l[:]
    if isinstance(x, list):
        return x[:]
    if isinstance(x, SliceRef):
        return [Ref(x.l, i) for i in range(x.a, x.b)]
    if isinstance(x, MapV):
        return [Agg(None, 0, [k, w]) for k, w in sorted_entries(x)]
    if isinstance(x, Agg) and x.t is not None and I.ty(x.t).get("p") == "core::option::Option":
        return list(x.f) if x.v == 1 else []
    # generic iterator: use the driver's helper instances
    t = x.t if isinstance(x, Agg) else None
    ii = nx = None
    for tid, hs in f.get("h", {}).items():
        if t is not None and int(tid) == t:
            ii, nx = hs.get("into_iter"), hs.get("ii_next", hs.get("next"))
            break
    else:
        for tid, hs in f.get("h", {}).items():
            if "ii_next" in hs or "next" in hs:
                p = I.ty(int(tid))
                if p["k"] == "adt" and not p["p"].startswith(("alloc::", "core::option")) or p["k"] == "closure":
                    ii, nx = hs.get("into_iter"), hs.get("ii_next", hs.get("next"))
    if nx is None:
        raise Undecided("cannot iterate %r in %s" % (x, f["n"]))
    it = I.call(ii, [x]) if ii is not None else x
    if isinstance(it, It):
        return it.q[:]
    cell = [it]
    out = []
    while True:
        r = I.call(nx, [Ref(cell, 0)])
        if not isinstance(r, Agg):
            raise Undecided("next returned %r" % (r,))
        if r.v == 0:
            return out
        out.append(r.f[0])
        if len(out) > 5000:
            raise Diverge("unbounded iterator in %s" % f["n"])


# ---------------------------------------------------------------- Vec / slices
@nat("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "<alloc::vec::Vec as core::default::Default>::default",
     "alloc::collections::vec_deque::VecDeque::new", "<&[T] as core::default::Default>::default")
def _(I, f, a):
    if f["n"].startswith("<&"):
        return SliceRef([])
    return VecV()


@nat("alloc::vec::Vec::push", "alloc::collections::vec_deque::VecDeque::push_back")
def _(I, f, a):
    lst(a[0]).append(a[1])
    return unit()


@nat("alloc::vec::Vec::pop")
def _(I, f, a):
    l = lst(a[0])
    return I.some(f["ret"], l.pop()) if l else I.none(f["ret"])


@nat("alloc::vec::Vec::len", "[T]::len", "alloc::collections::vec_deque::VecDeque::len")
def _(I, f, a):
    s = sl(a[0])
    return s.b - s.a


@nat("alloc::vec::Vec::is_empty", "[T]::is_empty")
def _(I, f, a):
    s = sl(a[0])
    return int(s.b == s.a)


@nat("alloc::vec::Vec::clear", "alloc::vec::Vec::truncate")
def _(I, f, a):
    l = lst(a[0])
    n = a[1] if len(a) > 1 else 0
    if not isinstance(n, int):
        raise Undecided("truncate")
    del l[n:]
    return unit()


@nat("alloc::vec::Vec::insert")
def _(I, f, a):
    l = lst(a[0])
    if not isinstance(a[1], int):
        raise Undecided("insert")
    if a[1] > len(l):
        raise Panic("Vec::insert")
    l.insert(a[1], a[2])
    return unit()


@nat("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove")
def _(I, f, a):
    l = lst(a[0])
    if not isinstance(a[1], int):
        raise Undecided("remove")
    if a[1] >= len(l):
        raise Panic("Vec::remove")
    if f["n"].endswith("swap_remove"):
        l[a[1]], l[-1] = l[-1], l[a[1]]
        return l.pop()
    return l.pop(a[1])


@nat("alloc::vec::Vec::append")
def _(I, f, a):
    o = lst(a[1])
    lst(a[0]).extend(o)
    o.clear()
    return unit()


@nat("alloc::vec::Vec::extend_from_slice")
def _(I, f, a):
    lst(a[0]).extend(copyv(x) for x in lst(a[1]))
    return unit()


@nat("alloc::vec::Vec::reserve", "alloc::vec::Vec::reserve_exact", "alloc::vec::Vec::shrink_to_fit", "alloc::string::String::reserve",
     "alloc::string::String::shrink_to_fit")
def _(I, f, a):
    return unit()


@nat("alloc::vec::Vec::retain", "alloc::vec::Vec::retain_mut")
def _(I, f, a):
    l = lst(a[0])
    keep = []
    for i in range(len(l)):
        if truth(I, I.callv(a[1], Ref(l, i)), "retain"):
            keep.append(l[i])
    l[:] = keep
    return unit()


@nat("alloc::vec::Vec::dedup", "alloc::vec::Vec::dedup_by_key", "alloc::vec::Vec::dedup_by")
def _(I, f, a):
    l = lst(a[0])
    nm = f["n"].rsplit("::", 1)[1]
    out = []
    for i in range(len(l)):
        if out:
            if nm == "dedup_by":
                e = truth(I, I.callv(a[1], Ref(l, i), Ref(out, len(out) - 1)), "dedup")
            else:
                e = I.veq(I.callv(a[1], Ref(out, len(out) - 1)), I.callv(a[1], Ref(l, i))) if nm == "dedup_by_key" else I.veq(out[-1], l[i])
                if e not in (0, 1):
                    raise Undecided("dedup")
            if e:
                continue
        out.append(l[i])
    l[:] = out
    return unit()


@nat("alloc::vec::Vec::split_off")
def _(I, f, a):
    l = lst(a[0])
    if not isinstance(a[1], int):
        raise Undecided("split_off")
    if a[1] > len(l):
        raise Panic("Vec::split_off")
    r = VecV(l[a[1]:])
    del l[a[1]:]
    return r


@nat("alloc::vec::Vec::resize", "alloc::vec::Vec::resize_with")
def _(I, f, a):
    l = lst(a[0])
    if not isinstance(a[1], int) or a[1] > 4096:
        raise Undecided("resize")
    del l[a[1]:]
    while len(l) < a[1]:
        l.append(I.callv(a[2]) if f["n"].endswith("with") else copyv(a[2]))
    return unit()


@nat("alloc::vec::Vec::drain")
def _(I, f, a):
    l = lst(a[0])
    s = range_of(I, a[1], len(l))
    q = l[s[0]:s[1]]
    del l[s[0]:s[1]]
    return It(q)


@nat("alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "<alloc::vec::Vec as core::ops::deref::Deref>::deref",
     "<alloc::vec::Vec as core::ops::deref::DerefMut>::deref_mut", "<alloc::vec::Vec as core::convert::AsRef<[T]>>::as_ref",
     "<alloc::vec::Vec as core::borrow::Borrow<[T]>>::borrow", "<[T;N] as core::convert::AsRef<[T]>>::as_ref", "[T;N]::as_slice",
     "[T]::as_ref", "<[T] as core::convert::AsRef<[T]>>::as_ref")
def _(I, f, a):
    return sl(a[0])


@nat("alloc::vec::Vec::into_boxed_slice", "[T]::into_vec", "[T]::into_boxed_slice")
def _(I, f, a):
    v = a[0]
    if isinstance(v, BoxV):
        x = v.c[0]
        return x if isinstance(x, VecV) else VecV(x)
    return v


@nat("[T]::to_vec", "<[T] as alloc::borrow::ToOwned>::to_owned", "<T as [T]::to_vec_in::ConvertVec>::to_vec", "[T]::to_vec_in")
def _(I, f, a):
    return VecV([copyv(x) for x in lst(a[0])])


@nat("[T]::iter", "[T]::iter_mut", "<&alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter",
     "<&mut alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter",
     "<&[T] as core::iter::traits::collect::IntoIterator>::into_iter", "<&mut [T] as core::iter::traits::collect::IntoIterator>::into_iter",
     "<&[T;N] as core::iter::traits::collect::IntoIterator>::into_iter", "<&mut [T;N] as core::iter::traits::collect::IntoIterator>::into_iter")
def _(I, f, a):
    s = sl(a[0])
    return It([Ref(s.l, i) for i in range(s.a, s.b)])


@nat("<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter", "<[T;N] as core::iter::traits::collect::IntoIterator>::into_iter",
     "alloc::vec::Vec::into_iter")
def _(I, f, a):
    return It(lst(a[0]))


@pat(r"^<(core::slice::iter::(Iter|IterMut)|alloc::vec::into_iter::IntoIter|alloc::vec::drain::Drain|core::array::iter::IntoIter|core::str::iter::\w+|alloc::collections::btree::(map|set)::\w+|std::collections::hash::(map|set)::\w+|alloc::collections::vec_deque::\w+::\w+|core::slice::iter::\w+|syn::punctuated::(Iter|IterMut|IntoIter|Pairs|IntoPairs|PairsMut)|core::option::(IntoIter|Iter|IterMut)|core::char::To(Upper|Lower)case) as core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator|exact_size::ExactSizeIterator)>::")
def native_iter(I, f, a):
    m = f["n"].rsplit("::", 1)[1]
    if m in ("clone",):
        return copyv(peel(a[0]))
    it = peel(a[0])
    if not isinstance(it, It):
        if isinstance(it, Agg):
            return NotImplemented
        raise Undecided("native iterator %r" % (it,))
    return iter_method(I, f, it, m, a)


def iter_method(I, f, it, m, a):
    q = it.q
    if m == "next":
        return I.some(f["ret"], q.pop(0)) if q else I.none(f["ret"])
    if m == "next_back":
        return I.some(f["ret"], q.pop()) if q else I.none(f["ret"])
    if m == "last":
        return I.some(f["ret"], q[-1]) if q else I.none(f["ret"])
    if m == "size_hint":
        u = I.ty(f["ret"])["a"][1]
        return Agg(f["ret"], 0, [len(q), Agg(u, 1, [len(q)])])
    if m in ("count", "len"):
        return len(q)
    if m == "is_empty":
        return int(not q)
    if m in ("nth", "nth_back"):
        n = a[1]
        if not isinstance(n, int):
            raise Undecided("nth")
        if m == "nth_back":
            if n < len(q):
                r = q[len(q) - 1 - n]
                del q[len(q) - 1 - n:]
                return I.some(f["ret"], r)
            q.clear()
            return I.none(f["ret"])
        if n < len(q):
            r = q[n]
            del q[:n + 1]
            return I.some(f["ret"], r)
        q.clear()
        return I.none(f["ret"])
    if m == "fold":
        acc = a[1]
        while q:
            acc = I.callv(a[2], acc, q.pop(0))
        return acc
    if m == "rfold":
        acc = a[1]
        while q:
            acc = I.callv(a[2], acc, q.pop())
        return acc
    if m == "for_each":
        while q:
            I.callv(a[1], q.pop(0))
        return unit()
    if m == "all":
        while q:
            if not truth(I, I.callv(a[1], q.pop(0)), "all"):
                return 0
        return 1
    if m == "any":
        while q:
            if truth(I, I.callv(a[1], q.pop(0)), "any"):
                return 1
        return 0
    if m in ("find", "rfind"):
        while q:
            x = q.pop(0 if m == "find" else -1)
            if truth(I, I.callv(a[1], Ref([x], 0)), "find"):
                return I.some(f["ret"], x)
        return I.none(f["ret"])
    if m == "find_map":
        while q:
            r = I.callv(a[1], q.pop(0))
            if not isinstance(r, Agg):
                raise Undecided("find_map")
            if r.v == 1:
                return r
        return I.none(f["ret"])
    if m in ("advance_by", "advance_back_by"):
        n = a[1]
        if not isinstance(n, int):
            raise Undecided(m)
        k = min(n, len(q))
        if m == "advance_by":
            del q[:k]
        else:
            del q[len(q) - k:]
        return I.ok(f["ret"], unit()) if k == n else I.err(f["ret"], n - k)
    if m == "__iterator_get_unchecked":
        return q[a[1]]  # each index is asked for at most once, the iterator is not used after
    if m == "is_sorted_by":
        while len(q) > 1:
            x = q.pop(0)
            if not truth(I, I.callv(a[1], Ref([x], 0), Ref(q, 0)), "is_sorted_by"):
                return 0
        return 1
    if m == "rposition":
        while q:
            if truth(I, I.callv(a[1], q.pop()), "rposition"):
                return I.some(f["ret"], len(q))
        return I.none(f["ret"])
    if m in ("position",):
        n = 0
        while q:
            if truth(I, I.callv(a[1], q.pop(0)), "position"):
                return I.some(f["ret"], n)
            n += 1
        return I.none(f["ret"])
    if m in ("try_fold", "try_for_each", "try_rfold"):
        acc = a[1] if m != "try_for_each" else unit()
        g = a[2] if m != "try_for_each" else a[1]
        r = None
        rt = I.ty(f["ret"])
        while q:
            x = q.pop() if m == "try_rfold" else q.pop(0)
            r = I.callv(g, acc, x) if m != "try_for_each" else I.callv(g, x)
            if not isinstance(r, Agg):
                raise Undecided("try_fold: %r" % (r,))
            good = good_variant(rt)
            if r.v != good:
                return r
            acc = r.f[0] if r.f else unit()
        good = good_variant(rt)
        return Agg(f["ret"], good, [acc])
    if m == "collect":
        return collect_into(I, f, f["ret"], q)
    if m == "rev":
        return NotImplemented
    return NotImplemented


def good_variant(rt):
    p = rt.get("p")
    if p == "core::result::Result":
        return 0
    if p == "core::option::Option":
        return 1
    if p == "core::ops::control_flow::ControlFlow":
        return 0
    raise Undecided("try type %s" % p)


@pat(r"^<(core::slice::iter::\w+|alloc::vec::into_iter::IntoIter|core::str::iter::\w+|alloc::collections::btree::map::\w+|syn::punctuated::\w*Iter\w*) as core::clone::Clone>::clone$")
def _(I, f, a):
    return copyv(peel(a[0]))


@nat("[T]::first", "[T]::first_mut")
def _(I, f, a):
    s = sl(a[0])
    return I.some(f["ret"], Ref(s.l, s.a)) if s.b > s.a else I.none(f["ret"])


@nat("[T]::last", "[T]::last_mut")
def _(I, f, a):
    s = sl(a[0])
    return I.some(f["ret"], Ref(s.l, s.b - 1)) if s.b > s.a else I.none(f["ret"])


@nat("[T]::split_first", "[T]::split_last")
def _(I, f, a):
    s = sl(a[0])
    if s.b == s.a:
        return I.none(f["ret"])
    if f["n"].endswith("first"):
        return I.some(f["ret"], Agg(None, 0, [Ref(s.l, s.a), SliceRef(s.l, s.a + 1, s.b)]))
    return I.some(f["ret"], Agg(None, 0, [Ref(s.l, s.b - 1), SliceRef(s.l, s.a, s.b - 1)]))


@nat("[T]::get", "[T]::get_mut")
def _(I, f, a):
    s = sl(a[0])
    if isinstance(a[1], int):
        return I.some(f["ret"], Ref(s.l, s.a + a[1])) if a[1] < s.b - s.a else I.none(f["ret"])
    r = range_of(I, a[1], s.b - s.a, check=False)
    if r is None:
        return I.none(f["ret"])
    return I.some(f["ret"], SliceRef(s.l, s.a + r[0], s.a + r[1]))


def range_of(I, v, n, check=True):
    v = peel(v)
    if not isinstance(v, Agg):
        raise Undecided("range %r" % (v,))
    p = I.tname(v.t) if v.t is not None else ""
    fs = v.f
    if p.endswith("RangeFull"):
        r = (0, n)
    elif p.endswith("RangeFrom"):
        r = (fs[0], n)
    elif p.endswith("RangeToInclusive"):
        r = (0, fs[0] + 1)
    elif p.endswith("RangeTo"):
        r = (0, fs[0])
    elif p.endswith("RangeInclusive"):
        r = (fs[0], fs[1] + 1)
    elif p.endswith("Range"):
        r = (fs[0], fs[1])
    else:
        raise Undecided("range type %s" % p)
    if not all(isinstance(x, int) for x in r):
        raise Undecided("range bounds")
    if not (0 <= r[0] <= r[1] <= n):
        if check:
            raise Panic("slice index")
        return None
    return r


@pat(r"^<(alloc::vec::Vec|\[T\]|\[T;N\]) as core::ops::index::Index(Mut)?<I>>::index(_mut)?$")
def _(I, f, a):
    s = sl(a[0])
    if isinstance(a[1], int):
        if a[1] >= s.b - s.a:
            raise Panic("index out of bounds")
        return Ref(s.l, s.a + a[1])
    r = range_of(I, a[1], s.b - s.a)
    return SliceRef(s.l, s.a + r[0], s.a + r[1])


@nat("[T]::contains")
def _(I, f, a):
    for x in lst(a[0]):
        e = I.veq(x, a[1])
        if e == 1:
            return 1
        if e != 0:
            raise Undecided("contains")
    return 0


@nat("[T]::reverse")
def _(I, f, a):
    s = sl(a[0])
    s.l[s.a:s.b] = s.l[s.a:s.b][::-1]
    return unit()


@nat("[T]::sort", "[T]::sort_unstable", "[T]::sort_by", "[T]::sort_unstable_by", "[T]::sort_by_key", "[T]::sort_by_cached_key", "[T]::sort_unstable_by_key")
def _(I, f, a):
    import functools
    s = sl(a[0])
    x = s.l[s.a:s.b]
    if f["n"].endswith("key"):
        ks = [I.callv(a[1], Ref([v], 0)) for v in x]
        ix = sorted(range(len(x)), key=functools.cmp_to_key(lambda i, j: order(I, None, ks[i], ks[j])))
        x = [x[i] for i in ix]
    elif len(a) > 1:
        x.sort(key=functools.cmp_to_key(lambda p, q: ordering(I, I.callv(a[1], Ref([p], 0), Ref([q], 0)))))
    else:
        x.sort(key=functools.cmp_to_key(lambda p, q: order(I, f, p, q)))
    s.l[s.a:s.b] = x
    return unit()


@nat("[T]::binary_search", "[T]::binary_search_by", "[T]::binary_search_by_key", "[T]::partition_point")
def _(I, f, a):
    l = lst(a[0])
    nm = f["n"].rsplit("::", 1)[1]
    lo, hi = 0, len(l)
    while lo < hi:
        mid = (lo + hi) // 2
        if nm == "partition_point":
            c = -1 if truth(I, I.callv(a[1], Ref(l, mid)), "partition_point") else 1
        elif nm == "binary_search":
            c = order(I, f, l[mid], a[1])
        elif nm == "binary_search_by":
            c = ordering(I, I.callv(a[1], Ref(l, mid)))
        else:
            c = order(I, None, I.callv(a[2], Ref(l, mid)), a[1])
        if c == 0:
            return I.ok(f["ret"], mid)
        if c < 0:
            lo = mid + 1
        else:
            hi = mid
    return lo if nm == "partition_point" else I.err(f["ret"], lo)


@nat("[T]::starts_with", "[T]::ends_with")
def _(I, f, a):
    l, m = lst(a[0]), lst(a[1])
    if len(m) > len(l):
        return 0
    r = I.veq(VecV(l[:len(m)] if f["n"].endswith("starts_with") else l[len(l) - len(m):]), VecV(m))
    if r not in (0, 1):
        raise Undecided(f["n"])
    return r


@nat("[T]::chunks", "[T]::windows", "[T]::chunks_exact")
def _(I, f, a):
    s = sl(a[0])
    n = a[1]
    if not isinstance(n, int) or n == 0:
        raise Undecided(f["n"])
    if f["n"].endswith("windows"):
        return It([SliceRef(s.l, i, i + n) for i in range(s.a, s.b - n + 1)])
    return It([SliceRef(s.l, i, min(i + n, s.b)) for i in range(s.a, s.b, n) if i + n <= s.b or not f["n"].endswith("exact")])


@nat("[T]::split", "[T]::splitn")
def _(I, f, a):
    s = sl(a[0])
    lim = a[1] - 1 if f["n"].endswith("n") else 1 << 30
    g = a[-1]
    out, st = [], s.a
    for i in range(s.a, s.b):
        if lim > 0 and truth(I, I.callv(g, Ref(s.l, i)), "split"):
            out.append(SliceRef(s.l, st, i))
            st = i + 1
            lim -= 1
    return It(out + [SliceRef(s.l, st, s.b)])


@nat("[T]::rotate_left", "[T]::rotate_right")
def _(I, f, a):
    s = sl(a[0])
    x = s.l[s.a:s.b]
    if not isinstance(a[1], int) or a[1] > len(x):
        raise Undecided("rotate")
    k = a[1] if f["n"].endswith("left") else len(x) - a[1]
    s.l[s.a:s.b] = x[k:] + x[:k]
    return unit()


@nat("[T]::fill")
def _(I, f, a):
    s = sl(a[0])
    for i in range(s.a, s.b):
        s.l[i] = copyv(a[1])
    return unit()


@nat("[T]::repeat")
def _(I, f, a):
    return VecV([copyv(x) for _ in range(a[1]) for x in lst(a[0])])


@nat("[T]::clone_from_slice", "[T]::copy_from_slice")
def _(I, f, a):
    s = sl(a[0])
    x = lst(a[1])
    if len(x) != s.b - s.a:
        raise Panic("slices of different lengths")
    s.l[s.a:s.b] = [copyv(v) for v in x]
    return unit()


@nat("[T;N]::map")
def _(I, f, a):
    return [I.callv(a[1], x) for x in lst(a[0])]


@nat("core::array::from_fn")
def _(I, f, a):
    t = I.ty(f["ret"])
    n = t.get("n")
    if not isinstance(n, int):
        raise Undecided("array::from_fn")
    return [I.callv(a[0], i) for i in range(n)]


@pat(r"::\{Ctor#0\}$")
def _(I, f, a):
    """a constructor used as a function"""
    t = I.ty(f["ret"])
    vs = t.get("v") or []
    nm = f["n"].rsplit("::", 2)[-2]
    for i, v in enumerate(vs):
        if v.get("n") == nm or len(vs) == 1:
            return Agg(f["ret"], i, list(a))
    return NotImplemented


@nat("alloc::collections::vec_deque::VecDeque::push_front")
def _(I, f, a):
    lst(a[0]).insert(0, a[1])
    return unit()


@nat("alloc::collections::vec_deque::VecDeque::pop_front", "alloc::collections::vec_deque::VecDeque::pop_back")
def _(I, f, a):
    l = lst(a[0])
    if not l:
        return I.none(f["ret"])
    return I.some(f["ret"], l.pop(0 if f["n"].endswith("front") else -1))


@nat("alloc::collections::vec_deque::VecDeque::is_empty", "alloc::collections::vec_deque::VecDeque::clear", "alloc::collections::vec_deque::VecDeque::iter",
     "alloc::collections::vec_deque::VecDeque::front", "alloc::collections::vec_deque::VecDeque::back", "<&alloc::collections::vec_deque::VecDeque as core::iter::traits::collect::IntoIterator>::into_iter",
     "<alloc::collections::vec_deque::VecDeque as core::iter::traits::collect::IntoIterator>::into_iter", "alloc::collections::vec_deque::VecDeque::contains")
def _(I, f, a):
    l = lst(a[0])
    nm = f["n"].rsplit("::", 1)[1]
    if nm == "is_empty":
        return int(not l)
    if nm == "clear":
        del l[:]
        return unit()
    if nm == "contains":
        for x in l:
            e = I.veq(x, a[1])
            if e == 1:
                return 1
            if e != 0:
                raise Undecided("contains")
        return 0
    if nm in ("front", "back"):
        return I.some(f["ret"], Ref(l, 0 if nm == "front" else len(l) - 1)) if l else I.none(f["ret"])
    if f["n"].startswith("<alloc"):
        return It(list(l))
    return It([Ref(l, i) for i in range(len(l))])


@pat(r"^<alloc::vec::Vec as core::iter::traits::collect::Extend<[^>]*>>::(extend_one|extend_reserve|extend_one_unchecked)$")
def _(I, f, a):
    if "extend_one" in f["n"]:
        lst(a[0]).append(copyv(deref1(a[1])) if "Extend<&" in f["n"] else a[1])
    return unit()


@pat(r"^<alloc::string::String as core::iter::traits::collect::Extend<[^>]*>>::(extend_one|extend_reserve)$")
def _(I, f, a):
    if f["n"].endswith("one"):
        s = peel(a[0])
        s.s = Str([s.s, concat([a[1]])])
    return unit()


@pat(r"^core::intrinsics::(saturating_add|saturating_sub|integer_max|integer_min|wrapping_add|wrapping_sub|wrapping_mul|ctpop|ctlz|cttz|exact_div|unchecked_add|unchecked_sub|unchecked_mul)$")
def _(I, f, a):
    nm = f["n"].rsplit("::", 1)[1]
    if not all(isinstance(x, int) for x in a):
        raise Undecided(nm)
    t = I.tname(f["args"][0])
    bits = {"usize": 64, "isize": 64}.get(t) or int(t[1:])
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if t[0] == "i" else (0, (1 << bits) - 1)
    x = a[0]
    y = a[1] if len(a) > 1 else 0
    if nm in ("ctpop", "ctlz", "cttz"):
        b = format(x & (1 << bits) - 1, "0%db" % bits)
        return b.count("1") if nm == "ctpop" else len(b) - len(b.lstrip("0")) if nm == "ctlz" else len(b) - len(b.rstrip("0"))
    r = {"a": x + y, "s": x - y, "m": x * y}[nm.rsplit("_", 1)[1][0]] if nm[:4] in ("satu", "wrap", "unch") else max(x, y) if nm.endswith("max") else min(x, y) if nm.endswith("min") else x // y
    if nm.startswith("saturating"):
        return min(max(r, lo), hi)
    return wrap(t, r)


@pat(r"^core::sync::atomic::Atomic\w*::(new|load|store|fetch_add|fetch_sub|fetch_or|fetch_and|fetch_max|fetch_min|swap|into_inner|compare_exchange|compare_exchange_weak)$")
def _(I, f, a):
    nm = f["n"].rsplit("::", 1)[1]
    if nm == "new":
        return BoxV(a[0])
    if nm == "into_inner":
        return a[0].c[0]
    c = deref1(a[0])
    while isinstance(c, Agg) and len(c.f) == 1 and isinstance(c.f[0], (Agg, int)):
        # a static's initial value, spelt out
        if isinstance(c.f[0], int):
            break
        c = c.f[0]
    o, k = (c.c, 0) if isinstance(c, BoxV) else (c.f, 0) if isinstance(c, Agg) else (a[0].o, a[0].k) if isinstance(c, int) else (None, 0)
    if o is None or not isinstance(o[k], int):
        raise Undecided("atomic %r" % (c,))
    v = o[k]
    if nm == "load":
        return v
    if nm.startswith("compare"):
        if v == a[1]:
            o[k] = a[2]
            return I.ok(f["ret"], v)
        return I.err(f["ret"], v)
    x = a[1]
    o[k] = {"store": x, "swap": x, "fetch_add": v + x, "fetch_sub": v - x, "fetch_or": v | x, "fetch_and": v & x, "fetch_max": max(v, x), "fetch_min": min(v, x)}[nm]
    return unit() if nm == "store" else v


@nat("[T]::swap")
def _(I, f, a):
    s = sl(a[0])
    if not (isinstance(a[1], int) and isinstance(a[2], int)):
        raise Undecided("swap")
    i, j = s.a + a[1], s.a + a[2]
    s.l[i], s.l[j] = s.l[j], s.l[i]
    return unit()


@nat("[T]::join", "[T]::concat", "<[S] as alloc::slice::Join<&str>>::join", "<[S] as alloc::slice::Concat<str>>::concat")
def _(I, f, a):
    if any(isinstance(peel(x), (VecV, SliceRef, list)) for x in lst(a[0])):
        out = []
        for i, x in enumerate(lst(a[0])):
            if i and len(a) > 1:
                out += [copyv(y) for y in (lst(a[1]) if isinstance(peel(a[1]), (VecV, SliceRef, list)) else [peel(a[1])])]
            out += [copyv(y) for y in lst(x)]
        return VecV(out)
    xs = [to_str(x) for x in lst(a[0])]
    sep = to_str(a[1]) if len(a) > 1 else Str()
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return StringV(Str(out))


@nat("[T]::split_at")
def _(I, f, a):
    s = sl(a[0])
    return Agg(f["ret"], 0, [SliceRef(s.l, s.a, s.a + a[1]), SliceRef(s.l, s.a + a[1], s.b)])


@nat("<alloc::vec::Vec as core::clone::Clone>::clone", "<alloc::boxed::Box as core::clone::Clone>::clone",
     "<alloc::collections::btree::map::BTreeMap as core::clone::Clone>::clone", "<alloc::string::String as core::clone::Clone>::clone",
     "<[T;N] as core::clone::Clone>::clone", "<std::collections::hash::map::HashMap as core::clone::Clone>::clone")
def _(I, f, a):
    v = deref1(a[0])
    ci = helper(f, "clone")
    if isinstance(v, BoxV):
        if ci is not None:
            return BoxV(I.call(ci, [Ref(v.c, 0)]))
        return copyv(v)
    if isinstance(v, VecV) and ci is not None:
        return VecV([I.call(ci, [Ref(v.l, i)]) for i in range(len(v.l))])
    return copyv(v)


@pat(r"^<(alloc::vec::Vec|alloc::boxed::Box|alloc::collections::btree::map::BTreeMap|alloc::string::String|std::collections::hash::map::HashMap) as core::clone::Clone>::clone_from$")
def _(I, f, a):
    a[0].o[a[0].k] = copyv(deref1(a[1]))
    return unit()


def collect_into(I, f, rt, items):
    """FromIterator for the result types the code uses"""
    p = I.ty(rt)
    n = p.get("p", "")
    if n in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::boxed::Box"):
        return VecV(list(items))
    if n == "alloc::string::String":
        return StringV(concat(items))
    if n.endswith("BTreeMap") or n.endswith("HashMap"):
        m = MapV(hash=n.endswith("HashMap"))
        for x in items:
            x = peel(x)
            map_insert(I, m, x.f[0], x.f[1])
        return m
    if n.endswith("BTreeSet") or n.endswith("HashSet"):
        m = MapV(hash=n.endswith("HashSet"))
        for x in items:
            if map_find(I, m, x) is None:
                m.e.append([x, unit()])
        return m
    if n == "core::result::Result" or n == "core::option::Option":
        good = good_variant(p)
        out = []
        for r in items:
            if not isinstance(r, Agg):
                raise Undecided("collect Result")
            if r.v != good:
                return Agg(rt, r.v, r.f)
            out.append(r.f[0])
        return Agg(rt, good, [collect_into(I, f, p["a"][0], out)])
    if p["k"] == "tuple" and not p["a"]:
        return unit()
    raise Undecided("collect into %s" % n)


def concat(items):
    out = []
    for x in items:
        x = peel(x)
        if isinstance(x, int):
            out.append(chr(x))
        elif isinstance(x, Ch):
            out.append(x)
        else:
            out.append(to_str(x))
    return Str(out)


@pat(r"^<alloc::\S+ as core::iter::traits::collect::FromIterator<[^>]*>>::from_iter$|^<std::collections::\S+ as core::iter::traits::collect::FromIterator<[^>]*>>::from_iter$")
def _(I, f, a):
    return collect_into(I, f, f["ret"], drain(I, f, a[0]))


@pat(r"^<alloc::vec::Vec as core::iter::traits::collect::Extend<[^>]*>>::extend$")
def _(I, f, a):
    by_ref = "Extend<&" in f["n"]
    for x in drain(I, f, a[1]):
        lst(a[0]).append(copyv(deref1(x)) if by_ref else x)
    return unit()


@pat(r"^<alloc::string::String as core::iter::traits::collect::Extend<[^>]*>>::extend$")
def _(I, f, a):
    s = peel(a[0])
    s.s = Str([s.s, concat(drain(I, f, a[1]))])
    return unit()


@nat("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::into_vec", "alloc::slice::box_assume_init_into_vec_unsafe")
def _(I, f, a):
    v = peel(a[0])
    n = 0
    while not isinstance(v, list):
        if isinstance(v, VecV):
            return v
        if isinstance(v, Agg) and v.f:
            v = [x for x in v.f if x is not Uninit][0]
        elif isinstance(v, (Ref, BoxV)):
            v = peel(v)
        else:
            raise Undecided("vec! of %r" % (v,))
        n += 1
        if n > 20:
            raise Undecided("vec!")
    return VecV(v)


@nat("alloc::vec::from_elem")
def _(I, f, a):
    if not isinstance(a[1], int):
        raise Undecided("vec![x; n]")
    return VecV([copyv(a[0]) for _ in range(a[1])])


# ---------------------------------------------------------------- Box / Rc / Cell
@nat("alloc::boxed::Box::new", "alloc::rc::Rc::new", "alloc::sync::Arc::new", "core::cell::RefCell::new", "core::cell::Cell::new",
     "<alloc::boxed::Box as core::convert::From<T>>::from", "core::cell::OnceCell::new")
def _(I, f, a):
    if f["n"].startswith("core::cell::OnceCell"):
        return NotImplemented
    return BoxV(a[0])


@nat("alloc::boxed::Box::new_uninit")
def _(I, f, a):
    return BoxV(Uninit)


@nat("<alloc::boxed::Box as core::default::Default>::default", "<core::cell::RefCell as core::default::Default>::default",
     "<core::cell::Cell as core::default::Default>::default")
def _(I, f, a):
    d = helper(f, "default")
    if d is None:
        raise Undecided("default of " + f["n"])
    return BoxV(I.call(d, []))


@pat(r"^<(alloc::boxed::Box|alloc::rc::Rc|alloc::sync::Arc|core::cell::Ref|core::cell::RefMut) as (core::ops::deref::Deref|core::ops::deref::DerefMut|core::convert::AsRef<T>|core::convert::AsMut<T>|core::borrow::Borrow<T>|core::borrow::BorrowMut<T>)>::")
def _(I, f, a):
    v = deref1(a[0])
    if isinstance(v, BoxV):
        x = v.c[0]
        if isinstance(x, (Str, SliceRef)):
            return x
        return Ref(v.c, 0, v.dyn)
    if isinstance(v, Ref):
        return v
    raise Undecided("deref of %r" % (v,))


@nat("core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut", "core::cell::RefCell::get_mut")
def _(I, f, a):
    v = deref1(a[0])
    if isinstance(v, BoxV):
        return Ref(v.c, 0)
    raise Undecided("borrow of %r" % (v,))


@nat("core::cell::RefCell::into_inner", "core::cell::Cell::into_inner")
def _(I, f, a):
    return a[0].c[0]


@nat("core::cell::RefCell::replace", "core::cell::Cell::replace")
def _(I, f, a):
    v = deref1(a[0])
    o = v.c[0]
    v.c[0] = a[1]
    return o


@nat("core::cell::RefCell::take", "core::cell::Cell::take")
def _(I, f, a):
    v = deref1(a[0])
    o = v.c[0]
    d = helper(f, "default")
    if d is None:
        raise Undecided("take")
    v.c[0] = I.call(d, [])
    return o


@nat("core::cell::Cell::get")
def _(I, f, a):
    return copyv(deref1(a[0]).c[0])


@nat("core::cell::Cell::set")
def _(I, f, a):
    deref1(a[0]).c[0] = a[1]
    return unit()


@nat("<alloc::rc::Rc as core::clone::Clone>::clone", "<alloc::sync::Arc as core::clone::Clone>::clone")
def _(I, f, a):
    return deref1(a[0])


# ---------------------------------------------------------------- mem / ptr / hint
@nat("core::mem::replace")
def _(I, f, a):
    r = a[0]
    o = r.o[r.k]
    r.o[r.k] = a[1]
    return o


@nat("core::mem::take")
def _(I, f, a):
    r = a[0]
    o = r.o[r.k]
    d = helper(f, "default")
    if d is None:
        raise Undecided("mem::take")
    r.o[r.k] = I.call(d, [])
    return o


@nat("core::mem::swap")
def _(I, f, a):
    x, y = a
    x.o[x.k], y.o[y.k] = y.o[y.k], x.o[x.k]
    return unit()


@nat("core::mem::drop", "core::mem::forget")
def _(I, f, a):
    v = a[0]
    if f["n"].endswith("drop") and isinstance(v, Agg) and v.t is not None and I.ty(v.t).get("drop") is not None:
        I.call(I.ty(v.t)["drop"], [Ref([v], 0)])
    return unit()


@nat("core::hint::must_use", "core::hint::black_box", "core::convert::identity", "core::mem::manually_drop::ManuallyDrop::new",
     "core::mem::ManuallyDrop::new")
def _(I, f, a):
    return a[0]


@nat("core::hint::unreachable_unchecked")
def _(I, f, a):
    raise Undecided("unreachable_unchecked")


@nat("core::hint::assert_unchecked", "core::intrinsics::assume")
def _(I, f, a):
    return unit()


@pat(r"^core::panicking::|^std::panicking::begin_panic|unwrap_failed|expect_failed|^core::option::unwrap_failed|^std::rt::begin_panic|^core::result::unwrap_failed|^core::cell::panic|^core::slice::index::slice_|^std::process::(exit|abort)")
def _(I, f, a):
    msg = f["n"]
    try:
        for x in a:
            if isinstance(peel(x), (Str, StringV)):
                msg += ": " + repr(to_str(x))
            elif isinstance(x, Nat) and x.k == "args":
                msg += ": " + repr(fmt_args(I, x))
    except Exception:
        pass
    raise Panic(msg)


@nat("core::intrinsics::cold_path", "core::intrinsics::unlikely", "core::intrinsics::likely")
def _(I, f, a):
    return a[0] if a else unit()


@nat("core::intrinsics::discriminant_value")
def _(I, f, a):
    return I.disc(deref1(a[0]), I.types.index(I.ty(f["args"][0])) if False else f["args"][0])


@nat("core::mem::discriminant")
def _(I, f, a):
    return Agg(f["ret"], 0, [I.disc(deref1(a[0]), f["args"][0])])


@nat("core::num::nonzero::NonZero::new")
def _(I, f, a):
    if not isinstance(a[0], int):
        raise Undecided("NonZero::new")
    if not a[0]:
        return I.none(f["ret"])
    return I.some(f["ret"], a[0])


@nat("core::num::nonzero::NonZero::get")
def _(I, f, a):
    v = peel(a[0])
    return v if isinstance(v, int) else NotImplemented


@nat("core::intrinsics::is_val_statically_known")
def _(I, f, a):
    return 0


@nat("core::intrinsics::ub_checks", "core::intrinsics::overflow_checks", "core::ub_checks::check_language_ub")
def _(I, f, a):
    return 0


@nat("std::thread::functions::panicking", "std::thread::panicking", "std::panicking::panicking")
def _(I, f, a):
    return 0


# ---------------------------------------------------------------- strings
def U(s):
    """units of a Str: ints, Ch, Sym"""
    out = []
    for x in s.p:
        if isinstance(x, str):
            out.extend(ord(c) for c in x)
        else:
            out.append(x)
    return out


def S(us):
    return Str([chr(u) if isinstance(u, int) else u for u in us])


@nat("alloc::string::String::new", "alloc::string::String::with_capacity", "<alloc::string::String as core::default::Default>::default")
def _(I, f, a):
    return StringV()


@nat("<&str as core::default::Default>::default")
def _(I, f, a):
    return Str()


@nat("<alloc::string::String as core::ops::deref::Deref>::deref", "alloc::string::String::as_str", "<alloc::string::String as core::convert::AsRef<str>>::as_ref",
     "<alloc::string::String as core::borrow::Borrow<str>>::borrow", "<str as core::convert::AsRef<str>>::as_ref", "str::as_ref", "str::as_str",
     "<&T as core::convert::AsRef<U>>::as_ref", "str::borrow", "alloc::str::as_ref")
def _(I, f, a):
    if f["n"].startswith("<&T"):
        v = peel(a[0])
        if not isinstance(v, (Str, StringV)):
            return NotImplemented
    return to_str(a[0])


@nat("str::to_owned", "str::to_string", "<str as alloc::borrow::ToOwned>::to_owned", "<alloc::string::String as core::convert::From<&str>>::from",
     "<alloc::string::String as core::convert::From<&mut str>>::from", "str::into_string", "alloc::string::String::from", "<str as alloc::string::ToString>::to_string", "<alloc::string::String as core::convert::From<alloc::boxed::Box>>::from",
     "<alloc::string::String as core::convert::From<&alloc::string::String>>::from", "<alloc::string::String as core::str::traits::FromStr>::from_str",
     "<alloc::boxed::Box as core::convert::From<&str>>::from")
def _(I, f, a):
    r = StringV(to_str(a[0]))
    if f["n"].endswith("from_str"):
        return I.ok(f["ret"], r)
    return r


@nat("<alloc::string::String as core::convert::From<char>>::from")
def _(I, f, a):
    return StringV(S([a[0]]))


@nat("<alloc::string::String as core::convert::From<alloc::borrow::Cow>>::from")
def _(I, f, a):
    return StringV(to_str(a[0]))


@pat(r"^<(T|\S+) as alloc::string::ToString>::to_string$")
def _(I, f, a):
    v = peel(a[0])
    if isinstance(v, (Str, StringV)):
        return StringV(to_str(v))
    d = helper(f, "display")
    if d is None:
        raise Undecided("to_string of %r" % (v,))
    return StringV(fmt_one(I, d, a[0]))


def fmt_one(I, inst, ref):
    buf = StringV()
    I.call(inst, [ref, Ref([Nat("fmt", buf)], 0)])
    return buf.s


@nat("alloc::string::String::push")
def _(I, f, a):
    s = peel(a[0])
    s.s = Str([s.s, S([a[1]])])
    return unit()


@nat("alloc::string::String::push_str")
def _(I, f, a):
    s = peel(a[0])
    s.s = Str([s.s, to_str(a[1])])
    return unit()


@nat("alloc::string::String::clear")
def _(I, f, a):
    peel(a[0]).s = Str()
    return unit()


@nat("alloc::string::String::insert_str", "alloc::string::String::insert")
def _(I, f, a):
    s = peel(a[0])
    us = U(s.s)
    k = byte_split(us, a[1])
    s.s = S(us[:k] + (U(to_str(a[2])) if f["n"].endswith("str") else [a[2]]) + us[k:])
    return unit()


@nat("alloc::string::String::remove")
def _(I, f, a):
    s = peel(a[0])
    us = U(s.s)
    k = byte_split(us, a[1])
    if k >= len(us):
        raise Panic("String::remove")
    if isinstance(us[k], Sym):
        raise Undecided("remove from an opaque string")
    x = us.pop(k)
    s.s = S(us)
    return x


@nat("alloc::string::String::truncate", "alloc::string::String::split_off")
def _(I, f, a):
    s = peel(a[0])
    us = U(s.s)
    if f["n"].endswith("truncate"):
        if not any(isinstance(u, Sym) for u in us) and isinstance(a[1], int) and a[1] >= sum(ulen(u) for u in us):
            return unit()
        s.s = S(us[:byte_split(us, a[1])])
        return unit()
    k = byte_split(us, a[1])
    s.s = S(us[:k])
    return StringV(S(us[k:]))


@nat("alloc::string::String::retain")
def _(I, f, a):
    s = peel(a[0])
    us = U(s.s)
    if any(isinstance(u, Sym) for u in us):
        raise Undecided("retain on an opaque string")
    s.s = S([u for u in us if truth(I, I.callv(a[1], u), "retain")])
    return unit()


@nat("alloc::string::String::drain", "alloc::string::String::replace_range")
def _(I, f, a):
    s = peel(a[0])
    us = U(s.s)
    if any(isinstance(u, Sym) for u in us):
        raise Undecided("range of an opaque string")
    r = range_of(I, a[1], sum(ulen(u) for u in us))
    i, j = byte_split(us, r[0]), byte_split(us, r[1])
    out = us[i:j]
    s.s = S(us[:i] + (U(to_str(a[2])) if len(a) > 2 else []) + us[j:])
    return unit() if len(a) > 2 else It(out)


@nat("alloc::string::String::into_boxed_str")
def _(I, f, a):
    return a[0]


@nat("alloc::string::String::capacity", "alloc::vec::Vec::capacity")
def _(I, f, a):
    return IntV(("capacity", id(peel(a[0]))))


@nat("str::is_char_boundary")
def _(I, f, a):
    try:
        byte_split(U(to_str(a[0])), a[1])
        return 1
    except Panic:
        return 0


@nat("str::is_ascii")
def _(I, f, a):
    us = U(to_str(a[0]))
    if any(isinstance(u, Sym) for u in us):
        raise Undecided("is_ascii of an opaque string")
    return int(all(u < 128 if isinstance(u, int) else u.cls not in "NMC" for u in us))


@nat("str::split_inclusive", "str::matches", "str::match_indices", "str::rmatches", "str::rmatch_indices")
def _(I, f, a):
    us = U(to_str(a[0]))
    nm = f["n"].rsplit("::", 1)[1]
    m = matcher(I, a[1])
    out, cur, i, p = [], [], 0, 0
    while i < len(us):
        n = m(us, i)
        x = us[i:i + (n or 1)]
        cur += x
        if n:
            out.append(S(cur) if nm == "split_inclusive" else S(x) if nm.endswith("matches") else Agg(None, 0, [p, S(x)]))
            cur = []
        if "indices" in nm:
            if any(isinstance(u, Sym) for u in x):
                raise Undecided("index in an opaque string")
            p += sum(ulen(u) for u in x)
        i += n or 1
    if nm == "split_inclusive" and cur:
        out.append(S(cur))
    return It(out[::-1] if nm[0] == "r" else out)


@nat("str::split_at_checked")
def _(I, f, a):
    us = U(to_str(a[0]))
    try:
        k = byte_split(us, a[1])
    except Panic:
        return I.none(f["ret"])
    return I.some(f["ret"], Agg(None, 0, [S(us[:k]), S(us[k:])]))


@nat("alloc::string::String::pop")
def _(I, f, a):
    s = peel(a[0])
    u = U(s.s)
    if not u:
        return I.none(f["ret"])
    if isinstance(u[-1], Sym):
        raise Undecided("pop of opaque string")
    x = u.pop()
    s.s = S(u)
    return I.some(f["ret"], x)


@nat("<alloc::string::String as core::ops::arith::Add<&str>>::add")
def _(I, f, a):
    return StringV(Str([to_str(a[0]), to_str(a[1])]))


@nat("<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign")
def _(I, f, a):
    s = peel(a[0])
    s.s = Str([s.s, to_str(a[1])])
    return unit()


@nat("str::len", "alloc::string::String::len")
def _(I, f, a):
    us = U(to_str(a[0]))
    if any(isinstance(u, Sym) for u in us):
        return IntV(("len", to_str(a[0])))
    return sum(ulen(u) for u in us)


def ulen(u):
    return len(chr(u).encode()) if isinstance(u, int) else 2 if isinstance(u, Ch) and u.cls in "NMC" else 1


@nat("str::is_empty", "alloc::string::String::is_empty")
def _(I, f, a):
    us = U(to_str(a[0]))
    if len(us) == 1 and isinstance(us[0], Sym):
        I.assumed.append((S(us), Str()))
    return int(not us)


@nat("str::chars")
def _(I, f, a):
    us = U(to_str(a[0]))
    if any(isinstance(u, Sym) for u in us):
        raise Undecided("chars of opaque string")
    return It(us)


@nat("str::char_indices")
def _(I, f, a):
    us = U(to_str(a[0]))
    if any(isinstance(u, Sym) for u in us):
        raise Undecided("chars of opaque string")
    p = 0
    out = []
    for u in us:
        out.append(Agg(None, 0, [p, u]))
        p += ulen(u)
    return It(out)


@nat("str::bytes", "str::as_bytes", "alloc::string::String::as_bytes", "alloc::string::String::into_bytes")
def _(I, f, a):
    us = U(to_str(a[0]))
    if any(isinstance(u, Sym) for u in us):
        raise Undecided("bytes of opaque string")
    out = []
    for u in us:
        if isinstance(u, int):
            out.extend(chr(u).encode())
        elif u.cls in "NMC":
            raise Undecided("bytes of a non-ASCII character")
        else:
            out.append(u)
    if f["n"].endswith("into_bytes"):
        return VecV(out)
    return It(out) if f["n"].endswith("::bytes") else SliceRef(out)


@nat("alloc::string::String::from_utf8_lossy")
def _(I, f, a):
    l = lst(a[0])
    return Agg(f["ret"], 0, [Str(bytes(l).decode("utf-8", "replace")) if all(isinstance(x, int) for x in l) else S(l)])


@pat(r"^(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)::from_str_radix$")
def _(I, f, a):
    c = to_str(a[0]).conc()
    if c is None or not isinstance(a[1], int):
        raise Undecided("from_str_radix")
    try:
        return I.ok(f["ret"], int(c, a[1]))
    except ValueError:
        return I.err(f["ret"], Opaque("ParseIntError"))


@nat("alloc::string::String::from_utf8", "core::str::converts::from_utf8")
def _(I, f, a):
    l = lst(a[0])
    if all(isinstance(x, int) for x in l):
        s = Str(bytes(l).decode())
    else:
        s = S(l)
    return I.ok(f["ret"], StringV(s) if "String" in f["n"] else s)


def map_units(s, fn):
    out = []
    for u in U(s):
        out.append(fn(u))
    return S(out)


def up(u):
    if isinstance(u, int):
        return ord(chr(u).upper()) if u < 128 else u
    if isinstance(u, Ch):
        return u.upper()
    return Sym(("up", u.n))


def low(u):
    if isinstance(u, int):
        return ord(chr(u).lower()) if u < 128 else u
    if isinstance(u, Ch):
        return u.lower()
    return Sym(("low", u.n))


def up_full(u):
    if isinstance(u, int) and u >= 128:
        r = chr(u).upper()
        return ord(r) if len(r) == 1 else u
    if isinstance(u, Ch) and u.cls == "M":
        return Ch(u.n, "N", "" if u.f == "ulow" else "uup")
    if isinstance(u, Ch) and u.cls == "X":
        raise Undecided("unicode case mapping")
    return up(u)


def low_full(u):
    if isinstance(u, int) and u >= 128:
        r = chr(u).lower()
        return ord(r) if len(r) == 1 else u
    if isinstance(u, Ch) and u.cls == "N":
        return Ch(u.n, "M", "" if u.f == "uup" else "ulow")
    if isinstance(u, Ch) and u.cls == "X":
        raise Undecided("unicode case mapping")
    return low(u)


@nat("str::to_ascii_uppercase", "str::to_uppercase")
def _(I, f, a):
    return StringV(map_units(to_str(a[0]), up if "ascii" in f["n"] else up_full))


@nat("str::to_ascii_lowercase", "str::to_lowercase")
def _(I, f, a):
    return StringV(map_units(to_str(a[0]), low if "ascii" in f["n"] else low_full))


@nat("<alloc::string::String as core::ops::deref::DerefMut>::deref_mut", "alloc::string::String::as_mut_str", "<alloc::string::String as core::convert::AsMut<str>>::as_mut",
     "<alloc::string::String as core::borrow::BorrowMut<str>>::borrow_mut")
def _(I, f, a):
    s = peel(a[0])
    return StrMut(s, 0, len(U(s.s))) if isinstance(s, StringV) else s


@nat("<str as core::ops::index::IndexMut<I>>::index_mut", "<alloc::string::String as core::ops::index::IndexMut<I>>::index_mut", "str::get_mut")
def _(I, f, a):
    s = peel(a[0])
    if isinstance(s, StringV):
        s = StrMut(s, 0, len(U(s.s)))
    if not isinstance(s, StrMut):
        raise Undecided("mutable part of %r" % (s,))
    us = U(to_str(s))
    if any(isinstance(u, Sym) for u in us):
        raise Undecided("slicing an opaque string")
    get = f["n"].endswith("get_mut")
    r = range_of(I, peel(a[1]), sum(ulen(u) for u in us), check=not get)
    if r is None:
        return I.none(f["ret"])
    try:
        x = StrMut(s.o, s.lo + byte_split(us, r[0]), s.lo + byte_split(us, r[1]))
    except Panic:
        if get:
            return I.none(f["ret"])
        raise
    return I.some(f["ret"], x) if get else x


@nat("str::make_ascii_uppercase", "str::make_ascii_lowercase")
def _(I, f, a):
    s = peel(a[0])
    fn = up if "upper" in f["n"] else low
    if isinstance(s, StrMut):
        us = U(s.o.s)
        s.o.s = S(us[:s.lo] + [fn(u) for u in us[s.lo:s.hi]] + us[s.hi:])
        return unit()
    if not isinstance(s, StringV):
        raise Undecided("make_ascii on slice")
    s.s = map_units(s.s, fn)
    return unit()


@nat("core::str::iter::Chars::as_str", "core::str::iter::CharIndices::as_str")
def _(I, f, a):
    it = peel(a[0])
    return S([x.f[1] if isinstance(x, Agg) else x for x in it.q])


def ch_test(u, fi, fc):
    if isinstance(u, int):
        return int(fi(chr(u)))
    if isinstance(u, Ch):
        r = fc(u)
        return Top if r is None else int(r)
    return Top


@pat(r"^(char|core::char::methods|u8|core::num)::(methods::)?(<impl char>::)?is_\w+$")
def _(I, f, a):
    m = f["n"].rsplit("::", 1)[1]
    u = deref1(a[0])
    T = {
        "is_uppercase": (str.isupper, lambda c: None if c.cls == "X" else c.cls == "N" or c.is_upper()),
        "is_lowercase": (str.islower, lambda c: None if c.cls == "X" else c.cls == "M" or c.is_lower()),
        "is_ascii_uppercase": (lambda s: s.isascii() and s.isupper(), lambda c: c.is_upper()),
        "is_ascii_lowercase": (lambda s: s.isascii() and s.islower(), lambda c: c.is_lower()),
        "is_numeric": (str.isnumeric, lambda c: None if c.cls == "X" else c.cls == "D"),
        "is_ascii_digit": (lambda s: s.isascii() and s.isdigit(), lambda c: c.cls == "D"),
        "is_alphabetic": (str.isalpha, lambda c: None if c.cls == "X" else c.cls in "ULNMC"),
        "is_ascii_alphabetic": (lambda s: s.isascii() and s.isalpha(), lambda c: c.cls in "UL"),
        "is_alphanumeric": (str.isalnum, lambda c: None if c.cls == "X" else c.cls in "ULDNMC"),
        "is_ascii_alphanumeric": (lambda s: s.isascii() and s.isalnum(), lambda c: c.cls in "ULD"),
        "is_whitespace": (str.isspace, lambda c: False),
        "is_ascii": (str.isascii, lambda c: c.cls not in "NMC"),
        "is_ascii_punctuation": (lambda s: s.isascii() and not s.isalnum() and s.isprintable() and s != " ", lambda c: False),
    }
    if m not in T:
        return NotImplemented
    return ch_test(u, *T[m])


@pat(r"^(char|u8)::(methods::)?(to_ascii_uppercase|to_ascii_lowercase)$")
def _(I, f, a):
    u = deref1(a[0])
    if isinstance(u, (int, Ch)):
        return up(u) if "upper" in f["n"] else low(u)
    return Top


@pat(r"^(char|u8)::(methods::)?(make_ascii_uppercase|make_ascii_lowercase)$")
def _(I, f, a):
    r = a[0]
    u = r.o[r.k]
    r.o[r.k] = up(u) if "upper" in f["n"] else low(u)
    return unit()


@pat(r"^char::(methods::)?(to_uppercase|to_lowercase)$")
def _(I, f, a):
    u = a[0]
    if isinstance(u, int):
        s = chr(u).upper() if "upper" in f["n"] else chr(u).lower()
        return It([ord(c) for c in s])
    if isinstance(u, Ch):
        return It([up_full(u) if "upper" in f["n"] else low_full(u)])
    raise Undecided("case of %r" % (u,))


@pat(r"^char::(methods::)?(to_digit|is_digit)$")
def _(I, f, a):
    c = peel(a[0])
    if not isinstance(c, int) or not isinstance(a[1], int):
        raise Undecided("digit value of an opaque character")
    x = chr(c)
    v = int(x, 36) if x.isascii() and x.isalnum() else 99
    if f["n"].endswith("is_digit"):
        return int(v < a[1])
    return I.some(f["ret"], v) if v < a[1] else I.none(f["ret"])


@nat("core::char::from_digit", "char::from_digit", "core::char::convert::from_digit", "core::char::from_u32", "char::from_u32", "core::char::convert::from_u32")
def _(I, f, a):
    if not isinstance(a[0], int):
        raise Undecided("character of an opaque number")
    if f["n"].endswith("u32"):
        return I.some(f["ret"], a[0]) if a[0] < 0x110000 and not 0xd800 <= a[0] < 0xe000 else I.none(f["ret"])
    return I.some(f["ret"], ord("0123456789abcdefghijklmnopqrstuvwxyz"[a[0]])) if a[0] < a[1] else I.none(f["ret"])


@pat(r"^char::(methods::)?encode_utf8$")
def _(I, f, a):
    return S([a[0]])


@pat(r"^char::(methods::)?len_utf8$")
def _(I, f, a):
    return ulen(a[0])


@pat(r"^(char|u8)::(methods::)?eq_ignore_ascii_case$")
def _(I, f, a):
    return I.veq(low(deref1(a[0])), low(deref1(a[1])))


def matcher(I, p):
    """pattern -> function(units, i) -> match length or None"""
    v = peel(p)
    if isinstance(v, (Str, StringV)):
        us = U(to_str(v))

        def m(xs, i):
            for x in xs[i:i + len(us)]:
                if isinstance(x, Sym) and x not in us:
                    I.assumed.append((S([x]), S(us)))
            if i + len(us) > len(xs):
                return None
            for k, u in enumerate(us):
                if not unit_eq(I, xs[i + k], u):
                    return None
            return len(us)
        return m
    if isinstance(v, (int, Ch)) and not isinstance(v, bool):
        def m(xs, i):
            return 1 if i < len(xs) and unit_eq(I, xs[i], v) else None
        return m
    if isinstance(v, (list, SliceRef)):
        cs = lst(v)

        def m(xs, i):
            return 1 if i < len(xs) and any(unit_eq(I, xs[i], c) for c in cs) else None
        return m

    def m(xs, i):
        if i >= len(xs):
            return None
        if isinstance(xs[i], Sym):
            raise Undecided("predicate on opaque string")
        return 1 if truth(I, I.callv(p, xs[i]), "char predicate") else None
    return m


def unit_eq(I, x, u):
    if x == u and type(x) == type(u):
        return True
    if isinstance(x, int) and isinstance(u, int):
        return False
    if isinstance(x, Ch) and isinstance(u, int):
        if I.ch_may_be(x, u):
            I.assumed.append((S([x]), S([u])))
        return False
    if isinstance(x, Ch) and isinstance(u, Ch):
        if x.key() == u.key():
            I.assumed.append((S([x]), S([u])))
        return False
    if isinstance(x, Sym) or isinstance(u, Sym):
        I.assumed.append((S([x]), S([u])))
        return False
    return False


@nat("str::trim_start_matches", "str::trim_left_matches")
def _(I, f, a):
    us = U(to_str(a[0]))
    m = matcher(I, a[1])
    while us:
        n = m(us, 0)
        if not n:
            break
        us = us[n:]
    return S(us)


@nat("str::trim_end_matches", "str::trim_right_matches", "str::trim_matches")
def _(I, f, a):
    us = U(to_str(a[0]))
    v = peel(a[1])
    m = matcher(I, a[1])
    k = len(U(to_str(v))) if isinstance(v, (Str, StringV)) else 1
    if f["n"].endswith("trim_matches"):
        while us and m(us, 0):
            us = us[1:]
    while len(us) >= k and k and m(us, len(us) - k):
        us = us[:-k]
    return S(us)


@nat("str::trim", "str::trim_start", "str::trim_end")
def _(I, f, a):
    us = U(to_str(a[0]))
    ws = lambda u: isinstance(u, int) and chr(u).isspace()
    if not f["n"].endswith("end"):
        while us and ws(us[0]):
            us.pop(0)
    if not f["n"].endswith("start"):
        while us and ws(us[-1]):
            us.pop()
    return S(us)


@nat("str::strip_prefix")
def _(I, f, a):
    us = U(to_str(a[0]))
    n = matcher(I, a[1])(us, 0)
    return I.none(f["ret"]) if n is None else I.some(f["ret"], S(us[n:]))


@nat("str::strip_suffix")
def _(I, f, a):
    us = U(to_str(a[0]))
    v = peel(a[1])
    k = len(U(to_str(v))) if isinstance(v, (Str, StringV)) else 1
    if k > len(us) or matcher(I, a[1])(us, len(us) - k) is None:
        return I.none(f["ret"])
    return I.some(f["ret"], S(us[:len(us) - k]))


@nat("str::starts_with")
def _(I, f, a):
    return int(matcher(I, a[1])(U(to_str(a[0])), 0) is not None)


@nat("str::ends_with")
def _(I, f, a):
    us = U(to_str(a[0]))
    v = peel(a[1])
    k = len(U(to_str(v))) if isinstance(v, (Str, StringV)) else 1
    return int(k <= len(us) and matcher(I, a[1])(us, len(us) - k) is not None)


@nat("str::contains")
def _(I, f, a):
    us = U(to_str(a[0]))
    m = matcher(I, a[1])
    return int(any(m(us, i) is not None for i in range(len(us) + 1)))


@nat("str::find", "str::rfind")
def _(I, f, a):
    us = U(to_str(a[0]))
    m = matcher(I, a[1])
    r = range(len(us))
    for i in (reversed(r) if f["n"].endswith("rfind") else r):
        if m(us, i) is not None:
            return I.some(f["ret"], sum(ulen(u) for u in us[:i]))
    return I.none(f["ret"])


@nat("str::replace", "str::replacen")
def _(I, f, a):
    us = U(to_str(a[0]))
    m = matcher(I, a[1])
    to = U(to_str(a[2]))
    lim = a[3] if len(a) > 3 else 1 << 30
    out = []
    i = 0
    while i < len(us):
        n = m(us, i) if lim > 0 else None
        if n:
            out += to
            i += n
            lim -= 1
        else:
            out.append(us[i])
            i += 1
    return StringV(S(out))


@nat("str::rsplit", "str::rsplitn", "str::rsplit_terminator")
def _(I, f, a):
    us = U(to_str(a[0]))
    nm = f["n"].rsplit("::", 1)[1]
    lim = a[1] - 1 if nm == "rsplitn" else 1 << 30
    m = matcher(I, a[2] if nm == "rsplitn" else a[1])
    out, end, i = [], len(us), len(us)
    while i > 0:
        i -= 1
        n = m(us, i) if lim > 0 else None
        if n and i + n <= end:
            out.append(us[i + n:end])
            end = i
            lim -= 1
    out.append(us[:end])
    if nm == "rsplit_terminator" and out and not out[0]:
        out = out[1:]
    return It([S(x) for x in out])


@nat("str::split", "str::split_terminator", "str::lines", "str::splitn", "str::split_whitespace", "str::split_ascii_whitespace")
def _(I, f, a):
    us = U(to_str(a[0]))
    nm = f["n"].rsplit("::", 1)[1].replace("ascii_", "")
    lim = 1 << 30
    if nm == "lines":
        m = matcher(I, 10)
    elif nm == "split_whitespace":
        m = lambda xs, i: 1 if isinstance(xs[i], int) and chr(xs[i]).isspace() else None
    elif nm == "splitn":
        lim = a[1] - 1
        m = matcher(I, a[2])
    else:
        m = matcher(I, a[1])
    out = []
    cur = []
    i = 0
    while i < len(us):
        n = m(us, i) if lim > 0 else None
        if n:
            out.append(cur)
            cur = []
            i += n
            lim -= 1
        else:
            cur.append(us[i])
            i += 1
    if not (nm in ("lines", "split_terminator") and not cur):
        out.append(cur)
    if nm == "split_whitespace":
        out = [x for x in out if x]
    return It([S(x) for x in out])


@nat("str::split_once", "str::rsplit_once")
def _(I, f, a):
    us = U(to_str(a[0]))
    m = matcher(I, a[1])
    r = range(len(us))
    for i in (reversed(r) if "rsplit" in f["n"] else r):
        n = m(us, i)
        if n:
            return I.some(f["ret"], Agg(None, 0, [S(us[:i]), S(us[i + n:])]))
    return I.none(f["ret"])


@nat("str::repeat")
def _(I, f, a):
    return StringV(Str([to_str(a[0])] * a[1]))


def byte_split(us, k):
    p = 0
    for i, u in enumerate(us):
        if p == k:
            return i
        if isinstance(u, Sym):
            raise Undecided("slicing an opaque string")
        p += ulen(u)
    if p == k:
        return len(us)
    raise Panic("str index")


@nat("<str as core::ops::index::Index<I>>::index", "<alloc::string::String as core::ops::index::Index<I>>::index", "str::get", "str::get_unchecked")
def _(I, f, a):
    us = U(to_str(a[0]))
    v = peel(a[1])
    p = I.tname(v.t)
    if p.endswith("RangeFull"):
        return S(us)
    n = None
    if any(isinstance(u, Sym) for u in us) and not p.endswith("RangeFrom"):
        raise Undecided("slicing an opaque string")
    if not p.endswith("RangeFrom"):
        n = sum(ulen(u) for u in us)
        r = range_of(I, v, n, check=not f["n"].endswith("get"))
        if r is None:
            return I.none(f["ret"])
        try:
            x = S(us[byte_split(us, r[0]):byte_split(us, r[1])])
        except Panic:
            if f["n"].endswith("get"):
                return I.none(f["ret"])
            raise
    else:
        if not isinstance(v.f[0], int):
            raise Undecided("slice bound")
        try:
            x = S(us[byte_split(us, v.f[0]):])
        except Panic:
            if f["n"].endswith("get"):
                return I.none(f["ret"])
            raise
    return I.some(f["ret"], x) if f["n"].endswith("get") else x


@nat("str::split_at")
def _(I, f, a):
    us = U(to_str(a[0]))
    k = byte_split(us, a[1])
    return Agg(f["ret"], 0, [S(us[:k]), S(us[k:])])


@nat("str::eq_ignore_ascii_case")
def _(I, f, a):
    return I.str_eq(map_units(to_str(a[0]), low), map_units(to_str(a[1]), low))


@nat("str::parse")
def _(I, f, a):
    d = helper(f, "from_str")
    if d is None:
        raise Undecided("parse into %s" % I.tname(f["args"][0]))
    return I.call(d, [to_str(a[0])])


@pat(r"^<(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize) as core::str::traits::FromStr>::from_str$")
def _(I, f, a):
    c = to_str(a[0]).conc()
    if c is None:
        raise Undecided("parse of opaque string")
    try:
        v = int(c)
    except ValueError:
        return I.err(f["ret"], Opaque("ParseIntError"))
    n = I.tname(f["self"])
    if wrap(n, v) != v:
        return I.err(f["ret"], Opaque("ParseIntError"))
    return I.ok(f["ret"], v)


# equality / ordering / hashing of native types
@pat(r"^<&?(str|alloc::string::String|char|alloc::vec::Vec|\[T\]|\[T;N\]|alloc::borrow::Cow|alloc::boxed::Box|bool|u\w+|i\w+|alloc::collections::btree::map::BTreeMap|&?A|&mut A|&str) as core::cmp::PartialEq<[^>]*>>::(eq|ne)$")
def _(I, f, a):
    x, y = peel(a[0]), peel(a[1])
    loc = lambda v: isinstance(v, Agg) and v.t is not None and not I.tname(v.t).startswith(("alloc::", "core::"))
    if loc(x) or loc(y):
        if f["body"] is not None:
            return NotImplemented
    r = I.veq(x, y)
    if f["n"].endswith("::ne"):
        return int(not r) if isinstance(r, int) else Top
    return r


@pat(r"^<&?(str|alloc::string::String|char|bool|u\w+|i\w+|alloc::vec::Vec|\[T\]|\[T;N\]|alloc::borrow::Cow|alloc::boxed::Box) as core::cmp::(Ord|PartialOrd<[^>]*>)>::(cmp|partial_cmp|lt|gt|le|ge)$")
def _(I, f, a):
    x, y = peel(a[0]), peel(a[1])
    m = f["n"].rsplit("::", 1)[1]
    if isinstance(x, (Str, StringV)):
        x, y = to_str(x), to_str(y)
        if x == y:
            r = 0
        else:
            x, y = rank(x), rank(y)
            r = (x > y) - (x < y)
    elif isinstance(x, int) and isinstance(y, int):
        r = (x > y) - (x < y)
    elif isinstance(x, (VecV, SliceRef, list, Agg, BoxV)):
        r = order(I, None, x, y)
    else:
        raise Undecided("ordering")
    if m == "cmp":
        return Agg(f["ret"], r + 1, [])
    if m == "partial_cmp":
        return I.some(f["ret"], Agg(I.ty(f["ret"])["a"][0], r + 1, []))
    return int({"lt": r < 0, "gt": r > 0, "le": r <= 0, "ge": r >= 0}[m])


@nat("core::clone::Clone::clone")
def _(I, f, a):
    """a builtin implementation: tuples, closures, arrays"""
    k = I.ty(f["args"][0])["k"]
    if k == "tuple":
        v = deref1(a[0])
        if all(not isinstance(x, Agg) for x in v.f):
            return copyv(v)
    if k in ("fndef", "fnptr", "closure"):
        return copyv(deref1(a[0]))
    return NotImplemented


@pat(r"^<(u\w+|i\w+|bool|char|f32|f64|&T|\(\)|&mut T) as core::(clone::Clone>::clone)$")
def _(I, f, a):
    return copyv(deref1(a[0]))


@pat(r"^<(u\w+|i\w+|bool|char) as core::default::Default>::default$")
def _(I, f, a):
    return 0


@pat(r"^<u?i?\w+ as core::convert::(From|TryFrom|Into)<\w+>>::(from|try_from|into)$")
def _(I, f, a):
    v = a[0]
    if not isinstance(v, (int, IntV)):
        return NotImplemented
    if f["n"].endswith("try_from"):
        t = I.tname(f["self"])
        if isinstance(v, int) and t[1:].isdigit() or t in ("usize", "isize"):
            return I.ok(f["ret"], v) if wrap(t, v) == v else I.err(f["ret"], Opaque("TryFromIntError"))
        raise Undecided("try_from")
    return v


# ---------------------------------------------------------------- fmt
@nat("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex")
def _(I, f, a):
    k = "display" if f["n"].endswith("display") else "debug"
    if f["n"].endswith("hex"):
        k = "x" if "lower" in f["n"] else "X"
    return Nat("arg", (k, a[0], helper(f, k, f["args"][0]) or helper(f, k), I.tname(f["args"][0]).lstrip("&")))


@nat("core::fmt::Arguments::new")
def _(I, f, a):
    return Nat("args", (lst(a[0]), a[1]))


@nat("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::from_str_nonconst", "core::fmt::rt::<impl core::fmt::Arguments>::from_str")
def _(I, f, a):
    return Nat("args", to_str(a[0]))


@nat("core::fmt::Arguments::as_str", "core::fmt::Arguments::as_statically_known_str")
def _(I, f, a):
    return I.none(f["ret"])


def fmt_args(I, v):
    v = peel(v)
    if isinstance(v.d, Str):
        return v.d
    tpl, args = v.d
    args = lst(args)
    if not all(isinstance(x, int) for x in tpl):
        raise Undecided("format template")
    b = bytes(tpl)
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(b[i:i + x].decode())
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + n].decode())
            i += n
        else:
            fl = None
            if x & 1:
                fl = int.from_bytes(b[i:i + 4], "little")
                i += 4
            wid = prec = None
            if x & 2:
                wid = b[i] | b[i + 1] << 8
                i += 2
            if x & 4:
                prec = b[i] | b[i + 1] << 8
                i += 2
            if x & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            if x & 0x30:
                raise Undecided("format width given as an argument")
            ar = peel(args[nxt])
            nxt += 1
            y = fmt_arg(I, ar)
            if fl is not None or wid is not None or prec is not None:
                y = padded(y, fl, wid, prec, isinstance(peel(ar.d[1]), int) and ar.d[3] not in ("char", "bool"), ar.d[0])
            out.append(y)
    return Str(out)


def padded(y, fl, wid, prec, num, kind):
    c = y.conc()
    fl = 0xe0000020 if fl is None else fl
    if fl & (1 << 21 | 1 << 22 | 1 << 25 | 1 << 26) or fl & 1 << 23 and not num or c is None:
        raise Undecided("format flags")
    if prec is not None:
        if num:
            raise Undecided("format precision")
        c = c[:prec]
    fill = chr(fl & 0x1fffff)
    if fl & 1 << 24:
        return Str(c.rjust(wid or 0, "0"))
    al = fl >> 29 & 3
    n = max(0, (wid or 0) - len(c))
    l = n if al == 1 or al == 3 and num else 0 if al in (0, 3) else n // 2
    return Str(fill * l + c + fill * (n - l))


def debug_esc(s, quote):
    return "".join({"\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0", "\\": "\\\\", quote: "\\" + quote}.get(c, c) for c in s)


def debug_str(s):
    """opaque parts are taken to need no escaping"""
    return Str(['"'] + [debug_esc(chr(u), '"') if isinstance(u, int) else u for u in U(s)] + ['"'])


def fmt_arg(I, ar):
    k, ref, inst, tn = ar.d
    v = peel(ref)
    if k in "xX":
        if not isinstance(v, int) or v < 0:
            raise Undecided("hexadecimal of %r" % (v,))
        return Str(format(v, k))
    if k == "display":
        if isinstance(v, (Str, StringV)):
            return to_str(v)
        if isinstance(v, Sym):
            return Str([v])
        if inst is None:
            raise Undecided("display of %r" % (v,))
        return fmt_one(I, inst, ref)
    if isinstance(v, (Str, StringV)):
        return debug_str(to_str(v))
    if isinstance(v, int) and tn == "char":
        return Str("'%s'" % debug_esc(chr(v), "'"))
    if isinstance(v, int) and tn == "bool":
        return Str("true" if v else "false")
    if isinstance(v, int) and (tn[1:].isdigit() or tn in ("usize", "isize")):
        return Str(str(v))
    if inst is None:
        return Str([Sym("debug")])
    try:
        return fmt_one(I, inst, ref)
    except Undecided:
        return Str([Sym("debug")])


@nat("alloc::fmt::format", "alloc::fmt::format::format_inner")
def _(I, f, a):
    return StringV(fmt_args(I, a[0]))


@nat("core::fmt::Formatter::write_str", "core::fmt::Formatter::pad", "<core::fmt::Formatter as core::fmt::Write>::write_str", "core::fmt::Formatter::debug_c_like_enum_write_str")
def _(I, f, a):
    b = peel(a[0]).d
    b.s = Str([b.s, to_str(a[1])])
    return I.ok(f["ret"], unit())


@nat("<core::fmt::Formatter as core::fmt::Write>::write_char")
def _(I, f, a):
    b = peel(a[0]).d
    b.s = Str([b.s, S([a[1]])])
    return I.ok(f["ret"], unit())


@nat("core::fmt::Formatter::write_fmt", "<core::fmt::Formatter as core::fmt::Write>::write_fmt", "core::fmt::Write::write_fmt",
     "<alloc::string::String as core::fmt::Write>::write_fmt", "core::fmt::write")
def _(I, f, a):
    b = peel(a[0])
    if isinstance(b, Nat):
        b = b.d
    if not isinstance(b, StringV):
        raise Undecided("write_fmt to %r" % (b,))
    b.s = Str([b.s, fmt_args(I, a[1])])
    return I.ok(f["ret"], unit())


@nat("<alloc::string::String as core::fmt::Write>::write_str", "<alloc::string::String as core::fmt::Write>::write_char")
def _(I, f, a):
    b = peel(a[0])
    b.s = Str([b.s, to_str(a[1]) if f["n"].endswith("str") else S([a[1]])])
    return I.ok(f["ret"], unit())


@pat(r"^<(str|alloc::string::String|alloc::borrow::Cow|char|bool|u\w+|i\w+|&T|&mut T|alloc::boxed::Box|core::fmt::Arguments) as core::fmt::Display>::fmt$")
def _(I, f, a):
    b = peel(a[1]).d
    v = peel(a[0])
    if isinstance(v, (Str, StringV)):
        s = to_str(v)
    elif isinstance(v, Nat) and v.k == "args":
        s = fmt_args(I, v)
    elif isinstance(v, Agg) and "Cow" in f["n"]:
        s = to_str(v)
    elif isinstance(v, (int, Ch)):
        t = I.tname(f["self"])
        s = S([v]) if t == "char" else Str("true" if v else "false") if t == "bool" else Str(str(v))
    elif isinstance(v, IntV):
        s = Str([Sym(("dec", v.n))])
    else:
        return NotImplemented
    b.s = Str([b.s, s])
    return I.ok(f["ret"], unit())


# ---------------------------------------------------------------- maps
TNAME = [None]


class Rev:
    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return o.k < self.k

    def __gt__(self, o):
        return o.k > self.k

    def __eq__(self, o):
        return o.k == self.k


def sort_key(k):
    k = peel(k)
    if isinstance(k, StringV):
        k = k.s
    if isinstance(k, int):
        return (0, k, "")
    if isinstance(k, Str):
        return (1, 0, rank(k))
    if isinstance(k, Agg):
        if k.t is not None and TNAME[0] is not None and TNAME[0](k.t) == "core::cmp::Reverse":
            return (5, 0, Rev(sort_key(k.f[0])))
        return (2, k.v, tuple(sort_key(x) for x in k.f))
    if isinstance(k, (VecV, SliceRef, list)):
        return (4, 0, tuple(sort_key(x) for x in lst(k)))
    if isinstance(k, BoxV):
        return sort_key(k.c[0])
    return (3, 0, repr(k))


def rank(s):
    """opaque parts come after every character, in a fixed order of their own: one of the orders the strings can have"""
    return tuple((0, u) if isinstance(u, int) else (1, repr(u)) for u in U(s))


def opaque_key(k):
    return isinstance(k, tuple) and (k[:1] == (1,) and len(k) == 2 and isinstance(k[1], str) or any(opaque_key(x) for x in k))


def order(I, f, x, y):
    """-1, 0, 1"""
    h = helper(f, "cmp", None) if f is not None else None
    if h is not None and isinstance(peel(x), Agg):
        r = I.call(h, [x if isinstance(x, Ref) else Ref([x], 0), y if isinstance(y, Ref) else Ref([y], 0)])
        return ordering(I, r)
    TNAME[0] = I.tname
    a, b = sort_key(x), sort_key(y)
    if a[0] == 3:
        raise Undecided("ordering of %r and %r" % (x, y))
    return (a > b) - (a < b)


def ordering(I, r):
    r = peel(r)
    if isinstance(r, Agg) and isinstance(r.v, int):
        return r.v - 1
    raise Undecided("ordering %r" % (r,))


HASH_REV = [False]  # hash iteration order is unknown: analyses compare two opposite ones


def sorted_entries(m):
    if m.hash:
        return list(reversed(m.e)) if HASH_REV[0] else list(m.e)
    return sorted(m.e, key=lambda e: sort_key(e[0]))


def map_find(I, m, k):
    for e in m.e:
        r = I.veq(e[0], k)
        if r == 1:
            return e
        if r != 0:
            raise Undecided("map key comparison %r %r" % (e[0], k))
    return None


def map_insert(I, m, k, v):
    e = map_find(I, m, k)
    if e is not None:
        o = e[1]
        e[1] = v
        return o
    m.e.append([k, v])
    return None


def map_items(I, m, mut):
    note_hash(I, m)
    return [Agg(None, 0, [Ref(e, 0), Ref(e, 1)]) for e in sorted_entries(m)]


def note_hash(I, m):
    if m.hash:
        I.state["hash_iter"] = I.state.get("hash_iter", 0) + 1


M = r"(alloc::collections::btree::map::BTreeMap|std::collections::hash::map::HashMap)"


@pat(r"^" + M + r"::(new|with_capacity)$|^<" + M + r" as core::default::Default>::default$|^(alloc::collections::btree::set::BTreeSet|std::collections::hash::set::HashSet)::(new|with_capacity)$|^<(alloc::collections::btree::set::BTreeSet|std::collections::hash::set::HashSet) as core::default::Default>::default$")
def _(I, f, a):
    return MapV(hash="hash::" in f["n"])


@pat(r"^" + M + r"::insert$")
def _(I, f, a):
    return I.opt(f["ret"], map_insert(I, mp(a[0]), a[1], a[2]))


@pat(r"^" + M + r"::(get|get_mut|get_key_value)$")
def _(I, f, a):
    e = map_find(I, mp(a[0]), a[1])
    if f["n"].endswith("get_key_value") and e is not None:
        return I.some(f["ret"], Agg(None, 0, [Ref(e, 0), Ref(e, 1)]))
    return I.none(f["ret"]) if e is None else I.some(f["ret"], Ref(e, 1))


@pat(r"^(" + M + r"|alloc::collections::btree::set::BTreeSet|std::collections::hash::set::HashSet)::(contains_key|contains)$")
def _(I, f, a):
    return int(map_find(I, mp(a[0]), a[1]) is not None)


@pat(r"^(alloc::collections::btree::set::BTreeSet|std::collections::hash::set::HashSet)::insert$")
def _(I, f, a):
    m = mp(a[0])
    if map_find(I, m, a[1]) is not None:
        return 0
    m.e.append([a[1], unit()])
    return 1


@pat(r"^(alloc::collections::btree::set::BTreeSet|std::collections::hash::set::HashSet)::(iter|into_iter)$|^<&?(alloc::collections::btree::set::BTreeSet|std::collections::hash::set::HashSet) as core::iter::traits::collect::IntoIterator>::into_iter$")
def _(I, f, a):
    m = mp(a[0])
    note_hash(I, m)
    byref = f["n"].startswith("<&") or f["n"].endswith("::iter")
    return It([Ref(e, 0) if byref else e[0] for e in sorted_entries(m)])


SETS = r"(alloc::collections::btree::set::BTreeSet|std::collections::hash::set::HashSet)"


@pat(r"^<(" + M + "|" + SETS + r") as core::convert::From<\[[^\]]*\]>>::from$")
def _(I, f, a):
    return collect_into(I, f, f["ret"], lst(a[0]))


@pat(r"^" + SETS + r"::(remove|take|replace|get)$")
def _(I, f, a):
    m = mp(a[0])
    nm = f["n"].rsplit("::", 1)[1]
    e = map_find(I, m, a[1])
    if nm == "get":
        return I.none(f["ret"]) if e is None else I.some(f["ret"], Ref(e, 0))
    if e is not None:
        m.e.remove(e)
    if nm == "replace":
        m.e.append([a[1], unit()])
    return int(e is not None) if nm == "remove" else I.none(f["ret"]) if e is None else I.some(f["ret"], e[0])


@pat(r"^" + SETS + r"::(union|intersection|difference|symmetric_difference|is_subset|is_superset|is_disjoint|first|last)$")
def _(I, f, a):
    m = mp(a[0])
    nm = f["n"].rsplit("::", 1)[1]
    if nm in ("first", "last"):
        if not m.e:
            return I.none(f["ret"])
        if len(m.e) > 1 and any(opaque_key(sort_key(e[0])) for e in m.e):
            raise Undecided("order of opaque keys")
        return I.some(f["ret"], Ref(sorted_entries(m)[0 if nm == "first" else -1], 0))
    o = mp(a[1])
    x = [e for e in sorted_entries(m) if map_find(I, o, e[0]) is not None]
    y = [e for e in sorted_entries(m) if map_find(I, o, e[0]) is None]
    z = [e for e in sorted_entries(o) if map_find(I, m, e[0]) is None]
    if nm == "is_subset":
        return int(not y)
    if nm == "is_superset":
        return int(not z)
    if nm == "is_disjoint":
        return int(not x)
    es = {"union": x + y + z, "intersection": x, "difference": y, "symmetric_difference": y + z}[nm]
    t = MapV(hash=m.hash)
    t.e = es
    note_hash(I, m)
    return It([Ref(e, 0) for e in sorted_entries(t)])


@pat(r"^" + SETS + r"::retain$")
def _(I, f, a):
    m = mp(a[0])
    m.e = [e for e in sorted_entries(m) if truth(I, I.callv(a[1], Ref(e, 0)), "retain")]
    return unit()


@nat("alloc::collections::btree::map::BTreeMap::range")
def _(I, f, a):
    m = mp(a[0])
    v = peel(a[1])
    p = I.tname(v.t) if isinstance(v, Agg) and v.t is not None else ""
    es = sorted_entries(m)
    lo = hi = None
    if p.endswith("RangeFrom"):
        lo = (v.f[0], False)
    elif p.endswith("RangeToInclusive"):
        hi = (v.f[0], False)
    elif p.endswith("RangeTo"):
        hi = (v.f[0], True)
    elif p.endswith("RangeInclusive"):
        lo, hi = (v.f[0], False), (v.f[1], False)
    elif p.endswith("Range"):
        lo, hi = (v.f[0], False), (v.f[1], True)
    elif not p.endswith("RangeFull"):
        raise Undecided("range of a map by %s" % p)
    if any(opaque_key(sort_key(x)) for x in [e[0] for e in es] + [b[0] for b in (lo, hi) if b]):
        raise Undecided("order of opaque keys")
    out = []
    for e in es:
        k = sort_key(e[0])
        if lo is not None and k < sort_key(lo[0]) or hi is not None and (k > sort_key(hi[0]) or hi[1] and k == sort_key(hi[0])):
            continue
        out.append(Agg(None, 0, [Ref(e, 0), Ref(e, 1)]))
    return It(out)


@pat(r"^" + M + r"::(remove|remove_entry)$")
def _(I, f, a):
    m = mp(a[0])
    e = map_find(I, m, a[1])
    if e is None:
        return I.none(f["ret"])
    m.e.remove(e)
    return I.some(f["ret"], e[1] if f["n"].endswith("remove") else Agg(None, 0, list(e)))


@pat(r"^(" + M + r"|alloc::collections::btree::set::BTreeSet|std::collections::hash::set::HashSet)::(len|is_empty|clear)$")
def _(I, f, a):
    m = mp(a[0])
    if f["n"].endswith("len"):
        return len(m.e)
    if f["n"].endswith("clear"):
        m.e.clear()
        return unit()
    return int(not m.e)


@pat(r"^" + M + r"::(iter|iter_mut)$|^<&(mut )?" + M + r" as core::iter::traits::collect::IntoIterator>::into_iter$")
def _(I, f, a):
    return It(map_items(I, mp(a[0]), True))


@pat(r"^" + M + r"::(keys|into_keys)$")
def _(I, f, a):
    m = mp(a[0])
    note_hash(I, m)
    return It([Ref(e, 0) if f["n"].endswith("::keys") else e[0] for e in sorted_entries(m)])


@pat(r"^" + M + r"::(values|values_mut|into_values)$")
def _(I, f, a):
    m = mp(a[0])
    note_hash(I, m)
    return It([e[1] if f["n"].endswith("into_values") else Ref(e, 1) for e in sorted_entries(m)])


@pat(r"^<" + M + r" as core::iter::traits::collect::IntoIterator>::into_iter$")
def _(I, f, a):
    m = mp(a[0])
    note_hash(I, m)
    return It([Agg(None, 0, list(e)) for e in sorted_entries(m)])


@pat(r"^" + M + r"::retain$")
def _(I, f, a):
    m = mp(a[0])
    m.e[:] = [e for e in sorted_entries(m) if truth(I, I.callv(a[1], Ref(e, 0), Ref(e, 1)), "retain")]
    return unit()


@pat(r"^" + M + r"::append$")
def _(I, f, a):
    m, o = mp(a[0]), mp(a[1])
    for k, v in sorted_entries(o):
        map_insert(I, m, k, v)
    o.e.clear()
    return unit()


@pat(r"^<" + M + r" as core::iter::traits::collect::Extend<[^>]*>>::extend$")
def _(I, f, a):
    m = mp(a[0])
    for x in drain(I, f, a[1]):
        x = peel(x)
        map_insert(I, m, x.f[0], x.f[1])
    return unit()


@pat(r"^<" + M + r" as core::ops::index::Index<[^>]*>>::index$")
def _(I, f, a):
    e = map_find(I, mp(a[0]), a[1])
    if e is None:
        raise Panic("map index")
    return Ref(e, 1)


@pat(r"^" + M + r"::(first_key_value|last_key_value)$")
def _(I, f, a):
    es = sorted_entries(mp(a[0]))
    if not es:
        return I.none(f["ret"])
    e = es[0 if "first" in f["n"] else -1]
    return I.some(f["ret"], Agg(None, 0, [Ref(e, 0), Ref(e, 1)]))


@pat(r"^alloc::collections::btree::(map::BTreeMap|set::BTreeSet)::(pop_first|pop_last)$")
def _(I, f, a):
    m = mp(a[0])
    if not m.e:
        return I.none(f["ret"])
    if len(m.e) > 1 and any(opaque_key(sort_key(e[0])) for e in m.e):
        raise Undecided("order of opaque keys")
    e = sorted_entries(m)[0 if f["n"].endswith("first") else -1]
    m.e.remove(e)
    return I.some(f["ret"], e[0] if "set::" in f["n"] else Agg(None, 0, [e[0], e[1]]))


@pat(r"^" + M + r"::entry$")
def _(I, f, a):
    m = mp(a[0])
    e = map_find(I, m, a[1])
    return I.mk(f["ret"], "Vacant" if e is None else "Occupied", Nat("entry", [m, a[1], e]))


def entry_of(v):
    v = peel(v)
    if isinstance(v, Agg):
        v = peel(v.f[0])
    if not (isinstance(v, Nat) and v.k == "entry"):
        raise Undecided("entry")
    return v


E_ = r"^(alloc::collections::btree::map::entry|std::collections::hash::map)::"


@pat(E_ + r"(Vacant|Occupied)Entry::(insert|insert_entry|get|get_mut|into_mut|key|into_key|remove|remove_entry)$")
def _(I, f, a):
    en = entry_of(a[0])
    m, k, e = en.d
    meth = f["n"].rsplit("::", 1)[1]
    vac = "Vacant" in f["n"]
    if meth == "insert":
        if vac:
            e = [k, a[1]]
            m.e.append(e)
            return Ref(e, 1)
        o = e[1]
        e[1] = a[1]
        return o
    if meth == "key":
        return Ref(en.d if vac else e, 1 if vac else 0)
    if meth == "into_key":
        return k
    if meth in ("get", "get_mut", "into_mut"):
        return Ref(e, 1)
    if meth == "remove":
        m.e.remove(e)
        return e[1]
    raise Undecided(f["n"])


@pat(E_ + r"Entry::(or_insert|or_insert_with|or_default|key|and_modify|or_insert_with_key)$")
def _(I, f, a):
    en = entry_of(a[0])
    m, k, e = en.d
    meth = f["n"].rsplit("::", 1)[1]
    if meth == "and_modify":
        if e is not None:
            I.callv(a[1], Ref(e, 1))
        return a[0]
    if meth == "key":
        return Ref(en.d, 1)
    if e is None:
        if meth == "or_insert":
            v = a[1]
        elif meth == "or_default":
            d = helper(f, "default", f["args"][1]) or helper(f, "default")
            if d is None:
                raise Undecided("or_default")
            v = I.call(d, [])
        elif meth == "or_insert_with_key":
            v = I.callv(a[1], Ref([k], 0))
        else:
            v = I.callv(a[1])
        e = [k, v]
        m.e.append(e)
    return Ref(e, 1)


# ---------------------------------------------------------------- closures called through traits
@pat(r"^(core::ops::function::(FnOnce|FnMut|Fn)|<.* as core::ops::function::(FnOnce|FnMut|Fn)<.*>>)::(call_once|call_mut|call)$")
def _(I, f, a):
    v = a[0]
    x = peel(v) if not (isinstance(v, Ref) and v.dyn) else v
    if isinstance(x, (FnV, Agg)):
        return I.call_value(v, list(a[1].f) if isinstance(a[1], Agg) else [a[1]])
    return NotImplemented


# size hints and other details serde's generic code asks for
@nat("core::any::type_name")
def _(I, f, a):
    return Str([Sym(("type_name", I.tname(f["args"][0])))])


SIZES = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16,
         "alloc::string::String": 24, "alloc::vec::Vec": 24}


@nat("core::mem::size_of", "core::mem::align_of", "core::mem::needs_drop")
def _(I, f, a):
    """known for primitives; either way for every other type"""
    what, t = f["n"].rsplit("::", 1)[-1], f["args"][0]
    n = I.tname(t)
    if n in SIZES and I.ty(t)["k"] != "ref":
        return SIZES[n] if what == "size_of" else (int(n.startswith("alloc")) if what == "needs_drop" else min(SIZES[n], 8) if n[0] != "a" else 8)
    k = (what, t)
    if k not in I.state:
        I.state[k] = (0, 40)[I.decide(2, "%s::<%s>()" % (what, n))] if what == "size_of" else I.decide(2, "%s::<%s>()" % (what, n)) if what == "needs_drop" else 1 << I.decide(2, "align")
    return I.state[k]


# the http crate's own table (0.2)
HTTP_REASON = {100: 'Continue', 101: 'Switching Protocols', 102: 'Processing', 200: 'OK', 201: 'Created', 202: 'Accepted', 203: 'Non Authoritative Information', 204: 'No Content', 205: 'Reset Content', 206: 'Partial Content', 207: 'Multi-Status', 208: 'Already Reported', 226: 'IM Used', 300: 'Multiple Choices', 301: 'Moved Permanently', 302: 'Found', 303: 'See Other', 304: 'Not Modified', 305: 'Use Proxy', 307: 'Temporary Redirect', 308: 'Permanent Redirect', 400: 'Bad Request', 401: 'Unauthorized', 402: 'Payment Required', 403: 'Forbidden', 404: 'Not Found', 405: 'Method Not Allowed', 406: 'Not Acceptable', 407: 'Proxy Authentication Required', 408: 'Request Timeout', 409: 'Conflict', 410: 'Gone', 411: 'Length Required', 412: 'Precondition Failed', 413: 'Payload Too Large', 414: 'URI Too Long', 415: 'Unsupported Media Type', 416: 'Range Not Satisfiable', 417: 'Expectation Failed', 418: "I'm a teapot", 421: 'Misdirected Request', 422: 'Unprocessable Entity', 423: 'Locked', 424: 'Failed Dependency', 426: 'Upgrade Required', 428: 'Precondition Required', 429: 'Too Many Requests', 431: 'Request Header Fields Too Large', 451: 'Unavailable For Legal Reasons', 500: 'Internal Server Error', 501: 'Not Implemented', 502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout', 505: 'HTTP Version Not Supported', 506: 'Variant Also Negotiates', 507: 'Insufficient Storage', 508: 'Loop Detected', 510: 'Not Extended', 511: 'Network Authentication Required'}


@nat("http::status::StatusCode::from_u16")
def _(I, f, a):
    v = a[0]
    if not isinstance(v, int):
        raise Undecided("status code of an opaque number")
    if v < 100 or v >= 1000:
        return I.err(f["ret"], Opaque("InvalidStatusCode"))
    return I.ok(f["ret"], Agg(I.ty(f["ret"])["a"][0], 0, [v]))


@nat("http::status::StatusCode::canonical_reason")
def _(I, f, a):
    v = peel(a[0])
    while isinstance(v, Agg) and v.f:
        v = v.f[0]
    if not isinstance(v, int):
        raise Undecided("reason of an opaque status code")
    r = HTTP_REASON.get(v)
    return I.none(f["ret"]) if r is None else I.some(f["ret"], Str([r]))


@nat("http::status::StatusCode::as_u16")
def _(I, f, a):
    v = peel(a[0])
    while isinstance(v, Agg) and v.f:
        v = v.f[0]
    return v


# atomic / statics are never modelled: state outside the arguments is undecided
