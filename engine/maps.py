"""std::map as a base of unknown contents plus the updates made to it.

A map is (base name, updates): a look-up goes through the updates, newest first, and forks on the equality of keys, and then asks the
base, whose membership predicate and entries are uninterpreted functions of the key.  The operations are written once, over the
specification context, and serve both the bodies (as models of the library) and the contracts."""
import z3
from z3 import And, Or, Not, BoolVal, BitVec, BitVecSort, Bool, BoolSort, Function, ZeroExt, ULE, simplify, is_true
from .vals import *
from .sx import *
from .models import TABLE, FREE, parse_dem, norm_t, split_targs, free_eq


class MapObj:
    def __init__(self, name, kt, vt, ups=(), known=()):
        self.name = name; self.kt = kt; self.vt = vt; self.ups = tuple(ups); self.known = tuple(known)

    def key(self):
        return ('map', self.name, tuple((vkey(k), vkey(e) if e is not None else None) for k, e in self.ups))

    def put(self, key, e):
        return MapObj(self.name, self.kt, self.vt, self.ups + ((key, e),), self.known)


ANY = Ptr('any', 0)         # an entry whose value is left open


class All:
    """the first n keys of a sequence"""
    def __init__(self, seq, n):
        self.seq = seq; self.n = n

    def key(self):
        return ('all', self.seq.key(), vkey(self.n))

    def has(self, key):
        return Function('among:%s' % key_id(self.key()), key.sort(), BoolSort())(key)


def hit(key, k):
    """does an update of k concern the key?"""
    return k.has(key) if isinstance(k, All) else key_eq(key, k)


def without(m, seq, n):
    """the map after the first n keys of the sequence have been erased"""
    return m if const_of(simp(n)) == 0 else MapObj(m.name, m.kt, m.vt, m.ups + ((All(seq, n), None),), m.known)


def equal(eng, pc, a, b):
    if a.key() == b.key():
        return True
    if a.name != b.name or not b.ups or not isinstance(b.ups[-1][0], All):
        return False
    al = b.ups[-1][0]
    if not a.ups or a.ups[-1][1] is not None or isinstance(a.ups[-1][0], All):
        return False
    x = a.ups[-1][0]
    rest = a.ups[:-1]
    n0 = bv(0)
    if len(rest) == len(b.ups) and isinstance(rest[-1][0], All) and rest[-1][0].seq.key() == al.seq.key():
        n0 = rest[-1][0].n
        rest = rest[:-1]
    if MapObj(a.name, a.kt, a.vt, rest).key() != MapObj(b.name, b.kt, b.vt, b.ups[:-1]).key():
        return False
    ok = lambda c: is_true(simplify(c)) or eng.smt.valid(pc, simplify(c), timeout=4000)[0] == 'yes'
    return ok(al.n == n0 + 1) and ok(key_eq(x, al.seq.at(n0)))


def has_term(m, key):
    """membership of a plain key, as a formula"""
    t = Function(m.name + '.has', key.sort(), BoolSort())(key) if m.name is not None else BoolVal(False)
    for k, e in m.ups:
        t = z3.If(hit(key, k), BoolVal(e is not None), t)
    return simplify(t)


def types_of(t):
    t = norm_t(t)
    a = split_targs(t[t.index('<') + 1:-1])
    return norm_t(a[0]), norm_t(a[1])


def sym_map(eng, st, name, t):
    kt, vt = types_of(t)
    return MapObj(name, kt, vt)


def value_off(eng, m):
    return (eng.prog.sizeof(m.kt) + 7) // 8 * 8


def entry_size(eng, m):
    return value_off(eng, m) + eng.prog.sizeof(m.vt)


def key_fields(k):
    """the parts of a key that its order looks at: host and port of an end point"""
    if isinstance(k, Rec):
        seqs = [v for v in k.f.values() if isinstance(v, Seq)]
        nums = [v for o, v in sorted(k.f.items()) if isinstance(v, z3.ExprRef) and v.size() == 32]
        if len(seqs) != 1 or not nums:
            raise Unsupported('map key %s' % k.cls)
        return seqs[0], nums[0]
    return None


def key_eq(a, b):
    if isinstance(a, Rec):
        x, y = key_fields(a), key_fields(b)
        h = BoolVal(True) if x[0].same_as(y[0]) or x[0].key() == y[0].key() else seq_eq_atom(x[0], y[0])
        return simplify(And(h, x[1] == y[1]))
    return simplify(a == b)


def key_id_of(k):
    if isinstance(k, Rec):
        x = key_fields(k)
        return key_id(('key', x[0].key(), vkey(x[1])))
    return key_id(k)


def canonical(s, m, key):
    reg = s.eng.map_keys.setdefault(m.name, [])
    i = key_id_of(key)
    for k, kid in reg:
        if kid == i:
            return kid
    for k, kid in reg:
        c = key_eq(key, k)
        if is_true(c) or s.eng.smt.valid(s.st.pc, c, timeout=1000)[0] == 'yes':
            return kid
    reg.append((key, i))
    return i


def lookup(s, p, key):
    """-> the entry of the key or None; forks"""
    eng = s.eng
    m = eng.getobj(s.st, p)
    for k, e in reversed(m.ups):
        if s.br(hit(key, k)):
            return e
    if m.name is None:
        return None
    for k, kid, there in m.known:
        if s.br(key_eq(key, k)):
            return entry_ptr(eng, m, k, kid) if there else None
    kid = canonical(s, m, key)
    if isinstance(key, Rec):
        h = Bool('%s.has(%s)' % (m.name, kid))
    else:
        h = Function(m.name + '.has', key.sort(), BoolSort())(key)
    there = s.br(h)
    eng.setobj(s.st, p, MapObj(m.name, m.kt, m.vt, m.ups, m.known + ((key, kid, there),)))
    return entry_ptr(eng, m, key, kid) if there else None


def entry_ptr(eng, m, key, kid):
    rid = 'me:%s:%s' % (m.name, kid)
    eng.map_entries.setdefault(rid, (m, key, kid))
    return Ptr(rid, 0)


def make_entry(eng, st, rid):
    """an entry of the base: the key and a value that is a function of it"""
    m, key, kid = eng.map_entries[rid]
    r = Region('mem', entry_size(eng, m), 'entry %s[%s]' % (m.name, kid))
    st.mem[rid] = r
    p = Ptr(rid, 0)
    eng.write_obj(st, p, m.kt, key)
    k = eng.prog.kind_of_type(m.vt)
    if k and k[0] in ('sptr', 'uptr', 'ptr'):
        idx = (ZeroExt(64 - key.size(), key),) if isinstance(key, z3.ExprRef) else ()
        v = eng.pointee(k[1], '%s[%s]' % (m.name, kid), m.name + '[]' if idx else '%s[%s]' % (m.name, kid), idx)
    else:
        raise Unsupported('map of ' + m.vt)
    eng.write_kind(st, p.add(value_off(eng, m)), k, v)
    return st.mem[rid]


def new_entry(s, m, key):
    q = s.eng.alloc(s.st, entry_size(s.eng, m), 'map entry')
    s.eng.write_obj(s.st, q, m.kt, key)
    return q


# ------------------------------------------------------------------ operations (used by contracts as well)
def get(s, p, key):
    """value pointer stored under the key, or None"""
    e = lookup(s, p, key)
    if e is None:
        return None
    return s.eng.load_bytes(s.st, e.add(value_off(s.eng, s.eng.getobj(s.st, p))), 8)


def set_(s, p, key, v):
    """store the pointer v under the key, whatever was there"""
    m = s.eng.getobj(s.st, p)
    q = new_entry(s, m, key)
    s.eng.write_kind(s.st, q.add(value_off(s.eng, m)), s.eng.prog.kind_of_type(m.vt), v)
    s.eng.setobj(s.st, p, s.eng.getobj(s.st, p).put(key, q))
    return q


def insert(s, p, key, v):
    """-> (entry, inserted?)"""
    e = lookup(s, p, key)
    if e is not None:
        return e, False
    return set_(s, p, key, v), True


def erase(s, p, key):
    """-> was there"""
    m = s.eng.getobj(s.st, p)
    if isinstance(key, z3.ExprRef):
        s.eng.setobj(s.st, p, m.put(key, None))
        return has_term(m, key)
    e = lookup(s, p, key)
    if e is None:
        return False
    s.eng.setobj(s.st, p, s.eng.getobj(s.st, p).put(key, None))
    return True


def empty(s, p):
    m = s.eng.getobj(s.st, p)
    if any(e is not None for k, e in m.ups[-1:]):
        return BoolVal(False)
    if m.ups:
        raise Unsupported('emptiness of an updated map')
    if m.name is None:
        return BoolVal(True)
    return size_term(m) == bv(0)


def size_term(m):
    return ZeroExt(28, BitVec(m.name + '.size', 36))


def walk(s, p):
    """the entries in order"""
    q = op_begin(s, [p], None, None)
    return s.eng.region(s.st, q, None, 'walk').seq if q.r.startswith('ms:') else EMPTY


def end_ptr(p):
    return Ptr('mapend:%s:%s' % (p.r, p.o.c), 0)


# ------------------------------------------------------------------ library models
def model(f):
    def m(eng, st, args, ins, dem):
        from .spec import Ctx
        out = []
        stack = [[]]
        while stack:
            s = Ctx(eng, st.clone(), stack.pop(), 'apply', None)
            try:
                v = f(s, args, ins, dem)
                out.append((s.st, ('ret', v)))
            except DeadPath:
                pass
            stack.extend(s.alts)
        return out
    return m


def rdkey(s, p, q):
    return s.eng.read_obj(s.st, q, s.eng.getobj(s.st, p).kt)


def it(e, p):
    return e if e is not None else end_ptr(p)


def op_find(s, a, ins, dem):
    return it(lookup(s, a[0], rdkey(s, a[0], a[1])), a[0])


def op_count(s, a, ins, dem):
    return bv(0 if lookup(s, a[0], rdkey(s, a[0], a[1])) is None else 1)


def op_contains(s, a, ins, dem):
    return BoolVal(lookup(s, a[0], rdkey(s, a[0], a[1])) is not None)


def op_erase(s, a, ins, dem):
    d = parse_dem(dem)
    if 'iterator' in d.params[0]:
        q = a[1]
        if isinstance(q.r, str) and q.r.startswith('mapend:'):
            s.eng.require(s.st, False, 'invalid-iterator', ins, 'erase at the end of a map')
            raise DeadPath()
        erase(s, a[0], rdkey(s, a[0], q))
        return Ptr('mapnext:%s' % (a[0].r,), 0)
    r = erase(s, a[0], rdkey(s, a[0], a[1]))
    return simp(z3.If(r, bv(1), bv(0))) if isinstance(r, z3.ExprRef) else bv(1 if r else 0)


def op_insert(s, a, ins, dem):
    m = s.eng.getobj(s.st, a[0])
    e, new = insert(s, a[0], rdkey(s, a[0], a[1]), s.eng.load_bytes(s.st, a[1].add(value_off(s.eng, m)), 8))
    return (e, bv(1 if new else 0, 8))


def op_emplace(s, a, ins, dem):
    """emplace(key, value) with arguments of the map's own types"""
    d = parse_dem(dem)
    m = s.eng.getobj(s.st, a[0])
    ts = [norm_t(t.rstrip('&').strip()) for t in d.margs]
    if len(a) != 3 or ts[1] != m.vt or (ts[0] != m.kt and not s.eng.prog.kind_of_type(ts[0])):
        raise Unsupported('map emplace of %s' % ts)
    e, new = insert(s, a[0], rdkey(s, a[0], a[1]), s.eng.load_bytes(s.st, a[2], 8))
    return (e, bv(1 if new else 0, 8))


def op_assign(s, a, ins, dem):
    """insert_or_assign"""
    k = rdkey(s, a[0], a[1])
    v = s.eng.load_bytes(s.st, a[2], 8)
    e = lookup(s, a[0], k)
    if e is None:
        return (set_(s, a[0], k, v), bv(1, 8))
    s.eng.store_bytes(s.st, e.add(value_off(s.eng, s.eng.getobj(s.st, a[0]))), v, 8)
    return (e, bv(0, 8))


def op_index(s, a, ins, dem):
    k = rdkey(s, a[0], a[1])
    e = lookup(s, a[0], k)
    if e is None:
        e = set_(s, a[0], k, NULL)
    return e.add(value_off(s.eng, s.eng.getobj(s.st, a[0])))


def op_at(eng, st, args, ins, dem):
    def f(s, a, ins, dem):
        e = lookup(s, a[0], rdkey(s, a[0], a[1]))
        return e.add(value_off(s.eng, s.eng.getobj(s.st, a[0]))) if e is not None else None
    from .models import mk_exc
    out = []
    for s, o in model(f)(eng, st, args, ins, dem):
        out.append((s, o) if o[1] is not None else (s, ('throw', mk_exc(eng, s, 'std::out_of_range'))))
    return out


def op_end(s, a, ins, dem):
    return end_ptr(a[0])


def op_begin(s, a, ins, dem):
    m = s.eng.getobj(s.st, a[0])
    if m.ups:
        raise Unsupported('walking an updated map')
    if m.name is None:
        return end_ptr(a[0])
    s.eng.map_bases[m.name] = m
    q = Ptr('ms:' + m.name, 0)
    s.eng.region(s.st, q, ins, 'walk')
    return q


def make_walk(eng, st, rid):
    """the entries of a base in order"""
    m = eng.map_bases[rid[3:]]
    et = 'std::pair<%s, %s>' % (m.kt, m.vt + (' ' if m.vt.endswith('>') else ''))
    if et not in eng.prog.layouts:
        raise Unsupported('no layout of ' + et)
    r = Region('seq', None, 'entries of ' + m.name)
    r.seq = eng.sym_seq_at(m.name + '.entry', et, size_term(m), ())
    r.et = et; r.esz = eng.esize(et)
    r.init = True
    st.mem[rid] = r
    return r


def op_clear(s, a, ins, dem):
    m = s.eng.getobj(s.st, a[0])
    s.eng.setobj(s.st, a[0], MapObj(None, m.kt, m.vt))


def op_empty(s, a, ins, dem):
    return simplify(empty(s, a[0]))


def op_size(s, a, ins, dem):
    m = s.eng.getobj(s.st, a[0])
    if m.ups:
        raise Unsupported('size of an updated map')
    return bv(0) if m.name is None else size_term(m)


def op_ctor(s, a, ins, dem):
    d = parse_dem(dem)
    kt, vt = types_of(d.cls)
    m = MapObj(None, kt, vt)
    s.eng.setobj(s.st, a[0], m)
    if not d.params:
        return
    if not d.params[0].startswith('std::initializer_list<'):
        raise Unsupported('map constructor')
    # the first of several entries with one key counts
    n = const_of(simp(a[2]))
    if n is None:
        raise Unsupported('map of an unknown number of entries')
    off, have = value_off(s.eng, m), set()
    for i in range(n):
        src = a[1].add(i * entry_size(s.eng, m))
        k = rdkey(s, a[0], src)
        kc = const_of(k) if isinstance(k, z3.ExprRef) else None
        if kc is None:
            raise Unsupported('map of entries with unknown keys')
        if kc not in have:
            have.add(kc)
            q = new_entry(s, m, k)
            copy_value(s, m, src.add(off), q.add(off))
            m = m.put(k, q)
            s.eng.setobj(s.st, a[0], m)


def copy_value(s, m, src, dst):
    s.eng.write_obj(s.st, dst, m.vt, s.eng.read_obj(s.st, src, m.vt))


for n, f in dict(find=op_find, count=op_count, contains=op_contains, erase=op_erase, insert=op_insert, emplace=op_emplace, try_emplace=op_emplace, insert_or_assign=op_assign,
                 end=op_end, cend=op_end, begin=op_begin, cbegin=op_begin, clear=op_clear, empty=op_empty, size=op_size, map=op_ctor).items():
    TABLE[('std::map', n)] = model(f)
for n, f in dict(find=op_find, count=op_count, contains=op_contains, end=op_end, cend=op_end, clear=op_clear, empty=op_empty, size=op_size, unordered_map=op_ctor).items():
    TABLE[('std::unordered_map', n)] = model(f)
TABLE[('std::unordered_map', 'at')] = op_at
TABLE[('std::map', 'operator[]')] = model(op_index)
TABLE[('std::map', 'at')] = op_at


# iterators
def it_get(eng, st, args, ins, dem):
    return eng.load_bytes(st, args[0], 8, ins)


def it_inc(eng, st, args, ins, dem):
    p = eng.load_bytes(st, args[0], 8, ins)
    d = parse_dem(dem)
    if not (isinstance(p.r, str) and p.r.startswith('ms:')):
        raise Unsupported('stepping a map iterator')
    q = p.add(eng.region(st, p, ins, 'walk').esz)
    eng.store_bytes(st, args[0], q, 8)
    return args[0] if not d.params or not d.params[0] else p


def it_eq(eng, st, args, ins, dem):
    a, b = (eng.load_bytes(st, x, 8, ins) for x in args)
    ka, kb = (x.r.split(':')[0] if isinstance(x.r, str) else 'new' for x in (a, b))
    if ka == 'mapend' and kb != 'mapend':
        a, b, ka, kb = b, a, kb, ka
    if ka == 'ms' and kb == 'mapend':
        r = eng.region(st, a, ins, 'walk')
        dm = a.o.divmod(r.esz)
        if dm is None or dm[1]:
            raise Unsupported('map iterator')
        v = simplify(dm[0].bv() == r.seq.len)
    elif ka == kb == 'ms':
        v = eng.picmp(st, 'eq', a, b, ins)
    elif 'ms' in (ka, kb) or 'mapnext' in (ka, kb):
        raise Unsupported('map iterators')
    else:
        v = BoolVal(a.r == b.r)
    return simplify(Not(v)) if parse_dem(dem).meth == 'operator!=' else v


for c in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
    for n in ('operator$arrow', 'operator*'):
        TABLE[(c, n)] = it_get
    TABLE[(c, 'operator++')] = it_inc


def eq_hook(eng, st, args, ins, dem):
    if '_Rb_tree_' in parse_dem(dem).params[0]:
        return it_eq(eng, st, args, ins, dem)
    return free_eq(eng, st, args, ins, dem)


FREE[('std', 'operator==')] = FREE[('std', 'operator!=')] = eq_hook
FREE[('std::__detail', 'operator==')] = FREE[('std::__detail', 'operator!=')] = it_eq


def m_make_pair(eng, st, args, ins, dem):
    d = parse_dem(dem)
    ts = [norm_t(t.rstrip('&').replace('const', '').strip()) for t in d.margs]
    sz = [eng.prog.sizeof(t) for t in ts]
    if len(args) != 3 or len(ts) != 2:
        raise Unsupported('make_pair')
    off = (sz[0] + 7) // 8 * 8 if sz[1] >= 8 else sz[0]
    for t, o, a in ((ts[0], 0, args[1]), (ts[1], off, args[2])):
        eng.write_obj(st, args[0].add(o), t, eng.read_obj(st, a, t))
    return None


FREE[('std', 'make_pair')] = m_make_pair


# ------------------------------------------------------------------ comparison of two maps with the same base
def compare(con, eng, pc, bst, sst, bo, so, text, rids):
    if bo.name != so.name:
        con.goal(eng, pc, [BoolVal(False)], 'post', '%s: contents replaced' % text)
        return
    if bo.key() == so.key():
        return
    seen = []

    def same_all(k):
        """one representative of equal sets of keys"""
        if not isinstance(k, All):
            return k
        from .loops import proves_eq
        for x in seen:
            if proves_eq(eng, pc, x.n, k.n) and proves_eq(eng, pc, x.seq, k.seq):
                return x
        seen.append(k)
        return k
    bo, so = (MapObj(m.name, m.kt, m.vt, [(same_all(k), e) for k, e in m.ups]) for m in (bo, so))
    if bo.key() == so.key():
        return
    ks = [k if not isinstance(k, All) else k.seq.at(bv(0)) for k, e in bo.ups + so.ups]
    if any(isinstance(k, Rec) for k in ks):
        # keys are compared as terms
        def fin(m):
            d = {}
            for k, e in m.ups:
                d[key_id_of(k)] = (k, e)
            return d
        B, S = fin(bo), fin(so)
        if set(B) != set(S):
            con.goal(eng, pc, [BoolVal(False)], 'post', '%s: different keys' % text)
            return
        cases = [(BoolVal(True), B[i][1], S[i][1]) for i in sorted(B)]
    elif bo.name is None and all(const_of(k) is not None for k in ks):
        B, S = ({const_of(k): e for k, e in m.ups} for m in (bo, so))
        for k in sorted(set(B) | set(S)):
            if (B.get(k) is None) != (S.get(k) is None):
                con.goal(eng, pc, [BoolVal(False)], 'post', '%s: %s: %d' % (text, 'a key is missing' if B.get(k) is None else 'an unexpected key', k))
        con.goal(eng, pc, [BoolVal(True)], 'post', '%s: the keys' % text)
        cases = [(BoolVal(True), B[k], S[k]) for k in sorted(B) if B[k] is not None and S.get(k) is not None]
    else:
        q = BitVec(fresh_name('key'), ks[0].size())

        def chain(m):
            out = []
            none = BoolVal(True)
            for k, e in reversed(m.ups):
                out.append((simplify(And(none, hit(q, k))), e))
                none = And(none, Not(hit(q, k)))
            out.append((simplify(none), 'base'))
            return out
        has = Function(bo.name + '.has', q.sort(), BoolSort())(q) if bo.name else BoolVal(False)
        cases = []
        for cb, eb in chain(bo):
            for cs, es in chain(so):
                if eb == 'base' and es == 'base':
                    continue
                c = simplify(And(cb, cs))
                if not eng.smt.feasible(pc, c):
                    continue
                if 'base' in (eb, es):
                    x = es if eb == 'base' else eb
                    if x is None:
                        con.goal(eng, pc + [c], [Not(has)], 'post', '%s: a key is missing' % text)
                        continue
                    con.goal(eng, pc + [c], [BoolVal(False)], 'post', '%s: a key was added or overwritten' % text)
                    continue
                cases.append((c, eb, es))
    for c, eb, es in cases:
        if (eb is None) != (es is None):
            con.goal(eng, pc + [c], [BoolVal(False)], 'post', '%s: %s' % (text, 'a key is missing' if eb is None else 'an unexpected key'))
        elif eb is not None and es is not ANY and eb.key() != es.key():
            off = value_off(eng, bo)
            con.cmp_val(eng, pc + [c], bst, sst, eng.load_bytes(bst, eb.add(off), 8), eng.load_bytes(sst, es.add(off), 8), '%s: value' % text, rids)
