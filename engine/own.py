"""Ownership rules on inlined operations: who releases a block, when a member
may be overwritten, what may be unlinked.  Addresses are compared both raw
(same computation) and canonical (same access path)."""
from typestate import *
from effects import star

LISTS = {'Clist': ('next',), 'Llist': ('next', 'prev'),
         'ArgsLayer': ('next',)}
OWNERS = {'pset', 'prev_pset', 'kset'}
SETS = OWNERS | {'mset', 'aset', 'prev_aset'}
TRIAL = {'xcs_rl_exp', 'xcs_rl_fit', 'xcs_supervised_fit',
         'xcs_supervised_predict', 'xcs_supervised_score',
         'xcs_supervised_score_n'}
OPS = '''xcsf_load xcsf_ae_to_classifier xcsf_pred_expand xcsf_store_pset
 xcsf_retrieve_pset param_load param_json_import param_set_population_file
 action_param_load cond_param_load pred_param_load ea_param_load
 act_neural_param_json_import cond_neural_param_json_import
 pred_neural_param_json_import cond_gp_param_json_import
 cond_dgp_param_json_import action_param_json_import cond_param_json_import
 pred_param_json_import tree_args_load tree_args_init_constants
 graph_args_load layer_args_load cl_crossover cl_mutate cl_cover
 cl_update cl_predict clset_add clset_match clset_update
 clset_validate clset_action clset_json_insert clset_json_insert_cl
 clset_pset_enforce_limit clset_pset_init ea graph_mutate graph_rand
 layer_add_neurons
 layer_mutate_neurons layer_mutate_connectivity neural_insert neural_push
 neural_remove neural_pop neural_mutate neural_resize neural_rand neural_learn
 neural_propagate tree_mutate tree_crossover xcs_rl_exp xcs_rl_fit
 xcs_rl_end_step xcs_rl_update xcs_rl_decision xcs_rl_error
 xcs_supervised_fit xcs_supervised_predict xcs_supervised_score
 xcs_supervised_score_n pred_neural_expand
 pred_neural_ae_to_classifier'''.split()


def setfield(t):
    """XCSF set that owns the list whose head is stored at canonical t"""
    if t.k == 'fld' and t.a[1:] == ('Set', 'list') and t.a[0].k == 'fld' and \
            t.a[0].a[1] == 'XCSF':
        return t.a[0].a[2]
    return None


def owning(prog):
    """(struct, member) pairs that receive or release heap blocks"""
    own = set()
    for f, fn in sorted(prog.funcs.items()):
        if not prog_own(fn):
            continue
        g = Expander(prog, opaque=lambda q: True).expand(f)
        for n in g.nodes:
            if n.kind == 'store' and n.a[0].k == 'fld':
                v = n.a[1]
                if v.k == 'call' and v.a[1] in ALLOC:
                    own.add(n.a[0].a[1:])
            elif n.kind == 'call' and n.a[0] in ('free', 'realloc'):
                v = n.a[1]
                if v.k == 'ld' and v.a[0].k == 'fld':
                    own.add(v.a[0].a[1:])
    return own


class Own:
    def __init__(self, prog, f, own, only=None):
        self.prog, self.f = prog, f
        self.g = Expander(prog).expand(f)
        self.cn = Canon(self.g)
        self.fl = Flow(self.g)
        self.own = own
        self.only = only          # Layer members this type owns
        self.pb = phis_by_block(self.g)
        self.out = []
        self.n = 0
        g = self.g
        self.free = [(n, n.a[1]) for n in g.nodes
                     if n.kind == 'call' and n.a[0] in ('free', 'realloc') and
                     n.a[1] is not NULL]
        self.stores = [(n, n.a[0], n.a[1]) for n in g.nodes
                       if n.kind == 'store']
        for n in g.nodes:
            if n.kind == 'call' and n.a[0] in ('memcpy', 'memmove'):
                self.stores += self.struct(n)
        self.at = {}
        for n, a, v in self.stores:
            self.at.setdefault(n, []).append((a, v))
        self.live = reach_bwd([g.exit]) if g.exit is not None else set()
        self.defs = {}
        for key, ps in self.pb.items():
            for p in ps:
                self.defs[p] = key

    def struct(self, n):
        """member stores of a structure assignment"""
        d, s, z = n.a[1], n.a[2], n.a[3]
        if z.k != 'c':
            return []
        nm = None
        for t in (d, s):
            if t.k == 'fld':
                ty = self.prog.field_type(t.a[1], t.a[2])
                if isinstance(ty, tuple) and ty[0] == 'struct':
                    nm = ty[1]
        if nm not in self.prog.fieldnames or \
                self.prog.sizeof(('named', nm)) != z.a[0]:
            return []
        out = []

        def rec(S, d, s):
            for f in self.prog.fieldnames[S]:
                t = self.prog.field_type(S, f)
                a, b = mk('fld', d, S, f), mk('fld', s, S, f)
                if isinstance(t, tuple) and t[0] == 'struct' and \
                        t[1] in self.prog.fieldnames:
                    rec(t[1], a, b)
                else:
                    out.append((n, a, mk('ld', b)))
        rec(nm, d, s)
        return out

    # --- path queries -----------------------------------------------------
    def redef(self, x):
        """blocks that give a loop variable of x a new value"""
        return {self.defs[t] for t in subterms(x)
                if t.k == 'phi' and t in self.defs}

    def _isdef(self, n, keys):
        return n.kind == 'bb' and (n.a[0], n.a[1], n.stack) in keys

    def after(self, n, ev, x):
        """every continuing path from n passes ev before x changes"""
        keys = self.redef(x)
        seen, work = set(), [s for s, _ in n.succ]
        while work:
            m = work.pop()
            if m in seen or m not in self.live:
                continue
            seen.add(m)
            if m in ev:
                continue
            if m is self.g.exit or self._isdef(m, keys):
                return False
            work.extend(s for s, _ in m.succ)
        return True

    def before(self, n, ev, x):
        keys = self.redef(x)
        seen, work = set(), [n]
        while work:
            m = work.pop()
            if m in seen:
                continue
            seen.add(m)
            if m is not n and m in ev:
                continue
            if m is self.g.entry or (m is not n and self._isdef(m, keys)):
                return False
            work.extend(p for p, _ in m.pred)
        return True

    def near(self, n, ev, x):
        ev = set(ev) - {n}
        return bool(ev) and (self.before(n, ev, x) or self.after(n, ev, x))

    def fresh(self, t):
        b = bases(t)
        return any(x.k == 'alloca' or (x.k == 'call' and x.a[1] in ALLOC)
                   for x in self.fl.leaves(b))

    def bad(self, kind, key, msg):
        self.out.append((kind, key, msg))

    # --- rules ------------------------------------------------------------
    def isown(self, a):
        if a.k != 'fld' or a.a[1:] not in self.own:
            return False
        if a.a[1] == 'Layer' and self.only is not None and \
                bases(a.a[0]).k == 'arg' and a.a[2] not in self.only:
            return False
        return True

    def settled(self, init):
        cn, g = self.cn, self.g

        def holder(v):
            c = cn(v)
            return c.a[0] if c.k == 'ld' else None

        def tr(n, s):
            if n.kind == 'call' and n.a[0] in ('free', 'realloc'):
                h = holder(n.a[1])
                if h is not None:
                    s = s | {h}
            for a, v in self.at.get(n, ()):
                c = cn(a)
                h = holder(v) if v.k != 'call' else None
                if h is not None and h is not c and a.k != 'alloca':
                    s = s | {h}
                if a.k == 'fld':
                    if v is NULL:
                        s = s | {c}
                    elif h is not c and not (self.islink(a)):
                        s = s - {c}
            return s

        def edge(n, t, cd, s):
            if cd is not None:
                c, pol = cd
                if c.k == 'cmp' and c.a[0] in ('eq', 'ne') and \
                        c.a[2] is NULL and (c.a[0] == 'eq') == pol:
                    h = holder(c.a[1])
                    if h is not None:
                        s = s | {h}
                z = c.a[1].a[0] if c.k == 'cmp' and c.a[1].k == 'ld' else None
                if z is not None and z.k == 'fld' and \
                        z.a[1:] == ('Set', 'size') and c.a[2].k == 'c':
                    op = c.a[0] if pol else NEG.get(c.a[0])
                    k = c.a[2].a[0]
                    if (op, k) in (('eq', 0), ('sle', 0), ('slt', 1)):
                        s = s | {cn(mk('fld', z.a[0], 'Set', 'list'))}
            return s
        return forward(g, frozenset(init), tr, lambda a, b: a & b, edge)

    def islink(self, a):
        return a.k == 'fld' and a.a[1] in LISTS and a.a[2] in LISTS[a.a[1]]

    def overwritten(self):
        """an owning member is overwritten only after its block was released,
        passed on or known to be absent"""
        cn, g = self.cn, self.g
        x0 = mk('arg', 0)
        init = set()
        if self.f in TRIAL:
            for s in ('mset', 'aset', 'prev_aset', 'kset'):
                init.add(mk('fld', mk('fld', x0, 'XCSF', s), 'Set', 'list'))
            init.add(mk('fld', x0, 'XCSF', 'prev_state'))
        elif self.f in ('clset_json_insert', 'clset_json_insert_cl',
                        'clset_pset_init', 'xcsf_load'):
            init.add(mk('fld', mk('fld', x0, 'XCSF', 'kset'), 'Set', 'list'))
        st = self.settled(init)
        for n, a, v in self.stores:
            if not self.isown(a) or self.islink(a) or n not in self.live or \
                    a.a[1] in ('Net', 'Llist', 'Clist'):
                continue
            if self.fresh(a):
                continue
            c = cn(a)
            lv = {cn(x) for x in self.fl.leaves(v) if x.k != 'call'}
            if mk('ld', c) in lv:      # relinked list / same block
                continue
            if any(x.k == 'call' and x.a[1] == 'realloc' or
                   x.k == 'ld' and self.islink(x.a[0])
                   for x in self.fl.leaves(v)):
                continue
            self.n += 1
            if st[n] is not None and c in st[n]:
                continue
            old = mk('ld', c)
            ev = {m for m, x in self.free if cn(x) is old and m is not n}
            if ev and self.after(n, ev, a):
                continue
            self.bad('replaced', '%s:%s:replaced' % (self.f, c),
                     "%s overwrites %s at %s although the block it holds is "
                     "not released on some path" % (self.f, c, n.loc))
        if self.f in TRIAL and g.exit is not None:
            for c in sorted(init, key=str):
                self.n += 1
                if st[g.exit] is not None and c not in st[g.exit]:
                    self.bad('trial', '%s:%s:trial-end' % (self.f, c),
                             "%s returns without releasing %s on some path" %
                             (self.f, c))

    def duplicated(self):
        """a block has one owner: a pointer copied from one owning member to
        another is removed from the first"""
        cn = self.cn
        for n, a, v in self.stores:
            if not self.isown(a) or self.islink(a) or n not in self.live or \
                    a.a[1] in ('Net', 'Llist', 'Clist') or v is NULL:
                continue
            if v.k != 'ld' or not self.isown(v.a[0]) or self.fresh(v.a[0]):
                continue
            src, dst = cn(v.a[0]), cn(a)
            if src is dst or setfield(src) == 'aset' or \
                    bases(a).k == 'alloca':
                continue
            if self.islink(v.a[0]):
                continue
            self.n += 1
            ev = {m for m, b, _ in self.stores if m is not n and
                  cn(b) in (src, dst)}
            ev |= {m for m, x in self.free if x is bases(v.a[0]) or
                   x is v}
            if not self.after(n, ev, a) and not self.before(
                    n, {m for m, b, _ in self.stores if m is not n and
                        b is v.a[0]}, v):
                self.bad('shared', '%s:%s:%s:shared' % (self.f, dst, src),
                         "%s leaves %s and %s owning the same block (%s)" % (
                             self.f, dst, src, n.loc))

    def nodetype(self, x):
        for t in self.fl.leaves(x):
            if t.k == 'ld' and t.a[0].k == 'fld':
                ty = self.prog.field_type(t.a[0].a[1], t.a[0].a[2])
                if isinstance(ty, tuple) and ty[0] == 'ptr':
                    s = ty[1][1] if isinstance(ty[1], tuple) else ty[1]
                    if s in LISTS:
                        return s
        for n in self.g.nodes:
            if n.kind in ('load', 'store') and n.a[0].k == 'fld' and \
                    n.a[0].a[0] is x and n.a[0].a[1] in LISTS:
                return n.a[0].a[1]
        return None

    def bypassed(self):
        """a list node that is taken out of its list is released"""
        for n, a, v in self.stores:
            if n not in self.live or a.k == 'alloca' or \
                    v.k != 'ld' or not self.islink(v.a[0]):
                continue
            x = v.a[0].a[0]
            if self.fresh(a) or bases(a) is x or self.fresh(v.a[0]):
                continue
            if a.k == 'fld' and not (self.islink(a) or self.isown(a) or
                                     a.a[1:] in (('Net', 'tail'),
                                                 ('Net', 'head'))):
                continue
            self.n += 1
            ev = [m for m, y in self.free if y is x or (
                self.cn(y) is self.cn(x) and x in self.fl.leaves(y))]
            if not self.near(n, ev, x):
                self.bad('unlinked', '%s:%s:unlinked' % (
                    n.fn.name, self.cn(a)),
                    "%s takes a node out of the list at %s without releasing "
                    "it on every path" % (self.f, n.loc))

    def heads(self):
        """releasing a list node must not lose the rest of the list; releasing
        a node of a network releases its layer; releasing a layer releases
        the layer's members first"""
        for n, x in self.free:
            if n not in self.live or n.a[0] != 'free':
                continue
            if any(t.k == 'call' and t.a[1] in ALLOC
                   for t in self.fl.leaves(x)):
                continue
            s = self.nodetype(x)
            if s:
                self.n += 1
                ev = {m for m in self.g.nodes if m.kind == 'load' and
                      m.a[0].k == 'fld' and m.a[0].a[0] is x and
                      m.a[0].a[1] == s and m.a[0].a[2] in LISTS[s]}
                if not ev or not self.before(n, ev, x):
                    self.bad('rest', '%s:%s:rest' % (n.fn.name, s),
                             "%s releases a %s node at %s without keeping the "
                             "rest of its list" % (self.f, s, n.loc))
            if s == 'Llist':
                y = mk('ld', mk('fld', x, 'Llist', 'layer'))
                ev = [m for m, z in self.free if z is y]
                self.n += 1
                if not self.near(n, ev, x):
                    self.bad('layer', '%s:layer' % n.fn.name,
                             "%s releases a network node at %s without "
                             "releasing its layer" % (self.f, n.loc))
            if x.k == 'ld' and x.a[0].k == 'fld' and self.islayer(x.a[0]):
                ev = {m for m in self.g.nodes if m.kind == 'vcall' and
                      m.a[0] == 'LayerVtbl.layer_impl_free' and m.a[1] is x}
                self.n += 1
                if not ev or not self.before(n, ev, x):
                    self.bad('members', '%s:%s:members' % (
                        n.fn.name, self.cn(x)),
                        "%s releases a layer at %s without releasing its "
                        "members" % (self.f, n.loc))

    def islayer(self, a):
        ty = self.prog.field_type(a.a[1], a.a[2])
        return isinstance(ty, tuple) and ty[0] == 'ptr' and \
            ty[1] in ('Layer', ('struct', 'Layer'))

    def dangling(self):
        """an object that lives on does not keep a released pointer"""
        for n, x in self.free:
            if n not in self.live or n.a[0] != 'free' or x.k != 'ld' or \
                    x.a[0].k != 'fld':
                continue
            a = x.a[0]
            if self.fresh(a) or (self.f in TRIAL and
                                 a.a[1:] == ('XCSF', 'prev_state')):
                continue
            self.n += 1
            b = bases(a)
            ev = [m for m, y, _ in self.stores if y is a or
                  (self.cn(y) is self.cn(a) and b.k != 'phi')]
            ev += [m for m, y in self.free if y is b]
            if not self.near(n, ev, x):
                self.bad('dangling', '%s:%s:dangling' % (self.f, self.cn(a)),
                         "%s keeps %s after releasing it at %s" % (
                             self.f, self.cn(a), n.loc))

    def handed(self):
        """a classifier is handed to the kill set once, and is not released
        besides"""
        g, cn = self.g, self.cn
        hand = {}
        for n, a, v in self.stores:
            if a.k == 'fld' and a.a[1:] == ('Clist', 'cl') and v.k != 'null':
                c = cn(a.a[0])
                if c.k == 'ld' and setfield(c.a[0]) == 'kset' and \
                        self.fresh(a):
                    hand[n] = v
        if not hand:
            return
        self.n += 1
        seen = set()

        def tr(n, s):
            if n.kind == 'bb':
                ps = self.pb.get((n.a[0], n.a[1], n.stack))
                if ps and s:
                    s = frozenset(x for x in s if not any(
                        contains(x, p) for p in ps))
            elif n in hand:
                if hand[n] in s and n not in seen:
                    seen.add(n)
                    self.bad('handed', '%s:handed-twice' % self.f,
                             "%s adds a classifier to the kill set twice "
                             "(%s)" % (self.f, n.loc))
                s = s | {hand[n]}
            elif n.kind == 'store' and s:
                l = mk('ld', n.a[0])
                s = frozenset(x for x in s if not contains(x, l))
            elif n.kind == 'call' and n.a[0] == 'free' and n.a[1] in s and \
                    n not in seen:
                seen.add(n)
                self.bad('handed', '%s:handed-freed' % self.f,
                         "%s releases a classifier that it handed to the "
                         "kill set (%s)" % (self.f, n.loc))
            return s
        forward(g, frozenset(), tr, lambda a, b: a | b)

    def cleared(self):
        """sets that own their classifiers release them with the list, other
        sets never do"""
        g, cn = self.g, self.cn
        gen = {}
        for n, x in self.free:
            if n.a[0] == 'free':
                gen.setdefault(n, set()).add(cn(x))
        for L in loops(g):
            mine = {}
            for n in L.nodes:
                for c in gen.get(n, ()):
                    if c.k == 'ld' and setfield(c.a[0]) in SETS:
                        mine.setdefault(c, set()).add(n)
            if not mine:
                continue
            must = iter_must(g, L, gen, self.live)
            for c in mine:
                s = setfield(c.a[0])
                cl = mk('ld', mk('fld', c, 'Clist', 'cl'))
                may = any(cl in gen.get(n, ()) for n in L.nodes)
                if c in must and s in OWNERS:
                    self.n += 1
                    if cl not in must:
                        self.bad('kill', '%s:%s:kill' % (self.f, s),
                                 "%s clears %s without releasing its "
                                 "classifiers" % (self.f, s))
                elif s not in OWNERS:
                    self.n += 1
                    if may:
                        self.bad('keep', '%s:%s:keep' % (self.f, s),
                                 "%s releases classifiers of %s, which the "
                                 "population still holds" % (self.f, s))


def iter_must(g, L, gen, live):
    """facts generated on every iteration of L"""
    val = {L.header: set(gen.get(L.header, ()))}
    order = [n for n in rpo(g) if n in L.nodes]
    ch = True
    while ch:
        ch = False
        for n in order:
            if n is L.header:
                continue
            ins = None
            for p, _ in n.pred:
                if p in val and p in L.nodes:
                    ins = set(val[p]) if ins is None else ins & val[p]
            if ins is None:
                continue
            o = ins | gen.get(n, set())
            if val.get(n) != o:
                val[n] = o
                ch = True
    res = None
    for b in L.nodes:
        if b in val and b in live and any(s is L.header for s, _ in b.succ):
            res = set(val[b]) if res is None else res & val[b]
    return res or set()
