"""JSON documents as the program reads and writes them (cJSON calls)."""
from model import *
from absint import *
import names

ADD = {'cJSON_AddNumberToObject': 'number', 'cJSON_AddBoolToObject': 'bool',
       'cJSON_AddStringToObject': 'string'}
IS = {'cJSON_IsNumber': ('number',), 'cJSON_IsBool': ('bool',),
      'cJSON_IsString': ('string',), 'cJSON_IsObject': ('object',),
      'cJSON_IsArray': ('array',), 'cJSON_IsTrue': (), 'cJSON_IsFalse': (),
      'cJSON_IsNull': (), 'cJSON_IsInvalid': ()}
CREATE = {'cJSON_CreateNumber': 'number', 'cJSON_CreateBool': 'bool',
          'cJSON_CreateString': 'string'}
VALUE = ('cJSON_GetNumberValue', 'cJSON_GetStringValue', 'cJSON_IsTrue')
GET = ('cJSON_GetObjectItem', 'cJSON_GetObjectItemCaseSensitive')


def strip(t):
    """value without casts that keep it"""
    while isinstance(t, T) and t.k == 'cast':
        t = t.a[1]
    return t


def leaves(g, t, seen=None):
    seen = set() if seen is None else seen
    t = strip(t)
    if t in seen:
        return set()
    seen.add(t)
    if t.k == 'phi' and t.a[0] in g.phi and g.phi[t.a[0]].get('inc'):
        o = set()
        for v, _ in g.phi[t.a[0]]['inc']:
            o |= leaves(g, v, seen)
        return o
    if t.k == 'sel':
        return leaves(g, t.a[1], seen) | leaves(g, t.a[2], seen)
    return {t}


class Writer:
    """objects built by an exporting function"""

    def __init__(self, g):
        self.g = g
        self.fmt = {}            # buffer term -> format literals
        self.fmtargs = {}        # buffer term -> values printed
        self.up = {}             # object -> [(parent, key, node)]
        self.adds = []           # (node, object, key, kind, value)
        for n in g.nodes:
            if n.kind != 'call':
                continue
            f = n.a[0]
            if f in ('snprintf', 'sprintf'):
                lit = [x for x in n.a[2:4] if x.k == 'str']
                if lit:
                    self.fmtargs.setdefault(base(n.a[1]), []).append(
                        n.a[list(n.a).index(lit[0]) + 1:])
                    self.fmt.setdefault(base(n.a[1]), set()).add(
                        lit[0].a[0].split('\0')[0])
        for n in g.nodes:
            if n.kind != 'call':
                continue
            f = n.a[0]
            if f in ADD:
                for o in leaves(g, n.a[1]):
                    self.adds.append((n, o, self.key(n.a[2]), ADD[f], n.a[3]))
            elif f == 'cJSON_AddItemToObject':
                for p in leaves(g, n.a[1]):
                    for c in leaves(g, n.a[3]):
                        if c.k == 'call' and c.a[1] in CREATE:
                            self.adds.append((n, p, self.key(n.a[2]),
                                              CREATE[c.a[1]], c.a[2]))
                    for c in self.objects(n.a[3]):
                        self.up.setdefault(c, []).append(
                            (p, self.key(n.a[2]), n))
            elif f == 'cJSON_AddItemToArray':
                for p in leaves(g, n.a[1]):
                    for c in self.objects(n.a[2]):
                        self.up.setdefault(c, []).append((p, '[]', n))
            elif f in ('cJSON_AddObjectToObject', 'cJSON_AddArrayToObject'):
                for p in leaves(g, n.a[1]):
                    if n.res is not None:
                        self.up.setdefault(n.res, []).append(
                            (p, self.key(n.a[2]), n))

    def key(self, t):
        if t.k == 'str':
            return t.a[0].split('\0')[0]
        f = self.fmt.get(base(t))
        if f and len(f) == 1:
            return next(iter(f))
        return '?'

    def objects(self, t):
        """objects that a value stands for (through print and parse)"""
        out = set()
        for x in leaves(self.g, t):
            if x.k == 'call' and x.a[1] == 'cJSON_Parse':
                for y in leaves(self.g, x.a[2]):
                    if y.k == 'call' and y.a[1] in ('cJSON_Print',
                                                    'cJSON_PrintUnformatted'):
                        out |= self.objects(y.a[2])
                    elif y.k not in ('null', 'c'):
                        out.add(y)
            else:
                out.add(x)
        return out

    def paths(self, o, seen=()):
        """[(key path, nodes)] of an object"""
        if o in seen:
            return []
        ps = self.up.get(o)
        if not ps:
            return [((), ())]
        out = []
        for p, k, n in ps:
            for q, ns in self.paths(p, seen + (o,)):
                out.append((q + (k,), ns + (n,)))
        return out

    def items(self):
        """[(path, kind, value, nodes)]"""
        out = []
        for n, o, k, kind, v in self.adds:
            for q, ns in self.paths(o):
                out.append((q + (k,), kind, v, ns + (n,)))
        return out


def base(t):
    while isinstance(t, T) and t.k in ('idx', 'cast', 'fld'):
        t = t.a[0] if t.k != 'cast' else t.a[1]
    return t


def isjson(t, field=None):
    return t.k == 'ld' and t.a[0].k == 'fld' and t.a[0].a[1] == 'cJSON' and \
        (field is None or t.a[0].a[2] == field)


class Reader:
    """Tokens of an importing function.  hyp is a hypothesised key path: the
    iterated token at each depth has that key."""

    def __init__(self, g, hyp, kind=None, members=None, calls=None, roots=()):
        self.g = g
        self.hyp = hyp
        self.kind = kind
        self.members = members or {}
        self.calls = calls or {}
        self.roots = roots
        self.tmemo = {}
        self.live = Live(g, self.hook)

    def where(self, x):
        """path of a token under the hypothesis, or None"""
        if x in self.tmemo:
            return self.tmemo[x]
        self.tmemo[x] = None
        r = self._where(x)
        self.tmemo[x] = r
        return r

    def _where(self, x):
        x = strip(x)
        if x in self.roots:
            return ()
        if x.k == 'call' and x.a[1] == 'cJSON_Parse':
            return ()
        if x.k == 'call' and x.a[1] in GET:
            p = self.where(x.a[2])
            if p is None:
                return None
            return p + (x.a[3].a[0].split('\0')[0]
                        if x.a[3].k == 'str' else '?',)
        if isjson(x, 'child'):
            p = self.where(x.a[0].a[0])
            if p is None:
                return None
            return p + (self.hyp[len(p)] if len(p) < len(self.hyp)
                        and tuple(p) == tuple(self.hyp[:len(p)]) else '?',)
        if isjson(x, 'next'):
            return self.where(x.a[0].a[0])
        if x.k == 'phi' and x.a[0] in self.g.phi:
            for v, _ in self.g.phi[x.a[0]].get('inc') or ():
                r = self.where(v)
                if r is not None:
                    return r
        return None

    def hook(self, L, t):
        if t.k == 'ld' and t.a[0].k == 'fld':
            f = t.a[0]
            if f.a[1] == 'cJSON' and f.a[2] == 'string':
                w = self.where(f.a[0])
                if w and len(w) <= len(self.hyp) and \
                        tuple(w) == tuple(self.hyp[:len(w)]):
                    return w[-1]
                return None
            return self.members.get((f.a[1], f.a[2]))
        if t.k == 'call':
            if t.a[1] in IS and self.kind is not None:
                w = self.where(t.a[2])
                if w is not None and tuple(w) == tuple(self.hyp):
                    return int(self.kind in IS[t.a[1]])
                if w is not None and tuple(w) == tuple(self.hyp[:len(w)]):
                    return int('object' in IS[t.a[1]])
                return None
            if t.a[1] in self.calls:
                return self.calls[t.a[1]]
        return None

    def values(self):
        """[(store or call node, token, member)] that move a token's value
        at the hypothesised path"""
        out = []
        for n in self.live.nodes:
            if n.kind == 'store':
                vals = [n.a[1]]
            elif n.kind == 'call' and not n.a[0].startswith('cJSON') and \
                    n.a[0] in STRCOPY:
                vals = list(n.a[2:])
            else:
                continue
            for v in vals:
                for q in subterms(v):
                    if isjson(q) and q.a[0].a[2] in (
                            'valuedouble', 'valueint', 'valuestring', 'type'):
                        w = self.where(q.a[0].a[0])
                        if w is not None and tuple(w) == tuple(self.hyp):
                            out.append((n, q))
                    elif q.k == 'call' and q.a[1] in VALUE:
                        w = self.where(q.a[2])
                        if w is not None and tuple(w) == tuple(self.hyp):
                            out.append((n, q))
        return out


def tokenfield(q):
    """member of a token that a term reads"""
    if q.k == 'call':
        return {'cJSON_GetNumberValue': 'valuedouble',
                'cJSON_GetStringValue': 'valuestring',
                'cJSON_IsTrue': 'istrue'}[q.a[1]]
    return q.a[0].a[2]


def tokenof(q):
    return q.a[2] if q.k == 'call' else q.a[0].a[0]


def istoken(q):
    return isjson(q) and q.a[0].a[2] in (
        'valuedouble', 'valueint', 'valuestring', 'type') or \
        q.k == 'call' and q.a[1] in VALUE


STRCOPY = ('strncpy', 'strcpy', 'snprintf', 'sprintf', 'memcpy', 'strdup',
           'strncat', 'strcat')


def memberpath(a):
    """('XCSF.cond', 'ArgsCond.eta') for xcsf->cond->eta; the base that is not
    a chain of members comes first"""
    out = []
    while True:
        a = strip(a)
        if a.k == 'fld':
            out.append('%s.%s' % (a.a[1], a.a[2]))
            a = a.a[0]
        elif a.k == 'ld':
            a = a.a[0]
        elif a.k == 'idx':
            out.append('[]')
            a = a.a[0]
        else:
            return a, tuple(reversed(out))
