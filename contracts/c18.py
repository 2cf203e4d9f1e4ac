"""C18: contracts on sensor trees, from any state of their invariant."""
from .common import *          # noqa

MODULES = ['core', 'sensortree']
UNDER_CONTRACT = ['sensortree.GenericSensorTree.' + m for m in ('__init__', 'update', '_add_sensor', '_remove_sensor', 'add_links', 'remove_links', 'children', 'parents', '__contains__')] + \
    ['sensortree.BooleanSensorTree.' + m for m in ('__init__', 'add', 'remove', 'recalculate')] + \
    ['sensortree.AggregateSensorTree.' + m for m in ('__init__', 'add', 'add_delayed', 'register_sensor', 'deregister_sensor', 'remove', 'fetch', 'recalculate')]
ASSUMPTIONS = ['sensors tell their observers of every value set (contract of Sensor: C09)', 'links make no cycle (nor do names, by registration); each sensor is told about by value only where it has no children',
               'rules do not raise and do not change the tree', 'parents of a parent get their values by the same contract (induction over the height)']

SRC = '''
class S(object):
    def __init__(self, name, v, stype):
        self.name, self.v, self.stype = name, v, stype
        self.observers, self.sets = [], 0
    def value(self):
        return self.v
    def read(self):
        return (0, 1, self.v)
    def status(self):
        return 1
    def set_value(self, v, *a, **k):
        self.v = v
        self.sets += 1
        for o in list(self.observers):
            self.tell(o, self)
    def set(self, t, s, v):
        self.set_value(v)
    def attach(self, o):
        if o not in self.observers:
            self.observers.append(o)
    def detach(self, o):
        if o in self.observers:
            self.observers.remove(o)
class G(Base):
    def recalculate(self, parent, updates):
        calls.append((parent, list(updates)))
'''


def no(*a):
    raise Unsupported('a sensor the operation is not about')


class Tree(object):
    """a tree of any number of sensors, any state of its invariant; the sensors an operation is about are known"""

    def __init__(self, cx, cls='BooleanSensorTree'):
        self.cx, ip = cx, cx.interp
        self.ip = ip
        self.calls = []
        self.ns = run_src(ip, SRC, Base=ip.get('katcp.sensortree:GenericSensorTree'), calls=self.calls)
        self.boolean = cls == 'BooleanSensorTree'
        self.tree = ip.call(self.ns['G'] if cls == 'G' else ip.get('katcp.sensortree:' + cls), [])
        need(self.tree, '_parent_to_children', '_child_to_parents', *(['_parent_to_not_ok'] if self.boolean else []))
        self.maps = [unknown_dict([], no, no) for _ in range(3 if self.boolean else 2)]
        for m, a in zip(self.maps, ('_parent_to_children', '_child_to_parents', '_parent_to_not_ok')):
            if not isinstance(self.tree.attrs[a], IDict):
                raise Unsupported('representation changed: %s' % a)
            self.tree.attrs[a] = m
        self.known = []

    def sensor(self, name, intree, stype='boolean'):
        cx = self.cx
        s = self.ip.call(self.ns['S'], [name, cx.bool(name) if stype == 'boolean' else cx.int(name), stype])
        s.attrs['tell'] = self.ip.lib.N(lambda o, x: None, 'tell')
        s.label, s.kids, s.pars, s.was = name, [], [], intree
        s.okids = s.opars = s.obad = z3.IntVal(0)
        s.stale = None
        if intree:
            s.okids, s.opars, s.obad = [cx.int(cx.name(name + w)).t for w in ('_children', '_parents', '_bad')]
            cx.assume(z3.And(s.okids >= 0, s.opars >= 0, s.obad >= 0, s.obad <= s.okids))
            s.attrs['observers'].append(self.tree)
        self.known.append(s)
        return s

    def link(self, p, c):
        p.kids.append(c)
        c.pars.append(p)

    def build(self, only=None, changed=None):
        """the tables that say so; changed: the sensor whose value just changed (parents do not know yet)"""
        cx = self.cx
        for s in self.known if only is None else only:
            if not s.was:
                for m in self.maps:
                    m.excluded.append(s)
                continue
            cx.assume(s.okids + s.opars + len(s.kids) + len(s.pars) > 0)
            bad = []
            for c in s.kids:
                if c is changed:
                    b = cx.pick('known to be bad', [True, False])
                else:
                    b = not cx.branch(t(c.attrs['v']))
                if b:
                    bad.append(c)
            for m, elems, o in zip(self.maps, (s.kids, s.pars, bad), (s.okids, s.opars, s.obad)):
                u = unknown_set(list(elems), getattr(s, 'fresh', no) if elems is s.pars else no)
                u.excluded = [x for x in self.known if not any(x is e for e in elems)]
                u.size = o + len(elems)
                m.items.append([s, u])
            if self.boolean:
                n = s.okids + len(s.kids)
                cx.assume(z3.Implies(n > 0, t(s.attrs['v']) == (s.obad + len(bad) == 0)))
        for s in self.known:
            s.before = [self.entry(m, s) for m in self.maps]

    def entry(self, m, s):
        for it in m.items:
            if it[0] is s:
                return it[1]

    def check(self, why, sensors=None):
        cx = self.cx
        for s in sensors or self.known:
            es = [self.entry(m, s) for m in self.maps]
            info = (why, s.label)
            inn = es[0] is not None
            if not inn and es[-1] is not None and self.boolean:
                raise Unsupported('representation changed: tables keep sensors without links')
            cx.prove('a sensor is in all tables or in none', all((e is not None) == inn for e in es), info=info)
            n = s.okids + s.opars + len(s.kids) + len(s.pars)
            cx.prove('the tree holds exactly the sensors that have links', z3.BoolVal(inn) == (n > 0), info=info)
            cx.prove('and listens to exactly these', sum(1 for o in s.attrs['observers'] if o is self.tree) == (1 if inn else 0), info=info)
            if not inn:
                continue
            for e, want, o, what in ((es[0], s.kids, s.okids, 'children'), (es[1], s.pars, s.opars, 'parents')):
                elems = self.ip.items_of(e) if e.rest is None else e.elems
                size = e.size if e.size is not None else len(elems)
                cx.prove('parents and children mirror each other', len(elems) == len(want) and all(any(x is w for x in elems) for w in want), info=info + (what,))
                cx.prove('no other link changes', size == o + len(want), info=info + (what,))
            if not self.boolean:
                continue
            bad = s.obad
            for c in s.kids:
                cx.prove('a parent knows which of its children are not true', z3.Not(cx.zb(t(c.attrs['v']))) == z3.BoolVal(any(x is c for x in es[2].elems)), info=info)
                bad = bad + z3.If(cx.zb(t(c.attrs['v'])), 0, 1)
            cx.prove('and only of its children', all(any(x is c for c in s.kids) for x in es[2].elems), info=info)
            size = es[2].size if es[2].size is not None else len(es[2].elems)
            cx.prove('no other link changes', size == s.obad + len(es[2].elems), info=info + ('bad',))
            v = s.attrs['v']
            cx.prove('a parent is true exactly when all its children are', z3.Implies(s.okids + len(s.kids) > 0, cx.zb(t(v)) == (bad == 0)), info=info)

    def m(self, name, *a):
        return attempt(self.ip, self.ip.getattr(self.tree, name), *a)


def pair(cx, t_, types=True):
    """a parent and a child, in the tree or not, linked or not"""
    p = t_.sensor('p', cx.pick('parent', ['in the tree', 'new']) == 'in the tree')
    c = t_.sensor('c', cx.pick('child', ['in the tree', 'new']) == 'in the tree')
    linked = p.was and c.was and cx.pick('linked', ['yes', 'no']) == 'yes'
    if linked:
        t_.link(p, c)
    t_.build()
    return p, c, linked


def c_new(cx):
    t_ = Tree(cx)
    ip = t_.ip
    for cls in ('GenericSensorTree', 'BooleanSensorTree', 'AggregateSensorTree'):
        tr = ip.call(ip.get('katcp.sensortree:' + cls), [])
        s = t_.sensor('s', False)
        cx.prove('a new tree is empty', ip.contains(tr, s) is False if hasattr(ip, 'contains') else not ip.truth(ip.call(ip.getattr(tr, '__contains__'), [s])))
        for f in ('children', 'parents'):
            st, x = attempt(ip, ip.getattr(tr, f), s)
            cx.prove('sensors that are not in the tree have no place in it', st == 'raise' and ename(x) == 'ValueError')


def c_add(cx):
    t_ = Tree(cx)
    p, c, linked = pair(cx, t_)
    odd = None
    if not p.was or not c.was:
        odd = cx.pick('types', [None] + (['parent'] if not p.was else []) + (['child'] if not c.was else []))
        if odd:
            {'parent': p, 'child': c}[odd].attrs['stype'] = 'integer'
    st, x = t_.m('add', p, c)
    if odd:
        cx.prove('only boolean sensors are taken', st == 'raise' and ename(x) == 'ValueError')
        for s in (p, c):
            e = [t_.entry(m, s) for m in t_.maps[:2]]
            cx.prove('and nothing is added otherwise', s.was or e == [None, None] and not s.attrs['observers'])
        return
    cx.prove('adding never fails', st == 'ok', info=ename(x))
    if not linked:
        t_.link(p, c)
    t_.check('add')


def c_remove(cx):
    t_ = Tree(cx)
    p, c, linked = pair(cx, t_)
    v = [s.attrs['v'] for s in (p, c)]
    st, x = t_.m('remove', p, c)
    cx.prove('removing never fails', st == 'ok', info=ename(x))
    if linked:
        p.kids.remove(c)
        c.pars.remove(p)
    else:
        cx.prove('links that do not exist are ignored', p.attrs['v'] is v[0] and c.attrs['v'] is v[1])
    t_.check('remove')
    cx.prove('the child keeps its value', c.attrs['v'] is v[1])


class Each(EachHook):
    def __init__(self, t_, c):
        self.t, self.c, self.done = t_, c, False

    def before(self, ip, env, names):
        pass

    def begin(self, ip, env, p):
        self.p = p
        if self.t.cx.pick('meanwhile', ['nothing', 'the link is removed']) != 'nothing':
            p.kids.remove(self.c)
            self.c.pars.remove(p)
            for m, s, x in ((0, p, self.c), (1, self.c, p), (2, p, self.c)):
                e = self.t.entry(self.t.maps[m], s)
                e.remove(ip, x)
            t_ = self.t
            t_.gone = True
            self.v = p.attrs['v']

    def end(self, ip, env, p):
        t_, cx = self.t, self.t.cx
        if t_.gone:
            cx.prove('a removed link causes no update', p.attrs['v'] is self.v)
            raise PathEnd()
        t_.check('update', [p])

    def broken(self, ip, env, x):
        self.t.cx.prove('every parent is updated', False)
        raise PathEnd()

    def after(self, ip, env, names):
        self.done = True


def c_update(cx):
    t_ = Tree(cx)
    t_.gone = False
    intree = cx.pick('sensor', ['in the tree', 'not (any more)']) == 'in the tree'
    c = t_.sensor('c', intree)

    def fresh(ip):
        p = t_.sensor('p', True)
        t_.link(p, c)
        t_.build([p], changed=c)
        return p
    c.fresh = fresh
    t_.build([c])
    h = Each(t_, c)
    cx.loops['for'] = lambda ip, n, env, many: h
    v = c.attrs['v']
    st, x = t_.m('update', c, (cx.real('time'), 1, v))
    cx.prove('updates never fail', st == 'ok', info=ename(x))
    cx.prove('the sensor itself is left alone', c.attrs['v'] is v and c.attrs['sets'] == 0)
    if intree:
        e = t_.entry(t_.maps[1], c)
        if e.elems == [] and not h.done:
            # (no loop over the parents was seen: only right if there are none)
            cx.prove('every parent is updated', t(e.size) == 0)


def c_lookup(cx):
    t_ = Tree(cx, cx.pick('tree', ['GenericSensorTree', 'BooleanSensorTree', 'AggregateSensorTree']))
    p, c, linked = pair(cx, t_)
    for f, s, e, other in (('children', p, 0, c), ('parents', c, 1, p)):
        st, x = t_.m(f, s)
        if not s.was:
            cx.prove('a sensor without links is not in the tree', st == 'raise' and ename(x) == 'ValueError')
            continue
        cx.prove('links can be looked up', st == 'ok' and isinstance(x, ISet), info=ename(x) if st != 'ok' else None)
        cx.prove('what is looked up is what is linked', any(y is other for y in x.elems) == linked and x.size is not None and x.size == t_.entry(t_.maps[e], s).size)
        cx.prove('and a copy', x is not t_.entry(t_.maps[e], s))
    cx.prove('membership is having links', all(t_.ip.truth(t_.ip.call(t_.ip.getattr(t_.tree, '__contains__'), [s])) == s.was for s in (p, c)))


def c_links(cx, op):
    """several children in one call, whoever recalculates"""
    t_ = Tree(cx, 'G')
    p = t_.sensor('p', cx.pick('parent', ['in the tree', 'new']) == 'in the tree')
    cs = []
    for i in range(cx.pick('children', [0, 1, 2])):
        c = t_.sensor('c%d' % i, cx.pick('child%d' % i, ['in the tree', 'new']) == 'in the tree')
        if p.was and c.was and cx.pick('linked%d' % i, ['yes', 'no']) == 'yes':
            t_.link(p, c)
        cs.append(c)
    t_.build()
    if not cs:
        if op == 'add' and not p.was:
            return                  # (a sensor added without links: not considered)
    given = cs + ([cs[0]] if cs and cx.pick('twice', ['no', 'yes']) == 'yes' else [])
    st, x = t_.m(op + '_links', p, tuple(given) if cx.pick('sequence', ['tuple', 'list']) == 'tuple' else list(given))
    cx.prove('changing links never fails', st == 'ok', info=ename(x))
    had = any(c in p.kids for c in cs)
    for c in cs:
        if op == 'add' and not any(k is c for k in p.kids):
            t_.link(p, c)
        elif op == 'remove' and any(k is c for k in p.kids):
            p.kids.remove(c)
            c.pars.remove(p)
    t_.check(op)
    ok = len(t_.calls) == 1 and t_.calls[0][0] is p and len(t_.calls[0][1]) == len(given) and all(a is b for a, b in zip(t_.calls[0][1], given))
    cx.prove('the parent is recalculated with these children', ok or (op == 'remove' and not had and not t_.calls))


# ------------------------------------------------------------ aggregates
ASRC = SRC


class Agg(object):
    """an aggregate tree that got where it is by its own operations"""

    def __init__(self, cx):
        self.cx, ip = cx, cx.interp
        self.ip = ip
        self.applied = []
        self.ns = run_src(ip, SRC, Base=ip.get('katcp.sensortree:GenericSensorTree'), calls=[])
        self.tree = ip.call(ip.get('katcp.sensortree:AggregateSensorTree'), [])
        self.ss, self.rules, self.reg = [], {}, {}
        self.alone = []

    def sensor(self, name):
        s = self.ip.call(self.ns['S'], [name, self.cx.int(name), 'integer'])
        s.attrs['tell'] = self.ip.lib.N(lambda o, x: self.ip.call(self.ip.getattr(o, 'update'), [x, (0, 1, x.attrs['v'])]), 'tell')
        s.label = name + str(len(self.ss))
        self.ss.append(s)
        return s

    def m(self, name, *a):
        return attempt(self.ip, self.ip.getattr(self.tree, name), *a)

    def rule(self, p):
        def f(parent, children):
            els = list(self.ip.items_of(children))
            self.applied.append((p, parent, els))
            tot = z3.IntVal(0)
            for c in els:
                tot = tot + t(c.attrs['v'])
            self.ip.call(self.ip.getattr(parent, 'set_value'), [SInt(tot)])
            return None
        return self.ip.lib.N(f, 'rule')

    # -- operations, with the table of what should be
    def add(self, p, cs, what='tuple'):
        r = self.rule(p)
        given = tuple(cs) if what == 'tuple' else list(cs) if what == 'list' else ISet(list(cs))
        st, x = self.m('add', p, r, given)
        if any(q is p for q in self.rules):
            self.cx.prove('one rule per aggregate', st == 'raise' and ename(x) == 'ValueError')
            return
        self.cx.prove('rules can be added', st == 'ok', info=ename(x))
        self.rules[p] = (r, [], list(cs))
        self.cx.prove('a rule is applied to all its children when added', any(a is p and self.same(els, cs) for a, b, els in self.applied))

    def add_delayed(self, p, names):
        r = self.rule(p)
        st, x = self.m('add_delayed', p, r, tuple(names))
        if p in self.rules:
            self.cx.prove('one rule per aggregate', st == 'raise' and ename(x) == 'ValueError')
            return
        self.cx.prove('rules can be added', st == 'ok', info=ename(x))
        self.rules[p] = (r, [n for n in names if n not in self.reg], [self.reg[n] for n in names if n in self.reg])

    def register(self, s):
        n = s.attrs['name']
        st, x = self.m('register_sensor', s)
        if n in self.reg:
            self.cx.prove('a name is registered once', st == 'raise' and ename(x) == 'ValueError')
            return
        self.cx.prove('sensors can be registered', st == 'ok', info=ename(x))
        self.reg[n] = s
        for p, (r, names, cs) in self.rules.items():
            if n in names:
                names.remove(n)
                cs.append(s)

    def deregister(self, s):
        n = s.attrs['name']
        st, x = self.m('deregister_sensor', s)
        if n not in self.reg:
            self.cx.prove('only registered sensors are deregistered', st == 'raise' and ename(x) == 'ValueError')
            return
        self.cx.prove('sensors can be deregistered', st == 'ok', info=ename(x))
        s = self.reg.pop(n)
        for p, (r, names, cs) in list(self.rules.items()):
            if any(c is s for c in cs):
                self.rules[p] = (r, names + [n], [c for c in cs if c is not s])

    def remove(self, p):
        st, x = self.m('remove', p)
        if p not in self.rules or self.rules[p][1]:
            self.cx.prove('only rules in force are removed', st == 'raise' and ename(x) == 'ValueError')
            return
        self.cx.prove('rules can be removed', st == 'ok', info=ename(x))
        del self.rules[p]

    def same(self, a, b):
        return len(a) == len(b) and all(any(x is y for y in b) for x in a)

    def active(self):
        return {p: cs for p, (r, names, cs) in self.rules.items() if not names}

    def check(self, why):
        cx, ip, act = self.cx, self.ip, self.active()
        for s in self.ss:
            kids = act.get(s, [])
            pars = [p for p, cs in act.items() if any(c is s for c in cs)]
            inn = bool(kids or pars)
            info = (why, s.label)
            cx.prove('the tree holds exactly the sensors that have links', ip.truth(ip.call(ip.getattr(self.tree, '__contains__'), [s])) == inn, info=info)
            cx.prove('and listens to exactly these', sum(1 for o in s.attrs['observers'] if o is self.tree) == (1 if inn else 0), info=info)
            if inn:
                for f, want in (('children', kids), ('parents', pars)):
                    st, x = self.m(f, s)
                    cx.prove('parents and children mirror each other', st == 'ok' and self.same(ip.items_of(x), want), info=info + (f,))
        for p, cs in act.items():
            tot = z3.IntVal(0)
            for c in cs:
                tot = tot + t(c.attrs['v'])
            cx.prove('an aggregate has the value its rule gives', t(p.attrs['v']) == tot, info=(why, p.label))
            st, x = self.m('fetch', p)
            cx.prove('its rule can be looked up', st == 'ok' and ip.items_of(x)[0] is self.rules[p][0] and self.same(ip.items_of(ip.items_of(x)[1]), cs))

    def set(self, s, why):
        """an update of a sensor"""
        cx = self.cx
        act = self.active()
        if s in act:
            return
        del self.applied[:]
        self.ip.call(self.ip.getattr(s, 'set_value'), [cx.int(cx.name('value'))])
        up, new = [], [s]
        while new:
            c = new.pop()
            for p, cs in act.items():
                if any(x is c for x in cs):
                    up.append(p)
                    new.append(p)
        cx.prove('an update applies the rules above, and no other', all(any(a is p for p in up) and b is a for a, b, els in self.applied) and
                 all(any(a is p for a, b, els in self.applied) for p in up), info=why)
        cx.prove('each with all its children', all(self.same(els, act[a]) for a, b, els in self.applied if a in act), info=why)
        self.check(why)


def c_aggregate(cx, first):
    """two aggregates, the second possibly over the first, three sensors of two names: operations in any order"""
    a = Agg(cx)
    top, mid = a.sensor('top'), a.sensor('mid')
    x, y, x2 = a.sensor('x'), a.sensor('y'), a.sensor('x')
    above = cx.pick('top rule', ['add x', 'add mid', 'add x y', 'delayed x', 'delayed mid y', 'delayed x y'])
    below = cx.pick('mid rule', ['delayed x', 'delayed x y', 'add x y'])

    def do(op):
        if op == 'top':
            k, *ns = above.split()
            if k == 'add':
                a.add(top, [{'x': x, 'y': y, 'mid': mid}[n] for n in ns], 'list')
            else:
                a.add_delayed(top, ns)
        elif op == 'mid':
            k, *ns = below.split()
            if k == 'add':
                a.add(mid, [{'x': x, 'y': y}[n] for n in ns])
            else:
                a.add_delayed(mid, ns)
        else:
            k, n = op.split()
            getattr(a, k)({'x': x, 'y': y, 'x2': x2, 'mid': mid, 'top': top}[n])
        a.check(op)
    ops = ['top', 'mid', 'register x', 'register y', 'register mid']
    # any order of setting up (some of it)
    todo = ['top', 'mid', 'register x'] + (['register y'] if ' y' in above + below else []) + (['register mid'] if 'delayed mid' in above else [])
    do(first)
    todo.remove(first) if first in todo else None
    while todo:
        op = todo.pop(cx.pick('next', list(range(len(todo)))) if len(todo) > 1 else 0)
        do(op)
    op = cx.pick('then', ['set', 'deregister x', 'remove mid', 'remove top', 'register x', 'top', 'deregister y'])
    if op == 'set':
        a.set(x, 'set')
        a.set(y, 'set')
        return
    do(op)
    a.set(x, op)
    if op == 'deregister x':
        do(cx.pick('and then', ['register x', 'register x2', 'deregister x', 'deregister y']))
        a.set(x, 'again')
        a.set(x2, 'again')


def c_same_name(cx, first):
    """another sensor of the same name, registered and deregistered before and after the rule is in force"""
    a = Agg(cx)
    top, x, y, x2 = a.sensor('top'), a.sensor('x'), a.sensor('y'), a.sensor('x')
    todo = ['rule', 'register x', 'deregister x', 'register x2', 'register y', 'deregister y']
    op = first
    while True:
        if op == 'rule':
            a.add_delayed(top, ['x', 'y'])
        else:
            k, n = op.split()
            getattr(a, k)({'x': x, 'y': y, 'x2': x2}[n])
        a.check(op)
        todo.remove(op)
        if not todo:
            break
        op = todo[cx.pick('next', list(range(len(todo)))) if len(todo) > 1 else 0]
    for s in (x, y, x2):
        a.set(s, 'set')


CONTRACTS = {
    'new': (c_new, {}), 'add': (c_add, {}), 'remove': (c_remove, {}), 'update': (c_update, {'expect': ['loop iteration']}), 'lookup': (c_lookup, {}),
    'links': (c_links, {'split': ['add', 'remove'], 'bounded': 'at most two children per call'}),
    'same-name': (c_same_name, {'split': ['rule', 'register x', 'register y'], 'bounded': 'one aggregate over two names, one of them that of two sensors; every order of six operations'}),
    'aggregate': (c_aggregate, {'split': ['top', 'mid', 'register x'], 'bounded': 'two aggregates over three sensors; any order of setting them up, two operations after'}),
}
