"""C18 executable contract: random operations on real sensor trees against an independent table of links and rules."""
from common import *      # noqa
from katcp import Sensor
from katcp.sensortree import AggregateSensorTree, BooleanSensorTree, GenericSensorTree

RULE = 'random sequences of adding, removing, registering, deregistering and updating over random acyclic shapes, sensors of the same name included'
BOUNDS = 'up to 8 sensors and 40 operations per history'
FUNCTIONS = ['sensortree.GenericSensorTree', 'sensortree.BooleanSensorTree', 'sensortree.AggregateSensorTree']


def cases(h):
    r = h.rng
    for n in range(2, 6):
        for k in range(1, n):
            yield 'unlinked', (n, k)
    for i in range(h.n(900, 20000)):
        yield 'boolean', (r.randrange(1 << 30), r.randrange(2, 9), r.randrange(3, 41))
    for i in range(h.n(1200, 30000)):
        yield 'aggregate', (r.randrange(1 << 30), r.randrange(2, 9), r.randrange(3, 41))
    for i in range(h.n(200, 4000)):
        yield 'generic', (r.randrange(1 << 30), r.randrange(2, 9), r.randrange(3, 31))
    for i in range(h.n(60, 600)):
        yield 'meanwhile', (r.randrange(2, 5), r.randrange(1, 4), r.random() < .5)


def names(ss):
    return sorted(s.name + '/%d' % s.no for s in ss)


class Links(object):
    """what the links should be"""

    def __init__(self, h, tree, sensors):
        self.h, self.tree, self.ss = h, tree, sensors
        self.links = set()
        self.alone = set()          # sensors that stay in the tree without links
        self.log = []

    def check(self):
        h, t = self.h, self.tree
        for s in self.ss:
            inn = s in self.alone or any(s in l for l in self.links)
            h.check('the tree holds the sensors that have links', (s in t) == inn, (self.log, s.name))
            h.check('and listens to exactly these', (t in s._observers) == inn, (self.log, s.name))
            if inn:
                h.check('the children of a sensor are those linked to it', names(t.children(s)) == names(c for p, c in self.links if p is s), (self.log, s.name))
                h.check('the parents of a sensor are those it is linked to', names(t.parents(s)) == names(p for p, c in self.links if c is s), (self.log, s.name))
            else:
                for f in (t.children, t.parents):
                    try:
                        f(s)
                    except ValueError:
                        continue
                    h.check('a sensor without links is not in the tree', False, (self.log, s.name))


def case_boolean(h, p):
    import random
    seed, n, steps = p
    r = random.Random(seed)
    ss = [Sensor.boolean('s%d' % i, '', '') for i in range(n)]
    for i, s in enumerate(ss):
        s.no = i
    odd = Sensor.integer('odd', '', '')
    tree = BooleanSensorTree()
    l = Links(h, tree, ss)
    val = [s.value() for s in ss]

    def kids(i):
        return [c.no for p_, c in l.links if p_ is ss[i]]

    def spread():
        for i in range(n - 1, -1, -1):
            if kids(i):
                val[i] = all(val[c] for c in kids(i))
    for k in range(steps):
        i = r.randrange(n - 1)
        j = r.randrange(i + 1, n)
        op = r.random()
        if op < .4:
            l.log.append('add %d %d' % (i, j))
            tree.add(ss[i], ss[j])
            l.links.add((ss[i], ss[j]))
        elif op < .65:
            l.log.append('remove %d %d' % (i, j))
            linked = (ss[i], ss[j]) in l.links
            tree.remove(ss[i], ss[j])
            l.links.discard((ss[i], ss[j]))
            if linked and not kids(i):
                val[i] = True
        elif op < .68:
            l.log.append('odd')
            for a in ((ss[i], odd), (odd, ss[i])):
                try:
                    tree.add(*a)
                except ValueError:
                    continue
                h.check('only boolean sensors are taken', False, l.log)
        else:
            leaf = [q for q in range(n) if not kids(q)]
            q = r.choice(leaf)
            v = r.random() < .65
            st = r.choice([Sensor.NOMINAL, Sensor.NOMINAL, Sensor.WARN, Sensor.UNKNOWN])
            l.log.append('set %d %s' % (q, v))
            if r.random() < .5:
                ss[q].set_value(v, st)
            else:
                ss[q].set(1000., st, v)
            val[q] = v
        spread()
        l.check()
        for q in range(n):
            h.check('a parent is true exactly when all its children are', bool(ss[q].value()) == val[q], lambda: (l.log, q, [s.value() for s in ss], val))
    h.nontrivial((len(l.links), tuple(val)))


def case_generic(h, p):
    """links of several children at once, whoever recalculates"""
    import random
    seed, n, steps = p
    r = random.Random(seed)
    calls = []

    class Tree(GenericSensorTree):
        def recalculate(self, parent, updates):
            calls.append((parent.no, names(updates)))
    ss = [Sensor.integer('s%d' % i, '', '') for i in range(n)]
    for i, s in enumerate(ss):
        s.no = i
    tree = Tree()
    l = Links(h, tree, ss)
    for k in range(steps):
        i = r.randrange(n - 1)
        js = [r.randrange(i + 1, n) for _ in range(r.randrange(1, 4))]
        op = r.random()
        del calls[:]
        cs = [ss[j] for j in js]
        if op < .4:
            l.log.append('add %d %s' % (i, js))
            tree.add_links(ss[i], cs)
            l.links |= set((ss[i], c) for c in cs)
            h.check('the parent is recalculated once', calls == [(i, names(cs))], (l.log, calls))
        elif op < .7:
            l.log.append('remove %d %s' % (i, js))
            had = any((ss[i], c) in l.links for c in cs)
            tree.remove_links(ss[i], cs)
            l.links -= set((ss[i], c) for c in cs)
            h.check('the parent is recalculated', calls == [(i, names(cs))] or not had and not calls, (l.log, calls))
        else:
            q = r.randrange(n)
            l.log.append('set %d' % q)
            ss[q].set_value(k)
            h.check('an update reaches every parent once, and nobody else', sorted(calls) == sorted((p_.no, names([ss[q]])) for p_, c in l.links if c is ss[q]), (l.log, calls))
        l.check()
    h.nontrivial((len(l.links), len(l.log)))


def case_aggregate(h, p):
    import random
    seed, n, steps = p
    r = random.Random(seed)
    ss = []
    other = r.choice([.8, .5])
    for i in range(n):
        ss.append(Sensor.integer('s%d' % (i if r.random() < other or not i else r.randrange(i)), '', ''))
        ss[-1].no = i
    tree = AggregateSensorTree()
    l = Links(h, tree, ss)
    calls, rules, reg = [], {}, {}        # rules: parent -> dict(names=waiting, sensors=set, rule=f)

    def rule_of(i):
        def rule(parent, children):
            calls.append((parent.no, names(children)))
            parent.set_value(sum(c.value() for c in children) % 1000003)
            h.check('a rule is applied to its own parent', parent is ss[i], l.log)
        return rule

    def linked():
        l.links = set((p_, c) for p_, d in rules.items() if not d['names'] for c in d['sensors'])
        l.alone = set(p_ for p_, d in rules.items() if not d['names'] and not d['sensors'])

    def above(s, out=None):
        out = set() if out is None else out
        for p_, c in l.links:
            if c is s:
                out.add(p_)
                above(p_, out)
        return out
    for k in range(steps):
        op = r.random()
        del calls[:]
        i = r.randrange(n - 1)
        P = ss[i]
        err = None
        if op < .15:
            cs = r.sample(ss[i + 1:], min(len(ss) - i - 1, r.choice([1, 1, 2, 3])))
            l.log.append('add %d %s' % (i, names(cs)))
            f = rule_of(i)
            given = r.choice([tuple, list, set])(cs)
            try:
                tree.add(P, f, given)
            except ValueError:
                err = True
            h.check('one rule per aggregate', bool(err) == (P in rules), l.log)
            if not err:
                rules[P] = {'names': set(), 'sensors': set(cs), 'rule': f}
                h.check('the rule is applied to all children', (i, names(cs)) in calls, (l.log, calls))
        elif op < .35:
            # (never one of its own ancestors: their names come from lower numbers)
            cs = sorted(set(s.name for s in ss[i + 1:] if not any(q.name == s.name for q in ss[:i + 1])))
            cs = r.sample(cs, min(len(cs), r.choice([1, 1, 2, 3])))
            if not cs:
                continue
            l.log.append('add_delayed %d %s' % (i, cs))
            f = rule_of(i)
            try:
                tree.add_delayed(P, f, cs)
            except ValueError:
                err = True
            h.check('one rule per aggregate', bool(err) == (P in rules), l.log)
            if not err:
                rules[P] = {'names': set(c for c in cs if c not in reg), 'sensors': set(reg[c] for c in cs if c in reg), 'rule': f}
        elif op < .55:
            s = r.choice(ss)
            if any(s.name in d['names'] and s.no <= p_.no for p_, d in rules.items()):
                continue                # (would make a cycle)
            l.log.append('register %d' % s.no)
            try:
                tree.register_sensor(s)
            except ValueError:
                err = True
            h.check('a name is registered once', bool(err) == (s.name in reg), l.log)
            if not err:
                reg[s.name] = s
                for d in rules.values():
                    if s.name in d['names']:
                        d['names'].discard(s.name)
                        d['sensors'].add(s)
        elif op < .7:
            s = r.choice(ss)
            l.log.append('deregister %d' % s.no)
            try:
                tree.deregister_sensor(s)
            except ValueError:
                err = True
            h.check('only registered sensors are deregistered', bool(err) == (s.name not in reg), l.log)
            if not err:
                s = reg.pop(s.name)
                for d in rules.values():
                    if s in d['sensors']:
                        d['sensors'].discard(s)
                        d['names'].add(s.name)
        elif op < .8:
            l.log.append('remove %d' % i)
            try:
                tree.remove(P)
            except ValueError:
                err = True
            h.check('only rules in force are removed', bool(err) == (P not in rules or bool(rules[P]['names'])), l.log)
            if not err:
                del rules[P]
        else:
            s = r.choice([s for s in ss if not (s in rules and not rules[s]['names'])])
            l.log.append('set %d' % s.no)
            linked()
            s.set_value(r.randrange(1000))
            up = above(s)
            h.check('an update applies the rules above, and no other', set(c[0] for c in calls) == set(p_.no for p_ in up), (l.log, calls))
            h.check('each with all its children', all(c == (c[0], names(rules[ss[c[0]]]['sensors'])) for c in calls), (l.log, calls))
        linked()
        l.check()
        for p_, d in rules.items():
            if not d['names']:
                h.check('an aggregate has the value its rule gives', p_.value() == sum(c.value() for c in d['sensors']) % 1000003, (l.log, p_.no))
                got = tree.fetch(p_)
                h.check('its rule and children can be looked up', got[0] is d['rule'] and names(got[1]) == names(d['sensors']), (l.log, p_.no))
    h.nontrivial((len(l.links), len(rules), len(reg)))


def case_meanwhile(h, p):
    """links removed by another observer while an update is told"""
    n, m, value = p
    for turn in range(8):
        tree = BooleanSensorTree()
        ss = [Sensor.boolean('s%d' % i, '', '') for i in range(n)]
        keep = Sensor.boolean('keep', '', '')
        keep.set_value(value)
        c = ss[-1]
        gone = ss[:min(m, n - 1)]

        class Obs(object):
            def update(self, sensor, reading):
                for g in gone:
                    tree.remove(g, c)
        for s in ss[:-1]:
            tree.add(s, keep)
            tree.add(s, c)
        o = Obs()
        c.attach(o)
        if turn % 2:
            c.detach(tree)
            c.attach(tree)
        c.set_value(True)
        for s in ss[:-1]:
            h.check('a parent is true exactly when all its children are', s.value() == value, (p, s.name))
        c.detach(o)
        c.set_value(False)
        for s in ss[:-1]:
            h.check('a removed link causes no update', s.value() == (value if s in gone else False), (p, s.name))
    h.nontrivial(p)


def case_unlinked(h, p):
    """a link removed while an update is passed on to the parents (by the rule of another parent): no update through it any more"""
    n, k = p
    events, state = [], {'on': False, 'left': k}
    ps = [Sensor.integer('p%d' % i, '', '') for i in range(n)]
    keep, c = Sensor.integer('keep', '', ''), Sensor.integer('c', '', '')

    class Tree(GenericSensorTree):
        def recalculate(self, parent, updates):
            events.append(('applied', parent))
            if state['on'] and state['left']:
                for other in ps:
                    if other is not parent and other in self and c in self.children(other) and state['left']:
                        state['left'] -= 1
                        on, state['on'] = state['on'], False
                        self.remove_links(other, [c])
                        state['on'] = on
                        events.append(('unlinked', other))
    tree = Tree()
    for x in ps:
        tree.add_links(x, [c, keep])
    del events[:]
    state['on'] = True
    c.set_value(5)
    state['on'] = False
    gone = []
    for what, x in events:
        h.check('a removed link causes no update', what == 'unlinked' or x not in gone, '%r: %r' % (p, [(a, b.name) for a, b in events]))
        if what == 'unlinked':
            gone.append(x)
    h.check('the others are updated', all(('applied', x) in events for x in ps if x not in gone), '%r: %r' % (p, [(a, b.name) for a, b in events]))
    h.check('only the removed links are gone', all((c in tree.children(x)) == (x not in gone) and keep in tree.children(x) for x in ps), p)
    h.nontrivial(p)
