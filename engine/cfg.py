"""Control flow: successors, dominators, natural loops, liveness."""


def term(f, b):
    return f.blocks[b][-1]


def succs(ins):
    if ins.op == 'br':
        a = ins.a
        return [a[0]] if len(a) == 1 else [a[1], a[2]]
    if ins.op == 'switch':
        return [ins.a[2]] + [t for _, t in ins.a[3]]
    return []


def operands(ins):
    a, o = ins.a, ins.op
    if o == 'load':
        return [a[1]]
    if o == 'store':
        return [a[1], a[2]]
    if o == 'getelementptr':
        return [a[1]] + [x[1] for x in a[2]]
    if o == 'bin':
        return [a[2], a[3]]
    if o == 'icmp':
        return [a[2], a[3]]
    if o == 'cast':
        return [a[2]]
    if o == 'select':
        return [a[1], a[2], a[3]]
    if o == 'br':
        return [a[0]] if len(a) > 1 else []
    if o == 'switch':
        return [a[1]]
    if o == 'call':
        return [a[1]] + [x[1] for x in a[2]]
    if o == 'ret':
        return [a[1]] if len(a) > 1 and a[1] is not None else []
    if o == 'freeze':
        return [a[1]]
    if o == 'alloca':
        return [x for x in a if isinstance(x, tuple) and x and x[0] == 'loc']
    return []


class Loop:
    def __init__(self, head, blocks):
        self.head, self.blocks = head, blocks


class Cfg:
    def __init__(self, f):
        self.f = f
        self.succ = {b: succs(term(f, b)) for b in f.order}
        self.pred = {b: [] for b in f.order}
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        self.dominators()
        self.find_loops()
        self.liveness()
        self.used = set()
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'phi':
                    for v, _ in ins.a[1]:
                        if v[0] == 'loc':
                            self.used.add(v[1])
                for v in operands(ins):
                    if v[0] == 'loc':
                        self.used.add(v[1])

    def dominators(self):
        f = self.f
        allb = set(f.order)
        dom = {b: set(allb) for b in f.order}
        dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for b in f.order:
                if b == f.entry:
                    continue
                ps = [dom[p] for p in self.pred[b]]
                n = (set.intersection(*ps) if ps else set()) | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.dom = dom

    def find_loops(self):
        self.loops = {}
        for b in self.f.order:
            for s in self.succ[b]:
                if s in self.dom[b]:
                    body = {s, b}
                    work = [b]
                    while work:
                        x = work.pop()
                        if x == s:
                            continue
                        for p in self.pred[x]:
                            if p not in body:
                                body.add(p)
                                work.append(p)
                    if s in self.loops:
                        self.loops[s].blocks |= body
                    else:
                        self.loops[s] = Loop(s, body)

    def liveness(self):
        f = self.f
        use, de, phiuse = {}, {}, {b: set() for b in f.order}
        for b in f.order:
            u, d = set(), set()
            for ins in f.blocks[b]:
                if ins.op == 'phi':
                    d.add(ins.dst)
                    for v, p in ins.a[1]:
                        if v[0] == 'loc' and p in phiuse:
                            phiuse[p].add(v[1])
                    continue
                for v in operands(ins):
                    if v[0] == 'loc' and v[1] not in d:
                        u.add(v[1])
                if ins.dst:
                    d.add(ins.dst)
            use[b], de[b] = u, d
        self.livein = {b: set() for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                out = set(phiuse[b])
                for s in self.succ[b]:
                    out |= self.livein[s]
                n = use[b] | (out - de[b])
                if n != self.livein[b]:
                    self.livein[b] = n
                    ch = True
        self.phis = {b: [i for i in f.blocks[b] if i.op == 'phi'] for b in f.order}
        # live just after the phis of a block
        self.live = {b: self.livein[b] | {i.dst for i in self.phis[b]} for b in f.order}
