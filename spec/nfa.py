"""NFAs with regex-labelled edges over single-character symbols."""
class NFA:
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.tr = {}
        self.names = {}
        self.rev = {}
        self.tags = {}      # state -> set of tags
    def st(self, name=None):
        if name is not None and name in self.names:
            return self.names[name]
        k = self.n
        self.n += 1
        if name is not None:
            self.names[name] = k
            self.rev[k] = name
        return k
    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)
    def t(self, a, syms, b):
        for s in syms:
            self.tr.setdefault(a, {}).setdefault(s, set()).add(b)
    def edge(self, src, rx, *dsts):
        """path spelling rx from named state src to each of dsts"""
        a = self.st(src)
        b = self.st()
        self.build(rx, a, b)
        for d in dsts:
            self.e(b, self.st(d))
    def tag(self, name, tag):
        self.tags.setdefault(self.st(name), set()).add(tag)
    # --- tiny regex
    def build(self, rx, a, b):
        pos = [0]
        def alt(a, b):
            while True:
                cat(a, b)
                if pos[0] < len(rx) and rx[pos[0]] == '|':
                    pos[0] += 1
                    continue
                return
        def cat(a, b):
            cur = a
            while pos[0] < len(rx) and rx[pos[0]] not in '|)':
                nx = self.st()
                atom(cur, nx)
                cur = nx
            self.e(cur, b)
        def atom(a, b):
            c = rx[pos[0]]
            s, t = self.st(), self.st()
            if c == '(':
                pos[0] += 1
                alt(s, t)
                assert rx[pos[0]] == ')'
                pos[0] += 1
            elif c == '[':
                j = rx.index(']', pos[0])
                self.t(s, rx[pos[0] + 1:j], t)
                pos[0] = j + 1
            else:
                self.t(s, c, t)
                pos[0] += 1
            op = rx[pos[0]] if pos[0] < len(rx) and rx[pos[0]] in '*+?' else ''
            if op:
                pos[0] += 1
            self.e(a, s)
            self.e(t, b)
            if op in ('*', '?'):
                self.e(a, b)
            if op in ('*', '+'):
                self.e(t, s)
        alt(a, b)
        assert pos[0] == len(rx), (rx, pos[0])
    # --- use
    def closure(self, S):
        S = set(S)
        w = list(S)
        while w:
            x = w.pop()
            for y in self.eps.get(x, ()):
                if y not in S:
                    S.add(y)
                    w.append(y)
        return frozenset(S)
    def step(self, S, c):
        o = set()
        for x in S:
            o |= self.tr.get(x, {}).get(c, set())
        return self.closure(o)
    def tagsof(self, S):
        o = set()
        for x in S:
            o |= self.tags.get(x, set())
        return frozenset(o)
