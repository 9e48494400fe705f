"""Natural loops of a function (dominators computed iteratively)."""


class Loop:
    def __init__(self, header):
        self.header = header
        self.body = {header}
        self.latches = []


def succs(ins):
    if ins.op == 'br':
        return list(ins.x)
    if ins.op == 'switch':
        return [ins.x[0]] + [l for _, l in ins.x[1]]
    return []


def find_loops(f):
    order = []
    seen = set()
    stack = [(f.order[0], iter(succs(f.blocks[f.order[0]][-1])))]
    seen.add(f.order[0])
    post = []
    while stack:
        b, it = stack[-1]
        for n in it:
            if n not in seen:
                seen.add(n)
                stack.append((n, iter(succs(f.blocks[n][-1]))))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for n in succs(f.blocks[b][-1]):
            preds[n].append(b)
    idom = {rpo[0]: rpo[0]}
    ch = True

    def inter(a, b):
        while a != b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                n = inter(n, p)
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for n in succs(f.blocks[b][-1]):
            if dom(n, b):
                lp = loops.setdefault(n, Loop(n))
                lp.latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in lp.body:
                        lp.body.add(x)
                        st.extend(preds[x])
    f.preds = preds
    return loops
