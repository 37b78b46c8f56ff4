"""decoding of packet lists: which channel each packet carries (a certificate that TLC verifies)"""
def lines(text):
    out = []
    for l in text.split("\n"):
        if l and not l.startswith("#"):
            try: out.append([int(float(x)) if "e" not in x else -7 for x in l.split(",")])
            except ValueError: out.append([])
    return out[1:] if out else []
def label(g, rows, psize):
    """g: tasks numbered 1..n.  For each row the position of its channel (from 1), 0 for a firing, -1 if nothing fits"""
    ch = list(enumerate(g.chans, 1)); res = [-1] * len(rows); i = 0
    size = lambda c: 1 if psize == 0 else -(-sum(c["pp"]) // psize)
    while i < len(rows):
        r = rows[i]
        if len(r) < 5 or r[0] != r[1] or not (0 <= r[0] < len(g.tasks)): break
        t = r[0] + 1; res[i] = 0; i += 1
        outs = [(k, c) for k, c in ch if c["src"] == t]
        def fit(j, left):
            if not left: return []
            if j >= len(rows) or len(rows[j]) < 5 or rows[j][0] != t - 1: return None
            for k, c in left:
                n = size(c)
                if all(j + x < len(rows) and len(rows[j + x]) >= 5 and rows[j + x][0] == t - 1 and rows[j + x][1] == c["dst"] - 1 and (rows[j + x][-1] == rows[j + x - 1][3] if x else True) for x in range(n)):
                    rest = fit(j + n, [e for e in left if e[0] != k])
                    if rest is not None: return [k] * n + rest
            return None
        f = fit(i, outs)
        if f is None: break
        res[i:i + len(f)] = f; i += len(f)
    return res
