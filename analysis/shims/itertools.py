def pairwise(it):
    it = iter(it)
    out = []
    first = True
    for x in it:
        if not first:
            out.append((p, x))
        p, first = x, False
    return iter(out)


def groupby(it, key=None):
    out, first = [], True
    for x in it:
        k = x if key is None else key(x)
        if first or k != last:
            cur = []
            out.append((k, iter(cur)))
            last, first = k, False
            groups = cur
        groups.append(x)
    return iter(out)


def compress(data, selectors):
    return iter([d for d, s in zip(data, selectors) if s])


def filterfalse(f, it):
    return iter([x for x in it if not (x if f is None else f(x))])


def cycle(it):
    saved = list(it)
    while saved:
        for x in saved:
            yield x


def tee(it, n=2):
    items = list(it)
    return tuple([iter(items) for _ in range(n)])


def _combos(pool, r, start, again):
    if r == 0:
        return [()]
    out = []
    for i in range(start, len(pool)):
        for rest in _combos(pool, r - 1, i if again else i + 1, again):
            out.append((pool[i],) + rest)
    return out


def combinations(it, r):
    return iter(_combos(tuple(it), r, 0, False))


def combinations_with_replacement(it, r):
    return iter(_combos(tuple(it), r, 0, True))


def _perms(pool, idx, r):
    if r == 0:
        return [()]
    out = []
    for i in idx:
        for rest in _perms(pool, [j for j in idx if j != i], r - 1):
            out.append((pool[i],) + rest)
    return out


def permutations(it, r=None):
    pool = tuple(it)
    return iter(_perms(pool, list(range(len(pool))), len(pool) if r is None else r))


def product(*its, repeat=1):
    pools = [tuple(x) for x in its] * repeat
    out = [()]
    for p in pools:
        out = [x + (y,) for x in out for y in p]
    return iter(out)


def accumulate(it, func=None, *, initial=None):
    out = []
    first = True
    if initial is not None:
        total, first = initial, False
        out.append(total)
    for x in it:
        if first:
            total, first = x, False
        elif func is None:
            total = total + x
        else:
            total = func(total, x)
        out.append(total)
    return iter(out)


def batched(it, n, *, strict=False):
    out, cur = [], []
    for x in it:
        cur.append(x)
        if len(cur) == n:
            out.append(tuple(cur))
            cur = []
    if cur:
        out.append(tuple(cur))
    return iter(out)
