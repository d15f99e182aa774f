def heapify(h):
    h.sort()


def heappush(h, x):
    h.append(x)
    h.sort()


def heappop(h):
    if not h:
        raise IndexError("index out of range")
    return h.pop(0)


def heappushpop(h, x):
    heappush(h, x)
    return heappop(h)


def nsmallest(n, it, key=None):
    return sorted(it, key=key)[:n]


def nlargest(n, it, key=None):
    return sorted(it, key=key, reverse=True)[:n]


def merge(*its):
    return iter(sorted([x for i in its for x in i]))
