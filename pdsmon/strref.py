"""Reference definitions of string distances, by plain dynamic programming over characters."""


def leven(a, b):
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(min(prev[j] + 1, cur[-1] + 1, prev[j - 1] + (x != y)))
        prev = cur
    return prev[-1]


def osa(a, b):
    n, m = len(a), len(b)
    D = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        D[i][0] = i
    for j in range(m + 1):
        D[0][j] = j
    for i in range(1, n + 1):
        for j in range(1, m + 1):
            v = min(D[i - 1][j] + 1, D[i][j - 1] + 1, D[i - 1][j - 1] + (a[i - 1] != b[j - 1]))
            if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                v = min(v, D[i - 2][j - 2] + 1)
            D[i][j] = v
    return D[n][m]


def dleven(a, b):
    """unrestricted Damerau-Levenshtein (Lowrance-Wagner)"""
    n, m = len(a), len(b)
    INF = n + m + 1
    last = {}
    D = [[INF] * (m + 2) for _ in range(n + 2)]
    for i in range(n + 1):
        D[i + 1][1] = i
    for j in range(m + 1):
        D[1][j + 1] = j
    for i in range(1, n + 1):
        db = 0
        for j in range(1, m + 1):
            k, l = last.get(b[j - 1], 0), db
            cost = 1
            if a[i - 1] == b[j - 1]:
                cost, db = 0, j
            D[i + 1][j + 1] = min(D[i][j] + cost, D[i + 1][j] + 1, D[i][j + 1] + 1,
                                  D[k][l] + (i - k - 1) + 1 + (j - l - 1))
        last[a[i - 1]] = i
    return D[n + 1][m + 1]


def lcs(a, b):
    prev = [0] * (len(b) + 1)
    for x in a:
        cur = [0]
        for j, y in enumerate(b, 1):
            cur.append(prev[j - 1] + 1 if x == y else max(prev[j], cur[-1]))
        prev = cur
    return prev[-1]


def hamming(a, b, pad=False):
    if len(a) != len(b) and not pad:
        return None
    return sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))


def norm_sim(d, a, b):
    k = max(len(a), len(b))
    return 1.0 if k == 0 else 1.0 - d / k


def ratio(a, b):
    t = len(a) + len(b)
    return 1.0 if t == 0 else 2 * lcs(a, b) / t


def jaro(a, b):
    n, m = len(a), len(b)
    if n == 0 and m == 0:
        return 1.0
    if n == 0 or m == 0:
        return 0.0
    w = max(n, m) // 2 - 1
    w = max(w, 0)
    ta, tb = [False] * n, [False] * m
    c = 0
    for i in range(n):
        for j in range(max(0, i - w), min(m, i + w + 1)):
            if not tb[j] and a[i] == b[j]:
                ta[i] = tb[j] = True
                c += 1
                break
    if c == 0:
        return 0.0
    xs = [a[i] for i in range(n) if ta[i]]
    ys = [b[j] for j in range(m) if tb[j]]
    t = sum(x != y for x, y in zip(xs, ys)) // 2
    return (c / n + c / m + (c - t) / c) / 3


def jw(a, b, weight):
    s = jaro(a, b)
    if s > 0.7:
        p = 0
        for x, y in zip(a[:4], b[:4]):
            if x != y:
                break
            p += 1
        s = min(1.0, s + p * weight * (1 - s))
    return s


def grams(s, k):
    """set of byte substrings of length k; a shorter nonempty string is its own only substring"""
    b = s.encode()
    if not b:
        return set()
    return {b} if len(b) < k else {b[i:i + k] for i in range(len(b) - k + 1)}
