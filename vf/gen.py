"""Inputs: texts of many shapes, and certificates (untrusted hints that the
specification verifies before using them)."""

def fib(k):
    a, b = b"a", b"ab"
    for _ in range(k):
        a, b = b, b + a
    return a

def thue(k):
    s = b"a"
    for _ in range(k):
        s += s.translate(bytes.maketrans(b"ab", b"ba"))
    return s

def perioddoubling(k):
    s = b"a"
    for _ in range(k):
        s = b"".join(b"ab" if c == 97 else b"aa" for c in s)
    return s

def debruijn(n, k=2):
    a = [0] * k * n
    seq = []
    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return bytes(97 + x for x in seq)

def rand(rng, n, alpha):
    return bytes(rng.choice(alpha) for _ in range(n))

ALPHAS = [list(b"a"), list(b"ab"), list(b"abc"), list(b"acgt"), list(range(97, 113)), list(range(1, 65)),
          list(range(1, 256)), [1, 255], [127, 128, 129], [254, 255, 1, 2], [10, 13, 97, 98], [97, 98, 195, 188]]
FULL = [list(range(0, 256)), [0, 1], [0, 255], [0, 97, 98], [0, 128], [0, 254, 255]]

LENS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129, 255, 256, 257]
BIG = [511, 512, 513, 1000, 1023, 1024, 1025]
HUGE = [4095, 4096, 4097, 8191, 8192, 8193]

def shapes(rng, n):
    """structured texts of length n (zero free)"""
    def cut(b):
        b = (b * (n // max(1, len(b)) + 1))[:n]
        return b
    out = [b"a" * n, cut(b"ab"), cut(b"ba"), cut(b"aab"), cut(b"abc"), fib(25)[:n] if n <= 121393 else cut(fib(20)),
           thue(17)[:n] if n <= 131072 else cut(thue(15)), cut(perioddoubling(12)),
           b"b" * (n - 1) + b"a", b"a" * (n - 1) + b"b", b"\xff" * n, b"a" * (n // 2) + b"b" * (n - n // 2),
           b"b" * (n // 2) + b"a" * (n - n // 2)]
    p = rand(rng, rng.choice([2, 3, 5, 7, 11]), b"abc")
    out.append(cut(p))
    x = bytearray(cut(p))
    if n:
        x[rng.randrange(n)] = rng.choice(b"abcd")
    out.append(bytes(x))
    u = rand(rng, max(1, n // 2), b"ab")
    out.append((u + u + b"b")[:n].ljust(n, b"a"))           # squares
    out.append((u + u[::-1] + b"a" * n)[:n])                # palindromes
    if n > 4:
        out.append(b"a" * (n // 2) + b"b" + b"a" * (n - n // 2 - 1))
        w = bytes(sorted(rand(rng, n, list(range(1, 256)))))
        out.append(w)
        out.append(w[::-1])
    r = bytearray()                                         # runs of random lengths
    while len(r) < n:
        r += bytes([rng.choice(b"abc")]) * rng.choice([1, 1, 2, 3, 8, 17])
    out.append(bytes(r[:n]))
    return [o for o in out if len(o) == n]

def texts(rng, count, lens, alphas=ALPHAS, structured=0.5):
    out = []
    for _ in range(count):
        n = rng.choice(lens)
        if rng.random() < structured:
            out.append(rng.choice(shapes(rng, n)))
        else:
            out.append(rand(rng, n, rng.choice(alphas)))
    return out

# contents that programs like to treat specially (zero free)
SPECIAL = [b"\xef\xbb\xbfabab", b"\xff\xfea\1b\1", b"\xfe\xff\1a", b"\x1f\x8b\x08abcabc", b"BZh9ab", b"(\xb5/\xfdab", b"\xfd7zXZ", b"PK\3\4ab", b"ab\r\ncd\r\n", b"ab\rcd\r",
           b"ab\n\n", b"\n", b"\n\nab", b"ab \t ", b" \tab", b"ab\x1acd", b"\4", b"ab\x04", b"\x1b[31mab", b">f 1\nACGT\nAC\n", b";comment\nab", b"#!ab\nab", b"# ab\nb",
           b"12,34,12", b"0", b"-1", b"{}{}", b"%s%n%s", b"\\n\\0\\x41", b"\"ab\"", b"acgtnACGTN", b"ABab", b"$a$", b"\x7f\x80\x7f", b"\xc0\x80", b"\xed\xa0\x80ab", b"\xf4\x90\x80\x80",
           "a\u0308a".encode(), "\u2028ab".encode(), "\ufeff".encode()]

def mix(rng, small, medium, large=0, alphas=ALPHAS, maxbig=1025):
    """small (1..40), medium (up to 257) and large (up to maxbig) texts"""
    out = texts(rng, small, list(range(1, 25)) + [31, 32, 33, 40], alphas)
    out += texts(rng, medium, LENS, alphas)
    out += texts(rng, large, [x for x in BIG + HUGE if x <= maxbig], alphas)
    return dedup(out + SPECIAL)

def far(rng, marks=(512, 1024, 4096, 8192, 32768, 65536), filler=(b"a", b"acgt"), rare=b"zy", tails=(0, 1, 700)):
    """long texts in which something unusual happens only once, at or next to a boundary, or in the middle"""
    out = []
    for m in marks:
        for d in (-1, 0, 1):
            f = filler[(m + d) % len(filler)]
            p, tail = m + d, rng.choice(tails)
            t = bytearray(rand(rng, p, f)) if len(f) > 1 else bytearray(f * p)
            t += bytes([rng.choice(rare)]) * rng.choice([1, 1, 2, 3]) + (f[:1] * tail if rng.random() < 0.5 else rand(rng, tail, f))
            out.append(bytes(t))
        f = rng.choice(filler)
        p = rng.randrange(m // 2, m)
        out.append(rand(rng, p, f) + bytes([rng.choice(rare)]) + rand(rng, m + 10 - p, f))
        p = rng.randrange(m * 9 // 10, m * 11 // 10)
        out.append(rand(rng, p, f) + bytes([rng.choice(rare)]) + rand(rng, 2 * m + 100 - p, f))
    return out

# order-preserving images of bytes in the character types of the library
WIDE = {"u8": (1, 0), "u16": (257, 0), "u32": (16843009, 0), "i32": (16 * 10**6, -2 * 10**9), "i64": (4 * 10**16, -5 * 10**18)}

def wide(ty, t):
    m, a = WIDE[ty]
    return [c * m + a for c in t]

def unwide(ty, x):
    m, a = WIDE[ty]
    return [(v - a) // m if isinstance(v, int) and (v - a) % m == 0 and 0 <= (v - a) // m < 256 else -7 for v in x]

def dedup(l):
    seen, out = set(), []
    for x in l:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out

# ---------------------------------------------------------------- certificates
def suffix_array(t):
    """1-based suffix array and rank array (rank n+1 -> 0) by prefix doubling"""
    n = len(t)
    if n == 0:
        return [], [0]
    rank = list(t)
    sa = sorted(range(n), key=lambda i: rank[i])
    tmp = [0] * n
    # initial ranks
    r = 0
    tmp[sa[0]] = 1
    r = 1
    for a, b in zip(sa, sa[1:]):
        if rank[b] != rank[a]:
            r += 1
        tmp[b] = r
    rank = tmp
    k = 1
    while r < n:
        key = lambda i: (rank[i] << 32) | (rank[i + k] if i + k < n else 0)
        keys = [key(i) for i in range(n)]
        sa.sort(key=keys.__getitem__)
        tmp = [0] * n
        tmp[sa[0]] = 1
        r = 1
        for a, b in zip(sa, sa[1:]):
            if keys[a] != keys[b]:
                r += 1
            tmp[b] = r
        rank = tmp
        k *= 2
    return [i + 1 for i in sa], rank + [0]

def omega_order(nxt, t):
    """Order of positions by the infinite word read along nxt; returns (order, class ids), 1-based"""
    n = len(t)
    rank = list(t)
    jump = list(nxt)
    classes = len(set(rank))
    while True:
        keys = [(rank[i], rank[jump[i]]) for i in range(n)]
        ids = {k: x for x, k in enumerate(sorted(set(keys)))}
        rank = [ids[k] + 1 for k in keys]
        jump = [jump[jump[i]] for i in range(n)]
        if len(ids) == classes:
            # one more doubling may still refine only if the previous one did
            break
        classes = len(ids)
    # ensure n steps were covered
    steps = 1
    while steps < 2 * n:
        keys = [(rank[i], rank[jump[i]]) for i in range(n)]
        ids = {k: x for x, k in enumerate(sorted(set(keys)))}
        rank = [ids[k] + 1 for k in keys]
        jump = [jump[jump[i]] for i in range(n)]
        steps *= 2
    order = sorted(range(n), key=lambda i: rank[i])
    return [i + 1 for i in order], rank

def duval(t):
    n, k, out = len(t), 0, []
    while k < n:
        i, j = k, k + 1
        while j < n and t[i] <= t[j]:
            i = k if t[i] < t[j] else i + 1
            j += 1
        while True:
            k += j - i
            out.append(k)
            if k > i:
                break
    return out

def lcp_of(t, sa):
    """lcp array (Kasai)"""
    n = len(t)
    rk = [0] * n
    for r, p in enumerate(sa):
        rk[p - 1] = r
    lcp = [0] * n
    h = 0
    for i in range(n):
        if rk[i] == 0:
            h = 0
            continue
        j = sa[rk[i] - 1] - 1
        while i + h < n and j + h < n and t[i + h] == t[j + h]:
            h += 1
        lcp[rk[i]] = h
        h = max(h - 1, 0)
    return lcp
