"""Independent reading of a delimited integer text file (no numpy)."""


def parse(text, delimiter=','):
    """-> ('ok', rows) | ('bad', reason).  Blank lines and everything after
    '#' are ignored; entries are non-negative decimal integers."""
    rows = []
    bad = None
    for line in text.split('\n'):
        line = line.split('#')[0].strip(' \r')
        if not line:
            continue
        row = []
        for x in line.split(delimiter):
            x = x.strip(' \t')
            y = x[1:] if x[:1] in '+-' else x
            if y and all('0' <= ch <= '9' for ch in y) and int(x) >= 0:
                row.append(int(x))
            else:
                row.append(None)
                bad = bad or 'entry %r' % x
        rows.append(row)
    if rows and any(len(r) != len(rows[0]) for r in rows):
        return 'bad', 'rows of different length'
    if bad:
        return 'bad', bad
    return 'ok', rows


def masks(rows, past=True):
    """-> (n, past masks) of the square relation, or None if it has more
    rows than columns (more columns than rows for a future matrix)"""
    if not rows:
        return 0, []
    nr, nc = len(rows), len(rows[0])
    if not past:
        rows = [[rows[i][j] for i in range(nr)] for j in range(nc)]
        nr, nc = nc, nr
    if nr > nc:
        return None
    P = [0] * nc
    for i in range(nr):
        for j in range(nc):
            if rows[i][j]:
                P[i] |= 1 << j
    return nc, P


def from_masks(P, n=None, rows=None, one='1'):
    n = len(P) if n is None else n
    return [[one if P[i] >> j & 1 else '0' for j in range(n)]
            for i in range(n if rows is None else rows)]
