"""An independent model of the chapter/verse index: which lines belong to which verse, and what a lookup finds."""


def leading(v):
    n = ''
    for ch in v:
        if not ch.isdigit(): break
        n += ch
    return int(n)


def reference_index(rows):
    """rows: [(marker, clean)] → {(C,V): [line numbers]} in order: the documented rule, computed line by line."""
    owner = []
    C, V = '-1', None
    for i, (m, t) in enumerate(rows):
        if m == 'c': C, V = t, '0'
        elif m == 'v':
            V = t
            # the headings, paragraph starts, … that lead into this verse belong to it
            j = i
            while j and rows[j - 1][0] not in ('c', 'v', 'v~', 'p~') and rows[j - 1][0][0] != '¬':
                j -= 1
                owner[j] = (C, V)
        owner.append((C, str(i)) if C == '-1' else (C, V))
    d = {}
    for i, o in enumerate(owner): d.setdefault(o, []).append(i)
    return d, owner


def reference_contexts(rows, index):
    from BibleOrgSys.Internals.InternalBibleInternals import BOS_NESTING_MARKERS
    from BibleOrgSys.Internals.InternalBibleBook import OUR_HEADING_BLOCK_MARKERS
    nest = (set(BOS_NESTING_MARKERS) | set(OUR_HEADING_BLOCK_MARKERS)) - {'v'}
    before, open_ = [], []
    for m, t in rows:
        before.append(list(open_))
        if m[0] == '¬':
            if m[1:] in open_: open_.remove(m[1:])
        elif m in nest: open_.append(m)
    return {k: before[v[0]] for k, v in index.items()}


def holders(want, C, V):
    """The bridges and part verses that hold the verse, in book order."""
    n = leading(V)
    out = []
    for c, v in want:
        if c != C: continue
        if '-' in v:
            a, b = v.split('-')
            if leading(a) <= n <= leading(b): out.append((c, v))
        elif not v.isdigit() and leading(v) == n: out.append((c, v))
    return out


def find(want, C, V, strict=False, complete=False):
    """The index keys that a lookup gives (an empty list: not found)."""
    key, n = (C, V), leading(V)
    if strict and not complete: return [key] if key in want else []
    if C == '-1': return [key] if key in want else []
    within = holders(want, C, V)
    bare = (C, str(n))
    if not complete:
        if key in want: return [key]
        if not V.isdigit() and bare in want: return [bare]
        return within[:1]
    out = list(within)
    if key in want:
        if key not in out: out.append(key)
    elif not V.isdigit() and bare in want and bare not in out: out.append(bare)
    return out
