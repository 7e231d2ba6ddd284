"""script lists: every entry keeps its path, offset and range; text round trip"""
from symx.harness import harness, s_and, s_or
from symx.util import index, array
import numpy as np
from hyperion.utils.scp_list import SCPList

FORMS = ('plain', 'offset', 'range', 'both')


def mk(E, p, n, form, distinct=False):
    key = E.atoms(p + 'k', n, distinct)
    path = E.atoms(p + 'p', n)
    off = E.int(p + 'o', 0, None, shape=n) if form in ('offset', 'both') else None
    rng = E.int(p + 'r', 0, None, shape=(n, 2)) if form in ('range', 'both') else None
    return SCPList(key, path, off, rng)


def rows(s):
    """entries as tuples"""
    return [(s.key[i], s.file_path[i], None if s.offset is None else s.offset[i],
             None if s.range_spec is None else (s.range_spec[i][0], s.range_spec[i][1])) for i in range(len(s.key))]


def same_row(E, a, b):
    E.same('key', a[0], b[0])
    E.same('path', a[1], b[1])
    E.claim('same fields', (a[2] is None) == (b[2] is None) and (a[3] is None) == (b[3] is None))
    if a[2] is not None:
        E.same('offset', a[2], b[2])
    if a[3] is not None:
        E.same('range', array(E, list(a[3])), array(E, list(b[3])))


def same_rows(E, s, want):
    got = rows(s)
    E.claim('number of entries', len(got) == len(want) and len(s) == len(want) and s.len() == len(want))
    for a, b in zip(got, want):
        same_row(E, a, b)


CF = [dict(n=n, form=f) for n in (1, 2, 3) for f in FORMS]


@harness('P03', configs=CF, bounds='up to 3 entries')
def sort_keeps_entries(E, n, form):
    s = mk(E, 'a', n, form, distinct=True)
    r0 = rows(s)
    if E.bool('lookup_before'):
        s.get_index(s.key[0])
    s.sort()
    got = rows(s)
    E.claim('size', len(got) == n)
    for i in range(n - 1):
        E.claim('ascending', got[i][0] < got[i + 1][0])
    E.reach()
    for r in r0:
        k = index(s.key, r[0])
        same_row(E, got[k], r)
        E.claim('position', s.get_index(r[0]) == k)


@harness('P03', configs=CF, bounds='up to 3 entries')
def lookup(E, n, form):
    s = mk(E, 'a', n, form, distinct=True)
    r0 = rows(s)
    q = E.atoms('q', 1)[0]
    E.reach()
    E.claim('contains', (q in s) == (index(s.key, q) is not None))
    for i in range(n):
        E.claim('index', s.get_index(r0[i][0]) == i)
        v = s[r0[i][0]]
        same_row(E, (r0[i][0],) + tuple(v), r0[i])
        same_row(E, s[i], r0[i])
    same_rows(E, s.copy(), r0)


@harness('P03', configs=CF, bounds='up to 3 entries, every permutation')
def shuffle_keeps_entries(E, n, form):
    s = mk(E, 'a', n, form, distinct=True)
    r0 = rows(s)
    if E.bool('lookup_before'):
        s.get_index(s.key[0])
    idx = s.shuffle(rng=E.rng())
    E.claim('permutation', sorted(int(i) for i in idx) == list(range(n)))
    E.reach()
    same_rows(E, s, [r0[int(i)] for i in idx])
    for i in range(n):
        E.claim('position', s.get_index(s.key[i]) == i)


@harness('P03', configs=[dict(n=n, form=f, keep=k, by=b) for n in (2, 3) for f in FORMS for k in (True, False)
                         for b in ('key', 'path')],
         bounds='up to 3 entries, 1-2 requested names in any order')
def filter_by_name(E, n, form, keep, by):
    s = mk(E, 'a', n, form)
    r0 = rows(s)
    q = E.atoms('q', 1 if n == 3 else E.cint('nq', 1, 2), distinct=True)
    col = s.key if by == 'key' else s.file_path
    known = [index(col, x) is not None for x in q]
    try:
        r = s.filter(q, keep=keep) if by == 'key' else s.filter_paths(q, keep=keep)
    except AssertionError:
        E.claim('known names are not rejected', keep and not all(known))
        return
    E.claim('unknown names are reported', not keep or all(known))
    c = 0 if by == 'key' else 1
    E.reach()
    same_rows(E, r, [x for x in r0 if (index(q, x[c]) is not None) == keep])
    same_rows(E, s, r0)


@harness('P03', configs=[dict(n=n, form=f, keep=k) for n in (2, 3) for f in FORMS for k in (True, False)],
         bounds='up to 3 entries, every sub-list of positions in every order')
def filter_by_position(E, n, form, keep):
    s = mk(E, 'a', n, form)
    r0 = rows(s)
    sel = E.bool('sel', n)
    pos = [i for i in range(n) if sel[i]]
    if not pos or (not keep and len(pos) == n):
        return
    pos = [pos[i] for i in E.perm('p', len(pos))]
    r = s.filter_index(np.array(pos), keep=keep)
    E.reach()
    same_rows(E, r, [r0[i] for i in pos] if keep else [r0[i] for i in range(n) if not sel[i]])
    same_rows(E, s, r0)


@harness('P03', configs=[dict(n=n, form=f, parts=p, group=g) for n, p in ((2, 2), (3, 2), (3, 3), (4, 2))
                         for f in ('plain', 'both') for g in (True, False)],
         bounds='up to 4 entries, up to 3 parts')
def split_merge(E, n, form, parts, group):
    s = mk(E, 'a', n, form)
    r0 = rows(s)
    ps = [s.split(i + 1, parts, group_by_key=group) for i in range(parts)]
    E.claim('no entry lost', sum(len(p) for p in ps) == n)
    got = [(j, r) for j, p in enumerate(ps) for r in rows(p)]
    E.reach()
    if not group:
        for (j, r), w in zip(got, r0):
            same_row(E, r, w)
    else:
        # entries of one key stay together and in order
        for j, r in got:
            for j2, r2 in got:
                if r[0] == r2[0]:
                    E.claim('same key, same part', j == j2)
        for k in s.key:
            a, b = [r for j, r in got if r[0] == k], [r for r in r0 if r[0] == k]
            E.claim('all entries of the key', len(a) == len(b))
            for x, y in zip(a, b):
                same_row(E, x, y)
    if all(len(p) for p in ps):
        same_rows(E, SCPList.merge(ps), [r for j, r in got])
    same_rows(E, s, r0)


@harness('P03', configs=[dict(a=a, b=b, c=c) for a in FORMS for b in FORMS for c in (None, 'plain', 'both')], bounds='2 or 3 lists of 1-2 entries, any mixture of forms')
def merge_forms(E, a, b, c):
    """lists with and without ranges merge (no range is [0, 0], the full range); data positions are in all of them or the merge is refused"""
    forms = [f for f in (a, b, c) if f]
    ls = [mk(E, 'abc'[i], 1 + (i == 1), f) for i, f in enumerate(forms)]
    r0 = [rows(l) for l in ls]
    off = [f in ('offset', 'both') for f in forms]
    bad, r = E.attempt(lambda: SCPList.merge(ls))
    E.reach()
    E.claim('refused when positions are missing', bad == (any(off) and not all(off)))
    if not bad:
        rg = any(f in ('range', 'both') for f in forms)
        same_rows(E, r, [x[:3] + ((0, 0) if rg and x[3] is None else x[3],) for q in r0 for x in q])
    for l, q in zip(ls, r0):
        same_rows(E, l, q)


@harness('P03', configs=[dict(n=n, m=m, form=f) for n, m in ((1, 1), (2, 1), (2, 2)) for f in FORMS], bounds='lists of up to 2 entries')
def equality(E, n, m, form):
    a, b = mk(E, 'a', n, form), mk(E, 'b', m, form)
    eq = bool(a == b)
    E.claim('negation', bool(a != b) == (not eq))
    E.claim('self', bool(a == a.copy()))
    E.reach()
    if eq:
        same_rows(E, a, rows(b))
    else:
        c = []
        for x, y in zip(rows(a), rows(b)):
            c += [x[0] != y[0], x[1] != y[1]]
            if x[2] is not None:
                c.append(x[2] != y[2])
            if x[3] is not None:
                c += [x[3][0] != y[3][0], x[3][1] != y[3][1]]
        E.claim('different lists differ', n != m or s_or(*c))


@harness('P03', configs=[dict(n=n, form=f, seps=s) for n in (1, 2, 3) for f in FORMS
                         for s in ((' ', ':'),) + ((('|', '#'),) if n == 2 else ())],
         text=True, bounds='up to 3 entries, all offsets >= 0 and ranges (first >= 0, number >= 0)',
         assumptions=['names are opaque words without separators; numbers are written and read back as decimal numerals'])
def text_round_trip(E, n, form, seps):
    key, path = E.names('k:[', n), E.names('/dir/p', n)
    off = E.int('o', 0, None, shape=n) if form in ('offset', 'both') else None
    rng = E.int('r', 0, None, shape=(n, 2)) if form in ('range', 'both') else None
    s = SCPList(key, path, off, rng)
    r0 = rows(s)
    f = E.tmp('a.scp')
    s.save(f, sep=seps[0], offset_sep=seps[1])
    r = SCPList.load(f, sep=seps[0], offset_sep=seps[1])
    E.reach()
    E.claim('offsets survive', (r.offset is None) == (off is None))
    E.claim('number of entries', len(r) == n)
    for i in range(n):
        E.claim('key', str(r.key[i]) == str(key[i]))
        E.claim('path', str(r.file_path[i]) == str(path[i]))
        if off is not None:
            E.same('offset', E.detok(r.offset[i]), off[i])
        if rng is not None and r.range_spec is not None:
            E.same('range', array(E, [E.detok(x) for x in r.range_spec[i]]), array(E, list(rng[i])))
        if rng is not None and r.range_spec is None:
            E.claim('ranges survive', s_and(rng[i, 0] == 0, rng[i, 1] == 0))
        if rng is None:
            E.claim('no invented range', r.range_spec is None)
    E.same('saved list untouched (ranges)', array(E, [x for y in r0 for x in (y[3] or ())]),
           array(E, [x for y in rows(s) for x in (y[3] or ())]))


@harness('P03', configs=[dict(n=n) for n in (1, 2, 3)], text=True, bounds='up to 3 entries, each with any of the written forms')
def parse_forms(E, n):
    """p | p:o | p[a:b] | p[:b] | p[a:] and the combinations"""
    offs = E.bool('has_offset')
    o, a, b = E.int('o', 0, None, shape=n), E.int('a', 0, None, shape=n), E.int('b', 0, None, shape=n)
    txt, want = [], []
    miss = E.choice('missing', n + 1) - 1 if offs and n > 1 else -1
    anyr = False
    for i in range(n):
        form = E.choice('form%d' % i, 4)
        E.assume(b[i] > a[i])
        t = 'p%d' % i
        if offs and i != miss:
            t += ':%d' % o[i]
        t += ('', '[%d:%d]' % (a[i], b[i]), '[:%d]' % b[i], '[%d:]' % a[i])[form]
        want.append(((0, 0), (a[i], b[i] - a[i]), (0, b[i]), (a[i], 0))[form])
        anyr = anyr or form > 0
        txt.append(t)
    E.reach()
    try:
        p, off, rng = SCPList.parse_script(txt, ':')
    except ValueError:
        E.claim('complete lists are accepted', miss >= 0)
        return
    E.claim('missing position is reported', miss < 0)
    E.claim('paths', [str(x) for x in p] == ['p%d' % i for i in range(n)])
    E.claim('offset present', (off is not None) == offs)
    E.claim('range present', (rng is not None) == anyr)
    for i in range(n):
        if offs:
            E.same('offset', off[i], o[i])
        if anyr:
            E.same('range', array(E, list(rng[i])), array(E, list(want[i])))


@harness('P03', configs=[dict(n=n) for n in (1, 2)], bounds='up to 2 entries')
def python_list_input(E, n):
    o, r = E.int('o', 0, 100, shape=n), E.int('r', 0, 100, shape=(n, 2))
    s = SCPList(list(E.atoms('k', n)), list(E.atoms('p', n)), list(o), [list(x) for x in r])
    E.reach()
    E.same('offset', s.offset, o)
    E.same('range', s.range_spec, r)


@harness('P03', configs=[dict(n=n) for n in (1, 2, 3)], text=True, bounds='up to 3 entries')
def path_prefix(E, n):
    key, path = E.names('k', n), E.names('p', n)
    s = SCPList(key, path)
    s.add_prefix_to_filepath('/base/')
    E.reach()
    E.claim('prefixed', [str(x) for x in s.file_path] == ['/base/' + str(x) for x in path])
    E.claim('keys', [str(x) for x in s.key] == [str(x) for x in key])
