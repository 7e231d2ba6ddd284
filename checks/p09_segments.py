"""segment lists and RTTM"""
from symx.harness import harness, s_and, s_or
from symx.util import index, array
import numpy as np
import pandas as pd
from hyperion.utils.segment_list import SegmentList
from hyperion.utils.rttm import RTTM
import hyperion.utils.rttm, hyperion.utils.segment_list


def mk(E, p, n, by_file, nf=2, atoms=True):
    """segments in any of nf files, any times"""
    sid = E.atoms(p + 's', n, distinct=True) if atoms else E.words(n, 2)
    fn = E.atoms(p + 'f', nf, distinct=True) if atoms else E.words(nf)
    fi = [min(E.choice('%sfi%d' % (p, i), nf), i) for i in range(n)]
    fid = array(E, [fn[i] for i in fi]) if atoms else np.array([str(fn[i]) for i in fi], dtype=object)
    b = E.real(p + 'b', n, lo=0, hi=100)
    d = E.real(p + 'd', n, lo=0, hi=100)
    e = b + d
    sl = SegmentList.create(list(sid), list(fid), list(b), list(e), index_by_file=bool(by_file))
    return sl, [(sid[i], fid[i], b[i], e[i]) for i in range(n)]


def rows(sl):
    return list(zip(sl.segment_id, sl.file_id, sl.tbeg, sl.tend))


def same_rows(E, got, want, what='rows'):
    E.claim(what + ': number', len(got) == len(want))
    if len(got) == len(want):
        for a, b in zip(got, want):
            for x, y in zip(a, b):
                E.same(what, x, y)


def uniq(want):
    out = []
    for r in want:
        if index(out, r[1]) is None:
            out.append(r[1])
    for i in range(len(out)):          # insertion sort
        for j in range(i, 0, -1):
            if out[j] < out[j - 1]:
                out[j], out[j - 1] = out[j - 1], out[j]
    return out


CF = [dict(n=n, by_file=b) for n in (1, 2, 3) for b in (0, 1)]


@harness('P09', configs=CF, bounds='up to 3 segments in up to 2 files, any names and times')
def lookup(E, n, by_file):
    sl, want = mk(E, 'a', n, by_file)
    E.claim('length', len(sl) == n)
    same_rows(E, rows(sl), want)
    files = uniq(want)
    if by_file:
        E.same('files', sl.uniq_file_id, array(E, files))
        for k, f in enumerate(files):
            mine = [r for r in want if r[1] == f]
            same_rows(E, rows(sl.getitem_by_key(f)), mine, 'file look-up')
            same_rows(E, rows(sl[k]), mine, 'position look-up')
            E.same('segments of file', sl.segments_ids_from_file(f), array(E, [r[0] for r in mine]))
            E.claim('contains', f in sl)
        seen = [rows(x) for x in sl]
        E.claim('iteration length', len(seen) == len(files))
        for f, x in zip(files, seen):
            same_rows(E, x, [r for r in want if r[1] == f], 'iteration')
    else:
        for k, r in enumerate(want):
            for x in (sl.getitem_by_key(r[0]), sl[k]):
                same_rows(E, [(x['segment_id'], x['file_id'], x['tbeg'], x['tend'])], [r], 'look-up')
        for f in files:
            E.same('segments of file', sl.segments_ids_from_file(f), array(E, [r[0] for r in want if r[1] == f]))
        same_rows(E, [(x['segment_id'], x['file_id'], x['tbeg'], x['tend']) for x in sl], want, 'iteration')
    sl.index_by_file = not by_file
    same_rows(E, rows(sl), want)
    if by_file:
        x = sl.getitem_by_key(want[-1][0])
        same_rows(E, [(x['segment_id'], x['file_id'], x['tbeg'], x['tend'])], want[-1:], 'look-up after index change')
    else:
        same_rows(E, rows(sl.getitem_by_key(want[-1][1])), [r for r in want if r[1] == want[-1][1]], 'look-up after index change')
    E.reach()


@harness('P09', configs=[dict(n=n, by_file=b, keep=k) for n in (2, 3) for b in (0, 1) for k in (0, 1)],
         bounds='up to 3 segments in up to 2 files, any subset')
def filter_selects(E, n, by_file, keep):
    sl, want = mk(E, 'a', n, by_file)
    col = 1 if by_file else 0
    keys = uniq(want) if by_file else [r[0] for r in want]
    sel = [k for i, k in enumerate(keys) if E.bool('sel%d' % i)]
    if not sel or (not keep and len(sel) == len(keys)):
        return
    r = sl.filter(array(E, sel), keep=bool(keep))
    E.reach()
    got = rows(r)
    exp = [x for x in want if (index(sel, x[col]) is not None) == bool(keep)]
    E.claim('number of segments', len(got) == len(exp))
    ids = [x[0] for x in got]
    for x in exp:
        k = index(ids, x[0])
        E.claim('segment kept', k is not None)
        if k is not None:
            same_rows(E, [got[k]], [x])
    same_rows(E, rows(sl), want, 'input')


@harness('P09', configs=[dict(n=n, by_file=b, parts=p) for n in (2, 3) for b in (0, 1) for p in (1, 2)],
         bounds='up to 3 segments in up to 2 files, up to 2 parts')
def split_merge(E, n, by_file, parts):
    sl, want = mk(E, 'a', n, by_file)
    keys = uniq(want) if by_file else [r[0] for r in want]
    if len(keys) < parts:
        return
    ps = [sl.split(i, parts) for i in range(1, parts + 1)]
    E.reach()
    allr = [x for p in ps for x in rows(p)]
    E.claim('every segment in one part', len(allr) == n)
    ids = [x[0] for x in allr]
    if not by_file:
        E.claim('in the same order', s_and(*[i == x[0] for i, x in zip(ids, want)]))
    for x in want:
        k = index(ids, x[0])
        E.claim('segment present', k is not None)
        if k is not None:
            same_rows(E, [allr[k]], [x])
    if by_file:
        for f in keys:
            E.claim('file in one part', sum(1 for p in ps if any(x[1] == f for x in rows(p))) == 1)
    m = SegmentList.merge(ps, index_by_file=bool(by_file))
    same_rows(E, rows(m), allr, 'merge')


@harness('P09', configs=[dict(n=n, by_file=b, given=g) for n in (1, 2) for b in (0, 1) for g in (0, 1)],
         bounds='up to 2 segments of a file in any order plus one of another file, times up to 4 (2 for two segments) frames, any frame shift of 10 or 25 ms')
def binary_vad(E, n, by_file, given):
    shift = [10, 25][E.choice('shift', 2)]
    b = E.real('b', n, lo=0)
    d = E.real('d', n, lo=0)
    e = b + d
    for i in range(n):
        E.assume(e[i] * 1000 <= (2 if n == 2 else 4) * shift)
    sl = SegmentList.create(['s%d' % i for i in range(n + 1)], ['f'] * n + ['g'], list(b) + [0.], list(e) + [1.], index_by_file=bool(by_file))
    nf = E.cint('nf', 1, 3) if given else None
    key = 'f' if by_file else 's0'
    v = sl.to_bin_vad(key, frame_shift=shift, num_frames=nf)
    rb, re = np.round(b * 1000 / shift), np.round(e * 1000 / shift)
    E.reach()
    if given:
        E.claim('length', len(v) == nf)
    else:
        E.claim('length', s_and(*[len(v) >= x for x in re]))
        E.claim('length', s_or(*[len(v) == x for x in re]))
    use = range(n) if by_file else [0]
    for t in range(len(v)):
        E.claim('frame', (int(v[t]) == 1) == s_or(*[s_and(rb[i] <= t, t <= re[i]) for i in use]))


def patch_csv(env):
    """numbers parsed by pandas come back as the symbolic numbers that were written"""
    real = pd.read_csv
    def read_csv(*a, **k):
        df = real(*a, **k)
        for c in df.columns:
            if df[c].dtype.kind in 'fi':
                df[c] = pd.Series([env.detok(x) for x in df[c]], dtype=object, index=df.index)
        return df
    return dict(setattrs=[(pd, 'read_csv', read_csv)])


@harness('P09', configs=CF, text=True, patch=patch_csv, bounds='up to 3 segments',
         assumptions=['times are written with 3 decimals: equality up to 0.5 ms'])
def text_round_trip(E, n, by_file):
    sl, want = mk(E, 'a', n, by_file, atoms=False)
    fn = E.tmp('segments')
    sl.save(fn)
    r = SegmentList.load(fn, index_by_file=bool(by_file))
    E.reach()
    got = rows(r)
    E.claim('number', len(got) == n)
    for x, y in zip(got, want):
        E.claim('names', str(x[0]) == str(y[0]) and str(x[1]) == str(y[1]))
        for k in (2, 3):
            E.claim('time', s_and(x[k] - y[k] <= 0.000501, y[k] - x[k] <= 0.000501))


# ---------------------------------------------------------------------------------------------------- RTTM

def mkr(E, p, n, by_file=1, nf=2, ns=2, atoms=True, types=False):
    fn = E.atoms(p + 'f', nf, distinct=True) if atoms else E.words(nf)
    sn = E.atoms(p + 's', ns, distinct=True) if atoms else E.words(ns, 2)
    fi = [min(E.choice('%sfi%d' % (p, i), nf), i) for i in range(n)]
    si = [min(E.choice('%ssi%d' % (p, i), ns), i) for i in range(n)]
    b = E.real(p + 'b', n, lo=0, hi=100)
    d = E.real(p + 'd', n, lo=0, hi=100)
    for i in range(n):
        for j in range(i):
            if fi[i] == fi[j]:
                E.assume(b[j] <= b[i])
    ty = ['SPEAKER' if not types or i == 0 or E.bool('%sty%d' % (p, i)) else 'NOISE' for i in range(n)]
    F = [fn[i] for i in fi] if atoms else [str(fn[i]) for i in fi]
    S = [sn[i] for i in si] if atoms else [str(sn[i]) for i in si]
    if types:
        r = RTTM.create(ty, F, None, list(b), list(d), name=S, index_by_file=bool(by_file))
    else:
        r = RTTM.create_spkdiar(F, list(b), list(d), S, index_by_file=bool(by_file))
    return r, [(ty[i], F[i], b[i], d[i], S[i]) for i in range(n)]


def rrows(r):
    s = r.segments
    return list(zip(s['segment_type'], s['file_id'], s['tbeg'], s['tdur'], s['name']))


@harness('P09', configs=[dict(n=n, by_file=b) for n in (1, 2, 3) for b in (0, 1)], bounds='up to 3 segments, 2 files, 2 names')
def rttm_lookup(E, n, by_file):
    r, want = mkr(E, 'a', n, by_file)
    E.claim('length', len(r) == n)
    same_rows(E, rrows(r), want)
    files = []
    for x in want:
        if index(files, x[1]) is None:
            files.append(x[1])
    E.claim('number of files', r.num_files == len(files))
    if by_file:
        for f in files:
            same_rows(E, rrows(r[f]), [x for x in want if x[1] == f], 'file look-up')
        it = [rrows(x) for x in r]
        E.claim('iteration', len(it) == len(files))
        for f, x in zip(files, it):
            same_rows(E, x, [y for y in want if y[1] == f], 'iteration')
    else:
        it = list(r)
        E.claim('iteration over turns', len(it) == n)
        for i, x in enumerate(want):
            for g in (it[i], r[i]):
                same_rows(E, [(g['segment_type'], g['file_id'], g['tbeg'], g['tdur'], g['name'])], [x], 'turn')
    q = r.copy()
    same_rows(E, rrows(q), want, 'copy')
    E.claim('equality', bool(q == r) and not bool(q != r))
    names = []
    for x in want:
        if index(names, x[4]) is None:
            names.append(x[4])
    E.claim('total speakers', r.total_num_spks == len(names))
    per = r.num_spks_per_file
    for f in files:
        k = []
        for x in want:
            if x[1] == f and index(k, x[4]) is None:
                k.append(x[4])
        E.claim('speakers per file', per[f] == len(k))
        if by_file:
            d = list(r.get_files_with_names_diff_to_file(f))
            w = []
            for x in want:
                if index(k, x[4]) is None and index(w, x[1]) is None:
                    w.append(x[1])
            E.claim('files of other speakers', len(d) == len(w) and all(index(d, x) is not None for x in w))
    E.claim('speakers per file on average', abs(r.avg_num_spks_per_file * len(files) - sum(per[f] for f in files)) < 1e-9)
    if by_file:
        o = E.atoms('other', 1)[0]
        E.claim('contains', bool(o in r) == (index(files, o) is not None))
    E.reach()


@harness('P09', configs=[dict(n=n) for n in (1, 2)], bounds='up to 2 turns in up to 2 files that begin and end at any of 5 times, as soon as 10 ms after another')
def rttm_segment_ids(E, n):
    """the segments of different turns have different ids, so that each can be looked up"""
    T = [0., 0.5, 0.51, 1.2, 61.0]
    f = [('f', 'g')[E.choice('f%d' % i, 2)] for i in range(n)]
    b = [T[E.choice('b%d' % i, 5)] for i in range(n)]
    d = [(0.25, 0.26, 7.)[E.choice('d%d' % i, 3)] for i in range(n)]
    want = [x for i, x in enumerate(zip(f, b, d)) if x not in list(zip(f, b, d))[:i]]
    want.sort()
    r = RTTM.create_spkdiar([x[0] for x in want], [x[1] for x in want], [x[2] for x in want], ['s'] * len(want))
    r2 = SegmentList.create(['s%d' % i for i in range(len(want))], [x[0] for x in want], [x[1] for x in want], [x[1] + x[2] for x in want])
    E.claim('files of a list', [x.file_id[0] for x in r2] == sorted(set(f)))
    sg = r.to_segment_list()
    ids = list(sg.segment_id)
    E.reach()
    E.claim('different ids', len(set(ids)) == len(want))
    # by file unless said otherwise
    E.claim('files', sorted(set(x.file_id[0] for x in sg)) == sorted(set(f)) and sorted(set(x.file_id[0] for x in r)) == sorted(set(f)))
    r.index_by_file = False
    E.claim('by turn', len(list(r)) == len(want))
    r.index_by_file = True
    E.claim('by file', len(list(r)) == len(set(f)))
    sg.index_by_file = False
    for i, x in zip(ids, want):
        g = sg[i]
        E.claim('looked up', g['file_id'] == x[0] and abs(g['tbeg'] - x[1]) < 1e-9 and abs(g['tend'] - x[1] - x[2]) < 1e-9)


@harness('P09', configs=[dict(n=n) for n in (1, 2, 3)], text=True, bounds='up to 3 segments, 2 files')
def rttm_to_segments(E, n):
    r, want = mkr(E, 'a', n, 1)
    sg = r.to_segment_list()
    E.reach()
    same_rows(E, [(a, b, c) for a, b, c in zip(sg.file_id, sg.tbeg, sg.tend)], [(x[1], x[2], x[2] + x[3]) for x in want], 'segment list')


@harness('P09', configs=[dict(n=n, keep=k, parts=p) for n in (2, 3) for k in (0, 1) for p in (1, 2)], bounds='up to 3 segments, 2 files')
def rttm_select(E, n, keep, parts):
    r, want = mkr(E, 'a', n, 1)
    files = []
    for x in want:
        if index(files, x[1]) is None:
            files.append(x[1])
    if len(files) == 2:
        q = r.filter(array(E, [files[1]]), keep=bool(keep))
        same_rows(E, rrows(q), [x for x in want if (x[1] == files[1]) == bool(keep)], 'filter')
    E.reach()
    if len(files) >= parts:
        ps = [r.split(i, parts) for i in range(1, parts + 1)]
        for f in files:
            got = [rrows(p) for p in ps if any(x[1] == f for x in rrows(p))]
            E.claim('file in one part', len(got) == 1)
            same_rows(E, [x for x in got[0] if x[1] == f], [x for x in want if x[1] == f], 'part')
        m = RTTM.merge(ps)
        same_rows(E, rrows(m), [x for p in ps for x in rrows(p)], 'merge')


@harness('P09', configs=[dict(n=n, types=t) for n in (1, 2, 3) for t in (0, 1)], bounds='up to 3 segments in up to 2 files, 2 names and 2 types, any margin >= 0')
def rttm_merge_adjacent(E, n, types):
    r, want = mkr(E, 'a', n, 1, types=types)
    margin = E.real('margin', lo=0, hi=10)
    t = E.real('t', lo=0, hi=300)
    r.merge_adjacent_segments(margin)
    got = rrows(r)
    E.reach()
    E.claim('no more segments', len(got) <= n)
    for a in want:
        same = [g for g in got if g[0] == a[0] and g[1] == a[1] and g[4] == a[4]]
        E.claim('no speech is lost', s_or(*[s_and(g[2] <= a[2], g[2] + g[3] >= a[2] + a[3]) for g in same]))
    for a, b in zip(want[:-1], want[1:]):
        if a[0] == b[0] and a[1] == b[1] and a[4] == b[4]:
            E.claim('turns closer than the margin are merged', s_or(
                b[2] - a[2] - a[3] > margin,
                *[s_and(g[2] <= a[2], g[2] + g[3] >= a[2] + a[3], g[2] + g[3] >= b[2] + b[3]) for g in got
                  if g[0] == a[0] and g[1] == a[1] and g[4] == a[4]]))
    for g in got:
        mine = [a for a in want if g[0] == a[0] and g[1] == a[1] and g[4] == a[4]]
        # any added time t lies in a gap of at most the margin
        E.claim('only gaps up to the margin are filled', s_or(
            t <= g[2], t >= g[2] + g[3], *([s_and(a[2] <= t, t <= a[2] + a[3]) for a in mine] +
                                           [s_and(a[2] + a[3] < t, c[2] > t, c[2] - a[2] - a[3] <= margin) for a in mine for c in mine])))


@harness('P09', configs=[dict(n=1, q=1), dict(n=2, q=1), dict(n=1, q=2)], bounds='up to 2 speaker turns, up to 2 queried segments')
def rttm_segment_names(E, n, q):
    r, want = mkr(E, 'a', n, 1, atoms=False)
    fn = E.words(2)
    b = E.real('qb', q, lo=0, hi=100)
    d = E.real('qd', q, lo=0, hi=100)
    qf = [str(fn[E.choice('qf%d' % i, 2)]) for i in range(q)]
    sl = SegmentList.create(['q%d' % i for i in range(q)], qf, list(b), list(b + d))
    names, num = r.get_segment_names(sl)
    n2, num2 = r.get_segment_names_slow(sl)
    E.reach()
    for i in range(q):
        act = []
        for x in want:
            if x[1] == qf[i] and ((x[2] <= b[i] and x[2] + x[3] > b[i]) or (x[2] < b[i] + d[i] and x[2] + x[3] >= b[i] + d[i])
                                  or (x[2] >= b[i] and x[2] + x[3] <= b[i] + d[i])):
                if x[4] not in act:
                    act.append(x[4])
        for nm, nn in ((names, num), (n2, num2)):
            E.claim('number of names', int(nn[i]) == len(act))
            E.claim('names', str(nm[i]) == ('@'.join(act) if act else '<NA>'))


@harness('P09', configs=[dict(n=n, pre=p) for n in (1, 2, 3) for p in (0, 1)], text=True, patch=patch_csv, bounds='up to 3 segments',
         assumptions=['times are written with 3 decimals: equality up to 0.5 ms'])
def rttm_text(E, n, pre):
    r, want = mkr(E, 'a', n, 1, atoms=False)
    if pre:
        r.prepend_file_id_to_name()
    fn = E.tmp('rttm')
    r.save(fn)
    r2 = RTTM.load(fn)
    got = rrows(r2)
    E.reach()
    E.claim('number', len(got) == n)
    for x, y in zip(got, want):
        E.claim('names', x[0] == y[0] and x[1] == y[1])
        E.claim('speaker', x[4] == (y[1] + '_' + y[4] if pre else y[4]))
        E.claim('empty fields', all(r2.segments.iloc[0][c] == '<NA>' for c in ('ortho', 'stype', 'conf', 'slat')))
        for k in (2, 3):
            E.claim('time', s_and(x[k] - y[k] <= 0.000501, y[k] - x[k] <= 0.000501))


@harness('P09', configs=[dict(n=n, by_file=b, types=t) for n in (1, 2, 3) for b in (0, 1) for t in (0, 1)],
         bounds='up to 3 turns in up to 2 files, 2 names and 2 types, that end in the order in which they begin')
def rttm_overlaps(E, n, by_file, types):
    """overlapping turns are cut at the middle of the overlap: the same speech, each time in one turn"""
    r, want = mkr(E, 'a', n, by_file, types=types)
    for a, c in zip(want[:-1], want[1:]):
        E.assume(a[2] + a[3] <= c[2] + c[3])
    r.eliminate_overlaps()
    got = rrows(r)
    E.reach()
    E.claim('number', len(got) == n)
    beg, end = [x[2] for x in want], [x[2] + x[3] for x in want]
    for i in range(1, n):
        a, c = want[i - 1], want[i]
        if a[0] == c[0] and a[1] == c[1] and bool(c[2] < a[2] + a[3]):
            beg[i] = end[i - 1] = (c[2] + a[2] + a[3]) / 2
    for i in range(n):
        E.claim('type', got[i][0] == want[i][0])
        E.same('file', got[i][1], want[i][1])
        E.same('name', got[i][4], want[i][4])
        E.eq('begin', got[i][2], beg[i])
        E.eq('end', got[i][2] + got[i][3], end[i])


@harness('P09', configs=[dict(n=n, by_file=b) for n in (1, 2) for b in (0, 1)], bounds='one turn in up to 4 frames or 2 turns of up to 2 speakers in 2 frames')
def rttm_matrix(E, n, by_file):
    """one column for each speaker of the file, one at the frames of its turns"""
    shift = [1., .25][E.choice('shift', 2)]
    b, d = E.real('b', n, lo=0, hi=8), E.real('d', n, lo=0, hi=8)
    for i in range(n):
        E.assume(b[i] + d[i] <= (2 if n == 2 else 4) * shift)
    if n == 2:
        E.assume(b[0] <= b[1])
    nm = ['pq'[E.choice('nm%d' % i, 2)] for i in range(n)]
    r = RTTM.create_spkdiar(['f'] * n + ['g'], list(b) + [0.], list(d) + [1.], nm + ['r'], index_by_file=bool(by_file))
    m = r.to_matrix('f', shift)
    rb, re = np.round(b / shift), np.round((b + d) / shift)
    E.reach()
    u = sorted(set(nm))
    E.claim('columns', m.shape[1] == len(u))
    E.claim('length', s_and(*[len(m) >= x for x in re]))
    E.claim('length', s_or(*[len(m) == x for x in re]))
    for t in range(len(m)):
        for k, v in enumerate(u):
            E.claim('frame', (int(m[t, k]) == 1) == s_or(*[s_and(rb[i] <= t, t < re[i]) for i in range(n) if nm[i] == v]))


@harness('P09', configs=[dict(n=n, by_file=b, prep=p) for n in (1, 2) for b in (0, 1) for p in (0, 1)], text=True, bounds='up to 2 segments')
def rttm_from_segments(E, n, by_file, prep):
    sl, want = mk(E, 'a', n, by_file, atoms=False)
    nm = ['pq'[E.choice('nm%d' % i, 2)] for i in range(n)]
    for i in range(1, n):
        E.assume(s_or(want[i - 1][1] != want[i][1], want[i - 1][2] <= want[i][2]))
    r = RTTM.create_spkdiar_from_segments(sl, nm, prepend_file_id=bool(prep))
    E.reach()
    same_rows(E, rrows(r), [('SPEAKER', x[1], x[2], x[3] - x[2], x[1] + '_' + k if prep else k) for x, k in zip(want, nm)], 'turn')
