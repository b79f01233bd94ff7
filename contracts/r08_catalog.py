"""R08: catalogue objects (catalog.py)"""
from rmv.run import contract
from contracts.stand import Ns

K = 'redmapper/catalog.py:'
F = [('ID', 'i8'), ('Ra', 'f8'), ('mag', 'f4', dict(shape=3))]


def table(c, name, n, extra=()):
    return c.rec(name, n, [(f[0], f[1], dict(f[2]) if len(f) > 2 else {}) for f in list(F) + list(extra)])


def row_same(c, a, i, b, j, names=('id', 'ra', 'mag')):
    r = []
    for nm in names:
        x, y = a[nm], b[nm]
        if nm == 'mag':
            r += [c.same(x[i, q], y[j, q]) for q in range(3)]
        else:
            r.append(c.same(x[i], y[j]))
    return c.And(*r)


def cp(c, a):
    """independent copy of the columns, keyed by lower-case name"""
    return {k.lower(): c.snapshot(a[k]) for k in ('ID', 'Ra', 'mag')}


@contract('R08', [K + 'DataObject.__init__', K + 'DataObject.__getattr__', K + 'DataObject.__setattr__', K + 'Catalog.size'])
def columns(c):
    m = c.mod('redmapper.catalog')
    n = c.size('n', min=2, max=6)
    a = table(c, 'a', n)
    s = cp(c, a)
    cat = c.get(m, 'Catalog')(a)
    c.prove('size', c.And(cat.size == n, len(cat) == n if not c.symbolic else True))
    for i in c.each(n):
        c.prove('columns by name in any case', c.And(c.same(cat.ra[i], s['ra'][i]), c.same(cat.RA[i], s['ra'][i]), c.same(cat.Id[i], s['id'][i]),
                                                     *[c.same(cat.MAG[i, q], s['mag'][i, q]) for q in range(3)]))
    v = c.array('v', n)
    w = c.float('w')
    cat.Ra = v
    for i in c.each(n):
        c.prove('assigning a column writes it', c.same(cat.ra[i], v[i]))
        c.prove('and only it', c.And(c.same(cat.id[i], s['id'][i]), *[c.same(cat.mag[i, q], s['mag'][i, q]) for q in range(3)]))
    cat.ra = w
    k = c.int('k', lo=0, hi=n - 1)
    cat.mag[k, 1] = w
    for i in c.each(n):
        c.prove('assigning a number fills the column', c.same(cat.ra[i], w))
        c.prove('element assignment writes through', c.same(cat.mag[i, 1], c.ite(i == k, w, s['mag'][i, 1])))
    cat.other = 5
    c.prove('other attributes are kept aside', c.And(cat.other == 5, len(cat.dtype.names) == 3))


@contract('R08', [K + 'Catalog.__getitem__', K + 'Entry.__init__', K + 'Entry.__getattr__'])
def selection(c):
    m = c.mod('redmapper.catalog')
    n = c.size('n', min=1, max=6)
    a = table(c, 'a', n)
    s = cp(c, a)
    cat = c.get(m, 'Catalog')(a)
    k = c.int('k', lo=0, hi=n - 1)
    nj = c.size('nj', max=5)
    idx = c.array('idx', nj, kind='i', lo=0, hi=n - 1)
    mask = c.array('mask', n, kind='b')
    sub = cat[idx]
    c.prove('selection keeps the type', type(sub) is type(cat))
    c.prove('selection size', sub.size == nj)
    for j in c.each(nj):
        c.prove('selected rows in the order asked for', row_same(c, sub._ndarray, j, s, idx[j]))
    sub.ra = c.float('w')
    ms = cat[mask]
    cnt = c.np.sum(mask)
    c.prove('mask selection size', ms.size == cnt)
    w, = c.np.where(mask)
    for j in c.each(ms.size):
        c.prove('masked rows', row_same(c, ms._ndarray, j, s, w[j]))
    e = cat[:1]
    c.prove('slice', c.And(e.size == 1, row_same(c, e._ndarray, 0, s, 0)))
    for i in c.each(n):
        c.prove('the original is not modified through a selection', row_same(c, cat._ndarray, i, s, i))


@contract('R08', [K + 'Catalog.__getitem__', K + 'Entry.__init__', K + 'Entry.__getattr__', K + 'Entry.add_fields', K + 'Catalog.__setitem__', K + 'DataObject.zeros', K + 'DataObject.__dir__'], kind='conc',
          bounded='single record objects (numpy.void)')
def entries(c):
    np = c.np
    m = c.mod('redmapper.catalog')
    n = c.size('n', min=1, max=6)
    a = table(c, 'a', n)
    s = cp(c, a)
    cat = m.Catalog(a)
    k = c.int('k', lo=-n, hi=n - 1)
    e = cat[k]
    c.prove('one row is an entry', isinstance(e, m.Entry))
    c.prove('with that row', e.id == s['id'][k] and e.RA == s['ra'][k] and (e.mag == s['mag'][k]).all())
    e.ra = 99.5
    c.prove('writing an entry writes its row', cat.ra[k] == 99.5 and (np.delete(cat.ra, k) == np.delete(s['ra'], k)).all())
    e.ra = [98.5]
    c.prove('or with a list of one', cat.ra[k] == 98.5)
    e.mag = [1, 2, 3]
    c.prove('a column of several values', (cat.mag[k] == [1, 2, 3]).all())
    lst = cat[[k, 0]]
    c.prove('a list selects rows', isinstance(lst, m.Catalog) and lst.size == 2 and lst.id[0] == s['id'][k] and lst.id[1] == s['id'][0])
    q = c.int('q', lo=0, hi=n - 1)
    row = cat._ndarray[k].copy()
    before = cat._ndarray.copy()
    cat[q] = row
    c.prove('assigning a row writes that row only', all((cat._ndarray[nm][q] == row[nm]).all() and (np.delete(cat._ndarray[nm], q, 0) == np.delete(before[nm], q, 0)).all()
                                                       for nm in ('id', 'ra', 'mag')))
    cat._ndarray[...] = before
    bad, _ = c.raises(IndexError, lambda: cat[n + 1])
    c.prove('out of range is an error', bad)
    if n > 1:
        bad, _ = c.raises(ValueError, lambda: m.Entry(a))
        c.prove('an entry has exactly one row', bad)
    e2 = m.Entry(a[:1].copy())
    e2.add_fields([('NEW', 'f4'), ('vec', 'f8', 2)])
    c.prove('fields added to an entry', np.ndim(e2.new) == 0 and np.ndim(e2.id) == 0 and e2.new == 0 and e2.vec.size == 2 and e2.id == s['id'][0])
    d = dir(cat)
    c.prove('columns are listed', all(x in d for x in ('id', 'ra', 'mag')))
    z = m.Catalog.zeros(n, dtype=[('AA', 'i4')])
    c.prove('zero catalogue', z.size == n and (z.aa == 0).all())


@contract('R08', [K + 'Catalog.append', K + 'Catalog.extend'])
def growing(c):
    m = c.mod('redmapper.catalog')
    n1, n2 = c.size('n1', max=5), c.size('n2', max=5)
    a, b = table(c, 'a', n1), table(c, 'b', n2)
    sa, sb = cp(c, a), cp(c, b)
    ascat = c.choice('ascat', [True, False])
    cat = c.get(m, 'Catalog')(a)
    other = m.Catalog(b)
    cat.append(other if ascat else other._ndarray)
    c.prove('sizes add', cat.size == n1 + n2)
    for i in c.each(n1):
        c.prove('old rows first', row_same(c, cat._ndarray, i, sa, i))
    for j in c.each(n2):
        c.prove('then the new rows', row_same(c, cat._ndarray, n1 + j, sb, j))
        c.prove('the appended catalogue is not modified', row_same(c, other._ndarray, j, sb, j))
    n3 = c.size('n3', max=4)
    cat.extend(n3)
    c.prove('extended size', cat.size == n1 + n2 + n3)
    for i in c.each(n1):
        c.prove('rows kept when extended', row_same(c, cat._ndarray, i, sa, i))
    for j in c.each(n3):
        q = n1 + n2 + j
        c.prove('new rows are zero', c.And(cat.id[q] == 0, cat.ra[q] == 0, cat.mag[q, 0] == 0, cat.mag[q, 2] == 0))


@contract('R08', [K + 'Catalog.append'], kind='conc', bounded='real structured arrays, up to 5 rows each; columns in another order or of another kind', trials=80)
def append_other_layout(c):
    """a catalogue whose columns come in another order is refused, or merged column by column: never by position"""
    np = c.np
    m = c.mod('redmapper.catalog')
    n1, n2 = c.size('n1', min=1, max=5), c.size('n2', min=1, max=5)
    names = ['ra', 'dec', 'zred', 'id']
    order = list(c.nrng.permutation(4))
    a = np.zeros(n1, dtype=[(nm, 'f8' if nm != 'id' else 'i8') for nm in names])
    b = np.zeros(n2, dtype=[(names[q], 'f8' if names[q] != 'id' else 'i8') for q in order])
    for t in (a, b):
        for nm in names:
            t[nm] = c.nrng.integers(-1000, 1000, size=t.size)
    sa, sb = a.copy(), b.copy()
    cat, other = m.Catalog(a), m.Catalog(b)
    ascat = c.choice('ascat', [True, False])
    refused, _ = c.raises((TypeError, ValueError), lambda: cat.append(other if ascat else other._ndarray))
    if refused:
        c.prove('the same layout is not refused', order != [0, 1, 2, 3])
        c.prove('a refusal leaves the rows', cat.size == n1 and all((cat._ndarray[nm] == sa[nm]).all() for nm in names))
        return
    c.prove('sizes add', cat.size == n1 + n2)
    for nm in names:
        c.prove('every value stays in its own column', (cat._ndarray[nm][:n1] == sa[nm]).all() and (cat._ndarray[nm][n1:] == sb[nm]).all())


@contract('R08', [K + 'DataObject.add_fields', K + 'DataObject._merge_arrays', K + 'DataObject._lower_array'])
def new_fields(c):
    m = c.mod('redmapper.catalog')
    n = c.size('n', min=2, max=6)
    a = table(c, 'a', n)
    s = cp(c, a)
    cat = c.get(m, 'Catalog')(a)
    cat.add_fields([('LAMBDA', 'f4'), ('pz', 'f8', 2)])
    c.prove('size kept', cat.size == n)
    c.prove('names', sorted(cat.dtype.names) == ['id', 'lambda', 'mag', 'pz', 'ra'])
    for i in c.each(n):
        c.prove('old columns kept', row_same(c, cat._ndarray, i, s, i))
        c.prove('new columns zero', c.And(cat.Lambda[i] == 0, cat.pz[i, 0] == 0, cat.pz[i, 1] == 0))
    bad, _ = c.raises(ValueError, lambda: cat.add_fields([('RA', 'f8')]))
    c.prove('a duplicate column is rejected', bad)
    for i in c.each(n):
        c.prove('and nothing changes', row_same(c, cat._ndarray, i, s, i))


@contract('R08', [K + 'DataObject.__init__', K + 'DataObject._merge_arrays'])
def merging(c):
    m = c.mod('redmapper.catalog')
    n, n2 = c.size('n', max=5), c.size('n2', max=5)
    a = table(c, 'a', n)
    b = c.rec('b', n2, [('Zred', 'f4'), ('k', 'i4')])
    s = cp(c, a)
    z = c.snapshot(b['Zred'])
    bad, cat = c.raises(ValueError, lambda: c.get(m, 'Catalog')(a, b))
    if bad:
        c.prove('only different lengths are rejected', n != n2)
        return
    c.prove('lengths must agree', n == n2)
    c.prove('size', cat.size == n)
    for i in c.each(n):
        c.prove('columns of both', c.And(row_same(c, cat._ndarray, i, s, i), c.same(cat.zred[i], z[i])))
    bad, _ = c.raises(ValueError, lambda: m.Catalog(cat._ndarray, c.rec('d', n, [('RA', 'f8')])))
    c.prove('duplicate names rejected', bad)


@contract('R08', [K + 'DataObject.to_fits_file'])
def writing(c):
    m = c.mod('redmapper.catalog')
    n = c.size('n', min=2, max=6)
    a = table(c, 'a', n)
    s = cp(c, a)
    cat = c.get(m, 'Catalog')(a)
    nj = c.size('nj', max=5)
    idx = c.array('idx', nj, kind='i', lo=0, hi=n - 1)
    use = c.choice('use', [True, False])
    out = {}

    def write(filename, data, **k):
        out.update(k)
        out['fn'], out['data'] = filename, data
    c.patch(m, 'fitsio', Ns(write=write))
    cat.to_fits_file('file.fit', clobber=True, header='h', extname='E', indices=idx if use else None)
    c.prove('the named file', out['fn'] == 'file.fit' and out['clobber'] is True and out['header'] == 'h' and out['extname'] == 'E')
    d = out['data']
    if use:
        c.prove('as many rows as asked for', d.size == nj)
        for j in c.each(nj):
            c.prove('the rows asked for', row_same(c, d, j, s, idx[j]))
    else:
        c.prove('all rows', d.size == n)
        for i in c.each(n):
            c.prove('every row', row_same(c, d, i, s, i))
    cat.to_fits_file('file2.fit')
    c.prove('an existing file is not replaced unless asked for', out['fn'] == 'file2.fit' and not out.get('clobber'))


@contract('R08', [K + 'DataObject.to_fits_file', K + 'DataObject.from_fits_file', K + 'DataObject.from_fits_ext'], kind='conc', bounded='real FITS files', trials=120)
def round_trip(c):
    import os
    import tempfile
    np = c.np
    m = c.mod('redmapper.catalog')
    n = c.size('n', min=0, max=4)
    a = table(c, 'a', n)
    s = cp(c, a)
    cat = m.Catalog(a)
    use = c.choice('use', [False, True])
    nj = c.size('nj', max=4)
    idx = c.array('idx', nj if n > 0 else 0, kind='i', lo=0, hi=max(n - 1, 0))
    idx = idx.astype('i8')
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'x.fit')
        if n == 0:
            cat.to_fits_file(fn, clobber=True)
            c.prove('an empty catalogue survives too', m.Catalog.from_fits_file(fn).size == 0)
            return
        if use:
            idx = np.unique(idx)
            if idx.size == 0:
                cat.to_fits_file(fn, clobber=True, indices=idx)
                import fitsio
                with fitsio.FITS(fn) as f:
                    c.prove('no rows written for an empty selection', f[1].get_nrows() == 0)
                return
            cat.to_fits_file(fn, clobber=True, indices=idx)
        else:
            idx = np.arange(n)
            cat.to_fits_file(fn, clobber=True)
        r = m.Catalog.from_fits_file(fn)
        c.prove('rows survive a write and a read', r.size == idx.size and (r.id == s['id'][idx]).all() and (r.ra == s['ra'][idx]).all()
                and (r.mag == s['mag'][idx]).all())
        k = c.int('row', lo=0, hi=max(0, idx.size - 1))
        r2 = m.Catalog.from_fits_file(fn, rows=[k])
        c.prove('reading chosen rows', r2.size == 1 and r2.id[0] == s['id'][idx][k])
        import fitsio
        with fitsio.FITS(fn) as f:
            x = m.Catalog.from_fits_ext(f[1])
        c.prove('rows of an open extension', x.size == idx.size and (x.id == s['id'][idx]).all() and (x.mag == s['mag'][idx]).all())
        one = m.Entry(cat._ndarray[k:k + 1].copy())
        one.to_fits_file(fn, extname='ONE', header={'LONG': 7})
        with fitsio.FITS(fn) as f:
            c.prove('an entry is added to the file', len(f) == 3 and f['ONE'].get_nrows() == 1 and f['ONE'].read_header()['LONG'] == 7 and f[1].get_nrows() == idx.size)
        c.prove('and read back by its extension', m.Entry.from_fits_file(fn, ext='ONE').id == cat.id[k])
        if idx.size == 1:
            e = m.Entry.from_fits_file(fn)
            c.prove('reading an entry', e.id == s['id'][idx][0])
