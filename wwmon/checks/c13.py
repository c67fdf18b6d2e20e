"""C13: the bit-packed feature matrix stores every value exactly."""
import numpy as np

from wwmon import gen

TECHNIQUE = ("runtime monitor on the bit-packed matrix: whole-matrix, single-cell and column reads compared with the written "
             "values for all widths from 1 to 64 bits, row counts around multiples of the values per word, all unsigned "
             "dtypes and memory layouts, columns rewritten one at a time on buffers filled with garbage; also inside forests "
             "(bins read back through the packed matrix against the raw encoding)")
RULE = ("each case packs one matrix and reads it back by several routes; non-trivial: two or more columns of different widths "
        "or more than one word per column; distinct: by hash of the matrix")
ASSUMPTIONS = ["at least one row and one column"]
QUICK = dict(seconds=14)
THOROUGH = dict(seconds=240)
REQUIRED = ["matrices", "cells_read_back", "single_reads", "columns_rewritten", "widths_checked", "widths_over_32",
            "width_64", "full_last_words", "partial_last_words", "strided_inputs", "dtype_uint8", "dtype_uint16",
            "dtype_uint32", "dtype_uint64", "refused_dtypes", "encoder_matrices", "column_reads"]


def directed(tier):
    return ["width_%d" % k for k in range(1, 65)] + ["rows_%d" % k for k in range(1, 131, 3)] + ["zeros", "wide", "tall"]


def bits(m):
    return max(1, int(m).bit_length())


def rand_values(rng, n, width, dtype):
    """n values of at most `width` bits, the largest one exactly reached; boundary heavy."""
    hi = (1 << width) - 1
    lo = (1 << (width - 1)) if width > 1 else 0
    mode = rng.randint(4)
    top = [hi, lo, lo + 1 if width > 1 else hi, int(rng.randint(lo, min(hi, 2 ** 62) + 1)) if lo < 2 ** 62 else hi][mode]
    top = min(top, hi)
    v = np.empty(n, dtype=np.uint64)
    for i in range(n):
        r = rng.rand()
        if r < 0.2:
            v[i] = top
        elif r < 0.35:
            v[i] = 0
        elif r < 0.45:
            v[i] = max(0, top - 1)
        else:
            x = int(rng.randint(0, 2 ** 32)) << 32 | int(rng.randint(0, 2 ** 32))
            v[i] = x % (top + 1)
    v[rng.randint(n)] = top
    return v.astype(dtype)


def words_ok(rep, fb, X, label):
    for j in range(X.shape[1]):
        rep.ev("widths_checked")
        want = bits(int(X[:, j].max()))
        if int(fb.n_bits[j]) != want:
            rep.bad("%s: column %d with maximum %d uses %d bits, %d suffice" % (label, j, int(X[:, j].max()), int(fb.n_bits[j]), want))
            return False
        nw = int(fb.offsets[j + 1]) - int(fb.offsets[j])
        per = 64 // want
        if nw != -(-X.shape[0] // per):
            rep.bad("%s: column %d takes %d words for %d rows of %d bits" % (label, j, nw, X.shape[0], want))
            return False
        rep.ev("widths_over_32", want > 32)
        rep.ev("width_64", want == 64)
        rep.ev("full_last_words" if X.shape[0] % per == 0 else "partial_last_words")
    return True


def same(rep, fb, X, label):
    from wildwood.preprocessing import features_bitarray_to_array

    Y = features_bitarray_to_array(fb)
    rep.ev("cells_read_back", X.size)
    if Y.shape != X.shape or not np.array_equal(Y.astype(np.uint64), X.astype(np.uint64)):
        if Y.shape != X.shape:
            rep.bad("%s: shape %s read back as %s" % (label, X.shape, Y.shape))
        else:
            i, j = np.argwhere(Y.astype(np.uint64) != X.astype(np.uint64))[0]
            rep.bad("%s: cell (%d, %d) of a %s matrix: wrote %d, read %d" % (label, i, j, X.shape, int(X[i, j]), int(Y[i, j])))
        return False
    return True


def callable_as(f, *a):
    """f if it is an internal function that still takes these arguments."""
    if f is None:
        return None
    try:
        f(*a)
    except Exception:
        return None
    return f


def run_case(rep, rng, name, tier):
    from wildwood.preprocessing import (FeaturesBitArray, array_to_bitarray, features_bitarray_fill_column)
    import wildwood.preprocessing.features_bitarray as fbm

    if name is None and rng.rand() < 0.08:
        return encoder_case(rep, rng)
    n = int(rng.choice([1, 2, 3, 7, 8, 9, 12, 16, 20, 21, 22, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200]))
    if rng.rand() < 0.3:
        n = int(rng.randint(1, 400))
    p = int(rng.choice([1, 2, 3, 5, 9]))
    dtype = np.dtype(str(rng.choice(["uint8", "uint16", "uint32", "uint64", "uint64"])))
    if name == "tall":
        n, p = 20011, 2
    if name == "wide":
        n, p = 9, 300
    if name is not None and name.startswith("rows"):
        n = int(name[5:])
        p = 8
    w0 = int(name[6:]) if name is not None and name.startswith("width") else None
    if w0 is not None:
        dtype = np.dtype("uint64")
    mx = dtype.itemsize * 8
    widths = rng.randint(1, mx + 1, p)
    if rng.rand() < 0.5:
        widths = np.minimum(widths, rng.randint(1, 13))
    if w0 is not None:
        widths[:] = rng.choice([w0, w0, 1, 8, max(1, w0 - 1)], p)
        widths[0] = w0
        per = 64 // w0
        n = int(rng.choice([per, 2 * per, 3 * per - 1, 3 * per + 1, max(1, per - 1)]))
    X = np.empty((n, p), dtype=dtype)
    for j in range(p):
        X[:, j] = rand_values(rng, n, int(widths[j]), dtype)
    if name == "zeros":
        X[:] = 0
    rep.ev("dtype_" + dtype.name)
    lay = int(rng.randint(5))
    if lay == 0:
        Z = np.asfortranarray(X)
    elif lay == 1:
        big = np.full((2 * n, 3 * p), 1, dtype=dtype)
        big[::2, ::3] = X
        Z = big[::2, ::3]
        rep.ev("strided_inputs")
    elif lay == 2:
        Z = np.ascontiguousarray(X[::-1])[::-1]
        rep.ev("strided_inputs")
    elif lay == 3:
        Z = X.copy()
        Z.setflags(write=False)
    else:
        Z = X.copy()
    keep = Z.copy()
    junk = [np.full(int(rng.randint(1, 400)), 0xA5A5A5A5A5A5A5A5, dtype=np.uint64) for _ in range(6)]
    del junk
    fb = array_to_bitarray(Z)
    rep.ev("matrices")
    label = "%s layout %d" % (dtype.name, lay)
    if not np.array_equal(Z, keep):
        rep.bad("%s: packing modified its input" % label)
        return
    if int(fb.n_samples) != n or int(fb.n_features) != p:
        rep.bad("%s: a %s matrix is reported as %d x %d" % (label, X.shape, fb.n_samples, fb.n_features))
        return
    if not words_ok(rep, fb, X, label) or not same(rep, fb, X, label):
        return
    get = callable_as(getattr(fbm, "get_value", None), fb, 0, 0)
    if get is not None:
        for _ in range(min(60, n * p)):
            i, j = int(rng.randint(n)), int(rng.randint(p))
            rep.ev("single_reads")
            g = int(get(fb, i, j))
            if g != int(X[i, j]):
                rep.bad("%s: single read of (%d, %d): wrote %d, read %d" % (label, i, j, int(X[i, j]), g))
                return
    getc = callable_as(getattr(fbm, "get_value_from_column", None), 0, fb.bitarray, fb.bitmasks[0],
                       fb.n_values_in_words[0], fb.n_bits[0])
    if getc is not None:
        j = int(rng.randint(p))
        ba = fb.bitarray[int(fb.offsets[j]): int(fb.offsets[j + 1])]
        for i in rng.randint(0, n, 20):
            rep.ev("column_reads")
            g = int(getc(int(i), ba, fb.bitmasks[j], fb.n_values_in_words[j], fb.n_bits[j]))
            if g != int(X[i, j]):
                rep.bad("%s: column read of (%d, %d): wrote %d, read %d" % (label, i, j, int(X[i, j]), g))
                return
    # columns written one at a time, in any order, on garbage; then overwritten
    mv = X.max(axis=0).astype(np.uint64)
    fc = FeaturesBitArray(n, mv.copy())
    fc.bitarray[:] = np.uint64(0xA5A5A5A5A5A5A5A5)
    order = rng.permutation(p)
    W = np.zeros((n, p), dtype=np.uint64)
    signed = [np.int8, np.int16, np.int32, np.int64]
    for j in order:
        col = X[:, j]
        if rng.rand() < 0.5:
            fit = [t for t in signed if int(col.max()) <= np.iinfo(t).max]
            if fit:
                col = col.astype(fit[int(rng.randint(len(fit)))])
        features_bitarray_fill_column(fc, int(j), col)
        rep.ev("columns_rewritten")
        W[:, j] = X[:, j]
    if not same(rep, fc, X, label + " filled by column"):
        return
    j = int(rng.randint(p))
    new = rng.permutation(X[:, j])
    features_bitarray_fill_column(fc, j, new)
    X2 = X.copy()
    X2[:, j] = new
    rep.ev("columns_rewritten")
    if not same(rep, fc, X2, label + " after rewriting column %d" % j):
        return
    if not same(rep, fb, X, label + " (another matrix was written)"):
        return
    if rng.rand() < 0.2:
        for t in ("int64", "float64", "int8"):
            rep.ev("refused_dtypes")
            try:
                array_to_bitarray(np.ones((3, 2), dtype=t))
            except (ValueError, TypeError):
                continue
            rep.bad("a matrix of dtype %s is accepted" % t)
            return
    rep.nontrivial = len(set(fb.n_bits.tolist())) > 1 or fb.bitarray.size > p
    rep.set_sig(X)
    if name is None and rng.rand() < 0.003:
        rep.sample = dict(shape=[n, p], dtype=dtype.name, bits=[int(b) for b in fb.n_bits][:10], words=int(fb.bitarray.size))


def encoder_case(rep, rng):
    """Bins read back through the packed matrix equal the bins computed from the raw values."""
    from wildwood.preprocessing import Encoder, features_bitarray_to_array
    from wwmon import ref

    case = gen.gen_case(rng, task="reg", n=int(rng.randint(2, 300)))
    cat = case.cat
    if cat is not None and np.asarray(cat).dtype.kind == "i":
        m = np.zeros(case.X.shape[1], dtype=bool)
        m[cat] = True
        cat = m
    e = Encoder(max_bins=case.params["max_bins"], is_categorical=cat, handle_unknown="consider_missing").fit(case.X)
    for Z in (case.X, case.Xt):
        fb = e.transform(Z)
        rep.ev("encoder_matrices")
        if not same(rep, fb, ref.ref_bins(e, Z).astype(np.uint64), "encoded data"):
            return
    rep.nontrivial = True
    rep.set_sig(features_bitarray_to_array(fb))
