"""JSON-able descriptions of numpy arrays, unique through their tag."""
DTYPES = ("u1", "<i4", ">i4", "<i8", "<f8", "<f4", "<f2", "?", "<c16", "<U5",
          "S4", "<M8[s]", "<m8[ms]", ">f8", "pair", "nest", "gap", "one")
FIELDS = dict(
    pair=[("a", "<i4"), ("b", ">f8")],
    nest=[("p", [("q", "<i2"), ("r", "<f4", (2,))]), ("s", "<U3")],
    one=[("v", ">i2")],
    gap=dict(names=["x", "y"], formats=["u1", "<f8"], offsets=[0, 8]))
SHAPES = ((1,), (2,), (3,), (7,), (2, 3), (4, 1), (3, 2, 2), (40,), (1, 1),
          (9, 9), (300,), (1000,), (), (0,), (2, 0))


def gen_array(rng, tag):
    shape = rng.choice(((9000,), (3, 30000), (70000,))) \
        if rng.random() < 0.01 else rng.choice(SHAPES)
    return dict(tag=tag, dtype=rng.choice(DTYPES), shape=list(shape), layout=rng.choice(("C", "C", "F", "strided")))


def build_array(d):
    import numpy as np
    shape, tag = tuple(d["shape"]), d["tag"]
    n = int(np.prod(shape))
    raw = (np.arange(n) * 7 + tag * 3 + 1)
    dt = np.dtype(FIELDS.get(d["dtype"], d["dtype"]))
    if dt.fields is not None:
        flat = np.zeros(n, dt)
        fill(flat, raw)
    elif dt.kind == "b":
        flat = ((raw * 2654435761 + tag * 40503) >> 3) % 3 == 0
    elif dt.kind in "US":
        flat = np.array([f"{(x * 31) % 9973}" for x in raw]).astype(dt)
    elif dt.kind in "Mm":
        flat = raw.astype("i8").astype(dt)
    elif dt.kind == "c":
        flat = (raw + 1j * tag).astype(dt)
    else:
        flat = raw.astype(dt)
    a = flat.astype(dt).reshape(shape)
    if d["layout"] == "F":
        a = np.asfortranarray(a)
    elif d["layout"] == "strided" and shape:
        big = np.zeros(shape[:-1] + (shape[-1] * 2,), dt)
        big[..., ::2] = a
        a = big[..., ::2]
    return a


def fill(a, raw):
    """give every field of a structured array values of its own"""
    for name in a.dtype.names:
        if a[name].dtype.fields is not None:
            fill(a[name], raw + 1)
        elif a[name].ndim > 1:
            a[name] = raw[:, None]
        else:
            a[name] = raw


def array_equal(a, b):
    import numpy as np
    if not (isinstance(a, np.ndarray) and a.dtype == b.dtype
            and a.dtype.byteorder == b.dtype.byteorder
            and a.shape == b.shape):
        return False
    if a.tobytes() == b.tobytes():
        return True
    try:
        return a.dtype.fields is not None and a.tolist() == b.tolist()
    except (SystemError, ValueError):       # half-written strings
        return False


def same_bytes(blob, a):
    import numpy as np
    if a.dtype.fields is None:
        return blob == a.tobytes()
    return len(blob) == a.nbytes and array_equal(    # padding may differ
        np.frombuffer(blob, a.dtype).reshape(a.shape), a)
