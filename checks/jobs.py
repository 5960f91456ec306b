"""Argument classes analysed for every public operation.

A job fixes what selects code (operation, element types, ranks, devices, modes, which operand is
malformed); everything else - extents, element values, index arguments, the allocation that fails -
stays symbolic inside the analysis.
"""
import itertools
ALL = range(10)
F = (8, 9)


def jobs(tier):
    q = tier == "quick"
    o = []
    a = o.append
    # binary element-wise operations
    for op in ("add", "sub", "mul", "div"):
        for dt in ALL:
            a(f"{op} dt={dt} rank=2")
        for r in ((0, 1, 3, 5) if q else (0, 1, 3, 4, 5, 6)):
            a(f"{op} dt=4 rank={r}")
        a(f"{op} dt=4 dt2=5 rank=2")
        a(f"{op} dt=8 dt2=9 rank=1")
        a(f"{op} dt=4 rank=1 rank2=2")
        a(f"{op} dt=4 rank=2 rank2=1")
        a(f"{op} dt=4 rank=0 rank2=1")
        for d1, d2 in ((1, 0), (0, 1), (1, 1)):
            a(f"{op} dt=4 rank=1 dev={d1} dev2={d2}")
        if not q:
            for dt in ALL:
                for dt2 in ALL:
                    if dt != dt2:
                        a(f"{op} dt={dt} dt2={dt2} rank=1")
    # unary element-wise operations
    for op in ("relu", "sqrt", "sigmoid", "tanh", "duplicate"):
        for dt in ALL:
            a(f"{op} dt={dt} rank=2")
        for r in ((0, 1, 3, 5) if q else (0, 1, 3, 4, 5, 6)):
            a(f"{op} dt=8 rank={r}")
        a(f"{op} dt=9 rank=1 dev=1")
        if not q:
            for dt in ALL:
                a(f"{op} dt={dt} rank=0")
                a(f"{op} dt={dt} rank=3")
    for dt in ALL:
        for to in ALL:
            a(f"cast dt={dt} to={to} rank=1")
    for r in ((0, 2, 3, 5) if q else (0, 2, 3, 4, 5, 6)):
        a(f"cast dt=4 to=8 rank={r}")
        a(f"cast dt=8 to=8 rank={r}")
    a("cast dt=4 to=9 rank=1 dev=1")
    for r, r2 in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (5, 1), (1, 5)) + (() if q else ((3, 3), (4, 2), (2, 4), (4, 4))):
        a(f"reshape dt=4 rank={r} rank2={r2}")
    for dt in ALL:
        a(f"reshape dt={dt} rank=2 rank2=1")
    a("reshape dt=4 rank=2 rank2=1 dev=1")
    for r2, ng in ((1, 0), (2, 0), (2, 1), (3, 2)):
        a(f"reshape dt=4 rank=2 rank2={r2} neg={ng}")
    # squeezed axes are fixed (every dimension of the rank); x stands for every value outside
    for r in ((1, 2, 3) if q else (1, 2, 3, 4)):
        a(f"squeeze dt=4 rank={r}")
        a(f"squeeze dt=4 rank={r} axes=x")
        a(f"squeeze dt=4 rank={r} axes=0,x")
        for x in range(r):
            a(f"squeeze dt=4 rank={r} axes={x}")
            for y in range(r):
                if r < 4:
                    a(f"squeeze dt=4 rank={r} axes={x},{y}")
    a("squeeze dt=4 rank=3 axes=0,1,2")
    a("squeeze dt=4 rank=5 axes=3,1"); a("squeeze dt=4 rank=4 axes=0"); a("squeeze dt=4 rank=4 axes=3"); a("squeeze dt=4 rank=5 axes=1"); a("squeeze dt=4 rank=5 axes=2"); a("duplicate dt=8 rank=4"); a("duplicate dt=4 rank=6")
    a("squeeze dt=4 rank=3 axes=2,0,2")
    a("squeeze dt=4 rank=0")
    a("squeeze dt=4 rank=0 axes=x")
    for dt in ALL:
        a(f"squeeze dt={dt} rank=2 axes=1")
    a("squeeze dt=4 rank=2 axes=1 count=-1")
    a("squeeze dt=4 rank=2 axes=1 dev=1")
    # cls: class of each size argument (z zero, p positive, n negative), together every value
    a("slice dt=4 rank=0")
    for r in (1, 2, 3):
        for cl in itertools.product("zpn", repeat=r):
            if r < 3 or "n" not in cl or cl == ("p", "n", "p"):
                a(f"slice dt=4 rank={r} cls={''.join(cl)}")
    for x in ("bcls=m", "scls=n", "bcls=m scls=n"):
        a(f"slice dt=4 rank=1 cls=p {x}")
        a(f"slice dt=4 rank=1 cls=n {x}")
    for x in ("bcls=pm", "scls=pn", "scls=np", "bcls=mp"):
        a(f"slice dt=4 rank=2 cls=pp {x}")
        a(f"slice dt=4 rank=2 cls=zp {x}")
    for dt in ALL:
        for cl in "zp":
            a(f"slice dt={dt} rank=1 cls={cl}")
        a(f"slice dt={dt} rank=2 cls=pp")
    a("slice dt=8 rank=2 cls=pp dev=1")
    a("slice dt=8 rank=4 cls=pppp")
    a("slice dt=4 rank=4 cls=pzpz")
    a("slice dt=8 rank=5 cls=ppppp")
    if not q:
        for cl in itertools.product("zp", repeat=4):
            a(f"slice dt=8 rank=4 cls={''.join(cl)}")
    for dt in ALL:
        a(f"full dt={dt} rank=2")
    for r in ((0, 1, 3, 5) if q else (0, 1, 3, 4, 5, 6)):
        a(f"full dt=4 rank={r}")
    a("full dt=8 rank=1 dev=1 devid=3")
    for dt in ALL:
        a(f"create dt={dt} rank=1 data=1")
        a(f"create dt={dt} rank=1")
    for r in (0, 1, 2, 3, 4, 6):
        a(f"create dt=4 rank={r} data=1")
        a(f"create dt=4 rank={r}")
        a(f"destroy rank={r}")
        a(f"resolve dt=4 rank={r}")
    a("create dt=8 rank=2 dev=1 devid=2")
    a("create dt=8 rank=2 dev=1 devid=2 data=1")
    a("destroy rank=2 nodata=1")
    a("destroy empty=1")
    for dt in ALL:
        a(f"resolve dt={dt} rank=2")
    # products
    pairs = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (2, 2), (2, 1), (1, 2), (3, 1), (1, 3), (3, 3), (3, 2), (2, 3)]
    for p in pairs + ([] if q else [(4, 1), (3, 4), (4, 3), (0, 3), (3, 0), (5, 1), (5, 2)]) + [(4, 4), (2, 4), (3, 4), (4, 3), (4, 1), (0, 4), (4, 0), (0, 5), (5, 0), (1, 4), (1, 5), (5, 1), (5, 3), (3, 5), (5, 5), (4, 5), (5, 4), (2, 5), (5, 2)]:
        a(f"dot dt=4 rank={p[0]} rank2={p[1]}")
    for p in pairs[:-2] + [(2, 3), (3, 2), (4, 4), (5, 5), (5, 3), (3, 5), (1, 4), (4, 1), (2, 5), (5, 2), (1, 5), (5, 1)] + ([] if q else [(2, 4), (4, 2), (3, 4), (4, 3), (5, 4), (2, 5), (5, 1), (6, 6)]):
        a(f"matmul dt=4 rank={p[0]} rank2={p[1]}")
    for dt in ALL:
        a(f"dot dt={dt} rank=1 rank2=1")
        a(f"dot dt={dt} rank=2 rank2=2")
        a(f"dot dt={dt} rank=0 rank2=1")
        a(f"dot dt={dt} rank=2 rank2=1")
        a(f"matmul dt={dt} rank=1 rank2=1")
        a(f"matmul dt={dt} rank=2 rank2=1")
        a(f"matmul dt={dt} rank=1 rank2=2")
        a(f"matmul dt={dt} rank=2 rank2=2")
        if not q or dt in (0, 7, 8, 9):
            a(f"matmul dt={dt} rank=3 rank2=3")
            a(f"matmul dt={dt} rank=3 rank2=1")
            a(f"dot dt={dt} rank=3 rank2=3")
    for op in ("dot", "matmul"):
        a(f"{op} dt=4 dt2=8 rank=2 rank2=2")
        a(f"{op} dt=4 dt2=5 rank=1 rank2=1")
        for d1, d2 in ((1, 0), (0, 1), (1, 1)):
            a(f"{op} dt=4 rank=1 rank2=1 dev={d1} dev2={d2}")
    # neural-network operations
    for dt in ALL:
        a(f"dropout dt={dt} rank=2")
        a(f"dropout dt={dt} rank=1 rate=0")
        a(f"dropout dt={dt} rank=1 rate=1")
    for r in (0, 1, 3, 5):
        a(f"dropout dt=8 rank={r}")
    a("dropout dt=8 rank=1 rate=nan")
    a("dropout dt=8 rank=1 rate=1.01")
    a("dropout dt=8 rank=1 rate=-0.001")
    a("dropout dt=8 rank=1 dev=1")
    for r in (1, 2, 3, 4, 5):
        for ax in range(-2, r + 1):
            a(f"softmax dt=8 rank={r} axis={ax}")
    a("softmax dt=8 rank=0 axis=-1")
    a("softmax dt=8 rank=0 axis=0")
    for dt in ALL:
        a(f"softmax dt={dt} rank=2 axis=-1")
        a(f"softmax dt={dt} rank=2 axis=1")
    a("softmax dt=9 rank=1 axis=0 dev=1")
    for r in (2, 3, 4, 5):
        a(f"batch_norm dt=8 rank={r} axis=1")
        if r > 2:
            a(f"batch_norm dt=8 rank={r} axis={r-1}")
    for dt in ALL:
        a(f"batch_norm dt={dt} rank=2 axis=1")
        a(f"batch_norm dt={dt} rank=3 axis=1")
    for r, ax in ((1, 0), (6, 1), (3, 0), (4, 2), (2, 2), (3, -1)):
        a(f"batch_norm dt=8 rank={r} axis={ax}")
    for odd in range(4):
        for what in (1, 2, 3):
            a(f"batch_norm dt=8 rank=2 axis=1 odd={odd} what={what}")
    for odd in ("01", "02", "03", "12", "13", "23", "0123"):
        a(f"batch_norm dt=8 rank=2 axis=1 odd={odd} what=2")
    a("batch_norm dt=8 rank=2 axis=1 odd=0123 what=1")
    a("batch_norm dt=8 rank=2 axis=1 odd=23 what=3")
    a("batch_norm dt=8 rank=2 axis=1 dev=1")
    for mode in ("max", "avg"):
        for r in (3, 4, 5):
            a(f"pooling dt=8 rank={r} mode={mode}")
        for dt in ALL:
            a(f"pooling dt={dt} rank=3 mode={mode}")
        a(f"pooling dt=8 rank=2 mode={mode}")
        a(f"pooling dt=8 rank=6 mode={mode}")
    a("pooling dt=8 rank=3 mode=min")
    a("pooling dt=8 rank=3 mode=maxi")
    a("pooling dt=8 rank=3 mode=av")
    a("pooling dt=8 rank=3 mode=max dev=1")
    for r in (3, 4, 5):
        a(f"conv dt=8 rank={r}")
    a("conv2d dt=8 rank=4")
    a("conv3d dt=8 rank=5")
    a("conv2d dt=8 rank=3")
    a("conv2d dt=8 rank=5")
    a("conv3d dt=8 rank=4")
    for r in (2, 6):
        a(f"conv2d dt=8 rank={r}")
        a(f"conv3d dt=8 rank={r}")
    a("conv dt=8 rank=2")
    a("conv dt=8 rank=4 rank2=3")
    a("conv dt=8 rank=3 rank2=4")
    a("conv dt=8 rank=3 groups=2")
    a("conv dt=8 rank=3 groups=0")
    a("conv dt=8 dt2=9 rank=3")
    a("conv dt=9 dt2=8 rank=3")
    for dt in ALL:
        if dt != 8:
            a(f"conv dt={dt} rank=3")
    a("conv dt=8 rank=3 dev=1")
    # a zero extent: nothing to compute, but metadata, ownership and statuses count as everywhere
    for z in (0, 1):
        for op in ("create", "create dt=8 data=1", "full", "resolve", "destroy", "add", "sub", "mul", "div", "relu", "sqrt", "sigmoid", "tanh", "cast to=5", "reshape rank2=2", "squeeze", "squeeze axes=0", "squeeze axes=1", "matmul rank2=2", "dot rank2=2", "softmax axis=1", "softmax axis=0"):
            w = op.split()
            a(" ".join([w[0]] + ([] if "dt=8" in w else ["dt=8"]) + ["rank=2", f"zero={z}"] + w[1:]))
    for op in ("create", "full", "add", "relu", "cast to=8", "squeeze", "dot rank2=1", "matmul rank2=1"):
        w = op.split()
        a(" ".join([w[0], "dt=4", "rank=1", "zero=0"] + w[1:]))
    for z in (0, 2):
        a(f"pooling dt=8 rank=4 mode=max zero={z}")
        a(f"conv dt=8 rank=4 zero={z}")
    # the same tensor given twice
    for op in ("add", "sub", "mul", "div"):
        for dt in (1, 4, 8):
            a(f"{op} dt={dt} rank=2 alias=1")
    for op in ("dot", "matmul"):
        for r in (0, 1, 2, 3):
            a(f"{op} dt=4 rank={r} rank2={r} alias=1")
    a("conv dt=8 rank=3 alias=1")
    a("conv dt=8 rank=4 alias=1")
    a("batch_norm dt=8 rank=2 axis=1 alias=1")
    a("batch_norm dt=8 rank=3 axis=1 alias=1")
    # index helpers
    for r in ((1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6)):
        for d in range(r):
            a(f"get_stride rank={r} dim={d}")
        for f in ("get_all_strides", "coords_to_linidx", "coords_to_offset", "linidx_to_coords", "offset_to_coords"):
            a(f"{f} rank={r}")
    for r in range(0, 4 if q else 5):
        for r2 in range(0, 4 if q else 5):
            if r or r2:
                a(f"broadcast_array rank={r} rank2={r2}")
    seen = set()
    return [j for j in o if not (j in seen or seen.add(j))]


def registry_probes():
    return [f"probe_{f} dt={dt}" for dt in ALL for f in ("get", "set", "get_array", "set_array", "castto", "constant", "mirror", "mirror_size", "mirror_code", "natural")]


def accessor_probes(tier):
    o = [f"probe_tensor_{f} dt={dt}" for dt in ALL for f in ("set_item", "data_type")]
    for r in range(4 if tier == "quick" else 7):
        o += [f"probe_tensor_{f} rank={r}" for f in ("ndim", "dims", "size", "shape", "layout_type", "storage", "data", "device", "set_item")]
        o += [f"probe_tensor_dim rank={r} dim={d}" for d in range(r)]
    return o


def size_probes(tier):
    o = []
    for r in range(5 if tier == "quick" else 7):
        o += [f"probe_size_of rank={r}"] + [f"probe_size_{f} rank={r} k={k}" for f in ("from", "to") for k in range(r + 1)]
        o += [f"probe_size_between rank={r} k={k} l={l}" for k in range(r) for l in range(r) if k != l]
    return o


# operations whose contract decides a property's own obligations (others only add memory-safety facts)
OPS = {
    "C11": ("add", "sub", "mul", "div", "relu", "sqrt", "sigmoid", "tanh", "full"),
    "C17": ("create", "destroy", "resolve"),
    "C18": ("get_stride", "get_all_strides", "coords_to_linidx", "linidx_to_coords", "coords_to_offset", "offset_to_coords", "broadcast_array"),
    "C19": ("dot", "matmul"), "C20": ("dropout",),
    "C22": ("duplicate", "cast", "reshape", "squeeze", "slice"),
    "C23": ("conv", "conv2d", "conv3d"), "C24": ("pooling",), "C25": ("softmax",), "C26": ("batch_norm",),
}

if __name__ == "__main__":
    import sys
    print("\n".join(jobs(sys.argv[1] if len(sys.argv) > 1 else "quick")))
