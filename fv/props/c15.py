"""C15: 1D meshes, material borders and surface markers."""
from .common import Model

BOUNDS = "1D meshes of 2-5 vertices at arbitrary positions (any order, possibly repeated), 1-3 materials in any order with one or two intervals each, arbitrary border positions; vertices at least 1e-6 apart unless equal; 2D/3D meshes of 2-3 volumes and 4-5 surfaces read from files"


def build(W, cfg, verts, mats, sources=()):
    F = W.F
    mesh = F.MeshFromVertices(list(verts))
    W.register_interval(mesh.mesh)
    j1, j2 = W.real("j1"), W.real("j2")
    T = W.real("T", lo=400, hi=700, pos=True)
    sim = F.Simulation(
        mesh=mesh,
        materials=F.Materials(mats),
        temperature=T,
        sources=list(sources),
        boundary_conditions=[F.FluxBC(surfaces=1, value=j1, field=0), F.FluxBC(surfaces=2, value=j2, field=0)],
        settings=F.Settings(1e-10, 1e-10, transient=False),
        log_level=40,
    )
    return sim, j1, j2, T


def mark(W, cfg):
    """cells and ends of a mesh with valid borders"""
    F = W.F
    n = cfg["nv"]
    v = [0] + [W.real("v%d" % i, lo=0.8 * i, hi=0.8 * i + 0.4) for i in range(1, n)]
    if cfg.get("start"):
        v[0] = W.real("v0", lo=0.1, hi=0.4)
    for a, b in zip(v, v[1:]):
        W.assume(b > a + 1e-6)
    # breakpoints of the intervals
    k = cfg["ni"]
    if k:
        b = [0] + [W.real("b%d" % i, lo=(n - 1) * 0.8 * i / k, hi=(n - 1) * 0.8 * i / k + 0.3) for i in range(1, k)] + [v[-1]]
        for x, y in zip(b, b[1:]):
            W.assume(y > x)
        if cfg.get("atvertex"):
            for i in range(1, k):
                W.assume(W.or_(*[b[i] == x for x in v]))
    owner = cfg.get("owner", list(range(k)))
    ids = cfg["ids"]
    mats, D, vols = [], [], {}
    for m, i in enumerate(ids):
        D.append(W.real("D%d" % m, lo=1.0 + m, hi=1.5 + m, pos=True))
        kw = {}
        if k:
            iv = [[b[q], b[q + 1]] for q in range(k) if owner[q] == m]
            own = [q for q in range(k) if owner[q] == m]
            if cfg.get("reverse"):
                iv, own = iv[::-1], own[::-1]
            # volume of each interval
            for r, q in enumerate(own):
                vols[q] = i[r] if isinstance(i, list) else i
            kw["borders"] = iv[0] if len(iv) == 1 and not cfg.get("nested") else iv
        mats.append(F.Material(id=i, D_0=D[m], E_D=0, **kw))
    order = cfg.get("order", range(len(mats)))
    given = [v[i] for i in cfg.get("perm", range(n))]
    if not k:
        vols[0] = ids[0]
    src = {i: W.real("s%d" % i, lo=0.5 * i, hi=0.5 * i + 0.4) for i in sorted(set(vols.values()))}
    sim, j1, j2, T = build(W, cfg, given, [mats[i] for i in order], [F.Source(s, volume=i, field="0") for i, s in src.items()])

    def handler(ev):
        cells, facets = W.cellpts(), W.facetpts()
        if len(cells) != n - 1:
            W.fail("one cell between two consecutive vertices")
            W.stop()
        for c, p in enumerate(cells):
            A, B = W.wf(ev.F, p, 0)
            g = ev.sol.grad(0, p, 0)
            W.check("position inside cell %d" % c, W.and_(p.x[0] > v[c], p.x[0] < v[c + 1]))
            for q in range(k or 1):
                inside = W.and_(v[c] >= b[q], v[c + 1] <= b[q + 1]) if k else True
                d = D[owner[q]] if k else D[0]
                W.check("cell %d inside interval %d gets its material" % (c, q), W.implies(inside, close(W, B[0], d * g)))
                W.check("cell %d inside interval %d gets its volume" % (c, q), W.implies(inside, close(W, A, -src[vols[q]])))
        for p, j, nm in zip(facets, (j1, j2), ("first", "second")):
            A, B = W.wf(ev.F, p, 0)
            W.check_eq("the %s surface is the %s end" % (nm, "lower" if j is j1 else "upper"), A, -j)
        sm = sim.mesh.surface_markers
        other = [fc for fc in W.f.facets(sim.mesh.mesh) if sm[fc] not in (0,)]
        W.check("only the ends are surfaces", len(other) == 2)
        W.stop()

    W.handler = handler
    sim.initialise()
    sim.run()


def close(W, a, b):
    if W.symbolic:
        return a == b
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1.0)


def reject(W, cfg):
    """borders are accepted exactly when they tile the mesh from zero to its size"""
    F = W.F
    size = W.real("size", pos=True, lo=1.0, hi=2.0)
    verts = [0, size / 2, size]
    nm = cfg["n"]
    ivs = []
    for i in range(nm):
        # each bound is one of the natural positions or arbitrary
        l, r = W.real("l%d" % i, lo=0.0, hi=1.0), W.real("r%d" % i, lo=0.5, hi=2.0)
        W.assume(l < r)
        ivs.append((l, r))
    if cfg.get("together"):
        mats = [F.Material(id=1, D_0=1, E_D=0, borders=[[l, r] for l, r in ivs])]
    else:
        mats = [F.Material(id=i + 1, D_0=1, E_D=0, borders=[l, r]) for i, (l, r) in enumerate(ivs)]
    sim, *_ = build(W, cfg, verts, mats)
    import itertools

    valid = W.or_(*[
        W.and_(ivs[p[0]][0] == 0, ivs[p[-1]][1] == size, *[ivs[a][1] == ivs[b][0] for a, b in zip(p, p[1:])])
        for p in itertools.permutations(range(nm))
    ])
    W.handler = lambda ev: W.stop()
    e = W.raises(sim.initialise)
    if e is not None and not isinstance(e, ValueError):
        raise e
    W.check("rejected borders do not tile the mesh" if e is not None else "accepted borders tile the mesh", W.not_(valid) if e is not None else valid)


def repeated(W, cfg):
    """vertices in any order, some possibly equal"""
    F = W.F
    n = cfg["nv"]
    v = [W.real("v%d" % i, lo=0.1, hi=2.0) for i in range(n)]
    for i in range(n):
        for j in range(i):
            W.assume(W.or_(v[i] == v[j], v[i] - v[j] > 1e-6, v[j] - v[i] > 1e-6))
    W.assume(W.or_(*[v[i] != v[0] for i in range(1, n)]))
    d = W.real("D", pos=True)
    sim, j1, j2, T = build(W, cfg, v, [F.Material(id=1, D_0=d, E_D=0)])

    def handler(ev):
        for c, p in enumerate(W.cellpts()):
            A, B = W.wf(ev.F, p, 0)
            W.check_eq("cell %d has the material" % c, B[0], d * ev.sol.grad(0, p, 0))
        lo, hi = W.facetpts()
        W.check("the first end is the smallest vertex", W.and_(*[lo.x[0] <= x for x in v], W.or_(*[lo.x[0] == x for x in v])))
        W.check("the second end is the largest vertex", W.and_(*[hi.x[0] >= x for x in v], W.or_(*[hi.x[0] == x for x in v])))
        for p, j in ((lo, j1), (hi, j2)):
            W.check_eq("surface at the end %s" % p.name, W.wf(ev.F, p, 0)[0], -j)
        sm = sim.mesh.surface_markers
        W.check("only the ends are surfaces", len([fc for fc in W.f.facets(sim.mesh.mesh) if sm[fc] != 0]) == 2)
        W.stop()

    W.handler = handler
    sim.initialise()
    sim.run()


def stored(W, cfg):
    """meshes read from files: the volumes and the surfaces are those of the files"""
    M = Model(W, cfg)

    def check(ev, n):
        M.check_residual(ev, n)
        marks = W.points
        for p in marks:
            if p.kind == "cell":
                W.check("volume of %s" % p.name, M.mesh.volume_markers[p.cell] == p.mark)
            elif p.kind == "facet":
                W.check("surface of %s" % p.name, M.mesh.surface_markers[p.facet] == p.mark)

    M.run(check)


HARNESSES = {"mark": mark, "reject": reject, "repeated": repeated, "stored": stored}
FILES = ["vol.xdmf", "bound.xdmf"]
CONFIGS = [
    ("mark", dict(nv=4, ni=0, ids=[1])),
    ("mark", dict(nv=3, ni=0, ids=[6], start=True)),
    ("mark", dict(nv=4, ni=1, ids=[2])),
    ("mark", dict(nv=4, ni=2, ids=[1, 2])),
    ("mark", dict(nv=4, ni=2, ids=[5, 3], order=[1, 0])),
    ("mark", dict(nv=3, ni=3, ids=[1, 2, 3], order=[2, 0, 1])),
    ("mark", dict(nv=4, ni=3, ids=[1, 2], owner=[0, 1, 0])),
    ("mark", dict(nv=4, ni=3, ids=[[1, 4], 2], owner=[0, 1, 0], order=[1, 0])),
    ("mark", dict(nv=5, ni=3, ids=[1, 2, 3], atvertex=True)),
    ("mark", dict(nv=4, ni=3, ids=[[1, 4], 2], owner=[0, 1, 0], reverse=True)),
    ("mark", dict(nv=4, ni=3, ids=[[7, 4, 5]], owner=[0, 0, 0], reverse=True, atvertex=True)),
    ("mark", dict(nv=4, ni=2, ids=[[4], 2], nested=True, atvertex=True)),
    ("mark", dict(nv=4, ni=2, ids=[1, 2], perm=[2, 0, 3, 1], atvertex=True)),
    ("repeated", dict(nv=2)),
    ("repeated", dict(nv=3)),
    ("reject", dict(n=1)),
    ("reject", dict(n=2)),
    ("reject", dict(n=3)),
    ("reject", dict(n=2, together=True)),
    ("stored", dict(files=FILES, dim=2, ids=[[5, 3], 2], marks=[5, 2, 3], bottoms=[6, 4, 7], left=9, right=1, transient=False, fluxes=[dict(kind="flux", surf=[1, 4]), dict(kind="flux", surf=[7]), dict(kind="recomb", surf=[6, 9], order=2)], sources=[dict(vol=3, kind="x")])),
    ("stored", dict(files=FILES, dim=3, marks=[2, 1], bottoms=[2, 5], left=1, right=4, fluxes=[dict(kind="flux", surf=[2, 4]), dict(kind="flux", surf=[1])], traps=[dict(mats=[0])])),
    ("stored", dict(files=FILES, dim=2, coords="cylindrical", marks=[2, 4], ids=[4, 2], bottoms=[3, 3], fluxes=[dict(kind="flux", surf=[3])], sources=[dict(vol=2, kind="xt")])),
]
THOROUGH = [
    ("mark", dict(nv=6, ni=4, ids=[1, 2, 3], owner=[0, 1, 2, 0])),
    ("mark", dict(nv=5, ni=4, ids=[[1, 3], [2, 4]], owner=[0, 1, 0, 1])),
    ("repeated", dict(nv=4)),
    ("reject", dict(n=3, together=True)),
]
