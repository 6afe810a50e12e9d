"""Reference models: what every answer should be, computed without FInAT.

Only FIAT (a dependency, not the code under test) and numpy are used.  Each
model takes a *spec* - the JSON tree also used to build the real object - and
offers the same questions in plain numpy.
"""
import itertools
import numpy as np
import FIAT
from FIAT.reference_element import (UFCQuadrilateral, UFCHexahedron, TensorProductCell,
                                    compute_unflattening_map, flatten_entities, flatten_permutations)
from FIAT.polynomial_set import mis
from FIAT.orientation_utils import make_entity_permutations_tensorproduct

_CELLS = {}
CUR_GEOM = [None]      # geometry of the call being judged


def make_cell(c):
    """'I','T','S' simplices; 'P' point; 'Q','H'; 'TP:I,I'."""
    if c in ("P", "I", "T", "S"):
        return FIAT.ufc_simplex("PITS".index(c))
    if c == "Q":
        return UFCQuadrilateral()
    if c == "H":
        return UFCHexahedron()
    if c.startswith("TP:"):
        return TensorProductCell(*[make_cell(x) for x in split_tp(c)])
    if c in OTHER:
        return OTHER[c]()
    raise KeyError(c)


def _macro(split, n):
    import FIAT.macro
    return lambda: getattr(FIAT.macro, split)(FIAT.ufc_simplex(n))


# cells of the same shapes as the standard ones: other vertices, or split up
OTHER = {"D1": lambda: FIAT.reference_element.default_simplex(1), "D2": lambda: FIAT.reference_element.default_simplex(2),
         "D3": lambda: FIAT.reference_element.default_simplex(3), "Y1": lambda: FIAT.reference_element.symmetric_simplex(1),
         "Y2": lambda: FIAT.reference_element.symmetric_simplex(2), "Y3": lambda: FIAT.reference_element.symmetric_simplex(3),
         "mI": _macro("AlfeldSplit", 1), "iI": _macro("IsoSplit", 1), "mT": _macro("AlfeldSplit", 2), "iT": _macro("IsoSplit", 2),
         "mS": _macro("AlfeldSplit", 3)}


def split_tp(c):
    """'TP:I,T' -> ['I','T'];  'TP:(TP:I,I),I' nests with parentheses."""
    body, out, depth, cur = c[3:], [], 0, ""
    for ch in body:
        if ch == "(":
            depth += 1
            if depth == 1:
                continue
        if ch == ")":
            depth -= 1
            if depth == 0:
                continue
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def ref_cell(c):
    if c not in _CELLS:
        _CELLS[c] = make_cell(c)
    return _CELLS[c]


def cell_dim(c):
    return ref_cell(c).get_spatial_dimension()


def entities_of(c):
    """All (dim, id) of a cell, flattened numbering."""
    top = ref_cell(c).get_topology()
    return [(d, e) for d in sorted(top) for e in sorted(top[d])]


def phys_simplex(dim, verts):
    K = FIAT.ufc_simplex(dim)
    K.vertices = tuple(tuple(map(float, v)) for v in verts)
    return K


# --------------------------------------------------------------------------
# points

def entity_subcell(cell, entity):
    """The FIAT cell of a sub-entity (or the cell itself)."""
    if entity is None:
        return cell
    return cell.construct_subelement(entity[0])


def unflatten(cell, entity):
    """Entity of a product cell that an entity of its flattened cell is."""
    if entity is None:
        return None
    from FIAT.reference_element import compute_unflattening_map
    d, e = compute_unflattening_map(ref_cell(cell).get_topology())[tuple(entity)]
    return [list(d) if isinstance(d, tuple) else d, e]


def random_points(subcell, n, rng):
    """n points strictly inside a reference (sub)cell."""
    if isinstance(subcell, TensorProductCell):
        return np.hstack([random_points(c, n, rng) for c in subcell.cells])
    shape = subcell.get_shape()
    from FIAT.reference_element import POINT, QUADRILATERAL, HEXAHEDRON
    d = subcell.get_spatial_dimension()
    if shape == POINT:
        return np.zeros((n, 0))
    if shape in (QUADRILATERAL, HEXAHEDRON):
        return np.array([[0.05 + 0.9 * rng.random() for _ in range(d)] for _ in range(n)])
    pts = []
    for _ in range(n):
        w = np.array([0.05 + rng.random() for _ in range(d + 1)])
        w /= w.sum()
        pts.append(w @ np.array(subcell.get_vertices(), dtype=float))
    return np.array(pts).reshape(n, d)


class Failed:
    """Marks a tabulation the reference itself declares impossible."""
    def __repr__(self):
        return "Failed"


FAILED = Failed()

FIAT_NAME = {"Real": "DiscontinuousLagrange"}


def fiat_leaf(spec, cell=None):
    name = spec["k"]
    cell = cell if cell is not None else ref_cell(spec["cell"])
    args, kw = list(spec.get("args", [])), dict(spec.get("kw", {}))
    kw.pop("avg", None)
    if name in ZANY:
        return ZANY[name](cell, args, kw)
    return getattr(FIAT, FIAT_NAME.get(name, name))(cell, *args, **kw)


def _deg(a, k, default):
    if a:
        return a[0]
    return k.get("degree", k.get("order", default))


ZANY = {
    "Morley": lambda c, a, k: FIAT.Morley(c),
    "Hermite": lambda c, a, k: FIAT.CubicHermite(c),
    "Bell": lambda c, a, k: FIAT.Bell(c),
    "Argyris": lambda c, a, k: FIAT.Argyris(c, _deg(a, k, 5), variant=k.get("variant") or "integral"),
    "HsiehCloughTocher": lambda c, a, k: FIAT.HsiehCloughTocher(c, _deg(a, k, 3)),
    "ReducedHsiehCloughTocher": lambda c, a, k: FIAT.HsiehCloughTocher(c, reduced=True),
    "QuadraticPowellSabin6": lambda c, a, k: FIAT.QuadraticPowellSabin6(c),
    "QuadraticPowellSabin12": lambda c, a, k: FIAT.QuadraticPowellSabin12(c),
    "ArnoldWinther": lambda c, a, k: FIAT.ArnoldWinther(c, _deg(a, k, 3)),
    "ArnoldWintherNC": lambda c, a, k: FIAT.ArnoldWintherNC(c, _deg(a, k, 2)),
    "HuZhang": lambda c, a, k: FIAT.HuZhang(c, _deg(a, k, 3), variant=k.get("variant")),
    "MardalTaiWinther": lambda c, a, k: FIAT.MardalTaiWinther(c, _deg(a, k, 3)),
    "JohnsonMercier": lambda c, a, k: FIAT.JohnsonMercier(c, _deg(a, k, 1), variant=k.get("variant")),
    "AlfeldSorokina": lambda c, a, k: FIAT.AlfeldSorokina(c, _deg(a, k, 2)),
    "BernardiRaugel": lambda c, a, k: FIAT.BernardiRaugel(c, order=_deg(a, k, 1)),
    "BernardiRaugelBubble": lambda c, a, k: FIAT.BernardiRaugel(c, order=0),
    "ReducedArnoldQin": lambda c, a, k: FIAT.ArnoldQin(c, _deg(a, k, 2), reduced=True),
    "ChristiansenHu": lambda c, a, k: FIAT.ChristiansenHu(c, _deg(a, k, 1)),
    "GuzmanNeilanFirstKindH1": lambda c, a, k: FIAT.GuzmanNeilanFirstKindH1(c, order=_deg(a, k, 1)),
    "GuzmanNeilanSecondKindH1": lambda c, a, k: FIAT.GuzmanNeilanSecondKindH1(c, order=_deg(a, k, 1)),
    "GuzmanNeilanBubble": lambda c, a, k: FIAT.GuzmanNeilanFirstKindH1(c, order=0),
    "GuzmanNeilanH1div": lambda c, a, k: FIAT.GuzmanNeilanH1div(c, degree=k.get("degree")),
}
# dimension of the mapped element's own basis where FIAT carries extra, constrained functions
ZANY_NDOF = {"Bell": 18, "ReducedHsiehCloughTocher": 9, "ArnoldWinther": 24, "ArnoldWintherNC": 15,
             "MardalTaiWinther": 9}
PIOLA_BUBBLE = {"BernardiRaugel", "BernardiRaugelBubble", "ReducedArnoldQin", "ChristiansenHu",
                "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1", "GuzmanNeilanBubble", "GuzmanNeilanH1div"}


class Ref:
    """Base of all reference elements."""
    flat_entities = True

    @property
    def sd(self):
        return self.cell.get_spatial_dimension()

    def nb(self):
        return int(np.prod(self.index_shape, dtype=int))

    def default_entity(self):
        return (self.cell.get_dimension(), 0)

    def closure(self):
        ed = self.entity_dofs()
        cell = self.cell
        return {dim: {e: sorted(itertools.chain(*[ed[d][se] for d, se in subs])) for e, subs in ents.items()}
                for dim, ents in cell.sub_entities.items()}

    def support(self, rng):
        """dofs whose function is not identically zero on each entity; with the
        dofs whose largest sampled value is too small to be told apart from zero
        by a method that thresholds an integral of squares."""
        out, grey = {}, {}
        top = self.cell.get_topology()
        for dim in top:
            out[dim], grey[dim] = {}, {}
            for e in top[dim]:
                sub = entity_subcell(self.cell, (dim, e))
                sd = sub.get_spatial_dimension()
                pts = random_points(sub, (1, 24, 60, 120)[sd], rng) if sd else np.zeros((1, 0))
                t = self.tab(0, pts, (dim, e))[(0,) * self.sd]
                if t is FAILED:
                    return None, None
                m = np.abs(t.reshape(t.shape[0], self.nb(), -1)).max(axis=(0, 2))
                out[dim][e] = [i for i, v in enumerate(m) if v > 1e-7]
                grey[dim][e] = [i for i, v in enumerate(m) if 1e-9 < v < 3e-3]
        return out, grey

    def permutations(self):
        raise NotImplementedError

    def functionals(self):
        """(points (K, d), weights (ndof, K, value size)): dof_i(f) = sum_kc W[i,k,c] f(p_k)[c]."""
        raise NotImplementedError

    def dual_apply(self, f):
        P, W = self.functionals()
        v = f(P).reshape(len(P), -1)
        return np.einsum("ikc,kc->i", W, v).reshape(self.index_shape)


class Leaf(Ref):
    def __init__(self, spec):
        self.spec = spec
        self.fiat = fiat_leaf(spec)
        self.cell = self.fiat.get_reference_element()
        self.index_shape = (self.fiat.space_dimension(),)
        vs = self.fiat.value_shape()
        self.value_shape = tuple(vs)

    def tab(self, order, pts, entity):
        n = len(pts)
        if entity is None:
            entity = self.default_entity()
        res = self.fiat.tabulate(order, pts, entity)
        out = {}
        for a, t in res.items():
            if isinstance(t, Exception):
                out[a] = FAILED
            else:
                t = np.asarray(t, dtype=float).reshape(self.index_shape + self.value_shape + (n,))
                out[a] = np.moveaxis(t, -1, 0)
        return out

    def entity_dofs(self):
        return self.fiat.entity_dofs()

    def permutations(self):
        return self.fiat.entity_permutations()

    def mapping(self):
        m = set(self.fiat.mapping())
        return m.pop() if len(m) == 1 else None

    def degree(self):
        return self.fiat.degree()

    def formdegree(self):
        return self.fiat.get_formdegree()

    def functionals(self):
        nodes = self.fiat.dual_basis()
        if any(len(nd.deriv_dict) for nd in nodes):
            raise NotImplementedError("derivative nodes")
        allp, where = [], {}
        for nd in nodes:
            for p in nd.get_point_dict():
                if p not in where:
                    where[p] = len(allp)
                    allp.append(p)
        vs = self.value_shape
        W = np.zeros((len(nodes), len(allp)) + vs)
        for i, nd in enumerate(nodes):
            for p, wc in nd.get_point_dict().items():
                for w, c in wc:
                    W[(i, where[p]) + tuple(c)] += w
        pts = np.array(allp, dtype=float).reshape(len(allp), self.sd)
        return pts, W.reshape(len(nodes), len(allp), -1)

    def nodal(self):
        """Is the primal basis dual to the functionals?  (Ciarlet elements)"""
        return isinstance(self.fiat, FIAT.finite_element.CiarletElement)


class Zany(Leaf):
    """Physically mapped: tabulation needs a geometry (dict with verts, h)."""
    _M = None

    def __init__(self, spec):
        super().__init__(spec)
        name = spec["k"]
        n = self.fiat.space_dimension()
        if name in PIOLA_BUBBLE:
            sd = self.cell.get_spatial_dimension()
            ed = self.fiat.entity_dofs()
            drop = sum(len(ed[sd - 1][f]) - 1 for f in ed[sd - 1])
            n -= drop
        elif name in ZANY_NDOF:
            n = ZANY_NDOF[name]
        self.n = n
        self.index_shape = (n,)

    def full_tab(self, order, pts, entity):
        keep, self.index_shape = self.index_shape, (self.fiat.space_dimension(),)
        try:
            return Leaf.tab(self, order, pts, entity)
        finally:
            self.index_shape = keep

    def matrix(self, geom):
        """Rows: physical basis functions in terms of reference ones."""
        dim = self.cell.get_spatial_dimension()
        phys = phys_simplex(dim, geom["verts"])
        pe = fiat_leaf(self.spec, phys)
        re = self.fiat
        refc = self.cell

        def upts(el):
            cx = el.get_reference_complex()
            top = cx.get_topology()
            out = []
            for e in sorted(top[dim]):
                out.extend(cx.make_points(dim, e, el.degree() + dim + 1, variant="gll"))
            return out
        rv = re.tabulate(0, upts(re))[(0,) * dim]
        pv = pe.tabulate(0, upts(pe))[(0,) * dim]
        J, b = FIAT.reference_element.make_affine_mapping(refc.vertices, phys.vertices)
        mp = re.mapping()[0]
        if mp != "affine":
            K = []
            if "covariant" in mp.replace("contravariant", "x"):
                K.append(np.linalg.inv(J).T)
            if "contravariant" in mp:
                K.append(J / np.linalg.det(J))
            vs = re.value_shape()
            if len(vs) == 2:
                rv = np.einsum("ij,ajkp,lk->ailp", K[0], rv, K[-1])
            else:
                rv = np.einsum("ij,ajp->aip", K[0], rv)
        nb = re.space_dimension()
        A, B = rv.reshape(nb, -1), pv.reshape(nb, -1)
        X, *_ = np.linalg.lstsq(A.T, B.T, rcond=None)
        M = X.T[:self.n]
        err = np.abs(M @ A - B[:self.n]).max()
        scale = self.row_scale(geom, phys, pe)
        return M * scale[:, None], err

    def row_scale(self, geom, phys, pe):
        """The documented conditioning scaling: each degree of freedom is
        weighted by the local cell size to the power of its derivative order."""
        h = np.asarray(geom["h"], dtype=float)
        s = np.ones(self.n)
        name = self.spec["k"]
        ed = pe.entity_dofs()
        top = phys.get_topology()
        kw = self.spec.get("kw", {})
        nodes = pe.dual_basis()

        def order_of(nd):
            if len(nd.deriv_dict) == 0:
                return 0
            return max(sum(a) if isinstance(a, tuple) else 1
                       for terms in nd.deriv_dict.values() for (_, a, _) in terms)
        if name in ("Hermite", "Bell", "Argyris", "HsiehCloughTocher", "ReducedHsiehCloughTocher",
                    "QuadraticPowellSabin6", "QuadraticPowellSabin12"):
            for v in ed[0]:
                for d in ed[0][v]:
                    s[d] = h[v] ** -order_of(nodes[d])
            if name == "Argyris" and kw.get("variant") == "point":
                for e in ed[1]:
                    v0, v1 = top[1][e]
                    for d in ed[1][e]:
                        s[d] = 2 / (h[v0] + h[v1])
            avg = kw.get("avg", False)
            if name in ("Argyris", "HsiehCloughTocher", "QuadraticPowellSabin12") and not avg \
               and not (name == "Argyris" and kw.get("variant") == "point"):
                vorder = 2 if name == "Argyris" else 1
                for e in ed[1]:
                    # the normal derivative moments come first: k+1 of 2k+1
                    nn = (len(ed[1][e]) + 1) // 2
                    L = phys.volume_of_subcomplex(1, e)
                    for d in ed[1][e][:nn]:
                        s[d] = 1 / L
        elif name == "Morley":
            for e in ed[1]:
                v0, v1 = top[1][e]
                for d in ed[1][e]:
                    s[d] = 2 / (h[v0] + h[v1])
        elif name in ("ArnoldWinther", "HuZhang"):
            for v in ed[0]:
                for d in ed[0][v]:
                    s[d] = h[v] ** -2.0
        return s

    def tab_mapped(self, order, pts, entity, geom):
        M, err = self.matrix(geom)
        full = self.full_tab(order, pts, entity)
        return {a: (FAILED if t is FAILED else np.einsum("ij,pj...->pi...", M, t)) for a, t in full.items()}, err

    def tab(self, order, pts, entity):
        g = CUR_GEOM[-1]
        import json
        key = json.dumps([g["verts"], g["h"]])
        if self._M is None or self._M[0] != key:
            self._M = (key, self.matrix(g))
        M, err = self._M[1]
        if err > 1e-7:
            raise RuntimeError("reference model could not map %s" % self.spec)
        full = self.full_tab(order, pts, entity)
        return {a: (FAILED if t is FAILED else np.einsum("ij,pj...->pi...", M, t)) for a, t in full.items()}

    def entity_dofs(self):
        name = self.spec["k"]
        ed = {d: {e: list(v) for e, v in ents.items()} for d, ents in self.fiat.entity_dofs().items()}
        sd = self.cell.get_spatial_dimension()
        if name in ("Bell", "ReducedHsiehCloughTocher"):
            ed[sd - 1] = {e: [] for e in ed[sd - 1]}
        elif name == "MardalTaiWinther":
            ed[sd] = {0: []}
            ed[sd - 1] = {f: v[:sd + 1] for f, v in ed[sd - 1].items()}
        elif name == "ArnoldWinther":
            ed = {d: {e: [i for i in v if i < 24] for e, v in ents.items()} for d, ents in ed.items()}
            ed[2] = {0: [21, 22, 23]}
        elif name == "ArnoldWintherNC":
            ed = {d: {e: [i for i in v if i < 15] for e, v in ents.items()} for d, ents in ed.items()}
        elif name in PIOLA_BUBBLE:
            cur = ed[sd - 1][0][0]
            for f in sorted(ed[sd - 1]):
                ed[sd - 1][f] = [cur]
                cur += 1
        return ed


class TensorProduct(Ref):
    flat_entities = False

    def __init__(self, factors):
        self.factors = factors
        self.cell = TensorProductCell(*[f.cell for f in factors])
        self.index_shape = tuple(itertools.chain(*[f.index_shape for f in factors]))
        vs = [f.value_shape for f in factors if f.value_shape]
        assert len(vs) <= 1
        self.value_shape = vs[0] if vs else ()

    def _split_entity(self, entity):
        if entity is None:
            entity = (self.cell.get_dimension(), 0)
        dims, i = entity
        counts = [len(f.cell.get_topology()[d]) for f, d in zip(self.factors, dims)]
        ids = []
        for c in reversed(counts):
            ids.append(i % c)
            i //= c
        return list(zip(dims, reversed(ids)))

    def tab(self, order, pts, entity):
        ents = self._split_entity(entity)
        pd = [f.cell.construct_subelement(d).get_spatial_dimension() for f, (d, _) in zip(self.factors, ents)]
        cols = np.cumsum([0] + pd)
        tabs = [f.tab(order, pts[:, cols[k]:cols[k + 1]], e) for k, (f, e) in enumerate(zip(self.factors, ents))]
        sds = [f.sd for f in self.factors]
        off = np.cumsum([0] + sds)
        out = {}
        n = len(pts)
        for k in range(order + 1):
            for alpha in mis(self.sd, k):
                cur = np.ones((n,))
                nb = ()
                vshape = ()
                bad = False
                for j, t in enumerate(tabs):
                    x = t[tuple(alpha[off[j]:off[j + 1]])]
                    if x is FAILED:
                        bad = True
                        break
                    f = self.factors[j]
                    # cur: (n, *nb, *vshape); x: (n, *ib, *iv)
                    ib, iv = f.index_shape, f.value_shape
                    c = cur.reshape((n, int(np.prod(nb, dtype=int)), 1, int(np.prod(vshape, dtype=int)), 1))
                    y = x.reshape((n, 1, int(np.prod(ib, dtype=int)), 1, int(np.prod(iv, dtype=int))))
                    nb, vshape = nb + ib, vshape + iv
                    cur = (c * y).reshape((n,) + nb + vshape)
                out[alpha] = FAILED if bad else cur
        return out

    def _product_tables(self, tables, combine):
        out = {}
        for dims in itertools.product(*[sorted(t) for t in tables]):
            ents = itertools.product(*[sorted(t[d]) for t, d in zip(tables, dims)])
            out[dims] = {i: combine(dims, es) for i, es in enumerate(ents)}
        return out

    def entity_dofs(self):
        sizes = [f.nb() for f in self.factors]
        eds = [f.entity_dofs() for f in self.factors]

        def comb(dims, es):
            lists = [ed[d][e] for ed, d, e in zip(eds, dims, es)]
            res = []
            for combo in itertools.product(*lists):
                i = 0
                for s, c in zip(sizes, combo):
                    i = i * s + c
                res.append(i)
            return res
        return self._product_tables(eds, comb)

    def permutations(self):
        maps = [f.permutations() for f in self.factors]
        cells = [f.cell for f in self.factors]

        def comb(dims, es):
            return make_entity_permutations_tensorproduct(cells, dims, [m[d][e] for m, d, e in zip(maps, dims, es)])
        return self._product_tables(maps, comb)

    def support(self, rng):
        return Ref.support(self, rng)

    def functionals(self):
        P, W = np.zeros((1, 0)), np.ones((1, 1, 1))
        for f in self.factors:
            p, w = f.functionals()
            P = np.array([list(x) + list(y) for x in P for y in p]).reshape(len(P) * len(p), -1)
            W = np.einsum("ika,jlb->ijklab", W, w)
            W = W.reshape(W.shape[0] * W.shape[1], W.shape[2] * W.shape[3], -1)
        return P, W

    def formdegree(self):
        ks = [f.formdegree() for f in self.factors]
        return None if None in ks else sum(ks)

    def degree(self):
        return tuple(f.degree() for f in self.factors)

    def mapping(self):
        ms = [f.mapping() for f in self.factors if f.mapping() != "affine"]
        return "affine" if not ms else (ms[0] if len(ms) == 1 else None)


class Flattened(Ref):
    def __init__(self, product):
        self.product = product
        self.cell = ref_cell("Q") if product.sd == 2 else ref_cell("H")
        self.index_shape, self.value_shape = product.index_shape, product.value_shape
        self.unfl = compute_unflattening_map(product.cell.get_topology())

    def tab(self, order, pts, entity):
        if entity is None:
            entity = (self.sd, 0)
        return self.product.tab(order, pts, self.unfl[tuple(entity)])

    def entity_dofs(self):
        return flatten_entities(self.product.entity_dofs())

    def permutations(self):
        return flatten_permutations(self.product.permutations())

    def functionals(self):
        return self.product.functionals()

    def formdegree(self):
        return self.product.formdegree()

    def degree(self):
        ds = set(self.product.degree())
        return ds.pop() if len(ds) == 1 else None

    def mapping(self):
        return self.product.mapping()


class Enriched(Ref):
    def __init__(self, elements):
        els = []
        for e in elements:
            els.extend(e.elements if isinstance(e, Enriched) else [e])
        self.elements = els
        self.cell = els[0].cell
        self.flat_entities = els[0].flat_entities
        self.index_shape = (sum(e.nb() for e in els),)
        self.value_shape = els[0].value_shape

    def tab(self, order, pts, entity):
        tabs = [e.tab(order, pts, entity) for e in self.elements]
        out = {}
        n = len(pts)
        for a in tabs[0]:
            if any(t[a] is FAILED for t in tabs):
                out[a] = FAILED
                continue
            out[a] = np.concatenate([t[a].reshape((n, e.nb()) + e.value_shape)
                                     for t, e in zip(tabs, self.elements)], axis=1)
        return out

    def _cat(self, tables):
        out = {d: {e: [] for e in ents} for d, ents in self.cell.get_topology().items()}
        off = 0
        for el, t in zip(self.elements, tables):
            for d in t:
                for e in t[d]:
                    out[d][e] += [off + i for i in t[d][e]]
            off += el.nb()
        return out

    def entity_dofs(self):
        return self._cat([e.entity_dofs() for e in self.elements])

    def permutations(self):
        out = {}
        for el in self.elements:
            for d, em in el.permutations().items():
                for e, om in em.items():
                    for o, p in om.items():
                        cur = out.setdefault(d, {}).setdefault(e, {}).setdefault(o, [])
                        off = len(cur)
                        cur.extend(off + q for q in p)
        return out

    def formdegree(self):
        ks = [e.formdegree() for e in self.elements]
        return None if None in ks else max(ks)

    def degree(self):
        def mx(*a):
            if isinstance(a[0], tuple):
                return tuple(mx(*x) for x in zip(*a))
            return max(a)
        return mx(*[e.degree() for e in self.elements])

    def mapping(self):
        ms = {e.mapping() for e in self.elements}
        return ms.pop() if len(ms) == 1 else None


class MixedSub(Ref):
    def __init__(self, el, size, off):
        self.el, self.size, self.off = el, size, off
        self.cell, self.index_shape, self.value_shape = el.cell, el.index_shape, (size,)
        self.flat_entities = el.flat_entities

    def tab(self, order, pts, entity):
        out = {}
        n = len(pts)
        k = int(np.prod(self.el.value_shape, dtype=int))
        for a, t in self.el.tab(order, pts, entity).items():
            if t is FAILED:
                out[a] = FAILED
                continue
            z = np.zeros((n,) + self.index_shape + (self.size,))
            z[..., self.off:self.off + k] = t.reshape((n,) + self.index_shape + (k,))
            out[a] = z
        return out

    def entity_dofs(self):
        return self.el.entity_dofs()

    def formdegree(self):
        return self.el.formdegree()

    def degree(self):
        return self.el.degree()

    def mapping(self):
        return self.el.mapping()


def Mixed(elements):
    sizes = [int(np.prod(e.value_shape, dtype=int)) for e in elements]
    offs = np.cumsum([0] + sizes)
    return Enriched([MixedSub(e, int(offs[-1]), int(o)) for e, o in zip(elements, offs)])


class Tensor(Ref):
    def __init__(self, base, shape, transpose):
        self.base, self.shape, self.transpose = base, tuple(shape), transpose
        self.cell = base.cell
        self.flat_entities = base.flat_entities
        self.index_shape = (self.shape + base.index_shape) if transpose else (base.index_shape + self.shape)
        self.value_shape = self.shape + base.value_shape

    def tab(self, order, pts, entity):
        out = {}
        n = len(pts)
        m = int(np.prod(self.shape, dtype=int))
        nb = self.base.nb()
        for a, t in self.base.tab(order, pts, entity).items():
            if t is FAILED:
                out[a] = FAILED
                continue
            t = t.reshape((n, nb, -1))
            z = np.zeros((n, nb, m, m, t.shape[-1]))
            for c in range(m):
                z[:, :, c, c, :] = t
            if self.transpose:
                z = z.transpose(0, 2, 1, 3, 4)
            out[a] = z.reshape((n,) + self.index_shape + self.value_shape)
        return out

    def entity_dofs(self):
        m = int(np.prod(self.shape, dtype=int))
        nb = self.base.nb()

        def ex(v):
            if self.transpose:
                return [i + c * nb for c in range(m) for i in v]
            return [i * m + c for i in v for c in range(m)]
        return {d: {e: ex(v) for e, v in ents.items()} for d, ents in self.base.entity_dofs().items()}

    def formdegree(self):
        return self.base.formdegree()

    def degree(self):
        return self.base.degree()

    def mapping(self):
        return self.base.mapping()

    def functionals(self):
        p, w = self.base.functionals()
        m = int(np.prod(self.shape, dtype=int))
        nb = w.shape[0]
        W = np.zeros((nb, m, len(p), m, w.shape[2]))
        for c in range(m):
            W[:, c, :, c, :] = w
        if self.transpose:
            W = W.transpose(1, 0, 2, 3, 4)
        return p, W.reshape(nb * m, len(p), -1)


class HWrap(Ref):
    """H(div)/H(curl) orientation of a 2-factor product (something x interval)."""
    flat_entities = False

    def __init__(self, el, kind):
        assert isinstance(el, TensorProduct) and len(el.factors) == 2
        self.el, self.kind = el, kind
        self.cell, self.index_shape = el.cell, el.index_shape
        self.value_shape = (self.sd,)
        self.ks = tuple(f.formdegree() for f in el.factors)
        d = self.sd
        ks, mp = self.ks, el.mapping()
        if kind == "div":
            assert sum(ks) == d - 1
            if ks == (0, 1):
                self.M = np.array([[-1.], [0.]])
            elif ks == (1, 0) and d == 2:
                self.M = np.array([[0.], [1.]])
            elif ks == (2, 0):
                self.M = np.array([[0.], [0.], [1.]])
            else:
                assert ks == (1, 1)
                self.M = {"contravariant piola": np.array([[1., 0], [0, 1], [0, 0]]),
                          "covariant piola": np.array([[0., 1], [-1, 0], [0, 0]])}[mp]
        else:
            assert sum(ks) == 1
            if mp == "affine":
                if ks == (1, 0):
                    self.M = np.array([[1.], [0.]])
                else:
                    self.M = np.zeros((d, 1))
                    self.M[-1, 0] = 1
            else:
                self.M = {"covariant piola": np.array([[1., 0], [0, 1], [0, 0]]),
                          "contravariant piola": np.array([[0., -1], [1, 0], [0, 0]])}[mp]

    def tab(self, order, pts, entity):
        out = {}
        n = len(pts)
        for a, t in self.el.tab(order, pts, entity).items():
            if t is FAILED:
                out[a] = FAILED
                continue
            t = t.reshape((n,) + self.index_shape + (-1,))
            out[a] = np.einsum("ij,...j->...i", self.M, t)
        return out

    def entity_dofs(self):
        return self.el.entity_dofs()

    def permutations(self):
        return self.el.permutations()

    def functionals(self):
        p, w = self.el.functionals()
        return p, np.einsum("Cc,ikc->ikC", self.M, w)

    def formdegree(self):
        return self.sd - 1 if self.kind == "div" else 1

    def degree(self):
        return self.el.degree()

    def mapping(self):
        return "contravariant piola" if self.kind == "div" else "covariant piola"


class Discontinuous(Ref):
    def __init__(self, el):
        self.el = el
        self.cell, self.index_shape, self.value_shape = el.cell, el.index_shape, el.value_shape
        self.flat_entities = el.flat_entities

    def tab(self, *a):
        return self.el.tab(*a)

    def entity_dofs(self):
        top = self.cell.get_topology()
        out = {d: {e: [] for e in top[d]} for d in top}
        out[self.cell.get_dimension()][0] = list(range(self.nb()))
        return out

    def permutations(self):
        if self.el.entity_dofs() == self.el.closure():
            return self.el.permutations()
        raise NotImplementedError

    def formdegree(self):
        return self.sd

    def degree(self):
        return self.el.degree()

    def mapping(self):
        return self.el.mapping()

    def functionals(self):
        return self.el.functionals()


class NodalEnriched(Leaf):
    def __init__(self, elements):
        self.fiat = FIAT.NodalEnrichedElement(*[to_fiat(e) for e in elements])
        self.cell = self.fiat.get_reference_element()
        self.index_shape = (self.fiat.space_dimension(),)
        self.value_shape = tuple(self.fiat.value_shape())
        self.spec = {"k": "Nodal"}


class Restricted(Leaf):
    def __init__(self, fiat):
        self.fiat = fiat
        self.cell = self.fiat.get_reference_element()
        self.index_shape = (self.fiat.space_dimension(),)
        self.value_shape = tuple(self.fiat.value_shape())
        self.spec = {"k": "Restricted"}


def restricted(r, domain, closure=True):
    """The element kept of r on the entities of a domain, or None if nothing is."""
    if isinstance(r, Zany):
        raise NotImplementedError
    if isinstance(r, Discontinuous) or isinstance(r, Leaf) and r.spec["k"] in ("DiscontinuousLagrange", "GaussLegendre", "Legendre"):
        return r if domain == "interior" else None          # all on the interior by definition
    if isinstance(r, Leaf):
        kw = {} if r.spec["k"] == "HDivTrace" else {"take_closure": closure}
        try:
            return Restricted(FIAT.RestrictedElement(r.fiat, restriction_domain=domain, **kw))
        except ValueError:
            return None
    if isinstance(r, Flattened):
        p = restricted(r.product, domain, closure)
        return p and Flattened(p)
    if isinstance(r, Tensor):
        b = restricted(r.base, domain, closure)
        return b and Tensor(b, r.shape, r.transpose)
    if isinstance(r, HWrap):
        p = restricted(r.el, domain, closure)
        if isinstance(p, Enriched):
            return Enriched([HWrap(e, r.kind) for e in p.elements])
        return p and HWrap(p, r.kind)
    if isinstance(r, Enriched):
        mixed = all(isinstance(e, MixedSub) for e in r.elements)
        els = [restricted(e.el if mixed else e, domain, closure) for e in r.elements]
        els = [e for e in els if e is not None]
        if not els:
            return None
        out = Mixed(els) if mixed else Enriched(els)
        return out.elements[0] if len(out.elements) == 1 else out
    if isinstance(r, TensorProduct):
        # one product per way of sharing the codimension out among the factors
        sd = r.sd
        first = {"interior": 0, "facet": 1, "face": sd - 2, "edge": sd - 1, "vertex": sd}[domain]
        last = sd if closure and domain != "interior" else first
        out = []
        for codim in range(first, last + 1):
            for share in mis(len(r.factors), codim):
                if any(c > f.cell.get_dimension() for c, f in zip(share, r.factors)):
                    continue
                fs = []
                for c, f in zip(share, r.factors):
                    d = f.cell.get_dimension() - c
                    name = "interior" if c == 0 else "facet" if c == 1 else {0: "vertex", 1: "edge", 2: "face"}[d]
                    fs.append(restricted(f, name, False))
                if all(f is not None for f in fs):
                    out.append(TensorProduct(fs))
        return None if not out else out[0] if len(out) == 1 else Enriched(out)
    raise NotImplementedError(type(r).__name__)


def to_fiat(r):
    if isinstance(r, Leaf):
        return r.fiat
    if isinstance(r, Discontinuous):
        return FIAT.DiscontinuousElement(to_fiat(r.el))
    if isinstance(r, Flattened):
        from FIAT.tensor_product import FlattenedDimensions
        return FlattenedDimensions(to_fiat(r.product))
    if isinstance(r, TensorProduct):
        a, b = r.factors
        return FIAT.TensorProductElement(to_fiat(a), to_fiat(b))
    raise NotImplementedError


# --------------------------------------------------------------------------
# rules

def ref_rule(spec):
    """(points (N,d), weights (N,), factor list or None) of a quadrature spec."""
    from FIAT.quadrature import GaussLegendreQuadratureLineRule
    from FIAT.quadrature_schemes import create_quadrature
    cell, deg, scheme = spec["cell"], spec["deg"], spec.get("scheme", "default")
    if cell == "Q":
        return ref_rule(dict(spec, cell="TP:I,I"))
    if cell.startswith("TP:"):
        cs = split_tp(cell)
        ds = deg if isinstance(deg, (list, tuple)) else [deg] * len(cs)
        fs = [ref_rule(dict(spec, cell=c, deg=d)) for c, d in zip(cs, ds)]
        pts, w = fs[0][0], fs[0][1]
        for p2, w2, _ in fs[1:]:
            pts = np.array([list(a) + list(b) for a in pts for b in p2])
            w = np.array([a * b for a in w for b in w2])
        return pts, w, fs
    K = ref_cell(cell)
    if cell in ("I", "D1", "Y1"):
        q = GaussLegendreQuadratureLineRule(K, (deg + 2) // 2)
    else:
        q = create_quadrature(K, deg, scheme)
    return (np.asarray(q.get_points(), dtype=float).reshape(len(q.get_weights()), cell_dim(cell)),
            np.asarray(q.get_weights(), dtype=float), None)


def monomial_integral(cell, expo):
    """Exact integral of prod x_i^e_i over a UFC reference cell."""
    from math import factorial
    if cell.startswith("TP:"):
        r, k = 1.0, 0
        for c in split_tp(cell):
            d = cell_dim(c)
            r *= monomial_integral(c, expo[k:k + d])
            k += d
        return r
    if cell in ("Q", "H"):
        return float(np.prod([1 / (e + 1) for e in expo]))
    if cell in OTHER:
        return simplex_integral(corners(cell), expo)
    d = len(expo)
    num = 1
    for e in expo:
        num *= factorial(e)
    return num / factorial(sum(expo) + d)


def corners(cell):
    """Vertices of the simplex a cell fills (also one that is split up)."""
    K = ref_cell(cell)
    return np.array((K.get_parent() or K).vertices, dtype=float)


def subcells(cell):
    """Vertices of every piece of a split cell."""
    K = ref_cell(cell)
    top = K.get_topology()[K.get_spatial_dimension()]
    return [np.array([K.vertices[i] for i in top[k]], dtype=float) for k in sorted(top)]


def simplex_integral(V, expo):
    """Integral of a monomial over any simplex, by a collapsed Gauss rule of
    ample degree."""
    d = V.shape[1]
    x, w = np.polynomial.legendre.leggauss(sum(expo) + d + 1)
    x, w = (x + 1) / 2, w / 2
    g = np.stack(np.meshgrid(*[x] * d, indexing="ij"), -1).reshape(-1, d)
    wt = np.prod(np.stack(np.meshgrid(*[w] * d, indexing="ij"), -1).reshape(-1, d), axis=1)
    p, left = np.zeros_like(g), np.ones(len(g))
    for i in range(d):
        p[:, i] = g[:, i] * left
        wt = wt * left
        left = left * (1 - g[:, i])
    A = V[1:] - V[0]
    X = p @ A + V[0]
    return float(abs(np.linalg.det(A)) * np.sum(wt * np.prod(X ** np.array(expo), axis=1)))


def barycentric(V, P):
    lam = np.linalg.solve((V[1:] - V[0]).T, (np.asarray(P) - V[0]).T).T
    return np.column_stack([1 - lam.sum(axis=1), lam])


def orientation_maps(spec, table):
    """Point permutations per axis of a rule, None where the rule has none."""
    while "ref" in spec:
        spec = table[spec["ref"]]
    if spec["k"] == "tprule":
        return [m for f in spec["f"] for m in orientation_maps(f, table)]
    if spec["k"] == "rawrule":
        return [None]
    c, d = spec["cell"], spec["deg"]
    if c == "Q":
        c = "TP:I,I"
    if c.startswith("TP:"):
        cs = split_tp(c)
        ds = d if isinstance(d, (list, tuple)) else [d] * len(cs)
        return [m for x, y in zip(cs, ds) for m in orientation_maps(dict(spec, cell=x, deg=y), table)]
    if c not in ("I", "D1", "Y1"):
        return [None]
    V = corners(c)
    P = ref_rule(spec)[0]
    order = np.argsort(P[:, 0])
    back = np.empty(len(P), dtype=int)
    back[order] = order[::-1]
    assert np.allclose(P[back], V[0] + V[1] - P)
    return [[list(range(len(P))), back.tolist()]]


# --------------------------------------------------------------------------
# build a reference element from a spec

_leafs = {}


def leaf_key(spec):
    import json
    return json.dumps(spec, sort_keys=True)


def build_ref(spec, table):
    """table: name -> Ref for {"ref": name}."""
    while "ref" in spec:
        spec = table[spec["ref"]]
    k = spec["k"]
    sub = lambda s: build_ref(s, table)
    if k == "TPE":
        return TensorProduct([sub(s) for s in spec["f"]])
    if k == "Flat":
        return Flattened(sub(spec["e"]))
    if k == "Enr":
        els = [sub(s) for s in spec["f"]]
        return els[0] if len(els) == 1 else Enriched(els)
    if k == "Mix":
        return Mixed([sub(s) for s in spec["f"]])
    if k == "Tens":
        return Tensor(sub(spec["e"]), spec["shape"], spec.get("transpose", False))
    if k == "HDiv":
        return HWrap(sub(spec["e"]), "div")
    if k == "HCurl":
        return HWrap(sub(spec["e"]), "curl")
    if k == "Disc":
        return Discontinuous(sub(spec["e"]))
    if k == "Nodal":
        return NodalEnriched([sub(s) for s in spec["f"]])
    if k in ("QE", "QEmake"):
        return QE(spec, table)
    if k == "DS":
        key = leaf_key(spec)
        if key not in _leafs:
            _leafs[key] = Serendipity(spec)
        return _leafs[key]
    if k == "Restr":
        r = restricted(sub(spec["e"]), spec["domain"])
        if r is None:
            raise ValueError("empty restriction")
        return r
    if k == "Runtime":
        return Runtime(spec)
    key = leaf_key(spec)
    if key not in _leafs:
        _leafs[key] = Zany(spec) if k in ZANY else Leaf(spec)
    return _leafs[key]


# --------------------------------------------------------------------------
# elements tabulated at run time

def runtime_table(variant, degree, order, shift, continuous, side, pts):
    """What a runtime supplies for one table: values (points, degree + 1) of one
    derivative at given points.  Every parameter matters to the result."""
    import zlib
    if degree == 0:
        f = FIAT.DiscontinuousLagrange(ref_cell("I"), 0)
    elif continuous:
        f = (FIAT.GaussLobattoLegendre if zlib.crc32(variant.encode()) % 2 else FIAT.Bernstein)(ref_cell("I"), degree)
    else:
        f = (FIAT.GaussLegendre if zlib.crc32(variant.encode()) % 2 else FIAT.Legendre)(ref_cell("I"), degree)
    c = (zlib.crc32(variant.encode()) % 97) / 500.0
    scale = 1.0 - 0.06 * shift - {None: 0.0, "+": 0.11, "-": 0.23}[side]
    pts = np.asarray(pts, dtype=float).reshape(-1, 1)
    t = f.tabulate(order, 0.01 + scale * pts)[(order,)]
    return (1.0 + c) * scale ** order * np.asarray(t, dtype=float).reshape(degree + 1, len(pts)).T


class Runtime(Ref):
    def __init__(self, spec):
        self.spec = spec
        self.cell = ref_cell("I")
        self.index_shape, self.value_shape = (spec["degree"] + 1,), ()

    def tab(self, order, pts, entity):
        s = self.spec
        return {(k,): runtime_table(s["variant"], s["degree"], k, s["shift"], s["continuous"], s["restriction"], pts) for k in range(order + 1)}

    def entity_dofs(self):
        raise NotImplementedError

    def degree(self):
        return self.spec["degree"]

    def formdegree(self):
        return 0 if self.spec["continuous"] else 1

    def mapping(self):
        return "affine"


# --------------------------------------------------------------------------
# quadrature elements

class QE(Ref):
    def __init__(self, spec, specs):
        from . import world
        self.cell = ref_cell(spec["cell"])
        if spec["k"] == "QEmake":
            rule = {"k": "rule", "cell": spec["cell"], "deg": spec["deg"], "scheme": spec.get("scheme", "default")}
        else:
            rule = spec["rule"]
        self.index_shape = tuple(world.ps_extents({"k": "ruleps", "rule": rule}, specs))
        self.P, self.w = world.rule_points(rule, specs)
        self.value_shape = ()

    def tab(self, order, pts, entity):
        assert order == 0
        if len(pts) == len(self.P) and np.allclose(pts, self.P, rtol=0, atol=1e-12):
            return {(0,) * self.sd: np.eye(len(pts)).reshape((len(pts),) + self.index_shape)}
        raise NotImplementedError("other points")

    def entity_dofs(self):
        top = self.cell.get_topology()
        out = {d: {e: [] for e in top[d]} for d in top}
        out[self.cell.get_dimension()] = {0: list(range(self.nb()))}
        return out

    def formdegree(self):
        return None

    def mapping(self):
        return "affine"

    def functionals(self):
        return self.P, np.eye(len(self.P))[:, :, None]


# --------------------------------------------------------------------------
# direct serendipity

class Jet:
    """Bivariate Taylor polynomial at many points, truncated at `order`."""
    def __init__(self, order, c):
        self.order, self.c = order, c          # c[(a, b)] -> array

    @classmethod
    def var(cls, order, vals, axis):
        c = {(a, k - a): np.zeros_like(vals) for k in range(order + 1) for a in range(k + 1)}
        c[(0, 0)] = vals.copy()
        if order:
            c[(1, 0) if axis == 0 else (0, 1)] = np.ones_like(vals)
        return cls(order, c)

    @classmethod
    def const(cls, order, v, like):
        j = cls.var(0, like, 0)
        c = {(a, k - a): np.zeros_like(like) for k in range(order + 1) for a in range(k + 1)}
        c[(0, 0)] = np.full_like(like, v)
        return cls(order, c)

    def _lift(self, o):
        return o if isinstance(o, Jet) else Jet.const(self.order, float(o), self.c[(0, 0)])

    def __add__(self, o):
        o = self._lift(o)
        return Jet(self.order, {k: v + o.c[k] for k, v in self.c.items()})
    __radd__ = __add__

    def __neg__(self):
        return Jet(self.order, {k: -v for k, v in self.c.items()})

    def __sub__(self, o):
        return self + (-self._lift(o))

    def __rsub__(self, o):
        return self._lift(o) - self

    def __mul__(self, o):
        o = self._lift(o)
        c = {k: np.zeros_like(v) for k, v in self.c.items()}
        for (a, b), u in self.c.items():
            for (p, q), w in o.c.items():
                if a + b + p + q <= self.order:
                    c[(a + p, b + q)] = c[(a + p, b + q)] + u * w
        return Jet(self.order, c)
    __rmul__ = __mul__

    def inv(self):
        z = self.c[(0, 0)]
        c = {}
        for k in range(self.order + 1):
            for a in range(k + 1):
                b = k - a
                s = np.ones_like(z) if k == 0 else np.zeros_like(z)
                for (p, q), w in self.c.items():
                    if (p, q) != (0, 0) and p <= a and q <= b:
                        s = s - w * c[(a - p, b - q)]
                c[(a, b)] = s / z
        return Jet(self.order, c)

    def __truediv__(self, o):
        return self * self._lift(o).inv()

    def __pow__(self, n):
        r = Jet.const(self.order, 1.0, self.c[(0, 0)])
        for _ in range(n):
            r = r * self
        return r


class Serendipity(Ref):
    """The directly defined serendipity space on a convex quadrilateral:
    polynomials of the degree plus its supplements, nodal at its nodes."""
    def __init__(self, spec):
        self.spec = spec
        self.r = spec["degree"]
        self.cell = ref_cell("Q")
        r = self.r
        self.n = 4 if r == 1 else (r + 1) * (r + 2) // 2 + 2
        self.index_shape, self.value_shape = (self.n,), ()

    def entity_dofs(self):
        r = self.r
        ed = {0: {i: [i] for i in range(4)},
              1: {i: list(range(4 + i * (r - 1), 4 + (i + 1) * (r - 1))) for i in range(4)},
              2: {0: list(range(4 + 4 * (r - 1), self.n))}}
        return ed

    def degree(self):
        return self.r

    def formdegree(self):
        return 0

    def nodes(self, V):
        r = self.r
        top = self.cell.get_topology()
        nds = [V[i] for i in range(4)]
        for e in range(4):
            a, b = top[1][e]
            nds += [V[a] + (V[b] - V[a]) * i / r for i in range(1, r)]
        if r == 4:
            nds.append(V.mean(axis=0))
        elif r > 4:
            d0, d1 = (V[1] - V[0]) / (r - 2), (V[2] - V[0]) / (r - 2)
            p0, p1, p2 = V[0] + d0 + d1, V[0] + (r - 3) * d0 + d1, V[0] + d0 + (r - 3) * d1
            m = r - 4
            for i in range(m, -1, -1):
                for j in range(m - i, -1, -1):
                    nds.append((p0 * i + p1 * j + p2 * (m - i - j)) / m)
        return np.array(nds)

    def span(self, V, P, order):
        """Values and derivatives of a spanning set at physical points."""
        r = self.r
        x, y = Jet.var(order, P[:, 0], 0), Jet.var(order, P[:, 1], 1)
        top = self.cell.get_topology()
        lam, mids = [], []
        for e in range(4):
            a, b = top[1][e]
            t = V[b] - V[a]
            n = np.array([-t[1], t[0]]) * (1 if e in (0, 3) else -1)
            m = (V[a] + V[b]) / 2
            mids.append(m)
            lam.append((n, m))

        def L(e, x, y):
            n, m = lam[e]
            return (x - m[0]) * n[0] + (y - m[1]) * n[1]
        c, h = P.mean(axis=0), max(1e-300, np.ptp(V, axis=0).max())
        out = []
        xs, ys = (x - V.mean(axis=0)[0]) * (1 / h), (y - V.mean(axis=0)[1]) * (1 / h)
        for k in range(r + 1):
            for a in range(k + 1):
                out.append(xs ** a * ys ** (k - a))

        def R(i, j, x, y):
            return (L(i, x, y) - L(j, x, y)) / (L(i, x, y) + L(j, x, y))
        if r == 1:
            def rfun(x, y):
                s = 0.0
                for v, (i, j), sg in ((0, (1, 3), 1), (2, (0, 3), -1), (3, (0, 2), 1), (1, (1, 2), -1)):
                    s = s + L(i, x, y) * L(j, x, y) * (sg / (L(i, *V[v]) * L(j, *V[v])))
                return s
            tot = rfun(x, y)
            for e in range(4):
                i = 2 * ((3 - e) // 2)
                j = i + 1
                k = 2 * (e // 2)
                xi = L(i, x, y) * L(j, x, y) * (1 + (-1) ** (e + 1) * R(k, k + 1, x, y)) \
                    * (0.5 / (L(i, *mids[e]) * L(j, *mids[e])))
                tot = tot - xi * float(rfun(*mids[e]))
            out.append(tot)
        else:
            s = 1 / h ** (2 * r)
            out.append(L(2, x, y) * L(3, x, y) * (L(2, x, y) - L(3, x, y)) ** (r - 2) * R(0, 1, x, y) * s)
            out.append(L(0, x, y) * L(1, x, y) * (L(0, x, y) - L(1, x, y)) ** (r - 2) * R(2, 3, x, y) * s)
        return out

    _C = None

    def coeffs(self, V):
        key = V.tobytes()
        if self._C is None or self._C[0] != key:
            N = self.nodes(V)
            A = np.array([j.c[(0, 0)] for j in self.span(V, N, 0)])     # span x nodes
            self._C = (key, np.linalg.inv(A.T).T)                      # phi_i = C[i] . span
        return self._C[1]

    def tab(self, order, pts, entity):
        from math import factorial
        from .ops import quad_map, entity_points
        V = np.array(CUR_GEOM[-1]["verts"], dtype=float)
        P = quad_map(V, entity_points("Q", pts, entity))
        C = self.coeffs(V)
        S = self.span(V, P, order)
        out = {}
        for k in range(order + 1):
            for alpha in mis(2, k):
                m = np.array([j.c[tuple(alpha)] for j in S]) * factorial(alpha[0]) * factorial(alpha[1])
                out[tuple(alpha)] = (C @ m).T
        return out
