"""Independent finite-element reference model (NumPy only, complex-safe).

Shares with the library only: the node-ordering convention of meshio/VTK files, the default
quadrature orders, and basix' quadrature tables.  Shape functions, geometry maps, face
integrals, assembly, Jacobians (complex step) and Dirichlet rows are written here from the
textbook definitions.
"""
import itertools

import basix
import numpy as np

CT = basix.CellType
H = 1e-30


def _mids(v, pairs):
    return [tuple((a + b) / 2 for a, b in zip(v[i], v[j])) for i, j in pairs]


_Q = [(0., 0.), (1., 0.), (1., 1.), (0., 1.)]
_T = [(0., 0.), (1., 0.), (0., 1.)]
_K = [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)]
_H = [(0., 0., 0.), (1., 0., 0.), (1., 1., 0.), (0., 1., 0.),
      (0., 0., 1.), (1., 0., 1.), (1., 1., 1.), (0., 1., 1.)]
_HE = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
_HF = [(0., .5, .5), (1., .5, .5), (.5, 0., .5), (.5, 1., .5), (.5, .5, 0.), (.5, .5, 1.), (.5, .5, .5)]

NODES = {
    "QUAD4": _Q,
    "QUAD8": _Q + _mids(_Q, [(0, 1), (1, 2), (2, 3), (3, 0)]),
    "TRI3": _T,
    "TRI6": _T + _mids(_T, [(0, 1), (1, 2), (2, 0)]),
    "TET4": _K,
    "TET10": _K + _mids(_K, [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]),
    "HEX8": _H,
    "HEX20": _H + _mids(_H, _HE),
    "HEX27": _H + _mids(_H, _HE) + _HF,
}
CELL = {"QUAD4": CT.quadrilateral, "QUAD8": CT.quadrilateral, "TRI3": CT.triangle, "TRI6": CT.triangle,
        "TET4": CT.tetrahedron, "TET10": CT.tetrahedron, "HEX8": CT.hexahedron, "HEX20": CT.hexahedron,
        "HEX27": CT.hexahedron}
QORDER = {"QUAD4": 2, "QUAD8": 2, "TRI3": 0, "TRI6": 2, "TET4": 0, "TET10": 2, "HEX8": 2, "HEX20": 2,
          "HEX27": 10}
_QF = [(0, 1), (1, 2), (2, 3), (3, 0)]
_TF = [(0, 1), (1, 2), (2, 0)]
_KF = [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]
# hexahedron faces as (origin, end of first edge, end of second edge, opposite corner)
_HFV = [(0, 1, 3, 2), (4, 5, 7, 6), (0, 1, 4, 5), (3, 2, 7, 6), (0, 3, 4, 7), (1, 2, 5, 6)]
FACES = {"QUAD4": _QF, "QUAD8": _QF, "TRI3": _TF, "TRI6": _TF, "TET4": _KF, "TET10": _KF,
         "HEX8": _HFV, "HEX20": _HFV, "HEX27": _HFV}


def _exponents(et):
    if et in ("QUAD4", "HEX8"):
        d = 2 if et == "QUAD4" else 3
        return list(itertools.product(range(2), repeat=d))
    if et == "HEX27":
        return list(itertools.product(range(3), repeat=3))
    if et in ("TRI3", "TET4", "TRI6", "TET10"):
        d = 2 if et.startswith("TRI") else 3
        p = 1 if et in ("TRI3", "TET4") else 2
        return [e for e in itertools.product(range(p + 1), repeat=d) if sum(e) <= p]
    d = 2 if et == "QUAD8" else 3   # serendipity of degree 2: superlinear degree <= 2
    return [e for e in itertools.product(range(3), repeat=d) if sum(x for x in e if x > 1) <= 2]


class Element:
    def __init__(self, et):
        self.et = et
        self.nodes = np.array(NODES[et])
        self.n, self.d = self.nodes.shape
        self.ex = _exponents(et)
        assert len(self.ex) == self.n, et
        self.C = np.linalg.inv(self._mono(self.nodes))
        self.faces = FACES[et]

    def _mono(self, x, k=None):
        cols = []
        for e in self.ex:
            t = np.ones(len(x))
            for j, p in enumerate(e):
                if j == k:
                    t = t * (0. if p == 0 else p * x[:, j] ** (p - 1))
                else:
                    t = t * x[:, j] ** p
            cols.append(t)
        return np.stack(cols, 1)

    def tab(self, x):
        N = self._mono(x) @ self.C
        G = np.stack([self._mono(x, k) @ self.C for k in range(self.d)], -1)
        return N, G      # (q, n), (q, n, d)

    def face_quad(self, f, order):
        """Quadrature points on face f (reference coordinates), weights, reference tangents (q, d-1, d)."""
        v = self.nodes[list(self.faces[f])]
        if self.d == 2:
            p, w = basix.make_quadrature(CT.interval, order)
            return v[0] + p[:, :1] * (v[1] - v[0]), w, np.broadcast_to((v[1] - v[0])[None, None], (len(w), 1, 2))
        tri = len(v) == 3
        p, w = basix.make_quadrature(CT.triangle if tri else CT.quadrilateral, order)
        a, b = v[1] - v[0], v[2] - v[0]
        return v[0] + p[:, :1] * a + p[:, 1:2] * b, w, np.broadcast_to(np.stack([a, b])[None], (len(w), 2, 3))


_elements = {}


def element(et):
    if et not in _elements:
        _elements[et] = Element(et)
    return _elements[et]


class Discretisation:
    """Several finite-element variables over the same cells."""

    def __init__(self, points_list, cells_list, ele_types, vecs, qorder=None, surfaces=(), rule=None):
        self.els = [element(t) for t in ele_types]
        self.cells = [np.asarray(c) for c in cells_list]
        self.vecs = vecs
        self.nn = [len(p) for p in points_list]
        self.dim = self.els[0].d
        self.order = [QORDER[t] if qorder is None else qorder for t in ele_types]
        self.off = np.concatenate([[0], np.cumsum([n * v for n, v in zip(self.nn, vecs)])])
        self.N = int(self.off[-1])
        self.quad = [basix.make_quadrature(CELL[t], o, **({} if rule is None else {"rule": rule})) for t, o in zip(ele_types, self.order)]
        self.tabs = [e.tab(q[0]) for e, q in zip(self.els, self.quad)]
        # element dof map: variable-major, node-major, component-minor
        self.edofs = np.concatenate([
            (c[:, :, None] * v + np.arange(v)[None, None, :] + o).reshape(len(c), -1)
            for c, v, o in zip(self.cells, vecs, self.off)], axis=1)
        # surfaces: location function on coordinates of the face corner vertices of variable 0
        self.surf = []
        p0 = np.asarray(points_list[0])
        for fn in surfaces:
            sel = []
            for c in range(len(self.cells[0])):
                for f, vs in enumerate(self.els[0].faces):
                    ids = self.cells[0][c][list(vs)]
                    if all(fn(p0[i], i) for i in ids):
                        sel.append((c, f))
            self.surf.append(sel)

    def ftab(self, i, f):
        x, w, t = self.els[i].face_quad(f, self.order[i])
        N, G = self.els[i].tab(x)
        return N, G, w, t

    def geom(self, pts):
        """Per variable: gradients (C,q,n,d), JxW (C,q); physical quadrature points of variable 0."""
        out = []
        for e, (N, G), (qp, w), c, p in zip(self.els, self.tabs, self.quad, self.cells, pts):
            X = p[c]                                                     # C,n,d
            J = np.einsum("cni,qnj->cqij", X, G)                         # dx_i/dxi_j
            Ji = np.linalg.inv(J)
            out.append((N, np.einsum("qnj,cqji->cqni", G, Ji), np.linalg.det(J) * w[None]))
        xq = np.einsum("qn,cni->cqi", self.tabs[0][0], pts[0][self.cells[0]])
        return out, xq

    def face_geom(self, k, pts):
        out = []
        for (c, f) in self.surf[k]:
            row = []
            for i in range(len(self.els)):
                N, G, w, t = self.ftab(i, f)
                X = pts[i][self.cells[i][c]]
                J = np.einsum("ni,qnj->qij", X, G)
                T = np.einsum("qij,qkj->qki", J, t)                      # physical tangents
                if self.dim == 2:
                    n = np.stack([T[:, 0, 1], -T[:, 0, 0]], -1)
                else:
                    n = np.cross(T[:, 0], T[:, 1])
                row.append((N, np.einsum("qnj,qji->qni", G, np.linalg.inv(J)), np.sqrt(np.sum(n * n, -1)) * w))
            N, _, _, _ = self.ftab(0, f)
            xq = N @ pts[0][self.cells[0][c]]
            out.append((c, row, xq))
        return out

    def split_e(self, ue):
        """(..., nedof) -> list of (..., n, vec)"""
        out, o = [], 0
        for e, v in zip(self.els, self.vecs):
            out.append(ue[..., o:o + e.n * v].reshape(ue.shape[:-1] + (e.n, v)))
            o += e.n * v
        return out


class RefProblem:
    """disc + weak form + Dirichlet data.

    cell_form(us, gs, x, iv) and surf_forms[k](us, x, svars) return, per variable, the pair
    (coefficient of v, coefficient of grad v) / coefficient of v, at arrays of points.
    `state` holds pts (list), iv (list of (C,q,...)), surf_vars (per surface: function of points),
    bc: per variable list of (node_inds, vec_inds, vals).
    """

    def __init__(self, disc, cell_form, surf_forms=(), P=None):
        self.d = disc
        self.cell_form = cell_form
        self.surf_forms = surf_forms
        self.P = P

    # -- element level -----------------------------------------------------------------------
    def _cells(self, ue, st, g):
        d = self.d
        geo, xq = g
        loc = d.split_e(ue)
        us = [np.einsum("qn,cnv->cqv", N, u) for (N, _, _), u in zip(geo, loc)]
        gs = [np.einsum("cqnd,cnv->cqvd", G, u) for (_, G, _), u in zip(geo, loc)]
        forms = self.cell_form(us, gs, xq, st["iv"])
        out = []
        for (N, G, W), (f0, f1) in zip(geo, forms):
            r = 0.
            if f0 is not None:
                r = r + np.einsum("qn,cqv,cq->cnv", N, f0, W)
            if f1 is not None:
                r = r + np.einsum("cqnd,cqvd,cq->cnv", G, f1, W)
            out.append(r.reshape(len(ue), -1))
        return np.concatenate(out, 1)

    def _face(self, k, uc, c_row_x, st):
        c, row, xq = c_row_x
        loc = self.d.split_e(uc)
        us = [N @ u for (N, _, _), u in zip(row, loc)]
        forms = self.surf_forms[k](us, xq, st["sv"][k])
        out = []
        for (N, _, W), f0, u in zip(row, forms, loc):
            out.append(np.zeros(u.size) if f0 is None else np.einsum("qn,qv,q->nv", N, f0, W).reshape(-1))
        return np.concatenate(out)

    def rows(self, st, U, lam=1.):
        """Dirichlet rows, later entries winning: dict dof -> prescribed value."""
        m = {}
        for o, v, lst in zip(self.d.off, self.d.vecs, st["bc"]):
            for ni, vi, vals in lst:
                for a, b, w in zip(np.asarray(ni).reshape(-1), np.asarray(vi).reshape(-1), np.asarray(vals).reshape(-1)):
                    m[int(o + a * v + b)] = w * lam
        return m

    def full(self, U, st, jac=False, bc=True, lam=1.):
        d = self.d
        cx = np.iscomplexobj(U) or any(np.iscomplexobj(a) for a in st["pts"] + st["iv"]) or st.get("complex")
        dt = complex if cx else float
        R = np.zeros(d.N, dt)
        g = d.geom(st["pts"])
        ue = U[d.edofs]
        np.add.at(R, d.edofs, self._cells(ue, st, g))
        fg = [d.face_geom(k, st["pts"]) for k in range(len(d.surf))]
        for k in range(len(d.surf)):
            for item in fg[k]:
                ed = d.edofs[item[0]]
                np.add.at(R, ed, self._face(k, U[ed], item, st))
        A = None
        if jac:
            A = np.zeros((d.N, d.N))
            m = d.edofs.shape[1]
            for j in range(m):
                up = ue.astype(complex)
                up[:, j] += 1j * H
                col = self._cells(up, st, g).imag / H
                np.add.at(A, (d.edofs, np.broadcast_to(d.edofs[:, j:j + 1], d.edofs.shape)), col)
            for k in range(len(d.surf)):
                for item in fg[k]:
                    ed = d.edofs[item[0]]
                    for j in range(m):
                        up = U[ed].astype(complex)
                        up[j] += 1j * H
                        A[ed, ed[j]] += self._face(k, up, item, st).imag / H
        if bc:
            for dof, w in self.rows(st, U, lam).items():
                R[dof] = U[dof] - w
                if jac:
                    A[dof] = 0.
                    A[dof, dof] = 1.
        return R, A

    # -- reduced system ----------------------------------------------------------------------
    def residual(self, y, st, lam=1.):
        if self.P is None:
            return self.full(y, st, lam=lam)[0]
        return self.P.T @ self.full(self.P @ y, st, lam=lam)[0]

    def system(self, y, st, lam=1.):
        if self.P is None:
            return self.full(y, st, jac=True, lam=lam)
        R, A = self.full(self.P @ y, st, jac=True, lam=lam)
        return self.P.T @ R, self.P.T @ (A @ self.P)

    @property
    def n(self):
        return self.d.N if self.P is None else self.P.shape[1]

    def solve(self, st, y=None, tol=1e-11, maxit=60, lam=1.):
        y = np.zeros(self.n) if y is None else np.array(y, float)
        best = None
        for _ in range(maxit):
            R, A = self.system(y, st, lam)
            r = np.linalg.norm(R)
            if best is not None and r >= best and r < tol * 1e3:
                break
            best = r
            if r < tol * 1e-2:
                break
            y = y - np.linalg.solve(A, R)
        return y, r

    def flat(self, sol_list):
        return np.concatenate([np.asarray(s, float).reshape(-1) for s in sol_list])

    def gradient(self, U, st, w, direction_states, project=False):
        """d/dθ of w·u(θ) along each direction; direction_states are complex states at θ + i H d."""
        Uf = np.asarray(U, float)
        _, A = self.full(Uf, st, jac=True)
        P = np.eye(self.d.N) if self.P is None else np.asarray(self.P)
        Ar = P.T @ A @ P
        v = P @ np.linalg.solve(Ar.T, P.T @ w)
        out = []
        for ds in direction_states:
            Rd = self.full(Uf.astype(complex), dict(ds, complex=True))[0].imag / H
            out.append(-float(v @ Rd))
        return np.array(out), v
