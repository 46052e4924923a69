"""A small form compiler that writes kernels the way FFCx 0.10 does, and evaluates the
same integrands directly. Import after use_stubs().

A Kernel is a random integral: rules (static points, or the fake ones of an unfitted
boundary), coefficients, constants, arguments and terms. `code()` is what the form compiler
emits for it, `ir()`/`ufl()` what comes with it, and `evaluate()` the value of the integral
with given points, computed from the elements themselves."""
import hashlib
import itertools
import math
import types

import basix
import basix.ufl
import numpy as np
import ufl
from ffcx.codegeneration.codegeneration import CodeBlocks
from ffcx.ir.elementtables import ModifiedTerminalElement
from ffcx.ir.representation import DataIR, IntegralIR
from ffcx.ir.representationutils import QuadratureRule, create_quadrature_points_and_weights

CT = basix.CellType
DIM = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}
FACET = {"interval": "point", "triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral"}
REAL = {"float32": np.float32, "float64": np.float64, "complex64": np.float32, "complex128": np.float64}
CNAME = {"float32": "float", "float64": "double", "complex64": "float _Complex", "complex128": "double _Complex"}
TYPES = ["cell", "exterior_facet", "interior_facet"]


class Reject(Exception):
    """the static points cannot tell tables apart: the form compiler has already merged
    or dropped what the run-time points would need"""


def permute(fshape, p, perm):
    """FFCx: permute_quadrature_*: rotations first, then the reflection"""
    rot, ref = divmod(int(perm), 2)
    p = p.copy()
    if fshape == "interval":
        return 1 - p if perm else p
    if fshape == "triangle":
        for _ in range(rot):
            p = np.stack([p[:, 1], 1 - p[:, 0] - p[:, 1]], axis=1)
    else:
        for _ in range(rot):
            p = np.stack([p[:, 1], 1 - p[:, 0]], axis=1)
    return p[:, ::-1].copy() if ref else p


def n_perms(cell):
    return {1: 1, 2: 2, 3: {"tetrahedron": 6, "hexahedron": 8}.get(cell)}[DIM[cell]]


def onto_cell(cell, lf, p):
    ct = getattr(CT, cell)
    v = basix.geometry(ct)[basix.topology(ct)[-2][lf]]
    return v[0] + p @ (v[1:1 + p.shape[1]] - v[0])


def n_facets(cell):
    return len(basix.topology(getattr(CT, cell))[-2])


# ---------------------------------------------------------------- elements
def pool(rng, cell, small=False):
    E, M = basix.ufl.element, basix.ufl.mixed_element
    d = DIM[cell]
    lv = [basix.LagrangeVariant.gll_warped, basix.LagrangeVariant.equispaced, basix.LagrangeVariant.gll_isaac]
    top = {1: 4, 2: 3, 3: 2}[d] if not small else 1
    cube = cell in ("quadrilateral", "hexahedron", "interval")

    def scalar():
        k = int(rng.integers(0, 7))
        p = int(rng.integers(1, top + 1))
        if k == 0:
            return E("DG", cell, int(rng.integers(0, top + 1)))
        if k == 1:
            return E("P", cell, p, lagrange_variant=lv[int(rng.integers(3))])
        if k == 2 and d > 1:
            if cube:
                return E("Serendipity", cell, p, lagrange_variant=basix.LagrangeVariant.legendre, dpc_variant=basix.DPCVariant.legendre)
            return E("CR", cell, 1)
        if k == 3:
            deg = {"interval": 2, "triangle": 3, "quadrilateral": 2, "tetrahedron": 4, "hexahedron": 2}[cell]
            return E("bubble", cell, deg + int(rng.integers(0, 2)) * (d < 3))
        if k == 4 and cube and d > 1:
            return E("DPC", cell, int(rng.integers(0, top + 1)), dpc_variant=basix.DPCVariant.diagonal_gll, discontinuous=True)
        if k == 5:
            return E("P", cell, p, lagrange_variant=basix.LagrangeVariant.legendre, discontinuous=True)
        return E("P", cell, p)

    def vector():
        k = int(rng.integers(0, 5))
        if d == 1 or k == 0:
            return E("P", cell, int(rng.integers(1, min(top, 2) + 1)), shape=(d if d > 1 else 2,))
        fam = ["RT", "N1curl", "BDM", "N2curl"][k - 1]
        if cube and fam in ("BDM", "N2curl"):
            return E(fam, cell, 1, lagrange_variant=basix.LagrangeVariant.legendre, dpc_variant=basix.DPCVariant.legendre)
        return E(fam, cell, int(rng.integers(1, 3)) if d == 2 else 1)

    if not small and rng.random() < 0.01:
        # not what the shim can create: the code generation has to say so
        if d > 1 and not cube and rng.random() < 0.5:
            return basix.ufl.enriched_element([E("P", cell, 1), E("bubble", cell, d + 1)])
        n = E("P", cell, 2).dim
        return E("P", cell, 2, dof_ordering=[int(i) for i in rng.permutation(n)])
    k = int(rng.integers(0, 10))
    if k < 4:
        return scalar()
    if k < 6 and not small:
        return vector()
    if k == 6:
        return E("P", cell, 1, shape=(d, d), symmetry=bool(rng.random() < 0.5)) if d > 1 else E("P", cell, 1, shape=(3,))
    if k == 7:
        el = scalar()
        return basix.ufl.blocked_element(el, shape=(int(rng.integers(2, 4)),))
    if k == 8 and not small:
        parts = [vector() if rng.random() < 0.5 else scalar() for _ in range(int(rng.integers(2, 4)))]
        if rng.random() < 0.3:
            parts[0] = M([scalar(), scalar()])
        return M(parts)
    if k == 9 and cell == "triangle" and not small:
        return E("Regge", cell, int(rng.integers(0, 2)))
    return scalar()


def default_element(el):
    """whether the parameters of an element tell which one it is"""
    if isinstance(el, basix.ufl._MixedElement) or el.block_size > 1:
        return all(default_element(e) for e in el.sub_elements)
    b = el.basix_element
    return b.family != basix.ElementFamily.custom and not list(b.dof_ordering)


def components(el):
    """the flat components a form compiler asks for (symmetric elements repeat some)"""
    if isinstance(el, basix.ufl._MixedElement):
        out, o = [], 0
        for e in el.sub_elements:
            out += [o + c for c in components(e)]
            o += e.reference_value_size
        return out
    return list(range(min(el.reference_value_size, el.block_size) if el.block_size > 1 else el.reference_value_size))


def dofs_of(el, fc):
    """(component element, first dof, stride) as the form compiler asks for them"""
    c, off, stride = el.get_component_element(fc)
    return c, int(off), int(stride)


def tabulate(el, fc, der, pts):
    c, _, _ = dofs_of(el, fc)
    return np.asarray(c.tabulate(sum(der), np.asarray(pts, dtype=np.float64))[basix.index(*der)]).reshape(len(pts), -1)


def mterm(el, fc, der):
    return ModifiedTerminalElement(el, None, tuple(i for i, k in enumerate(der) for _ in range(k)), fc)


class Coef:
    """a coefficient of the form (the function space is DOLFINx's)"""

    def __init__(self, el):
        self.el = el
        self.ndofs = el.dim

    def ufl_function_space(self):
        return types.SimpleNamespace(element=types.SimpleNamespace(space_dimension=self.el.dim))


class Rule:
    def __init__(self, pts, wts, degree, scheme, unf=False):
        self.points, self.weights = np.asarray(pts, dtype=np.float64), np.asarray(wts, dtype=np.float64)
        self.degree, self.scheme, self.unf, self.also = degree, scheme, unf, ()
        self.rule = QuadratureRule(self.points, self.weights, None)
        hash(self.rule)
        self.id = self.rule.id()


class Tab:
    pass


class Kernel:
    def __init__(self, rng, cell, itype, dtype, unf_metadata=None, mixed=False, coord_degree=None, one_point=False, uid=0,
                 normal_factory=None, unfitted=None):
        self.rng, self.cell, self.itype, self.dtype = rng, cell, itype, dtype
        self.d = DIM[cell]
        self.mixed = mixed and itype == "exterior_facet" and self.d > 1
        self.real = REAL[dtype]
        self.cx = dtype.startswith("complex")
        self.T, self.R = CNAME[dtype], CNAME["float32" if self.real == np.float32 else "float64"]
        self.name = hashlib.sha1(repr((uid, cell, itype, dtype, int(rng.integers(1 << 60)))).encode()).hexdigest()
        self.fshape = FACET[cell]
        self.pdim = self.d if itype == "cell" else self.d - 1
        self.cel = basix.ufl.element("P", cell, coord_degree or int(rng.choice([1, 1, 2])), shape=(self.d,))
        self.sides = ("+", "-") if itype == "interior_facet" else (None,)
        self.one_sided = itype == "interior_facet" and rng.random() < 0.15
        self.facet_cell = self.fshape
        self._elements, self.tables, self.nodes, self.types = [], {}, {}, {}
        self._unf_md, self._normal = unf_metadata, normal_factory
        self._one_point = one_point
        self._unfitted = unfitted
        self._rules()
        self.rank = int(rng.choice([0, 1, 1, 2, 2]))
        self.args = [self._el() for _ in range(self.rank)]
        if self.mixed and not any(e.cell.topological_dimension() < self.d for e in self.args) and rng.random() < 0.5 and self.rank:
            self.args[-1] = pool(rng, self.fshape, small=True)
        self.coefs = [Coef(self._el()) for _ in range(int(rng.choice([0, 0, 1, 2, 3])))]
        if self.mixed and all(e.cell.topological_dimension() == self.d for e in [*self.args, *(c.el for c in self.coefs)]):
            self.coefs.append(Coef(pool(rng, self.fshape, small=True)))
        self.consts = []            # (object, size, is normal)
        for _ in range(int(rng.integers(0, 4))):
            self.consts.append((object(), int(rng.choice([1, 1, 2, 3, 9])), False))
        self.has_unf = any(r.unf for r in self.rules)
        if self.has_unf:
            for _ in range(int(rng.choice([1, 1, 2]))):
                self.consts.insert(int(rng.integers(0, len(self.consts) + 1)), (self._normal(), self.d, True))
        off = 0
        self.c_off = []
        for _, n, _ in self.consts:
            self.c_off.append(off)
            off += n
        self.n_c = off
        self.w_off, off = [], 0
        self.nside = 2 if itype == "interior_facet" else 1
        for c in self.coefs:
            self.w_off.append(off)
            off += self.nside * c.ndofs
        self.cstride_total = off
        self.dims = [self.nside * e.dim for e in self.args]
        self.terms = {id(r): self._terms(r) for r in self.rules}
        for r in self.rules:
            self._register(r)

    # ------------------------------------------------------------ ingredients
    def _el(self):
        if self.mixed and self.rng.random() < 0.4:
            return pool(self.rng, self.fshape, small=True)
        return pool(self.rng, self.cell)

    def _rules(self):
        rng = self.rng
        self.rules = []
        n = 1 if self._one_point else int(rng.choice([1, 1, 1, 2, 3]))
        ids = set()
        unf = self.itype == "cell" and self._unf_md is not None and not self._one_point and (rng.random() < 0.5 if self._unfitted is None else self._unfitted)
        shape = self.cell if self.itype == "cell" else self.fshape
        while len(self.rules) < n:
            if shape == "point":
                r = Rule(np.zeros((1, 0)), [1.0], int(rng.integers(0, 9)), "default")
            elif unf and not any(x.unf for x in self.rules):
                md = self._unf_md[self.d]
                r = Rule(md["quadrature_points"], md["quadrature_weights"], int(rng.integers(1, 9)), "custom", True)
            elif rng.random() < 0.6:
                deg = int(rng.integers(0, 2)) if self._one_point else int(rng.integers(2, 7))
                p, w, _ = create_quadrature_points_and_weights("cell" if self.itype == "cell" else self.itype, ufl.Cell(self.cell), deg,
                                                               "default", [])
                k = next(iter(p))
                r = Rule(p[k], w[k], deg, "default")
            else:
                k = 1 if self._one_point else int(rng.integers(2, 6))
                p = rng.random((k, self.pdim))
                if shape in ("triangle", "tetrahedron"):
                    p = -np.log(p)
                    p = p / (p.sum(axis=1) - np.log(rng.random(k)))[:, None]
                r = Rule(p, rng.random(k) + 0.1, int(rng.integers(0, 9)), "custom")
            if self._one_point and len(r.points) != 1:
                continue
            if r.id in ids:
                if shape == "point":
                    break
                # the same points: one single rule for the form compiler
                same = [x for x in self.rules if x.id == r.id][0]
                if not same.unf and np.array_equal(same.points, r.points) and r.degree not in (same.degree, *same.also):
                    same.also += (r.degree,)
                continue
            ids.add(r.id)
            self.rules.append(r)
        self.rules = [self.rules[int(k)] for k in rng.permutation(len(self.rules))]

    def _der(self, el):
        dim = el.cell.topological_dimension()
        k = int(self.rng.choice([0, 0, 0, 1, 1, 2]))
        der = [0] * dim
        if dim:
            for _ in range(k):
                der[int(self.rng.integers(dim))] += 1
        return tuple(der)

    def _side(self):
        if self.itype != "interior_facet":
            return None
        return "+" if self.one_sided else self.sides[int(self.rng.integers(2))]

    def _factor(self, rule):
        rng = self.rng
        kinds = ["J", "x", "lit"]
        if self.coefs:
            kinds += ["w"] * 4
        if self.itype != "cell":
            kinds += ["ref"]
        plain = [k for k, c in enumerate(self.consts) if not c[2]]
        norm = [k for k, c in enumerate(self.consts) if c[2]]
        if plain:
            kinds += ["c"] * 2
        if rule.unf:
            kinds += ["n"] * 5
        k = str(rng.choice(kinds))
        s = self._side()
        if k == "J":
            return ("J", int(rng.integers(self.d ** 2)), s)
        if k == "x":
            return ("x", int(rng.integers(self.d)), s)
        if k == "lit":
            return ("lit", round(float(rng.normal()), 3) + 2.0)
        if k == "w":
            i = int(rng.integers(len(self.coefs)))
            el = self.coefs[i].el
            return ("w", i, int(rng.choice(components(el))), self._der(el), s)
        if k == "ref":
            return ("ref", int(rng.integers(self.d)), s)
        src = norm if k == "n" else plain
        i = int(src[int(rng.integers(len(src)))])
        j = int(rng.integers(self.consts[i][1]))
        how = int(rng.integers(0, 6))
        return ("c", i, j, how, int(rng.integers(self.consts[i][1])))

    def _terms(self, rule):
        rng = self.rng
        out = []
        for _ in range(int(rng.integers(1, 4))):
            f = [("detJ", self._side())] if rng.random() < 0.7 else []
            f += [self._factor(rule) for _ in range(int(rng.integers(1, 4)))]
            if rule.unf and not any(x[0] == "c" and self.consts[x[1]][2] for x in f):
                i = [k for k, c in enumerate(self.consts) if c[2]][0]
                f.append(("c", i, int(rng.integers(self.d)), int(rng.integers(0, 6)), int(rng.integers(self.d))))
            a = [(k, int(rng.choice(components(e))), self._der(e), self._side()) for k, e in enumerate(self.args)]
            out.append((f, a))
        if self.itype == "interior_facet" and not self.one_sided:
            # both sides always show up
            for s in ("+", "-"):
                out.append(([("detJ", s), ("ref", 0, s)] + ([self._factor(rule)] if rng.random() < 0.5 else []),
                            [(k, int(rng.choice(components(e))), self._der(e), s) for k, e in enumerate(self.args)]))
        elif self.itype != "cell":
            out[0][0].append(("ref", 0, self.sides[0]))
        return out

    # ------------------------------------------------------------ tables
    def _codim(self, el):
        return self.d - el.cell.topological_dimension()

    def points_for(self, el, rule, perm, ent):
        if self.itype == "cell":
            return rule.points
        if self._codim(el) == 1:
            return rule.points
        p = permute(self.fshape, rule.points, perm) if perm else rule.points
        return onto_cell(self.cell, ent, p)

    def table(self, rule, el, fc, der):
        """what build_optimized_tables gives for a modified terminal"""
        key = (rule.id, id(el), fc, der)
        if key in self.tables:
            return self.tables[key]
        codim = self._codim(el)
        facet = self.itype != "cell"
        permuted = (self.itype == "interior_facet" and codim == 0) or (self.mixed and codim == 0)
        P = range(n_perms(self.cell)) if permuted else [0]
        n_ent = n_facets(self.cell) if facet else 1
        t = np.array([[tabulate(el, fc, der, self.points_for(el, rule, p, e)) for e in range(n_ent)] for p in P])
        t[np.abs(t) < 1e-9] = 0
        for v in (-1.0, 1.0):
            t[np.abs(t - v) < 1e-9] = v
        r = Tab()
        r.rule, r.el, r.fc, r.der = rule, el, fc, der
        _, r.begin, r.stride = dofs_of(el, fc)
        close = lambda a, b: np.allclose(a, b, rtol=1e-6, atol=1e-9)  # noqa
        probe = self._probe(el, fc, der)      # values at arbitrary points of the cell / facet
        if close(t, 0):
            r.kind = "zeros"
            if not close(probe, 0):
                raise Reject("zeros")
        elif close(t, 1):
            r.kind = "ones"
            if not close(probe, 1) and not (facet and False):
                raise Reject("ones")
        else:
            pw = all(close(t[:, :, 0], t[:, :, k]) for k in range(t.shape[2]))
            un = all(close(t[:, 0], t[:, k]) for k in range(t.shape[1]))
            r.kind = {(1, 1): "fixed", (1, 0): "piecewise", (0, 1): "uniform", (0, 0): "varying"}[int(pw), int(un)]
            r.permuted = not all(close(t[0], t[k]) for k in range(t.shape[0]))
            if not r.permuted:
                t = t[:1]
            if un:
                t = t[:, :1]
            if pw:
                t = t[:, :, :1]
                if len(rule.points) > 1:
                    for e in range(probe.shape[0]):
                        if not close(probe[e], probe[e][:1]):
                            raise Reject("piecewise")
        r.values = t
        r.nf = t.shape[-1]
        if not any(e is el for e in self._elements):
            self._elements.append(el)
        num = [i for i, e in enumerate(self._elements) if e is el][0]
        if r.kind not in ("zeros", "ones"):
            r.name = f"FE{num}_C{fc}" + ("_D" + "".join(map(str, der)) if any(der) else "") + ("_F" if facet else "") + f"_Q{rule.id}"
            r.owner = True
            for o in self.tables.values():
                if o.rule is rule and getattr(o, "owner", False) and o.values.shape == t.shape and o.kind == r.kind and \
                        close(o.values, t):
                    # the same numbers: the form compiler keeps one table
                    if o.el.cell.topological_dimension() != el.cell.topological_dimension() or \
                            not close(self._probe(o.el, o.fc, o.der), probe):
                        raise Reject("merged")
                    r.name, r.owner = o.name, False
                    break
            self.types[r.name] = r.kind
        self.tables[key] = r
        tr = types.SimpleNamespace(name=getattr(r, "name", ""), ttype=r.kind)
        mt = types.SimpleNamespace(mte=mterm(el, fc, der), terminal=object())
        self.nodes[len(self.nodes)] = {"tr": tr, "mt": mt}
        return r

    def _probe(self, el, fc, der):
        """values at generic points, facet by facet (cells: one row)"""
        q = np.random.default_rng(5)
        dim = el.cell.topological_dimension()
        if self.itype == "cell" or self._codim(el) == 1:
            return tabulate(el, fc, der, q.random((3, dim)) / max(dim, 1))[None]
        f = q.random((3, self.d - 1)) / max(self.d - 1, 1)
        return np.array([tabulate(el, fc, der, onto_cell(self.cell, e, f)) for e in range(n_facets(self.cell))])

    def _register(self, rule):
        for f, a in self.terms[id(rule)]:
            for x in f:
                for el, fc, der in self._tabs_of(x):
                    self.table(rule, el, fc, der)
            for k, fc, der, s in a:
                self.table(rule, self.args[k], fc, der)
        for k in range(self.d):
            self.table(rule, self.cel, 0, tuple(int(j == k) for j in range(self.d)))

    def _unit(self, k):
        return tuple(int(j == k) for j in range(self.d))

    def _tabs_of(self, x):
        if x[0] == "J":
            return [(self.cel, x[1] // self.d, self._unit(x[1] % self.d))]
        if x[0] == "detJ":
            return [(self.cel, k // self.d, self._unit(k % self.d)) for k in range(self.d ** 2)]
        if x[0] == "x":
            return [(self.cel, x[1], (0,) * self.d)]
        if x[0] == "w":
            return [(self.coefs[x[1]].el, x[2], x[3])]
        return []

    # ------------------------------------------------------------ C
    def access(self, t, side, idx):
        ent = "0"
        k = 1 if side == "-" else 0
        if self.itype != "cell" and t.kind in ("piecewise", "varying"):
            ent = f"entity_local_index[{k}]"
        perm = f"quadrature_permutation[{k}]" if t.permuted else "0"
        iq = "0" if t.kind in ("fixed", "piecewise") else "iq"
        return f"{t.name}[{perm}][{ent}][{iq}][{idx}]"

    @staticmethod
    def piecewise(t):
        return t.kind in ("fixed", "piecewise", "ones", "zeros")

    def _sfx(self, s):
        return {"+": "_0", "-": "_1", None: ""}[s]

    def _number(self, v):
        return repr(float(v)) if self.real == np.float64 else repr(float(np.float32(v))) + ("f" if self.rng.random() < 0 else "")

    def _array(self, v):
        if v.ndim == 1:
            return "{" + ", ".join(repr(float(x)) for x in v) + "}"
        return "{" + ",\n".join(self._array(x) for x in v) + "}"

    def _terminal(self, name, ctype, t, src, side, ind="  "):
        """accumulation of dof values times a table"""
        if t.kind == "zeros":
            return f"{ctype} {name} = 0.0;\n"
        if t.kind == "ones":
            return f"{ctype} {name} = {src('0')};\n"
        return (f"{ctype} {name} = 0.0;\n{{\n{ind}for (int ic = 0; ic < {t.nf}; ++ic)\n{ind}{{\n"
                f"{ind}  {name} += {src('ic')} * {self.access(t, side, 'ic')};\n{ind}}}\n}}\n")

    def _defs(self, x, rule):
        """[(name, table, text)] of the terminals of a factor"""
        out = []
        nc = self.cel.dim // self.d
        if x[0] in ("J", "detJ"):
            for k in ([x[1]] if x[0] == "J" else range(self.d ** 2)):
                s = x[-1]
                t = self.table(rule, self.cel, k // self.d, self._unit(k % self.d))
                o = 3 * nc if s == "-" else 0
                i = k // self.d
                name = f"J{self._sfx(s)}_c{k}"
                out.append((name, t, self._terminal(name, self.R, t, lambda ic, o=o, i=i: f"coordinate_dofs[({ic}) * 3{f' + {o + i}' if o + i else ''}]", s)))
        elif x[0] == "x":
            s = x[-1]
            t = self.table(rule, self.cel, x[1], (0,) * self.d)
            o = (3 * nc if s == "-" else 0) + x[1]
            name = f"x{self._sfx(s)}_c{x[1]}"
            out.append((name, t, self._terminal(name, self.R, t, lambda ic: f"coordinate_dofs[({ic}) * 3{f' + {o}' if o else ''}]", s)))
        elif x[0] == "w":
            _, i, fc, der, s = x
            t = self.table(rule, self.coefs[i].el, fc, der)
            o = self.w_off[i] + (self.coefs[i].ndofs if s == "-" else 0) + t.begin
            name = f"w{i}{self._sfx(s)}_c{fc}" + ("_d" + "".join(map(str, der)) if any(der) else "")

            def src(ic, o=o, st=t.stride):
                e = f"({ic}) * {st}" if st > 1 else f"{ic}"
                return f"w[{e} + {o}]" if o else f"w[{e}]"
            out.append((name, t, self._terminal(name, self.T, t, src, s)))
        return out

    def _detJ(self, s):
        j = lambda a, b: f"J{self._sfx(s)}_c{a * self.d + b}"  # noqa
        if self.d == 1:
            return j(0, 0)
        if self.d == 2:
            return f"({j(0, 0)} * {j(1, 1)} - {j(0, 1)} * {j(1, 0)})"
        m = lambda a, b, c, e: f"({j(1, a)} * {j(2, b)} - {j(1, c)} * {j(2, e)})"  # noqa
        return f"({j(0, 0)} * {m(1, 2, 2, 1)} - {j(0, 1)} * {m(0, 2, 2, 0)} + {j(0, 2)} * {m(0, 1, 1, 0)})"

    def _cexpr(self, x):
        _, i, j, how, j2 = x
        a, b = (f"c[{self.c_off[i] + k}]" for k in (j, j2))
        conj = f"{'conjf' if self.real == np.float32 else 'conj'}({a})" if self.cx else f"(2.0 * {a})"
        return [a, f"-{a}", f"({a} * {b})", f"({a} + {b} * {b})", conj, f"({a} - {b} / 2.0)"][how]

    def _text(self, x):
        if x[0] == "J":
            return f"J{self._sfx(x[2])}_c{x[1]}"
        if x[0] == "detJ":
            return ("fabsf" if self.real == np.float32 else "fabs") + f"({self._detJ(x[1])})"
        if x[0] == "x":
            return f"x{self._sfx(x[2])}_c{x[1]}"
        if x[0] == "lit":
            return repr(x[1])
        if x[0] == "w":
            return f"w{x[1]}{self._sfx(x[4])}_c{x[2]}" + ("_d" + "".join(map(str, x[3])) if any(x[3]) else "")
        if x[0] == "ref":
            return f"{self.cell}_reference_normals[entity_local_index[{1 if x[2] == '-' else 0}]][{x[1]}]"
        return self._cexpr(x)

    def body(self, rules=None):
        rules = self.rules if rules is None else rules
        R, T = self.R, self.T
        out = "// Quadrature rules\n"
        for r in rules:
            out += f"static const {R} weights_{r.id}[{len(r.weights)}] = {self._array(r.weights)};\n"
        out += "// Precomputed values of basis functions and precomputations\n"
        out += "// FE* dimensions: [permutation][entities][points][dofs]\n"
        for t in self.tables.values():
            if getattr(t, "owner", False) and any(t.rule is r for r in rules):
                dims = "".join(f"[{n}]" for n in t.values.shape)
                out += f"static const {R} {t.name}{dims} = {self._array(t.values)};\n"
        if self.itype != "cell":
            v = self.ref_values()
            out += f"static const {R} {self.cell}_reference_normals[{v.shape[0]}][{v.shape[1]}] = {self._array(v)};\n"
        pre, loops, scope = "", "", set()
        for r in rules:
            body, defined, sp, sv = "", set(), 0, 0
            main = ""
            acc = {}
            for f, a in self.terms[id(r)]:
                tabs = [(k, self.table(r, self.args[k], fc, der), s) for k, fc, der, s in a]
                if any(t.kind == "zeros" for _, t, _ in tabs):
                    continue
                early, late = [], []
                for x in f:
                    is_pw = True
                    for name, t, text in self._defs(x, r):
                        if self.piecewise(t):
                            if name not in scope:
                                pre += text
                                scope.add(name)
                        else:
                            is_pw = False
                            if name not in defined:
                                body += text
                                defined.add(name)
                    (early if is_pw else late).append(self._text(x))
                sec = ""
                if early and self.rng_text.random() < 0.7:
                    v = f"sp_{r.id}_{sp}"
                    sp += 1
                    pre += f"{T} {v} = {' * '.join(early)};\n"
                    early = [v]
                expr = " * ".join(late + early)
                n = len(acc)
                acc[n] = 1
                sec += f"// ------------------------ \n// Section: Intermediates\n{T} fw{n} = 0;\n{{\n  {T} sv_{r.id}_{sv} = {expr};\n"
                sec += f"  fw{n} = sv_{r.id}_{sv} * weights_{r.id}[iq];\n}}\n"
                sv += 1
                sec += "// ------------------------ \n// Section: Tensor Computation\n{\n"

                def fac(t, s, i):
                    return None if t.kind == "ones" else self.access(t, s, i)

                def at(j, t, s, i):
                    o = t.begin + (self.args[j].dim if s == "-" else 0)
                    e = i if t.stride == 1 else f"{t.stride} * ({i})"
                    return f"({e} + {o})" if o else f"({e})"
                if not tabs:
                    sec += f"  A[0] += fw{n};\n"
                elif len(tabs) == 1:
                    k, t, s = tabs[0]
                    g = fac(t, s, "i")
                    sec += f"  for (int i = 0; i < {t.nf}; ++i)\n  {{\n    A[{at(0, t, s, 'i')}] += " + (f"fw{n} * {g}" if g else f"fw{n}") + ";\n  }\n"
                else:
                    (_, t0, s0), (_, t1, s1) = tabs
                    g0, g1 = fac(t0, s0, "i"), fac(t1, s1, "j")
                    sec += f"  {T} temp_0[{t1.nf}] = {{0}};\n  for (int j = 0; j < {t1.nf}; ++j)\n  {{\n    temp_0[j] = " + \
                        (f"fw{n} * {g1}" if g1 else f"fw{n}") + ";\n  }\n"
                    sec += f"  for (int j = 0; j < {t1.nf}; ++j)\n  {{\n    for (int i = 0; i < {t0.nf}; ++i)\n    {{\n      A[{self.dims[1]} * {at(0, t0, s0, 'i')} + {at(1, t1, s1, 'j')}] += " + \
                        (f"{g0} * temp_0[j]" if g0 else "temp_0[j]") + ";\n    }\n  }\n"
                sec += "}\n"
                main += sec
            # the form compiler leaves out what is all zero
            loops += "" if not main else f"for (int iq = 0; iq < {len(r.weights)}; ++iq)\n{{\n" + self._indent(body + main) + "}\n"
        return out + "// ------------------------ \n" + pre + "// ------------------------ \n" + loops

    @staticmethod
    def _indent(s):
        return "".join("  " + line + "\n" for line in s.splitlines())

    def ref_values(self):
        """some static geometric table of the facets"""
        return np.random.default_rng(n_facets(self.cell)).random((n_facets(self.cell), self.d)).round(4) + 0.5

    @property
    def rng_text(self):
        # the same text every time
        return np.random.default_rng(int(self.name[:8], 16))

    def code(self, rules=None):
        f = f"{self.name}_{self.cell}"
        n = len(self.coefs)
        T, R = self.T, self.R
        ind = " " * 36
        s = f"// Code for integral integral_{f}\n\n"
        s += f"void tabulate_tensor_integral_{f}({T}* restrict A,\n{ind}const {T}* restrict w,\n{ind}const {T}* restrict c,\n"
        s += f"{ind}const {R}* restrict coordinate_dofs,\n{ind}const int* restrict entity_local_index,\n"
        s += f"{ind}const uint8_t* restrict quadrature_permutation,\n{ind}void* custom_data)\n{{\n" + self.body(rules) + "\n}\n\n"
        if n:
            s += f"bool enabled_coefficients_integral_{f}[{n}] = {{{', '.join(['1'] * n)}}};\n\n"
        en = f"enabled_coefficients_integral_{f}" if n else "NULL"
        s += f"ufcx_integral integral_{f} =\n{{\n  .enabled_coefficients = {en},\n  .tabulate_tensor_{self.dtype} = tabulate_tensor_integral_{f},\n"
        s += f"  .coordinate_element_hash = UINT64_C({int(self.name[:12], 16)}),\n  .domain = {self.d},\n}};\n\n// End of code for integral integral_{f}\n"
        return s

    def decl(self):
        return f"extern ufcx_integral integral_{self.name}_{self.cell};\n\n"

    # ------------------------------------------------------------ representation
    def ir(self):
        dom = ufl.Mesh(self.cel)
        jt = [t for t in self.tables.values() if t.el is self.cel]
        nodes = {k: v for k, v in self.nodes.items()}
        nodes["lit"] = {"expression": 1.0}
        nodes["J"] = {"tr": types.SimpleNamespace(name=getattr(jt[0], "name", ""), ttype=jt[0].kind),
                      "mt": types.SimpleNamespace(terminal=ufl.geometry.Jacobian(dom), mte=mterm(self.cel, jt[0].fc, jt[0].der) if jt else None)}
        integrand = {}
        for k, r in enumerate(self.rules):
            mine = {i: v for i, v in nodes.items() if i in ("lit",) or (i == "J" and k == 0)
                    or (i not in ("lit", "J") and (v["tr"].name.endswith("_Q" + r.id) or not v["tr"].name))}
            integrand[(getattr(CT, self.cell), r.rule)] = {"factorization": types.SimpleNamespace(nodes=mine)}
        jac = nodes["J"]
        jn = jac["tr"].name
        # the node of the Jacobian must not rename the element of a table of another rule
        assert not jn or any(jn.endswith("_Q" + r.id) for r in self.rules)
        e = types.SimpleNamespace(
            name="integral_" + self.name, integral_type=self.itype, entity_type="cell" if self.itype == "cell" else "facet",
            integrand=integrand, unique_table_types={getattr(CT, self.cell): dict(self.types)},
            coefficient_offsets=dict(zip(self.coefs, self.w_off)),
            original_constant_offsets={c[0]: o for c, o in zip(self.consts, self.c_off)})
        return IntegralIR(e, rank=self.rank, enabled_coefficients=[True] * len(self.coefs))

    def ufl_integrals(self):
        cell = ufl.Cell(self.cell)
        out = []
        rules = [(r, deg) for r in self.rules for deg in (r.degree, *r.also)]
        for k in self.rng.permutation(len(rules)):
            r, deg = rules[int(k)]
            md = {"quadrature_rule": r.scheme, "quadrature_degree": deg}
            if r.scheme == "custom":
                md.update(quadrature_points=r.points.tolist(), quadrature_weights=r.weights.tolist())
            if r.unf:
                md["custom_unfitted_boundary"] = True
            out.append(types.SimpleNamespace(metadata=lambda md=md: dict(md), integral_type=lambda: self.itype,
                                             ufl_domain=lambda: types.SimpleNamespace(ufl_cell=lambda: cell)))
        return out

    # ------------------------------------------------------------ value
    def evaluate(self, ent, w, c, x, data):
        """ent: local facets of the sides. data: rule id -> dict(X=[points of each side], F=facet
        points, w=weights, n=normals). x: coordinates (sides, ndofs, 3). Returns value and the
        sum of magnitudes."""
        A = np.zeros(self.dims if self.rank else (1,), dtype=np.complex128 if self.cx else np.float64)
        S = np.zeros(A.shape)
        nc = self.cel.dim // self.d
        ref = self.ref_values() if self.itype != "cell" else None
        for r in self.rules:
            q = data.get(r.id)
            if q is None:
                continue
            n = len(q["w"])
            si = {None: 0, "+": 0, "-": 1}

            def tab(el, fc, der, s):
                p = q["F"] if self._codim(el) == 1 else q["X"][si[s]]
                return tabulate(el, fc, der, p) if n else tabulate(el, fc, der, np.full((1, el.cell.topological_dimension()), 0.25))[:0]

            def mag(t):
                return np.abs(t) + 1e-2 * np.abs(t).max(initial=0.0) + 5e-2

            def J(k, s):
                return tab(self.cel, k // self.d, self._unit(k % self.d), s) @ x[si[s]][:nc, k // self.d]

            def magJ(k, s):
                return mag(tab(self.cel, k // self.d, self._unit(k % self.d), s)) @ np.abs(x[si[s]][:nc, k // self.d])

            def value(f):
                """value and magnitude of what was added up"""
                if f[0] == "J":
                    return J(f[1], f[2]), magJ(f[1], f[2])
                if f[0] == "detJ":
                    m = np.stack([J(k, f[1]) for k in range(self.d ** 2)], axis=1).reshape(n, self.d, self.d)
                    g = np.stack([magJ(k, f[1]) for k in range(self.d ** 2)], axis=1).reshape(n, self.d, self.d)
                    dm = sum(np.prod([g[:, i, p[i]] for i in range(self.d)], axis=0) for p in itertools.permutations(range(self.d)))
                    return (np.abs(np.linalg.det(m)) if n else np.zeros(0)), dm
                if f[0] == "x":
                    t, y = tab(self.cel, f[1], (0,) * self.d, f[2]), x[si[f[2]]][:nc, f[1]]
                    return t @ y, mag(t) @ np.abs(y)
                if f[0] == "lit":
                    return np.full(n, f[1]), np.full(n, abs(f[1]))
                if f[0] == "w":
                    _, i, fc, der, s = f
                    el = self.coefs[i].el
                    ce, b, st = dofs_of(el, fc)
                    o = self.w_off[i] + (self.coefs[i].ndofs if s == "-" else 0)
                    t = tab(el, fc, der, s)
                    y = w[o + b: o + b + st * (t.shape[1] - 1) + 1: st]
                    return t @ y, mag(t) @ np.abs(y)
                if f[0] == "ref":
                    return np.full(n, ref[ent[si[f[2]]]][f[1]]), np.full(n, abs(ref[ent[si[f[2]]]][f[1]]))
                _, i, j, how, j2 = f
                o = self.c_off[i]
                if self.consts[i][2] and r.unf:
                    a, b = q["n"][:, j].astype(A.dtype), q["n"][:, j2].astype(A.dtype)
                else:
                    a, b = np.full(n, c[o + j]), np.full(n, c[o + j2])
                v = [a, -a, a * b, a + b * b, np.conj(a) if self.cx else 2 * a, a - b / 2.0][how]
                ma, mb = np.abs(a), np.abs(b)
                return v, [ma, ma, ma * mb, ma + mb * mb, 2 * ma, ma + mb][how]

            for f, args in self.terms[id(r)]:
                v = np.array(q["w"], dtype=A.dtype)
                m = np.abs(q["w"])
                for y in f:
                    g, h = value(y)
                    v, m = v * g, m * h
                if self.rank == 0:
                    A[0] += v.sum()
                    S[0] += m.sum()
                    continue
                idx, ts = [], []
                for k, fc, der, s in args:
                    t = tab(self.args[k], fc, der, s)
                    _, b, st = dofs_of(self.args[k], fc)
                    idx.append(b + st * np.arange(t.shape[1]) + (self.args[k].dim if s == "-" else 0))
                    # what rounding leaves of a basis function also counts
                    ts.append((t, mag(t)))
                if self.rank == 1:
                    np.add.at(A, idx[0], v @ ts[0][0])
                    np.add.at(S, idx[0], m @ ts[0][1])
                else:
                    A[np.ix_(*idx)] += np.einsum("q,qi,qj->ij", v, ts[0][0], ts[1][0])
                    S[np.ix_(*idx)] += np.einsum("q,qi,qj->ij", m, ts[0][1], ts[1][1])
        return A.reshape(-1), S.reshape(-1)

    def describe(self):
        return dict(cell=self.cell, type=self.itype, dtype=self.dtype, rank=self.rank, mixed=self.mixed,
                    rules=[(r.id, len(r.weights), r.degree, r.scheme, r.unf) for r in self.rules],
                    args=[str(e) for e in self.args], coefs=[str(c.el) for c in self.coefs], geometry=self.cel.degree,
                    consts=[(n, nrm) for _, n, nrm in self.consts],
                    terms={r.id: self.terms[id(r)] for r in self.rules})


HEADER = """// This code conforms with the UFC specification version 2018.2.0.dev0
#include <math.h>
#include <stdalign.h>
#include <stdlib.h>
#include <string.h>
#include <ufcx.h>

"""


def blocks(kernels, forms="// Code for form\n// End of form\n"):
    pre = ("#pragma once\n#include <ufcx.h>\n\n", HEADER)
    return CodeBlocks([pre], [(k.decl(), k.code()) for k in kernels], [("// form\n", forms)], [], [("// end\n", "// end\n")])


def data_ir(kernels, ids):
    """ids: for each kernel, the subdomain ids it is used for"""
    names, sub = {t: [] for t in TYPES}, {t: [] for t in TYPES}
    for k, i in zip(kernels, ids):
        for s in i:
            names[k.itype].append("integral_" + k.name)
            sub[k.itype].append(s)
    return DataIR([k.ir() for k in kernels], [types.SimpleNamespace(integral_names=names, subdomain_ids=sub, rank=kernels[0].rank)])


def ufl_data(kernels):
    from ffcx.analysis import UFLData
    fd = types.SimpleNamespace(argument_elements=kernels[0].args,
                               integral_data=[types.SimpleNamespace(integrals=k.ufl_integrals()) for k in kernels])
    return UFLData([fd])


OPTIONS = {"sum_factorization": False, "scalar_type": "float64"}
assert math
