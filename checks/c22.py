"""All nodes of the geometry graph in random order against numpy contractions and finite differences."""
import numpy as np

from cyverif import geometry as geo

NODES = ['s', 's_1', 's_2', 's_c', 's_1_c', 's_2_c', 'psi', 'psi_h', 'psi_a', 'psi_ha', 'psi_hh', 'psi_aa', 'psi_hha',
         'psi_hhaa', 'kahler', 'g_proj', 'g_proj_h', 'g_proj_a', 'g_proj_ha', 'grad_def', 'jac', 'jac_c', 'jac_h',
         'g_loc', 'g_loc_h', 'g_loc_a', 'g_loc_ha', 'g_loc_inv', 'ricci_proj', 'ricci_loc', 'ricci_scalar', 'eta']
REQUIRED = NODES + ['diagonal.' + n for n in NODES if 'psi' in n or n == 'g_proj_ha'] + [
    'dependent', 'order-free', 'update', 'supplied-gradient', 'supplied-dependent', 'homogeneous', 'stiff']

# finite differences: tolerance
FD = {'g_proj_h': 1e-5, 'g_proj_a': 1e-5, 'g_proj_ha': 1e-4, 'jac_h': 1e-5, 'g_loc_h': 1e-5, 'g_loc_a': 1e-5,
      'g_loc_ha': 1e-4, 'ricci_proj': 1e-4, 'ricci_loc': 1e-4, 'ricci_scalar': 1e-4}


def reference(ref, z, par, patch, dep):
    """All nodes from numpy functions."""
    v, h, k = ref.v, ref.h, ref.k
    s, s1, s2 = ref.s(geo.insert(z, patch)), ref.s_1(z, patch), ref.s_2(z, patch)
    sc, s1c, s2c = s.conj(), s1.conj(), s2.conj()
    err = {}  # of finite differences
    out = dict(s=s, s_1=s1, s_2=s2, s_c=sc, s_1_c=s1c, s_2_c=s2c)
    out['psi'] = s @ h @ sc
    out['psi_h'] = np.einsum('xa,xy,y->a', s1, h, sc)
    out['psi_a'] = np.einsum('x,xy,yb->b', s, h, s1c)
    out['psi_ha'] = np.einsum('xa,xy,yb->ab', s1, h, s1c)
    out['psi_hh'] = np.einsum('xab,xy,y->ab', s2, h, sc)
    out['psi_aa'] = np.einsum('x,xy,yab->ab', s, h, s2c)
    out['psi_hha'] = np.einsum('xab,xy,yc->abc', s2, h, s1c)
    out['psi_hhaa'] = np.einsum('xab,xy,ycd->abcd', s2, h, s2c)
    out['kahler'] = ref.kahler(z, patch)

    def gp(y):
        return ref.g_proj(y, patch)
    out['g_proj'] = gp(z)
    out['g_proj_h'] = np.moveaxis(geo.d_hol(gp, z, .01), -1, 0)
    err['g_proj_h'] = geo.d_hol.error
    out['g_proj_a'] = np.moveaxis(geo.d_anti(gp, z, .01), -1, 0)
    err['g_proj_a'] = geo.d_anti.error
    out['g_proj_ha'] = geo.d_mixed(gp, z, .01).transpose(2, 3, 0, 1)
    err['g_proj_ha'] = geo.d_mixed.error
    out['grad_def'] = v.grad_affine(z, par, patch)

    def jac(y):
        return v.jac(y, par, patch, dep)
    out['jac'] = jac(z)
    out['jac_c'] = jac(z).conj()
    out['jac_h'] = geo.d_hol(jac, z, .01)
    err['jac_h'] = geo.d_hol.error

    def gl(y):
        return ref.g(y, par, patch, dep)
    out['g_loc'] = g = gl(z)
    out['g_loc_h'] = np.moveaxis(geo.d_hol(gl, z, .01), -1, 0)
    err['g_loc_h'] = geo.d_hol.error
    out['g_loc_a'] = np.moveaxis(geo.d_anti(gl, z, .01), -1, 0)
    err['g_loc_a'] = geo.d_anti.error
    out['g_loc_ha'] = geo.d_mixed(gl, z, .01).transpose(2, 3, 0, 1)
    err['g_loc_ha'] = geo.d_mixed.error
    out['g_loc_inv'] = np.linalg.inv(g)
    out['ricci_proj'] = r = -geo.d_mixed(lambda y: np.log(np.abs(np.linalg.det(gl(y)))), z, .01)
    err['ricci_proj'] = geo.d_mixed.error
    out['ricci_loc'] = rl = jac(z) @ r @ jac(z).conj().T
    out['ricci_scalar'] = np.trace(rl @ out['g_loc_inv'])
    out['eta'] = ref.eta(z, par, patch, dep)
    out['error'] = err
    return out


def scales(want):
    err = want['error']
    out = {n: np.abs(x).max() for n, x in want.items() if n != 'error'}
    out = {n: max(x, 1e-12) for n, x in out.items()}
    for n, e in err.items():
        out[n] = max(out[n], 30 * e / FD[n])
    # derived quantities may vanish, their natural size does not
    inv = out['g_loc_inv']
    out['ricci_proj'] = max(out['ricci_proj'], inv * out['g_loc_ha'], (inv * out['g_loc_h']) ** 2)
    out['ricci_loc'] = max(out['ricci_loc'], out['ricci_proj'] * out['jac'] ** 2)
    out['ricci_scalar'] = max(out['ricci_scalar'], out['ricci_loc'] * inv)
    for a in ('g_proj', 'g_loc'):
        for b in ('_h', '_a', '_ha'):
            out[a + b] = max(out[a + b], out[a])
    out['kahler'] = max(out['kahler'], 1.)
    out['jac_h'] = max(out['jac_h'], 1.)
    for n in ('s_2', 's_2_c'):
        out[n] = max(out[n], out['s_1'])
    for n in ('psi_h', 'psi_a', 'psi_ha', 'psi_hh', 'psi_aa', 'psi_hha', 'psi_hhaa'):
        out[n] = max(out[n], 1e-6 * out['psi'])
    return out


def compare(m, obj, want, sc, order, prefix=''):
    for n in order:
        got = np.asarray(getattr(obj, n))
        m.close(prefix + n, got, np.asarray(want[n]), FD.get(n, 1e-7), sc[n], key=(want[n]))


def run(m, name):
    from cyjax import donaldson
    for rng in m.cases(name, 2, 18):
        s = geo.setting(rng, spread=float(rng.choice([.3, 1.5])))
        v, par, ref, h, k = (s[i] for i in ('v', 'par', 'ref', 'h', 'k'))
        m.note(s['text'])

        def graph(h, z, par, patch, **kw):
            return donaldson.GeometricObjects(h, z, par, s['variety'], s['sections'], patch, **kw)
        pts = v.points(rng, par, 3, gap=.4)
        z, patch, dep = pts[0]
        want = reference(ref, z, par, patch, dep)
        sc = scales(want)
        order = [NODES[i] for i in rng.permutation(len(NODES))]
        obj = graph(h, z, par, patch, dependent=dep)
        compare(m, obj, want, sc, order)
        values = {n: np.asarray(getattr(obj, n)) for n in NODES}
        # other orders, each node alone in a fresh graph
        for n in [NODES[i] for i in rng.permutation(len(NODES))[:8]]:
            m.close('order-free', np.asarray(getattr(graph(h, z, par, patch, dependent=dep), n)), values[n], 1e-8, sc[n])
        # diagonal H as a vector
        dh = np.exp(rng.normal(size=len(h)))
        if rng.integers(2):  # one negative entry, of little influence
            i = int(rng.integers(len(h)))
            dh[i] = -.05 * dh @ np.abs(want['s']) ** 2 / (1 + np.abs(want['s'][i]) ** 2 + np.abs(want['s_1'][i]).max() ** 2)
        dref = geo.RefMetric(v, ref.p, k, dh)
        dwant = reference(dref, z, par, patch, dep)
        compare(m, graph(dh, z, par, patch, dependent=dep), dwant, scales(dwant),
                [NODES[i] for i in rng.permutation(len(NODES))], 'diagonal.')
        # default dependent coordinate
        g = np.abs(want['grad_def'])
        top = np.sort(g)[::-1]
        if top[0] > top[1] * (1 + 1e-8):
            m.equal('dependent', int(graph(h, z, par, patch).dependent), int(np.argmax(g)))
        # a supplied gradient replaces the computed one
        grad = rng.normal(size=v.n - 1) + 1j * rng.normal(size=v.n - 1)
        obj2 = graph(h, z, par, patch, grad_def=grad)
        d2 = int(np.argmax(np.abs(grad)))
        m.equal('supplied-gradient', int(obj2.dependent), d2)
        j = geo.jacobian(grad, d2)
        m.close('supplied-gradient', np.asarray(obj2.jac), j, 1e-9)
        m.close('supplied-gradient', np.asarray(obj2.g_loc), j @ want['g_proj'] @ j.conj().T, 1e-7)
        m.close('supplied-gradient', np.asarray(obj2.grad_def), grad, 1e-12)
        grad = rng.normal(size=v.n - 1) + 1j * rng.normal(size=v.n - 1)
        obj2.grad_def = grad
        d2 = int(np.argmax(np.abs(grad)))
        m.equal('supplied-gradient', int(obj2.dependent), d2)
        j = geo.jacobian(grad, d2)
        m.close('supplied-gradient', np.asarray(obj2.g_loc), j @ want['g_proj'] @ j.conj().T, 1e-7)
        m.equal('supplied-dependent', int(graph(h, z, par, patch, dependent=dep).dependent), dep)
        # changed inputs: new H, then new point, parameters and dependent
        z1, p1, d1 = next((p for p in v.points(rng, par, 1, patch=patch, gap=.4)), (z, patch, dep))
        h1 = geo.random_h(rng, len(h), .5)
        obj.h = h1
        r1 = geo.RefMetric(v, ref.p, k, h1)
        w = reference(r1, z, par, patch, dep)
        compare_update(m, obj, w, rng)
        obj.zs = z1
        obj.dependent = d1
        w = reference(r1, z1, par, patch, d1)
        compare_update(m, obj, w, rng)
        par2 = par * 1.01
        obj.params = par2
        w = reference(r1, z1, par2, patch, d1)
        compare_update(m, obj, w, rng)
        # homogeneous coordinates
        hom = v.sample(rng, par, 1)[0]
        q = int(geo.best_patch(hom))
        zz = geo.to_affine(hom, q)
        obj3 = graph(h, hom * 1.7j, par, None)
        m.equal('homogeneous', int(obj3.patch), q)
        m.close('homogeneous', np.asarray(obj3.zs), zz, 1e-9, 1.)
        m.close('homogeneous', np.asarray(obj3.g_loc), ref.g(zz, par, q, int(obj3.dependent)), 1e-7)
        g = np.abs(v.grad_affine(zz, par, q))
        for d in range(v.n - 1):
            if g[d] > .1 * g.max():
                obj3 = graph(h, hom * 1.7j, par, None, dependent=d)
                m.equal('homogeneous', int(obj3.dependent), d)
                m.close('homogeneous', np.asarray(obj3.g_loc), ref.g(zz, par, q, d), 1e-7)
        # H of very different eigenvalues: the inverse metric and its traces
        for spread in rng.uniform(3, 25, size=6) * (v.n > 3):
            hs = np.diag(np.exp(rng.uniform(-1, 0, size=len(h)) * spread) + 0j)
            obj4 = graph(hs, z, par, patch, dependent=dep)
            gl, inv = np.asarray(obj4.g_loc), np.asarray(obj4.g_loc_inv)
            cond = np.linalg.cond(gl)
            if not cond < 1e11:
                continue
            m.close('stiff', gl @ inv, np.eye(len(gl)), 1e-12 * cond + 1e-12, key=cond)
            m.close('stiff', inv @ gl, np.eye(len(gl)), 1e-12 * cond + 1e-12, key=cond)
            sgl = np.linalg.slogdet(gl)
            m.close('stiff', np.asarray(obj4.eta) / np.abs(np.asarray(obj4.grad_def)[dep]) ** 2,
                    sgl[0] * np.exp(sgl[1]), 1e-12, np.abs(gl).max() ** len(gl))  # explicit formulas may cancel


def compare_update(m, obj, want, rng):
    sc = scales(want)
    for n in [NODES[i] for i in rng.permutation(len(NODES))]:
        m.close('update', np.asarray(getattr(obj, n)), np.asarray(want[n]), FD.get(n, 1e-7), sc[n], key=want[n])


WORKLOADS = {f'random{i}': (lambda m, i=i: run(m, f'random{i}')) for i in range(6)}
