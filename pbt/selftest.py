"""Self-test of the oracles against brute-force integrals and exact values (no wiz involved)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import ref


def close(a, b, tol, msg):
    e = np.max(np.abs(np.asarray(a)-np.asarray(b)))
    s = max(1e-30, np.max(np.abs(np.asarray(b))))
    assert e <= tol*s, (msg, e/s, a, b)


def main():
    rng = np.random.RandomState(0)
    # tube against stacked rings (skewed and straight), trapezoid in the azimuth and composite Gauss along the axis
    for m in (0, 0.6, -1.3):
        for P in ([0.3, 0.2, -0.5], [0.1, -0.3, 0.4], [2.0, 1.0, 1.0], [0, 0, 0], [-0.5, 0, 2.4]):
            P = np.array(P, float); R = 1.3; g = -0.7
            th = np.arange(400)*2*np.pi/400
            x, w = ref.gl(12)
            e = np.linspace(0, 14, 61); t = (e[:-1, None]+np.diff(e)[:, None]*(x+1)/2).ravel(); wt = (np.diff(e)[:, None]*w/2).ravel()
            zz = np.sinh(t); wz = wt*np.cosh(t)
            T, Z = np.meshgrid(th, zz); W = np.outer(wz, np.full(400, 2*np.pi/400))
            r = np.stack((P[0]-m*Z-R*np.cos(T), P[1]-R*np.sin(T), P[2]-Z))
            dl = np.stack((-R*np.sin(T), R*np.cos(T), 0*T))
            u = g*np.sqrt(1+m*m)/(4*np.pi)*(np.cross(dl, r, axis=0)/((r**2).sum(0))**1.5*W).sum((1, 2))
            close(ref.tang_tube_1(P, g, R, m), u, 2e-6, ('tube', m, P))
            q = np.array([m, 0, 1.0]).reshape(3, 1, 1)
            u = g*R/(4*np.pi)*(np.cross(np.broadcast_to(q, r.shape), r, axis=0)/((r**2).sum(0))**1.5*W).sum((1, 2))
            close(ref.longi_tube_1(P, g, R, m), u, 1e-5, ('longi', m, P)) if np.abs(u).max() > 1e-8 else None
    # exact values
    for z in (-3, -0.1, 0, 0.5, 4):
        close(ref.tang_tube_1([0, 0, z], 1, 2), [0, 0, 0.5*(1+z/np.hypot(z, 2))], 1e-13, 'axis')
        close(ref.ring_1([0, 0, z], 1, 2), [0, 0, 4/2/(4+z*z)**1.5], 1e-13, 'ring axis')
    close(ref.tang_tube_1([0.3, 0.1, 1e6], 1, 1), [0, 0, 1], 1e-11, 'deep wake')
    close(ref.tang_tube_1([1e-5+1, 0, 1e3], 1, 1)[2], -0.25e-6, 1e-4, 'outside')
    for d in (1e-3, 1e-6, -1e-6):       # jump across the sheet, mean value on it
        ui, uo = ref.tang_tube_1([1-abs(d), 0, 2.], 1, 1), ref.tang_tube_1([1+abs(d), 0, 2.], 1, 1)
        close(ui[2]-uo[2], 1, 10*abs(d), 'jump')
    # azimuth refinement does not change the result
    for _ in range(60):
        P = rng.randn(3); R = 10**rng.uniform(-1, 1); m = rng.uniform(-2, 2)
        close(ref.tang_tube_1(P, 1, R, m, n=20), ref.tang_tube_1(P, 1, R, m, n=31), 1e-11, 'refine')
        close(ref.longi_tube_1(P, 1, R, m, n=20), ref.longi_tube_1(P, 1, R, m, n=31), 1e-11, 'refine')
        close(ref.ring_1(P, 1, R, n=20), ref.ring_1(P, 1, R, n=31), 1e-11, 'refine')
        close(ref.doublet_line_1(P, 1, m), ref.doublet_line_1(P, 1, m, n=25), 1e-11, 'refine')
    for _ in range(60):                 # strong skew, also in the starting plane
        P = rng.randn(3)*[1, 1, rng.choice([0, 1])]; m = rng.choice([-1, 1])*10**rng.uniform(0, 1.05)
        close(ref.tang_tube_1(P, 1, 1.0, m, n=20), ref.tang_tube_1(P, 1, 1.0, m, n=31), 1e-10, 'refine, strong skew')
        close(ref.longi_tube_1(P, 1, 1.0, m, n=20), ref.longi_tube_1(P, 1, 1.0, m, n=31), 1e-10, 'refine, strong skew')
    # line against quadrature
    from scipy.integrate import quad
    for _ in range(20):
        P = rng.randn(3); e = rng.randn(3); e /= np.linalg.norm(e)
        u = [quad(lambda s: np.cross(e, P-e*s)[k]/np.linalg.norm(P-e*s)**3/4/np.pi, 0, np.inf, epsabs=1e-12, limit=400)[0] for k in range(3)]
        close(ref.line_semiinf(P.reshape(3, 1), 1, e).ravel(), u, 1e-8, 'line')
        m = rng.uniform(-2, 2); L = 10**rng.uniform(-1, 1)
        for LL in (L, np.inf):
            u = [quad(lambda s: ref.doublet(P.reshape(3, 1), [0, 0, 1.3], [m*s, 0, s])[k, 0], 0, LL, epsabs=1e-12, limit=400)[0] for k in range(3)]
            close(ref.doublet_line_1(P, 1.3, m, LL), u, 1e-7, 'doublet line')
    # a doublet is the limit of a small ring
    P = np.array([0.3, 0.5, 0.7])
    close(ref.ring_1(P, 1/(np.pi*1e-8), 1e-4), ref.doublet(P.reshape(3, 1), [0, 0, 1]).ravel(), 1e-6, 'ring->doublet')
    N, W = ref.sphere_nodes()
    close(W.sum(), 4*np.pi, 1e-13, 'sphere'); close((N*N*W).sum(1), np.full(3, 4*np.pi/3), 1e-13, 'sphere2')
    for _ in range(10):
        a = rng.randn(3); A = ref.rot(a, 1.2)
        close(A.T@A, np.eye(3), 1e-14, 'rot'); close(A@a, a, 1e-14, 'rot axis'); assert abs(np.linalg.det(A)-1) < 1e-13
    close(ref.rot([0, 0, 1], np.pi/2)@[1, 0, 0], [0, 1, 0], 1e-15, 'rot sense')
    print('oracle self-test passed')


if __name__ == '__main__':
    main()
