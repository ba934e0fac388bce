"""Catalogue of library calls for C19: name -> (function of a shared pool of
argument objects, options).  The pool is a pure function of a seed."""
import numpy as np
from . import gen as G

class Pool(dict):
    """argument objects by name, built on first use from the seed"""
    def __init__(self, seed, layout=0):
        self.seed = seed; self.layout = layout
    def __missing__(self, name):
        import zlib
        R = G.rs(self.seed, zlib.crc32(name.encode()) % 100003)
        v = relayout(MAKE[name](self, R), self.layout * (zlib.crc32(name.encode()) % 7))
        self[name] = v
        return v

def relayout(v, k):
    """the same values in another memory layout: Fortran order, strided, reversed, read-only"""
    if not isinstance(v, np.ndarray) or v.ndim == 0 or not k:
        return v
    k = k % 5
    if k == 1: return np.asfortranarray(v)
    if k == 2:
        w = np.zeros(tuple(2 * n for n in v.shape), v.dtype); w = w[tuple(slice(None, None, 2) for n in v.shape)]; w[...] = v; return w
    if k == 3: return v[::-1].copy()[::-1]
    if k == 4:
        v.flags.writeable = False; return v
    return v

MAKE = {}
def make(f):
    MAKE[f.__name__] = f
    return f

# ---- plain arguments ---------------------------------------------------------
def _n(P, lo, hi, k):
    return lo + (P.seed // 7 + k * 13) % (hi - lo + 1)

@make
def x(P, R): return np.sort(R.uniform(0, 10, _n(P, 8, 20, 1)))
@make
def y(P, R):
    a = P['x']; return np.sin(a) + .1 * a + .01 * R.normal(size=a.shape)
@make
def ymin1(P, R):
    a = P['x']; c = R.uniform(a[0] * .7 + a[-1] * .3, a[0] * .3 + a[-1] * .7); return (a - c)**2 + R.uniform(-3, 3)
@make
def xnew(P, R):
    a = P['x']; return np.linspace(a[0], a[-1], _n(P, 3, 30, 2))
@make
def sig(P, R): return np.sin(np.arange(_n(P, 16, 70, 3)) * R.uniform(.1, 1)) + .2 * R.normal(size=_n(P, 16, 70, 3))
@make
def sig2(P, R): return R.normal(size=(_n(P, 16, 40, 3), 3))
@make
def sig8(P, R): return R.normal(size=2 ** _n(P, 3, 6, 3))
@make
def kern(P, R):
    k = R.uniform(.1, 1, _n(P, 3, 9, 4)); return k
@make
def a2(P, R): return R.normal(size=(_n(P, 2, 6, 5), _n(P, 2, 6, 6)))
@make
def a3(P, R): return R.normal(size=(_n(P, 2, 5, 5), _n(P, 2, 5, 6), 3))
@make
def a3f(P, R): return np.asfortranarray(R.normal(size=(_n(P, 2, 5, 5), _n(P, 2, 5, 6), 3)))
@make
def ints(P, R): return R.randint(0, 9, _n(P, 5, 15, 7))
@make
def vals(P, R): return R.randint(0, 12, 4)
@make
def eps_arr(P, R):
    a = R.normal(size=(4, 3)); a[1] = 1e-17; a[2, 0] = -3e-18; return a
@make
def bands(P, R):
    t = np.linspace(0, 5, 30); return np.array([np.sin(t), .3 * t, 2 - .2 * t]).T[:, R.permutation(3)].copy()
@make
def nd2(P, R):
    import itertools
    return np.array([k + (R.normal(),) for k in itertools.product([0., 1, 2], [0., 1], [0., 1, 2, 3])])
@make
def pts2(P, R):
    import itertools
    g = np.array(list(itertools.product(np.linspace(-2, 2, 6), np.linspace(-1, 3, 6)))); return g
@make
def vals2(P, R):
    p = P['pts2']; return (p[:, 0] - .4)**2 + 1.5 * (p[:, 1] - .9)**2 + .3 * p[:, 0] * p[:, 1] + R.uniform(-1, 1)
@make
def q2(P, R): return R.uniform(-.9, 1.9, (_n(P, 1, 8, 8), 2))
@make
def pts3(P, R): return R.uniform(-1, 1, (_n(P, 12, 25, 9), 3))
@make
def vals3(P, R):
    p = P['pts3']; return (p**2).sum(1) + p[:, 0]
@make
def rkw(P, R): return dict(r=1e-8)
@make
def okw_fmin(P, R): return dict(x0=[2.0], maxiter=6, disp=False)
@make
def okw_fmin2(P, R): return dict(maxiter=5, x0=[2.0, 1e-6])
@make
def okw_de(P, R): return dict(bounds=[(.5, 6.0)], maxiter=1, popsize=3, seed=7, polish=False, disp=False)
@make
def okw_brute(P, R): return dict(ranges=[(.5, 6.0)], Ns=4, finish=None)
@make
def cvkw(P, R): return dict(n_splits=3, n_repeats=1, random_state=3)
@make
def cell(P, R): return G.cell(R)
@make
def cell2(P, R): return G.cell(R)
@make
def cc(P, R): return np.concatenate([R.uniform(3, 9, 3), R.uniform(70, 110, 3)])
@make
def cell3(P, R): return np.array([G.cell(R) for i in range(4)])
@make
def cc3(P, R): return np.array([np.concatenate([R.uniform(3, 9, 3), R.uniform(70, 110, 3)]) for i in range(4)])
@make
def celldm(P, R): return np.concatenate([R.uniform(5, 9, 1), R.uniform(.8, 1.2, 2), R.uniform(-.3, .3, 3)])
@make
def frac(P, R): return R.uniform(-1.5, 1.5, (_n(P, 2, 7, 10), 3))
@make
def frac3(P, R): return R.uniform(-1.5, 1.5, (4, _n(P, 2, 5, 10), 3))
@make
def sij(P, R): return R.uniform(-1, 1, (5, 5, 3))
@make
def stress(P, R):
    a = R.normal(size=(3, 3)); return a + a.T
@make
def stress3(P, R):
    a = R.normal(size=(4, 3, 3)); return a + a.transpose(0, 2, 1)
@make
def voigt(P, R): return R.normal(size=6)
@make
def voigt3(P, R): return R.normal(size=(4, 6))
@make
def vel(P, R): return R.normal(size=(_n(P, 8, 20, 11), 3, 3))
@make
def mass(P, R): return R.uniform(1, 40, 3)
@make
def symbols(P, R): return [G.SYMS[i] for i in R.randint(0, 4, len(P['frac']))]
@make
def masses(P, R): return list(R.uniform(1, 30, len(P['symbols'])))
@make
def pseudos(P, R): return ['%s.upf' % s for s in P['symbols']]
@make
def kgrid_lst(P, R): return [int(i) for i in R.randint(1, 5, 3)]
@make
def shift(P, R): return [0, 1, 0]
@make
def kvecs(P, R): return R.uniform(-1, 1, (3, 3))
@make
def freq(P, R):
    f = np.linspace(-20, 800, _n(P, 30, 80, 12)); f[2] = 0.0; return f
@make
def dos(P, R):
    f = P['freq']; return np.exp(-((f - 300) / 120)**2) + .05 * R.uniform(0, 1, f.shape)
@make
def temps(P, R): return np.linspace(5, 1500, _n(P, 5, 12, 13))
@make
def vol(P, R): return np.linspace(30, 50, 12)
@make
def ene(P, R):
    V = P['vol']; return (V - 40)**2 / 50. + 30 + R.uniform(-.02, .02, V.shape)
@make
def axes1(P, R): return np.linspace(3.6, 4.4, 8)
@make
def etot1(P, R):
    a = P['axes1']; return 20 * (a - 4.0)**2 + R.uniform(-5, 5)
@make
def phdos1(P, R):
    out = []
    for i, a in enumerate(P['axes1']):
        f = np.linspace(-5, 600 - 40 * (a - 4), 60)
        out.append(np.array([f, np.exp(-((f - 250 + 60 * (a - 4)) / 90)**2)]).T)
    return out
@make
def gT(P, R): return np.linspace(20, 900, 8)
@make
def gP(P, R): return np.linspace(0, 5, 2)
@make
def gkw(P, R): return dict(skipfreq=True, dosarea=9.0, verbose=False)
@make
def dct(P, R): return dict(a=1, b=2.5, c='xx')
@make
def tmpl(P, R): return 'v1=a v2=b v3=c\nend'
@make
def nested(P, R): return [1, [2, (3, [4, 'ab'])], np.array([5, 6])]
@make
def lists(P, R): return [[1, 2], [('a', 1), ('b', 2)], [3.0, 4.0, 5.0]]
@make
def uniq(P, R): return R.randint(0, 2, (6, 3))
@make
def dims(P, R): return [1, 2, 2] if P.seed % 3 else [1, 1, 1]
@make
def mask3(P, R): return [True, False, True]
@make
def amask(P, R): return [[0, 1], [1]]
@make
def skip(P, R): return ['O']
@make
def units(P, R): return {'length': 1.5, 'energy': 2.0}
@make
def ang(P, R): return R.uniform(0, 3, 3)
@make
def nhc(P, R): return dict(freq=40.0, temp=300.0, nf=12, nnos=4)

# ---- containers and fitted objects -------------------------------------------
@make
def st(P, R): return G.structure(P.seed % 1000, _n(P, 2, 5, 14))
@make
def st2(P, R):
    from pwtools import crys
    a = P['st']; return crys.Structure(coords_frac=a.coords_frac + .01 * R.uniform(-1, 1, a.coords_frac.shape), cell=a.cell * 1.02, symbols=list(a.symbols))
@make
def tr(P, R): return G.trajectory(P.seed % 1000, _n(P, 4, 8, 15), _n(P, 2, 5, 14), varcell=P.seed % 2)
@make
def tr2(P, R): return G.trajectory(P.seed % 1000, _n(P, 3, 5, 15), _n(P, 2, 5, 14))
@make
def sp(P, R):
    from pwtools import num
    return num.Spline(P['x'].copy(), P['ymin1'].copy(), k=5)
@make
def spm(P, R):
    from pwtools import num
    return num.Spline(P['x'].copy(), np.exp(-.3 * P['x']) - .3)
@make
def pf(P, R):
    from pwtools import num
    return num.PolyFit(P['pts2'].copy(), P['vals2'].copy(), deg=3)
@make
def pf1(P, R):
    from pwtools import num
    return num.PolyFit1D(P['x'].copy(), P['ymin1'].copy(), deg=4)
@make
def rbfi(P, R):
    from pwtools import rbf
    return rbf.Rbf(P['pts3'].copy(), P['vals3'].copy(), rbf=['gauss', 'multi', 'inv_multi'][P.seed % 3], r=1e-9)
@make
def dd(P, R):
    from pwtools import mpl
    return mpl.Data2D(XY=P['pts2'].copy(), zz=P['vals2'].copy())
@make
def ipol(P, R):
    from pwtools import num
    what, kw = [('rbf_multi', dict(r=1e-9)), ('poly', dict(deg=4)), ('bispl', {}), ('ct', {}), ('linear', {}), ('nearest', {})][P.seed % 6]
    return num.Interpol2D(points=P['pts2'].copy(), values=P['vals2'].copy(), what=what, **kw)
@make
def eosf(P, R):
    from pwtools import eos
    return eos.EosFit(P['vol'].copy(), P['ene'].copy())
@make
def ha(P, R):
    from pwtools import thermo
    return thermo.HarmonicThermo(P['freq'].copy(), P['dos'].copy(), T=P['temps'].copy(), skipfreq=True, verbose=False)
@make
def gibbs(P, R):
    from pwtools import thermo
    g = thermo.Gibbs(T=P['gT'].copy(), P=P['gP'].copy(), etot=P['etot1'].copy(), phdos=[a.copy() for a in P['phdos1']], axes_flat=P['axes1'].copy(), volfunc_ax=lambda v: v[0]**3)
    return g

# ---- calls -------------------------------------------------------------------
CALLS = {}
def call(name, f, **opt):
    assert name not in CALLS, name
    CALLS[name] = (f, opt)

def _catalogue():
    from pwtools import num, signal, crys, pydos, eos, thermo, rbf, kpath, common, comb, mttk, pwscf, lammps, mpl, symmetry, atomic_data
    from pwtools.rbf import hyperopt, core
    from scipy.integrate import trapezoid, simpson
    c = call
    # num
    c('normalize', lambda P: num.normalize(P['y']))
    c('vlinspace', lambda P: num.vlinspace(P['frac'][0], P['frac'][1], 5))
    c('vlinspace_open', lambda P: num.vlinspace(P['frac'][0], P['frac'][1], 4, endpoint=False))
    c('norm_int', lambda P: num.norm_int(np.abs(P['y']) + 1, P['x'], area=3.0))
    c('norm_int_ns', lambda P: num.norm_int(P['dos'], P['freq'], area=3.0, scale=False, func=trapezoid))
    c('deriv_spl', lambda P: num.deriv_spl(P['y'], P['x'], n=1, k=4))
    c('deriv_spl_new', lambda P: num.deriv_spl(P['y'], P['x'], xnew=P['xnew'], n=2))
    c('deriv_spl_full', lambda P: num.deriv_spl(P['y'], P['x'], n=1, fullout=True), view=True)
    c('findmin', lambda P: num.findmin(P['x'], P['ymin1']), rtol=1e-5)
    c('findroot', lambda P: num.findroot(P['x'], np.exp(-.3 * P['x']) - .3), rtol=1e-6)
    c('Spline_new', lambda P: num.Spline(P['x'], P['y'], k=3)(P['xnew'], der=1))
    c('spline_call', lambda P: [P['sp'](P['xnew']), P['sp'](float(P['xnew'][1]), der=1)])
    c('spline_min', lambda P: P['sp'].get_min(), rtol=1e-6)
    c('spline_min_x0', lambda P: P['sp'].get_min(x0=float(P['x'][len(P['x']) // 2])), rtol=1e-5)
    c('spline_root', lambda P: P['spm'].get_root(), rtol=1e-6)
    c('spline_inv', lambda P: P['spm'].invsplev(float(np.mean(P['spm'].y))), rtol=1e-6)
    c('spline_mono', lambda P: bool(P['spm'].is_mono()))
    c('slicetake', lambda P: num.slicetake(P['a3'], slice(0, 2), axis=1), view=True)
    c('slicetake_copy', lambda P: num.slicetake(P['a3'], slice(0, 2), axis=1, copy=True))
    c('slicetake_int', lambda P: num.slicetake(P['a3'], 1, axis=0, copy=True))
    c('slicetake_all', lambda P: num.slicetake(P['a3'], (slice(None), 0, slice(1, None)), copy=True))
    c('sliceput', lambda P: num.sliceput(P['a3'].copy(), 7.0, slice(0, 2), axis=1))
    c('sliceput_all', lambda P: num.sliceput(P['a2'].copy(), P['a2'][:, :1], (slice(None), slice(0, 2))))
    c('extend_array', lambda P: [num.extend_array(P['a2'], 3, a) for a in (0, 1, 2, -1)])
    c('extend_array1', lambda P: num.extend_array(P['a2'], 1, 0))
    c('sum', lambda P: [num.sum(P['a3'], axis=(0, 2)), num.sum(P['a3'], axis=1, keepdims=True), num.sum(P['a3'])])
    c('sum_lst', lambda P: num.sum(P['a3'], axis=P['vals_ax'], keepdims=True))
    c('distsq', lambda P: num.distsq(P['pts3'], P['frac']))
    c('DataND', lambda P: (lambda d: [d.an, d.axes])(num.DataND(a2=P['nd2'])))
    c('rms', lambda P: [num.rms(P['a3']), num.rms3d(P['a3'], axis=1), num.rms3d(P['a3'], axis=-1, nitems=2)])
    c('inner_points_mask', lambda P: num.inner_points_mask(P['pts2']))
    c('poly_str', lambda P: num.poly_str(2, 2))
    c('vander', lambda P: num.vander(P['pts3'], 2))
    c('polyfit', lambda P: num.polyfit(P['pts2'], P['vals2'], 3), rtol=1e-6)
    c('polyfit_sv', lambda P: num.polyval(num.polyfit(P['pts2'], P['vals2'], 3, scale=False, scale_vand=True), P['q2']), rtol=1e-6)
    c('polyval', lambda P: num.polyval(P['pf'].fit, P['q2']))
    c('pf_call', lambda P: [P['pf'](P['q2']), P['pf'](P['q2'][0])])
    c('pf_min', lambda P: P['pf'].get_min(), rtol=1e-4)
    c('pf_min_x0', lambda P: P['pf'].get_min(P['q2'][0], xtol=1e-9), rtol=1e-4)
    c('pf1_call', lambda P: [P['pf1'](P['xnew']), P['pf1'](P['xnew'], der=1), P['pf1'](2.0)])
    c('pf1_min', lambda P: P['pf1'].get_min(), rtol=1e-5)
    c('ipol_new', lambda P: num.Interpol2D(dd=P['dd'], what='poly', deg=3)(P['q2']), rtol=1e-6)
    c('ipol_xx', lambda P: num.Interpol2D(xx=P['pts2'][:, 0], yy=P['pts2'][:, 1], values=P['vals2'], what='bispl', s=1e-4)(P['q2']), rtol=1e-6)
    c('ipol_call', lambda P: [P['ipol'](P['q2']), P['ipol'](list(P['q2'][0]))], rtol=1e-6)
    c('ipol_min', lambda P: P['ipol'].get_min(maxiter=60), rtol=1e-3)
    c('match_mask', lambda P: num.match_mask(P['ints'], P['vals'], fullout=True))
    c('match_mask_eps', lambda P: num.match_mask(P['ints'] + .1, P['vals'], eps=.2))
    c('order_similar', lambda P: num.order_similar(P['bands']))
    c('order_similar2', lambda P: num.order_similar(P['bands'], repeat=3, order=1))
    c('round_up', lambda P: [num.round_up_next_multiple(i, 4) for i in range(9)])
    c('meshgridt', lambda P: num.meshgridt(P['x'], P['xnew']))
    c('euler_matrix', lambda P: num.euler_matrix(*P['ang']))
    c('euler_deg', lambda P: num.euler_matrix(30, 60, 90, deg=True))
    c('norm', lambda P: num.norm(P['y']))
    # signal
    c('fftsample', lambda P: [signal.fftsample(.1, 20.), signal.fftsample(.1, 256, mode='t') if P.seed % 2 else signal.fftsample(2., 50., mirr=True)])
    c('dft', lambda P: [signal.dft(P['sig'], method='loop'), signal.dft(P['sig'], method='matmul')])
    c('ezfft', lambda P: signal.ezfft(P['sig'], dt=.3))
    c('fft_1d_loop', lambda P: signal.fft_1d_loop(P['sig2'], axis=0))
    for kw in (dict(), dict(nadd=3), dict(upto=80), dict(upto='same'), dict(tonext=True), dict(tonext=True, tonext_min=100), dict(nadd=2, where='start'), dict(nadd=0)):
        def f(P, kw=kw):
            kw = dict(kw)
            if kw.get('upto') == 'same': kw['upto'] = P['sig'].shape[0]
            return signal.pad_zeros(P['sig'], **kw)
        c('pad_zeros %s' % kw, f)
    c('pad_pow2', lambda P: signal.pad_zeros(P['sig8'], tonext=True))
    c('welch', lambda P: [signal.welch(9), signal.welch(8, sym=0), signal.lorentz(11, std=2.0), signal.gauss(P['x'], std=.5, norm=True)])
    c('mirror', lambda P: signal.mirror(P['sig2']))
    for m in range(1, 8):
        c('acorr%i' % m, lambda P, m=m: [signal.acorr(P['sig'], method=m), signal.acorr(P['sig'], method=m, norm=False)])
    c('find_peaks', lambda P: signal.find_peaks(np.sin(np.linspace(0, 20, 100)) * 2, np.linspace(0, 20, 100), k=3), rtol=1e-6)
    c('find_peaks_y', lambda P: signal.find_peaks(P['sig']))
    for e in 'mc':
        c('smooth1_%s' % e, lambda P, e=e: signal.smooth(P['sig'], P['kern'], edge=e))
    c('smooth2', lambda P: signal.smooth(P['sig2'], P['kern'][:, None], axis=0))
    c('smooth_nn', lambda P: signal.smooth(P['sig'], P['kern'], norm=False))
    c('scale', lambda P: signal.scale(P['sig']))
    c('scale_nc', lambda P: signal.scale(P['sig'], copy=False))
    c('FIRFilter', lambda P: [signal.FIRFilter(c_, 1.0, ntaps=11, mode=m_)(P['sig']) for m_, c_ in (('lowpass', .2), ('highpass', .3), ('bandpass', P['band']), ('bandstop', P['band']))] + [signal.FIRFilter(.2, 1.0, ripple=40, width=.3)(P['sig2'], axis=0)])
    # crys: cells and coordinates
    c('volume', lambda P: [crys.volume_cell(P['cell']), crys.volume_cell3d(P['cell3']), crys.volume_cc(P['cc']), crys.volume_cc3d(P['cc3'])])
    c('cell2cc', lambda P: [crys.cell2cc(P['cell']), crys.cell2cc3d(P['cell3'])])
    c('cc2cell', lambda P: [crys.cc2cell(P['cc']), crys.cc2cell3d(P['cc3'])])
    c('recip_cell', lambda P: crys.recip_cell(P['cell']))
    c('grid_in_cell', lambda P: [crys.grid_in_cell(P['cell'], h=2.0), crys.grid_in_cell(P['cell'], size=P['kgrid_lst'], fullout=True)])
    c('kgrid', lambda P: [crys.kgrid(P['cell'], h=.5), crys.kgrid(P['cell'], h=.3, even=True)])
    c('celldm', lambda P: [crys.cc2celldm(P['cc']), crys.celldm2cc(P['celldm'], fac=.5)])
    c('scell_mask', lambda P: crys.scell_mask(*P['dims']))
    c('scell', lambda P: crys.scell(P['st'], P['dims']), view_attrs=())
    c('scell2', lambda P: crys.scell(P['st'], tuple(P['dims']), method=2))
    c('scell3d', lambda P: crys.scell3d(P['tr'], tuple(P['dims'])))
    c('velocity_traj', lambda P: [crys.velocity_traj(P['vel'], dt=.5), crys.velocity_traj(P['vel'], dt=.5, endpoints=False)])
    c('rmsd', lambda P: crys.rmsd(P['tr'], ref_idx=1))
    c('pbc_wrap_coords', lambda P: crys.pbc_wrap_coords(P['frac'], mask=P['mask3']))
    c('pbc_wrap', lambda P: crys.pbc_wrap(P['tr'] if P.seed % 2 else P['st']))
    c('coord_trans', lambda P: [crys.coord_trans(P['frac'], old=P['cell'], new=P['cell2']), crys.coord_trans(P['frac'], old=P['cell'], new=P['cell']), crys.coord_trans(P['frac'].T.copy(), old=P['cell'], new=P['cell2'], axis=0)])
    c('coord_trans3d', lambda P: [crys.coord_trans3d(P['frac3'], old=P['cell3'], new=P['cell3'][::-1].copy()), crys.coord_trans3d(P['frac3'], old=P['cell3'], new=P['cell3'])])
    c('min_image', lambda P: crys.min_image_convention(P['sij'], copy=True))
    c('rmax_smith', lambda P: crys.rmax_smith(P['cell']))
    c('rpdf', lambda P: crys.rpdf(P['tr'], dr=.2, rmax=2.0))
    c('rpdf_amask', lambda P: crys.rpdf([P['tr'], P['tr']], dr=.2, rmax=2.0, amask=P['amask'] if False else None, tmask=slice(0, 3)))
    c('rpdf_st', lambda P: crys.rpdf(P['st'], dr=.2, rmax='auto', norm_vmd=True) if P.seed % 2 else crys.rpdf(P['st'], dr=.2, rmax=2.0))
    c('distances', lambda P: [crys.distances(P['st']), crys.distances(P['st'], pbc=True, squared=True), crys.distances(P['st'], pbc=True, fullout=True)])
    c('distances_traj', lambda P: [crys.distances_traj(P['tr']), crys.distances_traj(P['tr'], pbc=True)])
    c('angles', lambda P: [crys.angles(P['st']), crys.angles(P['st'], pbc=True, deg=False)])
    c('nn_from_dists', lambda P: crys.nearest_neighbors_from_dists(crys.distances(P['st'], pbc=True), P['st'].symbols, idx=0, num=1, fullout=True))
    c('nn', lambda P: [crys.nearest_neighbors(P['st'], idx=0, skip=P['skip'], num=1), crys.nearest_neighbors(P['st'], idx=1, cutoff=3.5, fullout=True)])
    c('center_on_atom', lambda P: [crys.center_on_atom(P['st'], idx=1), crys.center_on_atom(P['tr'], idx=0)])
    c('compress', lambda P: crys.compress(P['tr'], forget=['forces']))
    c('struct2traj', lambda P: crys.struct2traj(P['st']))
    c('struct2atoms', lambda P: [np.array(crys.struct2atoms(P['st']).get_positions()), np.array(crys.struct2atoms(P['st'], pbc=True).get_cell())])
    c('atoms2struct', lambda P: crys.atoms2struct(crys.struct2atoms(P['st'])))
    c('concatenate', lambda P: crys.concatenate([P['tr'], P['tr2'], P['st']]))
    c('concatenate1', lambda P: crys.concatenate([P['tr']]))
    c('mean', lambda P: crys.mean(P['tr']))
    c('smooth_tr', lambda P: crys.smooth(P['tr'], P['kern'][:3]))
    c('smooth_tr2', lambda P: crys.smooth(P['tr'], P['kern'][:3], method=2))
    c('mix', lambda P: [crys.mix(P['st'], P['st2'], np.array([0.0, .3, 1.0])), crys.mix(P['st'], P['st2'], [.5])])
    c('align_cart', lambda P: crys.align_cart(P['st'], vecs=P['ortho'][:2] if False else None, x=P['ortho'][0], y=P['ortho'][1]))
    c('align_cart_tr', lambda P: crys.align_cart(P['tr'], cart=num.euler_matrix(*P['ang'])))
    c('voigt', lambda P: [crys.tensor2voigt(P['stress']), crys.voigt2tensor(P['voigt']), crys.voigt2tensor3d(P['voigt3']), crys.tensor2voigt3d(P['stress3'])])
    c('populated_attrs', lambda P: sorted(crys.populated_attrs([P['st'], P['st2']])))
    c('tr_getitem', lambda P: [P['tr'][0], P['tr'][1:3]], view=True)
    c('tr_iter', lambda P: [np.array(s.coords) for s in P['tr']])
    c('st_copy', lambda P: [P['st'].copy(), P['tr'].copy()])
    c('st_get_traj', lambda P: P['st'].get_traj(3))
    c('st_getters', lambda P: [P['st'].get_volume(), P['st'].get_cryst_const(), P['st'].get_mass(), P['st'].get_symbols_unique(), P['st'].get_order_dict(), P['st'].get_ntypat_dict()] if hasattr(P['st'], 'get_order_dict') else [P['st'].get_volume(), P['st'].get_cryst_const(), P['st'].get_symbols_unique()], view=True)
    c('st_fake_ase', lambda P: (lambda f: [f.get_scaled_positions(), f.get_cell(), f.get_chemical_symbols() if hasattr(f, 'get_chemical_symbols') else None])(P['st'].get_fake_ase_atoms()), view=True)
    c('st_new', lambda P: crys.Structure(coords_frac=P['frac'], cell=P['cell'], symbols=P['symbols'], units=P['units']), view=True)
    c('tr_new', lambda P: crys.Trajectory(coords_frac=P['frac3'], cell=P['cell3'], symbols=P['symbols'][:1] * P['frac3'].shape[1], units=P['units'], timestep=1.0), view=True)
    # pydos
    for m in (1, 2, 3):
        c('pyvacf%i' % m, lambda P, m=m: pydos.pyvacf(P['vel'], m=P['mass'], method=m))
    c('fvacf', lambda P: [pydos.fvacf(P['vel'], m=P['mass'], method=1), pydos.fvacf(P['vel'], method=2)])
    c('pdos_vacf', lambda P: pydos.pdos(P['vel'], dt=.5, m=P['mass'], method='vacf', full_out=True))
    c('pdos_direct', lambda P: [pydos.pdos(P['vel'], dt=.5, m=P['mass'], method='direct', window=False), pydos.pdos(P['vel'], dt=.5, method='direct', tonext=True)])
    c('direct_pdos', lambda P: [pydos.direct_pdos(P['vel'], m=P['mass']), pydos.vacf_pdos(P['vel'], mirr=True)])
    # eos, thermo
    c('EosFit', lambda P: (lambda f: [f.get_min(), f(P['vol']), f.pressure(P['vol'])])(eos.EosFit(P['vol'], P['ene'])), rtol=1e-6)
    c('eos_call', lambda P: [P['eosf'](P['vol'], der=d) for d in (0, 1, 2)] + [P['eosf'].bulkmod(P['vol']), P['eosf'](40.0)], rtol=1e-6)
    c('eos_d3', lambda P: P['eosf'](P['vol'], der=3), rtol=1e-4)
    c('thermo_new', lambda P: (lambda h: [h.fvib(), h.cv(), h.svib(), h.evib()])(thermo.HarmonicThermo(P['freq'], P['dos'], T=P['temps'], skipfreq=True, dosarea=9.0, verbose=False)))
    c('thermo_nan', lambda P: (lambda h: [h.cv(), h.evib()])(thermo.HarmonicThermo(np.abs(P['freq']), P['dos'], T=P['temps'], fixnan=True, verbose=False, integrator=simpson)))
    c('thermo_old', lambda P: [P['ha'].fvib(), P['ha'].cv(P['temps'][:2] + 1), P['ha'].svib(P['temps']), P['ha'].evib()])
    c('debye', lambda P: [thermo.debye_func(P['x'] + .1), thermo.einstein_func(P['x'] + .1), thermo.expansion(P['temps'], 5e-6, 800., 3.0), thermo.expansion(P['temps'], 5e-6, 800., 3.0, thermo.einstein_func)])
    c('gibbs_F', lambda P: P['gibbs'].calc_F(), rtol=1e-6)
    c('gibbs_H', lambda P: P['gibbs'].calc_H(), rtol=1e-4)
    c('gibbs_G', lambda P: P['gibbs'].calc_G(), rtol=1e-4, slow=True)
    c('gibbs_Gsmall', lambda P: P['gibbs'].calc_G(calc_all=False), rtol=1e-6)
    c('gibbs_new', lambda P: thermo.Gibbs(T=P['gT'], P=P['gP'], etot=P['etot1'], phdos=P['phdos1'], axes_flat=P['axes1'], volfunc_ax=lambda v: v[0]**3, **P['gkw']).calc_H(), rtol=1e-4)
    def setfit(P):
        # settings changed between calculations of one object, against an object made with the settings
        ff = dict([('1d-ax', lambda x, y: num.PolyFit1D(x, y, 2)), ('1d-G', lambda x, y: num.PolyFit1D(x, y, 3))])
        mk = lambda: thermo.Gibbs(T=P['gT'], P=P['gP'], etot=P['etot1'], phdos=P['phdos1'], axes_flat=P['axes1'], volfunc_ax=lambda v: v[0]**3)
        a, b = mk(), mk()
        a.calc_H()
        for k, f in ff.items(): a.set_fitfunc(k, f); b.set_fitfunc(k, f)
        ra, rb = a.calc_H(), b.calc_H()
        same = all(G.same(ra[k], rb[k], rtol=1e-6) for k in rb)
        assert same, 'calc_H after set_fitfunc differs from a new object with these fit functions'
        return ra
    c('gibbs_setfit', setfit, rtol=1e-4)
    def ddhist(P):
        # updates of one object against new objects
        x, y, p, z = P['x'][:4], P['xnew'][:3], P['pts2'], P['vals2']
        X, Y = num.meshgridt(x, y)
        forms = [dict(x=x, y=y, Z=X * Y), dict(X=X + 1, Y=Y, Z=X - Y), dict(xx=X.flatten() * 2, yy=Y.flatten(), zz=(X + Y).flatten()), dict(XY=p, zz=z), dict(x=x, y=y, zz=(X / (1 + abs(Y))).flatten())]
        k = P.seed % 120
        order = []
        pool = list(range(5))
        while pool: order.append(pool.pop(k % len(pool))); k //= (len(pool) + 1)
        d = mpl.Data2D(**forms[order[0]])
        for i in order[1:]:
            d.update(**forms[i]); n = mpl.Data2D(**forms[i])
            for a in n.attr_lst:
                assert G.same(getattr(d, a), getattr(n, a), rtol=1e-12), 'update(%s) after %s: %s is not that of a new object' % (sorted(forms[i]), [sorted(forms[j]) for j in order[:order.index(i)]], a)
        d.update(zz=-d.zz)
        assert G.same(d.Z.flatten(), d.zz), 'update(zz): Z does not agree'
        return [d.Z, d.zz, d.XY]
    c('dd_history', ddhist)
    # rbf
    c('Rbf', lambda P: [rbf.Rbf(P['pts3'], P['vals3'], r=1e-8, p=p)(P['pts3'][:3] + .01) for p in ('mean', 'scipy', 1.3)], rtol=1e-5)
    c('Rbf_none', lambda P: rbf.Rbf(P['pts3'], P['vals3'], r=None)(P['frac'] / 3), rtol=1e-4)
    c('rbf_call', lambda P: [P['rbfi'](P['frac'] / 3), P['rbfi'](P['frac'][0] / 3)], rtol=1e-6)
    c('rbf_der', lambda P: [P['rbfi'](P['frac'] / 3, der=1), P['rbfi'](P['frac'][0] / 3, der=1)], rtol=1e-6)
    c('rbf_refit', lambda P: [P['rbfi'].fit(), P['rbfi'](P['frac'] / 3)], rtol=1e-5)
    c('rbf_distsq', lambda P: [P['rbfi'].get_distsq(), P['rbfi'].get_distsq(P['frac'])])
    c('rbf_err', lambda P: [P['rbfi'].fit_error(P['pts3'] + .05, P['vals3']), P['rbfi'].get_params()], rtol=1e-5)
    c('estimate_p', lambda P: [rbf.estimate_p(P['pts3']), rbf.estimate_p(P['pts3'], 'scipy')])
    c('dists', lambda P: [core.squared_dists(P['pts3'], P['frac']), core.euclidean_dists(P['pts3'], P['pts3'])])
    c('fit_err', lambda P: [hyperopt.FitError(P['pts2'], P['vals2'], rbf_kwds=P['rkw'], cv=P['cvkw'])([1.5]), hyperopt.FitError(P['pts2'], P['vals2'], rbf_kwds=P['rkw'], cv=None)([1.5])], rtol=1e-4)
    c('fit_opt_fmin', lambda P: list(hyperopt.fit_opt(P['pts2'], P['vals2'], method='fmin', what='p', cv=None, opt_kwds=P['okw_fmin'], rbf_kwds=P['rkw']).get_params()), rtol=1e-4)
    c('fit_opt_fmin2', lambda P: list(hyperopt.fit_opt(P['pts2'], P['vals2'], method='fmin', what='pr', cv=P['cvkw'], opt_kwds=P['okw_fmin2']).get_params()), rtol=1e-3)
    c('fit_opt_de', lambda P: list(hyperopt.fit_opt(P['pts2'], P['vals2'], method='de', what='p', cv=P['cvkw'], opt_kwds=P['okw_de'], rbf_kwds=P['rkw']).get_params()), rtol=1e-4)
    c('fit_opt_brute', lambda P: list(hyperopt.fit_opt(P['pts2'], P['vals2'], method='brute', what='p', cv=None, opt_kwds=P['okw_brute'], rbf_kwds=P['rkw']).get_params()), rtol=1e-4)
    # kpath, symmetry, mpl data
    c('kpath', lambda P: [kpath.kpath(P['kvecs'], N=4), kpath.get_path_norm(P['kvecs'])])
    c('special', lambda P: kpath.SpecialPointsPath(ks=P['kvecs'], ks_frac=P['kvecs'], symbols=['a', 'b', 'c']).path_norm)
    c('spg', lambda P: [symmetry.spglib_get_spacegroup(P['st']), symmetry.is_same_struct(P['st'], P['st2'])])
    c('spg_prim', lambda P: symmetry.spglib_get_primitive(crys.scell(P['st'], (1, 1, 2))), rtol=1e-6)
    c('struct2spglib', lambda P: symmetry.spglib2struct(symmetry.struct2spglib(P['st'])), view=True)
    c('dd_copy', lambda P: (lambda d: [d.x, d.y, d.X, d.Y, d.xx, d.yy, d.Z, d.zz, d.XY])(P['dd'].copy()))
    c('Data2D', lambda P: (lambda d: [d.X, d.xx, d.XY, d.Z])(mpl.Data2D(x=P['x'][:3], y=P['x'][:4], Z=np.arange(12.).reshape(3, 4))), view=True)
    c('Data2D_upd', lambda P: (lambda d: [d.update(zz=-P['vals2']), d.zz, d.Z][1:])(mpl.Data2D(XY=P['pts2'], zz=P['vals2'])), view=True)
    # strings, comb, mttk, input cards
    c('template_replace', lambda P: common.template_replace(P['tmpl'], P['dct'], mode='txt', conv=True))
    c('template_dct', lambda P: common.template_replace('XX{a}', {'XX': 1}, conv=True, warn_not_found=False))
    c('str_arr', lambda P: [common.str_arr(P['eps_arr']), common.str_arr(P['eps_arr'], zero_eps=True), common.str_arr(P['ints'], fmt='%i')])
    c('fix_eps', lambda P: common.fix_eps(P['eps_arr']))
    c('seq2str', lambda P: [common.seq2str(P['ints']), common.str2seq('1 2 3'), common.str2tup('1 2', func=float)])
    c('conv', lambda P: [common.toslice('1:3'), common.ffloat('1.0d-3'), common.frepr(1.5), common.frepr('x'), common.tobool('.true.')])
    c('dict2str', lambda P: common.dict2str(P['dct']))
    c('dict2class', lambda P: sorted(vars(common.dict2class(P['dct'], 'K')).items()))
    c('flatten', lambda P: [str(i) for i in common.flatten(P['nested'])])
    c('asseq', lambda P: [list(common.asseq(3)), common.is_seq(P['nested'])])
    c('pop_from_list', lambda P: common.pop_from_list(list(P['vals']), list(P['vals'][:1])))
    c('nested_loops', lambda P: [comb.nested_loops(P['lists']), comb.nested_loops(P['lists'], flatten=True)])
    c('unique2d', lambda P: [comb.unique2d(P['uniq']), comb.unique2d(P['uniq'], what='col')])
    c('mttk', lambda P: [mttk.particle_nhc_masses(**P['nhc']), mttk.barostat_nhc_masses(40., 300.), mttk.barostat_mass_w(40., 300., nf=12), mttk.barostat_mass_wg(40., 300., nf=12)])
    c('atpos_str', lambda P: [pwscf.atpos_str(P['symbols'], P['frac']), pwscf.atpos_str(P['symbols'], P['frac'] * 1e-17, zero_eps=True), pwscf.atpos_str_fast(P['symbols'], P['frac'])])
    c('atspec_str', lambda P: pwscf.atspec_str(P['symbols'], P['masses'], P['pseudos']))
    c('kpoints_str', lambda P: [pwscf.kpoints_str(P['kgrid_lst']), pwscf.kpoints_str_pwin(P['kgrid_lst'], shift=P['shift']), pwscf.kpoints_str_pwin_full(P['kgrid_lst'], shift=P['shift']), pwscf.kpoints_str_pwin_full([1, 1, 1])])
    c('ibrav2cell', lambda P: [pwscf.ibrav2cell(i, P['celldm6']) for i in (1, 2, 3, 4, 6, 7, 8)])
    c('lammps_str', lambda P: lammps.struct_str(P['st']).split('\n')[1:])

@make
def ortho(P, R):
    q = np.linalg.qr(R.normal(size=(3, 3)))[0]; return q
@make
def band(P, R): return [.2, .6]
@make
def vals_ax(P, R): return [0, 2]
@make
def celldm6(P, R): return np.array([7.0, 1.1, 1.3, .1, .2, .15])

def catalogue():
    if not CALLS:
        _catalogue()
    return CALLS
