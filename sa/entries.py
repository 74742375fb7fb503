"""Entry points of the package, with what each argument means (dimension, role).

An argument spec is (name, kind, dims, role):
  kind  'P'   point array (symbolic shape ('P',)); 'S' scalar; ('A', axes...) array over other axes;
        ('C', v) concrete constant; 'V3' list of three scalars
  dims  exponents (length, time), or None for "not numeric"
  role  'x','y','z' cartesian coordinate, 'r' radius, 'psi' azimuth, 'str:<atom>' vortex strength,
        'org:x|y|z' origin coordinate of the singularity, 'geo' geometry length, 'm' skew, 'opt' option
"""
L = (1, 0); D0 = (0, 0); GAM = (1, -1); CIRC = (2, -1); M_DBL = (4, -1); DMDZ = (3, -1); VEL = (1, -1); NONE = None

XYZ = [('Xcp', 'P', L, 'x'), ('Ycp', 'P', L, 'y'), ('Zcp', 'P', L, 'z')]
POL = [('vr', 'P', L, 'r'), ('vpsi', 'P', D0, 'psi'), ('vz', 'P', L, 'z')]

def gt(atom='gamma_t'): return (atom, 'S', GAM, 'str:' + atom)
R_ = ('R', 'S', L, 'geo')
m_ = ('m', 'S', D0, 'm')
nth = ('ntheta', 'S', D0, 'count')

class Entry(object):
    def __init__(self, key, module, func, args, configs, out, doc='', **kw):
        self.key = key; self.module = module; self.func = func; self.args = args
        self.configs = configs      # list of (label, {param: literal})
        self.out = out              # dims of every output
        self.doc = doc
        self.kw = kw
    def get(self, k, d=None): return self.kw.get(k, d)

T, F = True, False
def po(**kw): return [('polar', dict(kw, polar_out=True)), ('cart', dict(kw, polar_out=False))]
def cross(*lists):
    out = [('', {})]
    for l in lists:
        out = [((a + ',' + b).strip(','), dict(x, **y)) for a, x in out for b, y in l]
    return out
EPS = [('eps0', {'epsilon': 0}), ('eps', {})]   # {} leaves epsilon symbolic
CYLA = [('gamma_t', ('A', 'nc', 'nr'), GAM, 'str:gamma_t'), ('R', ('A', 'nc', 'nr'), L, 'geo')]
CYLP = [('Xcyl', ('A', 'nc'), L, 'org:x'), ('Ycyl', ('A', 'nc'), L, 'org:y'), ('Zcyl', ('A', 'nc'), L, 'org:z')]
mA = ('m', ('A', 'nc', 'nr'), D0, 'm')
GR = [('noground', {'Ground': False}), ('ground', {'Ground': True})]

def kernels():
    E = []
    VC, VS, VD, VL, VP, VR = ['wiz.' + x for x in ('VortexCylinder', 'VortexCylinderSkewed', 'VortexDoublet', 'VortexLine', 'VortexPoint', 'VortexRing')]
    def e(*a, **k): E.append(Entry(*a, **k))
    e('vc_tang_u_doublet', VC, 'vc_tang_u_doublet', XYZ + [gt(), R_, ('r_bar_Cut', 'S', D0, 'opt')], po(), VEL, fam='tang')
    e('vc_tang_u', VC, 'vc_tang_u', XYZ + [gt(), R_, ('epsilon', 'S', L, 'geo')], cross(po(), EPS), VEL, fam='tang')
    e('vc_longi_u_polar', VC, 'vc_longi_u_polar', POL + [gt('gamma_l'), R_], po(), VEL, fam='swirl')
    e('vc_longi_u', VC, 'vc_longi_u', XYZ + [gt('gamma_l'), R_], po(), VEL, fam='swirl')
    e('vc_root_u', VC, 'vc_root_u', XYZ + [('Gamma_r', 'S', CIRC, 'str:Gamma_r')], po(), VEL, fam='swirl')
    e('cylinder_tang_semi_inf_u_raw', VC, 'cylinder_tang_semi_inf_u_raw', XYZ + [gt(), R_], [('polar', {})], VEL, fam='tang')
    e('vcs_tang_u', VC, 'vcs_tang_u', XYZ + CYLA + CYLP + [('epsilon', 'S', L, 'geo')], cross(GR, EPS), VEL, fam='tang')
    e('vcs_longi_u', VC, 'vcs_longi_u', XYZ + [('gamma_l', ('A', 'nc', 'nr'), GAM, 'str:gamma_l'), CYLA[1]] + CYLP, GR, VEL, fam='swirl')
    e('cylinder_tang_u', VC, 'cylinder_tang_u', XYZ + [gt(), R_, ('z1', 'S', L, 'org:z'), ('z2', 'S', L, 'org:z'), ('epsilon', 'S', L, 'geo')], po(), VEL, fam='tang')
    e('svc_tang_u_polar', VS, 'svc_tang_u_polar', POL + [gt(), R_, m_, nth], po(), VEL, fam='tang')
    e('svc_longi_u_polar', VS, 'svc_longi_u_polar', POL + [gt('gamma_l'), R_, m_, nth], po(), VEL, fam='swirl')
    e('svc_root_u_polar', VS, 'svc_root_u_polar', POL + [('Gamma_r', 'S', CIRC, 'str:Gamma_r'), m_], po(), VEL, fam='swirl')
    e('svc_u_polar', VS, 'svc_u_polar', POL + [gt('gamma_t'), gt('gamma_l'), ('Gamma_r', 'S', CIRC, 'str:Gamma_r'), R_, m_, nth], po(), VEL, fam='mixed')
    e('svc_tang_u', VS, 'svc_tang_u', XYZ + [gt(), R_, m_, nth], po(), VEL, fam='tang')
    e('svc_longi_u', VS, 'svc_longi_u', XYZ + [gt('gamma_l'), R_, m_, nth], po(), VEL, fam='swirl')
    e('svc_root_u', VS, 'svc_root_u', XYZ + [('Gamma_r', 'S', CIRC, 'str:Gamma_r'), m_], po(), VEL, fam='swirl')
    e('svcs_tang_u', VS, 'svcs_tang_u', XYZ + CYLA + [mA] + CYLP + [nth], GR, VEL, fam='tang')
    e('svcs_longi_u', VS, 'svcs_longi_u', XYZ + [('gamma_l', ('A', 'nc', 'nr'), GAM, 'str:gamma_l'), CYLA[1], mA] + CYLP + [nth], GR, VEL, fam='swirl')
    e('doublet_u', VD, 'doublet_u', XYZ + [('m', 'V3', M_DBL, 'str:m'), ('x0', 'V3', L, 'org3')], [('', {})], VEL, fam='tang')
    e('doublet_u_polar', VD, 'doublet_u_polar', [('rcp', 'P', L, 'r'), ('zcp', 'P', L, 'z'), ('m_z', 'S', M_DBL, 'str:m'), ('z0', 'S', L, 'org:z')], [('polar', {})], VEL, fam='tang')
    e('doublet_line_polar_u_num', VD, 'doublet_line_polar_u_num', [('rcp', 'P', L, 'r'), ('zcp', 'P', L, 'z'), ('dmz_dz', 'S', DMDZ, 'str:dm'), ('z0', 'S', L, 'org:z'), ('zmax', 'S', L, 'org:z'), ('nQuad', 'S', D0, 'count')], [('polar', {})], VEL, fam='tang')
    e('doublet_line_polar_u', VD, 'doublet_line_polar_u', [('rcp', 'P', L, 'r'), ('zcp', 'P', L, 'z'), ('dmz_dz', 'S', DMDZ, 'str:dm')], [('polar', {})], VEL, fam='tang')
    e('doublet_line_u', VD, 'doublet_line_u', XYZ + [('dmz_dz', 'S', DMDZ, 'str:dm'), m_, ('L', 'S', L, 'geo')], [('semiinf', {'L': float('inf')}), ('finite', {})], VEL, fam='tang')
    e('doublet_line_u_num', VD, 'doublet_line_u_num', XYZ + [('dmz_dz', 'S', DMDZ, 'str:dm'), m_, ('zmax', 'S', L, 'geo'), ('nQuad', 'S', D0, 'count')], [('', {})], VEL, fam='tang')
    vlargs = [('xa', 'S', L, 'x'), ('ya', 'S', L, 'y'), ('za', 'S', L, 'z'), ('xe', 'S', D0, 'dir'), ('ye', 'S', D0, 'dir'), ('ze', 'S', D0, 'dir'), ('Gamma', 'S', CIRC, 'str:Gamma')]
    for vm in (0, 1, 2, 3, 4, 5):
        e('vl_semiinf_u[visc_model=%d]' % vm, VL, 'vl_semiinf_u', vlargs + [('visc_model', 'S', D0, 'opt'), ('t', 'S', {5: (2, 0), 4: (2, 0)}.get(vm, L), 'geo')], [('', {'visc_model': vm})], VEL, fam='swirl', scalar=True)
    e('vl_semiinf_straight_u_polar', VL, 'vl_semiinf_straight_u_polar', POL + [('Gamma_r', 'S', CIRC, 'str:Gamma_r')], po(), VEL, fam='swirl')
    e('vl_semiinf_straight_u', VL, 'vl_semiinf_straight_u', XYZ + [('Gamma_r', 'S', CIRC, 'str:Gamma_r')], po(), VEL, fam='swirl')
    for bv in (False, True):
        e('vp_u[bViscous=%s]' % bv, VP, 'vp_u', [('CP', ('A', 2), L, 'xy'), ('Pv', ('A', 2), L, 'org:xy'), ('Gamma', 'S', CIRC, 'str:Gamma'), ('rcore', 'S', L, 'geo')], [('', {'bViscous': bv})], VEL, fam='swirl', scalar=True)
    for sm, kos in ((0, (2,)), (1, (2, 4, 6, 8)), (2, (2, 4, 6, 8, 10))):
        for ko in kos:
            e('vps_u[SmoothModel=%d,KernelOrder=%d]' % (sm, ko), VP, 'vps_u', [('CP', ('A', 'P', 2), L, 'xy'), ('XV', ('A', 'nv', 2), L, 'org:xy'), ('Gammas', ('A', 'nv'), CIRC, 'str:Gamma'), ('SmoothParam', ('A', 'nv'), L, 'geo')], [('', {'SmoothModel': sm, 'KernelOrder': ko})], VEL, fam='swirl', points2d=True)
    RZ = [('r', 'P', L, 'r'), ('z', 'P', L, 'z'), ('Gamma', 'S', CIRC, 'str:Gamma'), ('r0', 'S', L, 'geo')]
    e('ring_u_polar_singular', VR, 'ring_u_polar_singular', RZ, [('polar', {})], VEL, fam='tang')
    e('ring_u_polar_singularb', VR, 'ring_u_polar_singularb', RZ, [('polar', {})], VEL, fam='tang')
    e('ring_u_polar', VR, 'ring_u_polar', RZ + [('z0', 'S', L, 'org:z'), ('epsilon', 'S', L, 'geo')],
      [('polar,eps0', {'epsilon': 0, 'reg_method': 'Saffman'}), ('polar,Saffman', {'reg_method': 'Saffman'}), ('polar,linear', {'reg_method': 'linear'})], VEL, fam='tang')
    e('ring_u', VR, 'ring_u', XYZ + [('Gamma', 'S', CIRC, 'str:Gamma'), R_, ('epsilon', 'S', L, 'geo')], cross(po(), EPS), VEL, fam='tang')
    e('rings_u', VR, 'rings_u', XYZ + [('Gamma_r', ('A', 'nring'), CIRC, 'str:Gamma_r'), ('Rr', ('A', 'nring'), L, 'geo'), ('Xr', ('A', 'nring'), L, 'org:x'), ('Yr', ('A', 'nring'), L, 'org:y'), ('Zr', ('A', 'nring'), L, 'org:z'), ('epsilon', 'S', L, 'geo')], cross(po(), EPS), VEL, fam='tang')
    e('ss_u', 'wiz.SelfSimilar', 'ss_u', XYZ + [gt(), R_, ('lambda_', 'S', D0, 'opt'), ('eta', 'S', D0, 'opt')], [('', {})], VEL, fam='ss')
    for no in range(1, 8):
        tags = [('nout%d' % no, {'nout': no, 'R': None})]
        e('fV_Trailed[nout=%d]' % no, VS, 'fV_Trailed', [('vr', 'P', D0, 'r'), ('vpsi', 'P', D0, 'psi'), ('vz', 'P', D0, 'z'), m_, ('gamma_longi', 'S', GAM, 'str:gamma_l'), nth], [('', {'nout': no})], VEL, fam='swirl', legacy=True)
        e('fV_Tangential[nout=%d]' % no, VS, 'fV_Tangential', [('vr', 'P', D0, 'r'), ('vpsi', 'P', D0, 'psi'), ('vz', 'P', D0, 'z'), m_, ('gamma_t', 'S', GAM, 'str:gamma_t'), nth], [('', {'nout': no})], VEL, fam='tang', legacy=True)
        e('fV_Root[nout=%d]' % no, VS, 'fV_Root', POL + [m_, ('Gamma_r', 'S', CIRC, 'str:Gamma_r')], [('', {'nout': no})], VEL, fam='swirl', legacy=True)
    return E

def curled():
    E = []
    m = 'wiz.examples.CurledWake_2D'
    tt = [('theta', ('A', 'nth'), D0, 'theta'), ('theta_y', 'S', D0, 'ang'), ('gamma_x', ('A', 'nth'), GAM, 'str:gamma_x'), ('sigma', 'S', L, 'geo')]
    for lab, cfg in (('smooth', {}), ('nosmooth', {'sigma': None})):
        E.append(Entry('ve_u[%s]' % lab, m, 've_u', [('Ycp', 'P', L, 'y'), ('Zcp', 'P', L, 'z'), R_] + tt, [('', cfg)], VEL, fam='swirl'))
        E.append(Entry('vcl_u[%s]' % lab, m, 'vcl_u', XYZ + [R_] + tt, [('', cfg)], VEL, fam='swirl'))
    return E

def solver():
    E = []
    S = 'wiz.Solver'
    def e(*a, **k): E.append(Entry(*a, **k))
    A = ('A', 'nr')
    B = [('swirl', {'bSwirl': True}), ('noswirl', {'bSwirl': False})]
    H = [('spera', {'bHighThrustCorr': True}), ('nocorr', {'bHighThrustCorr': False})]
    K = [('tik', {'bTanInd_k': True}), ('notik', {'bTanInd_k': False})]
    vb = ('vr_bar', A, D0, 'r'); ct = ('Ct', A, D0, 'load')
    e('Ct_const_cutoff', S, 'Ct_const_cutoff', [('CT0', 'S', D0, 'load'), ('r_bar_cut', 'S', D0, 'geo'), vb, ('r_bar_tip', 'S', D0, 'geo')], [('tip', {}), ('notip', {'r_bar_tip': None})], [D0])
    e('InductionsFromPrescribedCtCq_ST', S, 'InductionsFromPrescribedCtCq_ST', [vb, ct, ('Cq', A, D0, 'load'), ('Lambda', 'S', D0, 'op')], B, [D0, D0])
    e('CirculationFromPrescribedCt', S, 'CirculationFromPrescribedCt', [vb, ('vCt', A, D0, 'load'), ('Lambda', 'S', D0, 'op')], B, [D0])
    e('InductionsFromCirculation_VC_Cont', S, 'InductionsFromCirculation_VC_Cont', [vb, ('lambda_r', A, D0, 'op'), ('k', A, D0, 'load'), ('Cq', A, D0, 'load')], cross(B, H, [('cq', {}), ('nocq', {'Cq': None})]), [D0, D0, {'k_Cq': D0, 'Ct_KJ': D0, 'Ct_eff': D0, 'Ct_rot': D0}])
    U = [('R', 'S', L, 'geo'), ('U0', 'S', VEL, 'op'), ('Omega', 'S', (0, -1), 'op')]
    md = {'Vz': VEL, 'h': L, 'a': D0, 'a_prime': D0, 'Gamma_cp': CIRC, 'r_cp': L, 'Ct_KJ': D0, 'Ct_eff': D0, 'Ct_rot': D0}
    e('WakeVorticityFromCirculation_Cont', S, 'WakeVorticityFromCirculation_Cont', [('r_cp', A, L, 'r'), ('Gamma_cp', A, CIRC, 'load')] + U, cross(B, H), [GAM, GAM, CIRC, md])
    e('WakeVorticityFromCirculation_Discr', S, 'WakeVorticityFromCirculation_Discr', [('r_cp', A, L, 'r'), ('Gamma_cp', A, CIRC, 'load')] + U + [('nB', 'S', D0, 'op'), ('r_cyl', A, L, 'r')], cross(B, H, K, [('cyl', {}), ('nocyl', {'r_cyl': None})]), [GAM, GAM, CIRC, md])
    e('WakeVorticityFromCt', S, 'WakeVorticityFromCt', [('r', A, L, 'r'), ('Ct', A, D0, 'load')] + U, [('finite', {}), ('inf', {'Omega': float('inf')})], [GAM, GAM, CIRC, md])
    e('WakeVorticityFromGamma', S, 'WakeVorticityFromGamma', [('r', A, L, 'r'), ('Gamma', A, CIRC, 'load')] + U, [('finite', {}), ('inf', {'Omega': float('inf')})], [GAM, GAM, CIRC, md])
    return E
