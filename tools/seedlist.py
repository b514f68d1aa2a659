"""the planted bugs: (id, property, edits [(file, old, new)], demonstration, needs, breaks)"""
PRE = '''import atexit, copy, os, pickle, shutil, sys, tempfile, warnings
import numpy as np
_T = tempfile.mkdtemp(prefix='demo_')
os.chdir(_T)
@atexit.register
def _clean():
    os.chdir('/')
    shutil.rmtree(_T, ignore_errors=True)
warnings.simplefilter('ignore')
from pyRFtk import *
import pyRFtk
from pyRFtk.ConvertGeneral import ConvertGeneral


def close(a, b, msg, tol=1e-8):
    a, b = np.array(a), np.array(b)
    if a.shape != b.shape or not np.all(np.abs(a - b) <= tol * (1 + np.abs(b))):
        print('WRONG', msg, a.tolist(), 'instead of', b.tolist())
        sys.exit(1)


def true(c, msg):
    if not c:
        print('WRONG', msg)
        sys.exit(1)


'''
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed('b01', 'C01', [('rfCircuit', "            A, B = ('<-', '->') if p in newports else ('->', '<-')",
                     "            A, B = ('<-', '->') if newports and p == ports[-1] else ('->', '<-')")], '''
c = rfCircuit(Zbase=50.)
for k in 'ab':
    c.addblock(k, rfRLC(Rs=10. if k == 'a' else 35.))
c.connect('a.s', 'T', 'b.s')
c.terminate('a.p', Z=20.)
c.terminate('b.p', Z=15.)
z = 1 / (1/30. + 1/50.)
close(c.getS(1e6), [[(z - 50) / (z + 50)]], 'reflection of two branches in parallel')
''', 'a junction that creates its external port, the new name not being the last argument of connect, and at least two existing ports',
     'the wave directions of the junction are taken from the position in the argument list: the response of the network is wrong')

seed('b02', 'C01', [('rfCircuit', '''            self.M[-1,idxA] = -1
            self.M[-1,idxB] = rho
''', '''            self.M[-1,idxA] = -1
            self.M[-1,idxB] = np.conj(rho) if 'Y' in self.eqns[-1:] else rho
''')] if False else [('rfCircuit', "            rho = (Z - self.Zbase) / (Z + self.Zbase)", "            rho = (np.conj(Z) - self.Zbase) / (Z + self.Zbase)")], '''
c = rfCircuit(Zbase=50.)
c.addblock('a', rfRLC(Rs=10.))
c.terminate('a.p', Z=20. + 30j)
z = 30. + 30j
close(c.getS(1e6), [[(z - 50) / (z + 50)]], 'reflection of a complex load')
''', 'a termination given by a complex impedance', 'the power-wave reflection coefficient is used for a voltage-wave equation; magnitudes of purely reactive loads stay right')

seed('b03', 'C02', [('rfCircuit', "                    snodesleft = [node.split('.',1)[-1] for node in nodesleft \n", "                    snodesleft = [node.split('.')[-1] for node in nodesleft \n")], '''
i = rfCircuit(Zbase=50.)
i.addblock('e', rfRLC(Rs=10.))
i.addblock('g', rfRLC(Rp=20.))
i.connect('e.p', 'g.s')
i.terminate('g.p', Z=33.)
m = rfCircuit(Zbase=50.)
m.addblock('i', i, {'e.s': 'in'})
t = rfCircuit(Zbase=50.)
t.addblock('m', m, {'i.in': 'q'})
full = t.Solution(1e6, {'m.q': 1.})
part = t.Solution(1e6, {'m.q': 1.}, nodes=['m.i.e.p'])
true('m.i.e.p' in part, 'requested node missing: %s' % sorted(part))
close(part['m.i.e.p'], full['m.i.e.p'], 'node asked for alone')
''', 'a solution asked for selected nodes that lie at least two levels below the circuit', 'the path of the node is cut to its last part, so nodes on deeper levels are not found')

seed('b04', 'C02', [('rfCircuit', '''        for node in nodes:
            iA, iB = 2, 3 
            if node[0] == '<':''', '''        iA, iB = 2, 3 
        for node in nodes:
            if node[0] == '<':''')], '''
c = rfCircuit(Zbase=50.)
c.addblock('a', rfRLC(Rs=10.))
c.addblock('b', rfRLC(Rp=20.))
c.addblock('c', rfRLC(Rs=5., Rp=70.))
c.connect('a.p', 'b.s')
c.connect('b.p', 'c.s')
S = c.Get_internalSmatrix(1e6, ['<a.p', 'b.p'])
# into a.p backwards is into b: this is b alone
close(S, rfRLC(Rp=20.).getS(1e6, Zbase=50.), 'S-matrix between two internal nodes')
''', 'an internal scattering matrix with a reversed node (<node) followed by one that is not', 'the reversal also applies to all the nodes after it')

seed('b05', 'C03', [('rfCircuit', "            tSols.append(self.Solution(f, E, Zbase, tnodes))   ", "            tSols.append(self.Solution(f, E, self.Zbase, tnodes))   ")], '''
c = rfCircuit(Zbase=50.)
c.addblock('a', rfRLC(Rs=10.))
c.addblock('b', rfRLC(Rp=20.))
c.connect('a.p', 'b.s')
S = c.Get_internalSmatrix(1e6, ['b.s', 'b.p'], Zbase=20.)
close(S, rfRLC(Rp=20.).getS(1e6, Zbase=20.), 'internal S-matrix at 20 Ohm')
''', 'an internal scattering matrix requested at another reference impedance than the circuit', 'the requested reference impedance is ignored')

seed('b06', 'C04', [('Z_from_S', "np.linalg.inv(I - Sk)  @ (I + Sk) for Sk in S])", "np.linalg.solve((I - Sk).T, I + Sk) for Sk in S])")], '''
from pyRFtk.Z_from_S import Z_from_S
Z = np.array([[30., 5.], [20., 40. + 10j]])
S = (Z - 50 * np.eye(2)) @ np.linalg.inv(Z + 50 * np.eye(2))
close(Z_from_S(S, 50.), Z, 'Z from the S of a non-reciprocal two-port')
''', 'a non-reciprocal matrix', 'the transposed system is solved')

seed('b07', 'C05', [('ConvertGeneral', "            Zd = np.array(Zd.tolist() * nF).reshape(nF,N)", "            Zd = np.repeat(Zd, nF).reshape(nF,N)")], '''
S = np.array([[[.1, .2j], [.3, -.4]], [[.5, .1], [0., .2j]], [[.1j, 0.], [.6, .3]]])
A = ConvertGeneral(50., S, [20., 70.], 'P', 'V')
B = [ConvertGeneral(50., s, [20., 70.], 'P', 'V') for s in S]
close(A, B, 'stack of matrices with one impedance per port')
''', 'a stack of at least two matrices with different impedances per port', 'the impedances are assigned to the wrong ports and frequencies')

seed('b08', 'C05', [('ConvertGeneral', "            QVa, QVb = np.conj(Zd) * iRd, Zd * iRd           # (nF,N)", "            QVa, QVb = Zd * iRd, np.conj(Zd) * iRd           # (nF,N)")], '''
Z = np.array([[30. + 4j, 5.], [20., 40. + 10j]])
zr = np.array([30. + 20j, 15. - 8j])
F = np.diag(1 / (2 * np.sqrt(zr.real)))
G = F @ (Z - np.diag(zr.conj())) @ np.linalg.inv(Z + np.diag(zr)) @ np.linalg.inv(F)
S = (Z - 50 * np.eye(2)) @ np.linalg.inv(Z + 50 * np.eye(2))
close(ConvertGeneral(50., G, zr, 'G', 'V'), S, 'from generalised to voltage waves')
''', 'conversion from generalised waves with complex port impedances', 'the voltages are reconstructed with the conjugate impedances')

seed('b09', 'C06', [('rfTRL', '''                    if xs[-1] < self.L:
                        xs.append(self.L)
                    xs = np.array(xs)''', '''                    if xs[-1] < self.L and len(xs) < 2:
                        xs.append(self.L)
                    xs = np.array(xs)''')], '''
a = rfTRL(L=1.03, Z0TL=30., dx=-0.1)
close(a.getS(40e6), rfTRL(L=1.03, Z0TL=30.).getS(40e6), 'line with a fixed step')
''', 'a fixed step (dx < 0) that does not divide the length', 'the last part of the section is left out')

seed('b10', 'C06', [('rfTRL', "            dIC = self.gjwC(w, x) * (VI4[0]+1j*VI4[1])", "            dIC = self.gjwC(w, 0) * (VI4[0]+1j*VI4[1])")], '''
a = rfTRL(L=1., Z0TL=30., epsr=[1., 1.4, 2.])
xs = np.linspace(0, 1, 4001)
c0 = 299792458.
M = np.eye(2, dtype=complex)
f = 60e6
for x0, x1 in zip(xs[:-1], xs[1:]):
    e = np.interp((x0 + x1) / 2, [0, .5, 1.], [1., 1.4, 2.])
    g = 2j * np.pi * f / c0 * np.sqrt(e)
    th = g * (x1 - x0)
    M = np.array([[np.cosh(th), 30 * np.sinh(th)], [np.sinh(th) / 30, np.cosh(th)]]) @ M
from pyRFtk.S_from_VI import S_from_VI
close(a.getS(f), S_from_VI(M, 50.), 'line with varying permittivity', 1e-5)
''', 'a line whose shunt admittance varies along the section', 'the shunt admittance at the beginning of the section is used throughout')

seed('b11', 'C07', [('resolveTLparams', "            return self.OD(w,x) / np.exp(self.Z0TL(w,x)/(eta0coax*self.etar(w,x)))", "            return self.OD(w,x) / np.exp(self.Z0TL(w,x)/eta0coax)")], '''
kw = dict(OD=.2, epsr=2.2, rho=1e-6)
Z0 = 30.
eta0 = 376.730313668
ID = .2 / np.exp(Z0 * np.sqrt(2.2) * 2 * np.pi / eta0)
a = rfTRL(L=3., Z0TL=Z0, **kw).getS(50e6)
b = rfTRL(L=3., ID=ID, **kw).getS(50e6)
close(a, b, 'coaxial line given by its outer conductor and impedance', 1e-7)
''', 'a lossy coaxial line given by outer diameter and impedance, filled with a dielectric', 'the inner diameter, and with it the conductor loss, ignores the medium')

seed('b12', 'C07', [('resolveTLparams', "            ('sigma', ('tand', 'epsr'), 0., lambda w, x:                     #52\n                w * self.epsr(w,x) * e0 * self.tand(w,x)", "            ('sigma', ('tand', 'epsr'), 0., lambda w, x:                     #52\n                w * e0 * self.tand(w,x)")], '''
a = rfTRL(L=3., ID=.1, OD=.23, epsr=2.2, tand=1e-3)
w = 2 * np.pi * 50e6
C = 2 * np.pi * 8.8541878128e-12 * 2.2 / np.log(2.3)
close(a.gjwC(w, 0) / (w * C), 1e-3 + 1j, 'loss angle of the medium', 1e-8)
''', 'a loss tangent with a permittivity other than one', 'the medium losses are too small by the relative permittivity')

seed('b13', 'C08', [('rfRLC', "                        if self.Rp != +np.inf:\n                            rcp = (self.Rp - Zbase) / (self.Rp + Zbase)", "                        if self.Rp != +np.inf:\n                            rcp = (self.Rp - self.Zbase) / (self.Rp + self.Zbase)")], '''
a = rfRLC(Rs=3., Cs=1e-10, Rp=20., Zbase=50.)
close(a.getS(0., Zbase=10.), [[1, 0], [0, (20 - 10) / (20 + 10)]], 'RLC at zero frequency')
''', 'zero frequency, a series capacitor, a shunt resistor without shunt inductor and another reference impedance', 'the response at zero frequency is given at the wrong reference impedance')

seed('b14', 'C09', [('rfCoupler', "                self.kc = 10**(-np.abs(self.kcdB)/20)", "                self.kc = 10**(-self.kcdB/20)")], '''
a = rfCoupler(kcdB=-6., Zbase=50.)
b = rfCoupler(kcdB=6., Zbase=50.)
close(a.getS(40e6), b.getS(40e6), 'coupling given as -6 dB')
''', 'a coupling given in negative dB', 'the coupling exceeds one')

seed('b15', 'C09', [('rfCoupler', "        N = s1k2 * cosblc + 1j*sinblc", "        N = s1k2 * cosblc + 1j*np.abs(sinblc)")], '''
a = rfCoupler(kc=.6, f0Hz=40e6, Zbase=50.)
S = a.getS(100e6)
close(S @ S.conj().T, np.eye(4), 'power conservation')
bl = np.pi / 2 * 100 / 40
D = .8 * np.cos(bl) + 1j * np.sin(bl)
close(S[0, 1], .8 / D, 'transmission')
''', 'a frequency between two and four times the design frequency', 'the phase of transmission and coupling has the wrong sign')

seed('b16', 'C10', [('rfObject', "                A = np.unwrap(np.angle(self.Ss),axis=0)", "                A = np.unwrap(np.angle(self.Ss))")], '''
fs = np.linspace(30e6, 60e6, 13)
T = rfTRL(L=8., Z0TL=50., Zbase=50.)
o = rfObject(ports=['a', 'b'], interp='MA', Zbase=50.)
o.setS(fs, T.getS(fs))
f = .5 * (fs[4] + fs[5])
close(o.getS(f)[0, 1], T.getS(f)[0, 1], 'interpolated transmission', 1e-3)
for f in fs[:-1] + .5 * np.diff(fs):
    close(o.getS(f)[0, 1], T.getS(f)[0, 1], 'interpolated transmission', 1e-2)
''', 'interpolation in magnitude and angle where the phase wraps between two stored points', 'the phases are unwrapped along the ports instead of the frequencies')

seed('b17', 'C14', [('rfObject', "        d.update(interpOK=False, interpA=None, interpM=None)", "        d.update(interpA=None, interpM=None)")], '''
o = rfObject(ports=['a', 'b'], Zbase=50.)
o.setS([1e6, 2e6, 3e6], [np.eye(2) * k * .1 for k in (1, 2, 4)])
s = o.getS(1.5e6)
p = pickle.loads(pickle.dumps(o))
close(p.getS(1.5e6), s, 'unpickled object')
''', 'pickling after a query between the stored frequencies', 'the unpickled object believes that its interpolation is ready')

seed('b18', 'C10', [('rfObject', "        self.Ss = self.Ss[:,:,idxs][:,idxs,:]\n", "        self.Ss = self.Ss[:,:,idxs][:,np.argsort(idxs),:]\n")], '''
rng = np.random.default_rng(1)
S = rng.normal(size=(2, 3, 3)) + 0j
o = rfObject(ports=['a', 'b', 'c'], Zbase=50.)
o.setS([1e6, 2e6], S)
o.sortports(['c', 'a', 'b'])
i = [2, 0, 1]
close(o.getS(1e6), S[0][np.ix_(i, i)], 'sorted ports')
''', 'a cyclic re-ordering of at least three ports (exchanging two of them is right)', 'rows and columns are permuted in opposite directions')

seed('b19', 'C11', [('rfBase', "            Ss = self.getS(fs)\n", "            Ss = self.getS(fs, Zbase=Zbase)\n")], '''
S = np.array([[[.1, .2j], [.3, -.4]], [[.5, .1], [0., .2j]]])
b = rfBase(Ss=S, fs=[1e6, 2e6], ports=['a', 'b'], Zbase=50.)
t = b.tsf2str(fs=[2e6], Zbase=20.)
o = rfObject(touchstone=t, Zbase=50.)
close(o.getS(2e6, Zbase=50.), S[1], 'written with selected frequencies at 20 Ohm, read back', 1e-5)
''', 'text requested for selected frequencies together with a reference impedance other than the object\'s', 'the reference impedance is converted twice')

seed('b20', 'C11', [('WriteTSF', "                    s += tnumfmt % (20.*np.log10(np.abs(dij)),\n", "                    s += tnumfmt % (20.*np.log10(max(np.abs(dij), 1e-3)),\n")], '''
from pyRFtk.WriteTSF import WriteTSF
o = rfObject(ports=['a', 'b'], Zbase=50.)
o.setS([1e6, 2e6], [[[.5, 2e-4], [1e-5, .3]], [[.5, 1e-4], [1e-5, .3]]])
t = WriteTSF(o, '', tsf_format='MHZ S DB R 50', fs=[1e6, 2e6])
p = rfObject(touchstone=t, Zbase=50.)
close(np.abs(p.getS(1e6)), np.abs(o.getS(1e6)), 'small coefficients in dB', 1e-6)
''', 'the dB format with coefficients below -60 dB', 'small coefficients are raised to -60 dB')

seed('b21', 'C12', [('ReadTSF', "            Ss = ConvertGeneral(TZbase if TZbase else 50., Ss, Zcs, 'P', 'V')\n                \n", "            Ss = ConvertGeneral(TZbase if TZbase else 50., Ss, Zcs[0], 'P', 'V')\n                \n")], '''
from pyRFtk.ReadTSF import ReadTSF
t = """! Touchstone file exported from HFSS 2019.3.0
!Data is not renormalized
# MHZ S RI
30 0.1 0.2 0.5 0. 0.5 0. 0.3 0.
! Gamma ! 0. 1. 0. 1.
! Port Impedance 20. 0. 30. 0.
40 0.1 0.2 0.5 0. 0.5 0. 0.3 0.
! Gamma ! 0. 1.2 0. 1.2
! Port Impedance 25. 0. 60. 0.
"""
S = np.array([[.1 + .2j, .5], [.5, .3]])
r = ReadTSF(t, Zbase=50.)
close(r['Ss'], [ConvertGeneral(50., S, z, 'P', 'V') for z in ([20., 30.], [25., 60.])], 'impedances per frequency')
''', 'port impedance comments that change with the frequency', 'the impedances of the first frequency are used for all')

seed('b22', 'C12', [('ReadTSF', "        elif Zline or (lastline == 'impedance' and not aline):", "        elif Zline:")], '''
from pyRFtk.ReadTSF import ReadTSF
t = """! Touchstone file exported from HFSS 2019.3.0
!Data is not renormalized
# MHZ S RI
"""
S = np.diag([.1, .2, .3, .4, .5]) + .02
for f in (30, 40):
    t += '%d' % f + '\\n'.join(' '.join('%g 0' % x for x in r) for r in S) .join(('  ', '\\n'))
    t += '! Gamma ! ' + '0 1 ' * 4 + '\\n! 0 1\\n! Port Impedance ' + '20 0 ' * 4 + '\\n! 30 0\\n'
try:
    r = ReadTSF(t, Zbase=50.)
except Exception as e:
    print('WRONG', e)
    sys.exit(1)
close(r['Ss'][1], ConvertGeneral(50., S, [20.] * 4 + [30.], 'P', 'V'), 'five ports')
''', 'a file with more than four ports whose port impedance comments are continued on a second line', 'the continuation lines are lost and the file is refused')

seed('b23', 'C13', [('rfTRL', "        Ahash = tuple(As.tolist())\n", "        Ahash = tuple(np.abs(As).tolist())\n")], '''
a = rfTRL(L=2., Z0TL=30., Zbase=50.)
f = 40e6
a.maxV(f, {'1': 1., '2': 1.}, 50.)
m = a.maxV(f, {'1': 1., '2': -1.}, 50.)
n = rfTRL(L=2., Z0TL=30., Zbase=50.).maxV(f, {'1': 1., '2': -1.}, 50.)
close(m[0], n[0], 'second excitation with the same magnitudes')
''', 'two analyses of one line at the same frequency whose excitations differ in phase only', 'the standing wave of the first is returned again')

seed('b24', 'C17', [('rfTRL', "        Ahash = tuple(As.tolist())\n", "        Ahash = tuple(np.round(As, 9).tolist())\n")], '''
a = rfTRL(L=2., Z0TL=30., Zbase=50.)
f = 40e6
m1 = a.maxV(f, {'1': 1e-12, '2': 0.}, 50.)[0]
m2 = a.maxV(f, {'1': 5e-12, '2': 0.}, 50.)[0]
close(m2 / m1, 5., 'scaling with a weak excitation')
''', 'several analyses with very weak excitations', 'weak excitations are not distinguished: linearity is lost')

seed('b25', 'C15', [('rfCircuit', "                    modified |= obj.set(**val)\n", "                    modified = obj.set(**val)\n")], '''
c = rfCircuit(Zbase=50.)
c.addblock('a', rfRLC(Rs=10.))
c.addblock('b', rfRLC(Rp=20.))
r = c.set({'a.Rs': 11., 'b.Rp': 20.})
true(r, 'set reports that nothing was changed')
''', 'several settings in one call, the last of which leaves its element as it is', 'the call reports that nothing was modified')

seed('b26', 'C16', [('rfObject', "        s += '# %d frequencies\\n' % len(self.fs)\n", "        self.fs.sort()\n        s += '# %d frequencies %s\\n' % (len(self.fs), self.fs[[0, -1]] if len(self.fs) else '')\n")], '''
o = rfObject(ports=['a'], Zbase=50.)
o.setS([3e6, 1e6, 2e6], [[[.3]], [[.1]], [[.2]]])
str(o)
close(o.getS(3e6), [[.3]], 'after printing')
''', 'printing a table whose points were supplied out of order, before the first interpolation', 'the frequencies are sorted without their matrices')

seed('b27', 'C22', [('rfCircuit', "                blkports = f'->{blkID}.'\n", "                blkports = f'->{blkID}'\n")], '''
c = rfCircuit(Zbase=50.)
c.addblock('L10', rfTRL(L=2., Z0TL=30.))
c.addblock('L1', rfTRL(L=1.5, Z0TL=60.))
c.connect('L10.2', 'L1.1')
f = 40e6
m, w, v = c.maxV(f, {'L10.1': 1., 'L1.2': .5j})
s = c.Solution(f, {'L10.1': 1., 'L1.2': .5j})
close(v[c.Id]['L1'][1][0], abs(s['L1.1'][0]), 'standing wave at the start of L1')
''', 'two blocks of which the name of one begins with the name of the other that was added later', 'the excitation of the second block is taken from the first: wrong standing waves and maximum voltage')

seed('b28', 'C17', [('maxfun', "    xymax = [xs[-1], ys[-1]] if ys[-1] > ys[0] else [xs[0],ys[0]]", "    xymax = [xs[0],ys[0]]")], '''
a = rfTRL(L=.5, Z0TL=30., Zbase=30.)
f = 40e6
m = a.maxV(f, {'1': 1., '2': .5 * np.exp(-2j)}, 30.)
xs, (V, I, _) = a.VISWs(f, {'1': 1., '2': .5 * np.exp(-2j)}, 30.)
true(m[0] >= np.max(np.abs(V)) - 1e-9, 'maximum %g below the largest of the standing wave %g' % (m[0], np.max(np.abs(V))))
''', 'a line along which the voltage rises up to the end', 'the end of the section is not considered')

seed('b29', 'C18', [('rfCircuit', "                            xst = xpos[0]+(xs-xs[0])*(xpos[1]-xpos[0])/(xs[-1]-xs[0])", "                            xst = xpos[0]+(xs-xs[0])")], '''
c = rfCircuit(Zbase=50.)
c.addblock('a', rfTRL(L=1.5, Z0TL=30., xpos=[1.5, 0.]), relpos=2.)
m, w, v = c.maxV(40e6, {'a.1': 1., 'a.2': 0.})
x = v[c.Id]['a'][0]
close([x[0], x[-1]], [3.5, 2.], 'positions along a reversed section')
''', 'a line section with port positions that run against its length (or are scaled)', 'the standing wave is placed beyond the section')

seed('b30', 'C18', [('rfTRL', "            self.xpos = [xpos, self.L + xpos]", "            self.xpos = [xpos, self.L]")], '''
c = rfCircuit(Zbase=50.)
c.addblock('a', rfTRL(L=1.5, Z0TL=30., xpos=.7), relpos=2.)
close([c.getpos('a.1'), c.getpos('a.2')], [2.7, 4.2], 'positions')
''', 'a line section with a start position given as a number', 'the second port is misplaced by the start position')

seed('b31', 'C19', [('rfObject', "                        Sobj = Sobj + Sobj[:,[kp]] @ q11\n", "                        Sobj = Sobj.copy()\n")], '''
D = np.array([[.2, .3j, .1], [.3j, -.1, .2], [.1, .2, .4]])
f = 40e6
c = rfCircuit(Zbase=50., Portnames=['a', 'L.2', 'b'])
c.addblock('D', rfObject(D, ports=['1', '2', '3'], Zbase=50.))
c.addblock('L', rfTRL(L=.8, Z0TL=20., Zbase=50.))
c.connect('D.2', 'L.1')
c.connect('D.1', 'a')
c.connect('D.3', 'b')
o = rfObject(ports=['a', 'x', 'b'], Zbase=50.)
o.setS([f], [c.getS(f)])
o.deembed({'x': (.8, 20.)})
close(o.getS(f), D, 'de-embedded device', 1e-7)
''', 'de-embedding a line whose impedance differs from the reference impedance, on a device with several ports', 'the reflection of the line is not removed from the other ports')

seed('b32', 'C19', [('rfObject', "                        bk_new[0,kp] = bk_new[0,kp] * Strl[0,1] + Strl[1,1]\n", "                        bk_new[0,kp] = bk_new[0,kp] * Strl[0,1] + Strl[0,0]\n")], '''
D = np.array([[.2, .3j], [.3j, -.1]])
f = 40e6
kw = dict(L=.8, Z0TL=[20., 35., 60.], Zbase=50.)
c = rfCircuit(Zbase=50., Portnames=['a', 'L.2'])
c.addblock('D', rfObject(D, ports=['1', '2'], Zbase=50.))
c.addblock('L', rfTRL(**kw))
c.connect('D.2', 'L.1')
c.connect('D.1', 'a')
o = rfObject(ports=['a', 'x'], Zbase=50.)
o.setS([f], [D])
o.deembed({'x': kw})
close(o.getS(f), c.getS(f), 'port moved along a tapered line', 1e-7)
''', 'moving a port along a section, described by a dictionary, that is not symmetric (e.g. a taper)', 'the reflection of the wrong end of the section is used')

seed('b33', 'C20', [('rfCircuit', '''        idxBs = [self.waves.index('<-'+p) for p in ports] # <===== also need to change for different port order
''', '''        idxBs = [self.waves.index('<-'+p) for p in self.E] # <===== also need to change for different port order
''')], '''
S = np.arange(1, 10).reshape(3, 3) / 20 + 0j
c = rfCircuit(Zbase=50.)
c.addblock('a', S, ports=['x', 'y', 'z'])
close(c.getS(1e6), S, 'first order')
c.Portnames = ['a.z', 'a.x', 'a.y']
i = [2, 0, 1]
close(c.getS(2e6), S[np.ix_(i, i)], 'order announced after a query')
''', 'a port order announced anew after the circuit was interrogated', 'the rows of the matrix keep the old order while the columns follow the new one')

seed('b34', 'C21', [('rfCoupler', "        A, B = s1k2 / N, 1j * self.kc * sinblc / N", "        A, B = s1k2 / N, 1j * self.kc / N")], '''
c = rfCircuit(Zbase=50.)
c.addblock('h', rfCoupler(kc=.6, f0Hz=40e6, Zbase=50.))
c.terminate('h.B2', Z=0)
S = c.getS(55e6)
close(S.conj().T @ S, np.eye(3), 'lossless network')
''', 'a coupler with a design frequency used at another frequency', 'the coupler generates power off its design frequency')

seed('b35', 'C22', [('rfCircuit', "                subblockobj = self.blocks[name]['object'].copy()\n", "                subblockobj = self.blocks[name]['object']\n")], '''
s = rfCircuit(Zbase=50.)
s.addblock('e', rfRLC(Rs=10.))
s.terminate('e.p', Z=20.)
c = rfCircuit(Zbase=50.)
c.addblock('a', s)
c.addblock('b', s)
c.addblock('a.e', rfRLC(Rs=40.))
close(np.diag(c.getS(1e6)), [(60 - 50) / 110, (30 - 50) / 80], 'only the addressed instance changes')
''', 'a sub-circuit used in two places, one of which gets a nested block replaced', 'the replacement also affects the other place')

seed('b36', 'C23', [('rfCircuit', '''        elif len(newports) and '.' in newports[0]:
            raise ValueError(
                f"{whoami(__package__)}: a new port name can't contain a '.'"  
            )
''', ''), ('rfCircuit', '''        for p in newports:
            self.waves.append('->'+p)
            self.waves.append('<-'+p) 
''', '''        for p in newports:
            self.waves.append('->'+p)
            self.waves.append('<-'+p) 
            if '.' in p:
                raise ValueError(
                    f"{whoami(__package__)}: a new port name can't contain a '.'"  
                )
''')], '''
c = rfCircuit(Zbase=50.)
c.addblock('a', rfRLC(Rs=10.))
try:
    c.connect('a.s', 'x.y')
except ValueError:
    pass
c.terminate('a.p', Z=20.)
try:
    c.connect('a.s', 'x')
    S = c.getS(1e6)
except Exception as e:
    print('WRONG', e)
    sys.exit(1)
close(S, [[(30 - 50) / 80]], 'after a refused connection')
''', 'a connection refused because of an invalid new port name, after which the circuit is used', 'the refused port leaves its waves in the circuit, which can not be solved any more')

seed('b37', 'C24', [('rfObject', "        return np.array(Ss)\n", "        return np.asarray(Ss)\n")], '''
o = rfObject(ports=['a'], Zbase=50.)
o.setS([1e6, 2e6], [[[.3]], [[.1]]])
S = o.getS(1e6)
S *= 0
close(o.getS(1e6), [[.3]], 'after the caller changed the result')
''', 'modifying the matrix returned for a single stored frequency', 'the stored data changes')

seed('b38', 'C25', [('findpath', "            for root, dirs, files in os.walk(sdir):  # @UnusedVariable", "            for root, dirs, files in os.walk(tdir):  # @UnusedVariable")], '''
os.environ['HOME'] = _T
os.makedirs('sub/deep')
open('sub/deep/m.txt', 'w').write('x')
from pyRFtk.findpath import existspath
true(existspath('m.txt', userdirs=['~/sub']).endswith('sub/deep/m.txt'), 'file below ~/sub not found')
''', 'a search directory that starts with ~', 'the directory exists but is not searched')

seed('b39', 'C25', [('findpath', "                    fname = sorted(fnames)[-1]  # take the first / last\n", "                    fname = fnames[-1]  # take the first / last\n")], '''
import random
from pyRFtk.findpath import findpath
bad = 0
for t in range(6):
    d = 'd%d' % t
    os.mkdir(d)
    n = ['f%03d.txt' % k for k in range(40)]
    random.Random(t).shuffle(n)
    for k in n:
        open(d + '/' + k, 'w').write('x')
    bad += not findpath('f*.txt', userdirs=[d]).endswith('f039.txt')
true(not bad, 'not the last matching name')
''', 'several matching files whose directory order is not alphabetical', 'an arbitrary match is returned instead of the last one')

seed('b40', 'C26', [('rfGTL', "                        tblock['xpos'] = positions[p] - xp\n", "                        tblock['xpos'] = positions[p] - obj.xpos[0]\n")], '''
open('a.modX', 'w').write("""{'X': {'Portnames': ['p'], 'relpos': {'p': 5.},
 'GTL': {'b': {'ports': ['m', 'n'], 'L': 2., 'Z': 30.}, 'a': {'ports': ['n', 'p'], 'L': 1., 'Z': 20.},
         'z': {'ports': ['m', '[oc]'], 'L': .5, 'Z': 20.}}}}""")
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    g = rfGTL('a.modX', objkey='X')
close([g.getpos('a.n'), g.getpos('b.m')], [4., 2.], 'positions found from the anchor of the last port')
''', 'a chain of sections whose anchor is at the second port of a section', 'the positions of the sections before it are wrong')

seed('b41', 'C26', [('rfGTL', "                    tkwargs[kw] = [v * conv[kw] for v in tkwargs[kw]]" if False else "                    elif p == '[sc]':\n                        terminated = {'Z':0}, '[sc]'", "" if False else "                    elif p == '[sc]' and kp:\n                        terminated = {'Z':0}, '[sc]'")], '''
open('a.modX', 'w').write("""{'X': {'Portnames': ['p'],
 'GTL': {'a': {'ports': ['[sc]', 'p'], 'L': 1., 'Z': 20.}}}}""")
import io, contextlib
try:
    with contextlib.redirect_stdout(io.StringIO()):
        g = rfGTL('a.modX', objkey='X')
        S = g.getS(40e6, Zbase=20.)
except Exception as e:
    print('WRONG', e)
    sys.exit(1)
close(S, [[-np.exp(-4j * np.pi * 40e6 / 299792458.)]], 'stub with its short circuit first', 1e-6)
''', 'a stub that is short-circuited at its first port', 'the short circuit is taken as a port name')

seed('b42', 'C27', [('compareSs', "                ph = np.angle(Sk[:,kr,kc])", "                ph = np.angle(Sk[:,kc,kr])")], '''
import matplotlib.pyplot as pl
from pyRFtk.compareSs import compareSs
S = np.array([[[.1, .2j], [.3, -.4]], [[.5, .1], [.2 - .1j, .2j]]])
compareSs(np.array([1., 2.]), [S])
y = [l.get_ydata() for ax in pl.gcf().axes if 'phase' in ax.get_title() and '21' in ax.get_title() for l in ax.lines]
close(y, [np.angle(S[:, 1, 0])], 'phase of S21')
''', 'comparing non-reciprocal data', 'the phase shown for S21 is the one of S12')

seed('b43', 'C27', [('plotVSWs', "                        curdist2, curBLK, curUp, curX = ndist2, f'{BLK}.{nblk}', tUp, tX" if False else "            if isinstance(val, dict):\n                scaleVSW" if False else "        if isinstance(val, dict):\n            s += strVSW(val,indent+1)", "        if isinstance(val, dict):\n            s += strVSW(val,indent+1) if indent < 4 else ''")], '''
from pyRFtk.plotVSWs import strVSW
v = {'n': ([1.], [2.])}
for k in range(6):
    v = {'b%d' % k: v}
true('2.000' in strVSW(v), 'deeply nested data missing')
''', 'standing-wave data nested more than five levels deep', 'the text leaves out the deeper levels')

seed('b44', 'C20', [('rfCircuit', '''                oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                # possibly the user supplied non-existing port names
                if ports:
                    raise ValueError(
                        f'{whoami(__package__)}["{name}"]: ports {ports} not defined')
        
        if not oports: #''', '''                oports = [ports.get(_p, _p) for _p in RFobj.ports]
                # possibly the user supplied non-existing port names
                if len(ports) > N:
                    raise ValueError(
                        f'{whoami(__package__)}["{name}"]: ports {ports} not defined')
        
        if not oports: #''')], '''
c = rfCircuit(Zbase=50.)
try:
    c.addblock('a', rfRLC(Rs=10.), {'x': 'in'})
except ValueError:
    sys.exit(0)
true(False, 'an unknown port name in the mapping was accepted')
''', 'a mapping of port names with a name the object does not have', 'the wrong name is silently ignored')

seed('b45', 'C03', [('rfTRL', '''            if Zbase and Zbase != self.Zbase:
                M = ConvertGeneral(Zbase,M,self.Zbase)
            
            return M
        
        self.set(**params)''', '''            if Zbase and Zbase != self.Zbase and self.L > 0:
                M = ConvertGeneral(Zbase,M,self.Zbase)
            
            return M
        
        self.set(**params)''')], '''
a = rfTRL(L=-.7, Z0TL=30., Zbase=50.)
S = a.getS(40e6, Zbase=20.)
close(S, ConvertGeneral(20., a.getS(40e6), 50.), 'line of negative length at 20 Ohm')
''', 'a section of negative length (as used to remove a line) at another reference impedance than its own', 'the matrix is returned at the reference impedance of the object')

seed('b46', 'C02', [('rfCircuit', '''                    Vf = (Vk + Zbase * Ik) / 2
                    Vr = (Vk - Zbase * Ik) / 2
''', '''                    Vf = self.sol[kf]
                    Vr = self.sol[kr]
''')], '''
c = rfCircuit(Zbase=50.)
c.addblock('a', rfRLC(Rs=10.))
c.addblock('b', rfRLC(Rp=20.))
c.connect('a.p', 'b.s')
s = c.Solution(1e6, {'a.s': 1., 'b.p': 0.}, Zbase=20.)
for n, (V, I, A, B) in s.items():
    close([A + B, A - B], [V, 20. * I], 'waves at ' + n)
''', 'a solution requested at another reference impedance than the circuit', 'the waves are reported at the reference impedance of the circuit')

# ---- third batch

seed('b47', 'C13', [('rfCircuit', '''            self.M[eqn, idxA] = -1.
            self.M[eqn, idxB] = rho
            self.eqns[eqn]''', '''            self.M[eqn, idxB] = rho
            self.eqns[eqn]''')], '''
def build():
    c = rfCircuit(Zbase=50.)
    c.addblock('a', np.array([[.1, .5, .2], [.4, .2j, .3], [.1, .2, -.3]]), ports=['x', 'y', 'z'])
    return c
c, d = build(), build()
c.getS(1e6)
for q in (c, d):
    q.terminate('a.y', RC=.5)
close(c.getS(1e6), d.getS(1e6), 'terminated after it was interrogated')
''', 'a port terminated by a reflecting load after the circuit was interrogated', 'the sign of the reflection is wrong')


seed('b50', 'C18', [('rfCircuit', "                relpos += block['xpos']", "                relpos = relpos + block['xpos'] if obj is self else block['xpos']")], '''
a = rfCircuit(Zbase=50.)
a.addblock('l', rfTRL(L=1., Z0TL=30., Zbase=50.), relpos=.25)
a.connect('l.1', 'in')
b = rfCircuit(Zbase=50.)
b.addblock('a', a, relpos=.5)
b.connect('a.in', 'in')
c = rfCircuit(Zbase=50.)
c.addblock('b', b, relpos=2.)
close(c.getpos('b.a.l.1'), 2.75, 'position of a port three levels down')
''', 'a position asked for a port at least two levels below, the levels being placed off their origin', 'the position of the upper level is lost')

seed('b51', 'C17', [('rfCircuit', '''                        t1, n1, VSW = obj.maxV(f, Ek, self.Zbase, blkID,''', '''                        t1, n1, VSW = obj.maxV(f, Ek, Zbase, blkID,''')], '''
c = rfCircuit(Zbase=50.)
c.addblock('l', rfTRL(L=1.3, Z0TL=30., Zbase=50.))
s = c.Solution(40e6, {'l.1': 1., 'l.2': .2j}, Zbase=20.)
v, w, W = c.maxV(40e6, {'l.1': 1., 'l.2': .2j}, Zbase=20.)
close(list(W.values())[0]['l'][1][0], abs(s['l.1'][0]), 'voltage at the beginning of the line')
''', 'an analysis with the excitations given at another reference impedance than the one of the circuit', 'the waves are passed on at the wrong reference impedance')

seed('b52', 'C02', [('rfCircuit', '''                    tSolr = obj.Solution(f, Ek, Zbase, snodesleft, flags=flags)''', '''                    tSolr = obj.Solution(f, Ek, None, snodesleft, flags=flags)''')], '''
a = rfCircuit(Zbase=50.)
a.addblock('r', rfRLC(Rs=10.))
a.addblock('q', rfRLC(Rs=10.))
a.connect('r.p', 'q.s')
c = rfCircuit(Zbase=50.)
c.addblock('a', a)
s = c.Solution(1e6, {'a.r.s': 1., 'a.q.p': 0.}, Zbase=20.)
close(s['a.r.p'][1], -2 / 60., 'current through the resistor')
''', 'a solution below the top level at another reference impedance', 'the excitation passed down is taken at the wrong impedance')

seed('b57', 'C10', [('rfObject', "            k = np.where(self.fs == fk)[0]", "            k = np.where(np.isclose(self.fs, fk, rtol=1e-4))[0]")], '''
a = rfObject(ports=['1'], interp='RI')
f = np.linspace(30e6, 60e6, 4)
a.setS(f, [[[x]] for x in (.1, .4, -.2, .3)])
close(a.getS(40.003e6), a.getS(np.array([40.003e6 + 1e4]))[0] * 0 + rfObject.getS(a, 40.003e6), 'x')
h = 3e3
s = [a.getS(40e6 + k * h)[0, 0] for k in (1, 2, 3)]
true(abs(s[0] - 2 * s[1] + s[2]) < abs(s[2] - s[1]) / 3, 'interpolated values jump: %s' % s)
''', 'a query very near to, but not at, a stored frequency', 'the stored value is returned instead of the interpolated one')

seed('b61', 'C26', [('rfGTL', '''            if found:
                self.vars.update(found)''', '''            if found:
                self.vars.update(found)
                found = {}''')], '''
import contextlib, io
m = {'variables': {'a': 'b*2', 'b': 'c + 1.', 'c': 2.},
     'X': {'Portnames': ['p', 'q'], 'GTL': {'l': {'ports': ['p', 'q'], 'L': 'a', 'Z0TL': 30.}}}}
open('m.modX', 'w').write(repr(m))
try:
    with contextlib.redirect_stdout(io.StringIO()):
        g = rfGTL('m.modX', objkey='X')
        S = g.getS(40e6, Zbase=50.)
except Exception as e:
    print('WRONG', e)
    sys.exit(1)
close(S, rfTRL(L=6., Z0TL=30., Zbase=50.).getS(40e6), 'model with variables in terms of others')
''', 'variables defined in terms of others that are themselves expressions', 'the model is refused')

seed('b62', 'C14', [('rfRLC', "                other.__dict__[attr] = copy.deepcopy(val)", "                other.__dict__[attr] = copy.copy(val) if attr != 'kwargs' else val")], '''
a = rfRLC(Rs=10.)
b = a.copy()
b.set(Rs=20.)
true(a.kwargs.get('Rs') == 10., 'the copy changed the arguments of the original')
''', 'a copy that is modified afterwards', 'copy and original share their record of arguments')

seed('b54', 'C05', [('ConvertGeneral', '            QVa, QVb = Zd * iRd, Zd * iRd ', '            QVa, QVb = Zd * iRd, np.conj(Zd) * iRd ')], '''
S = np.array([[.1, .2j], [.3, .4]])
Z = np.array([20 + 5j, 30 - 8j])
V = ConvertGeneral(50., S, Z, 'P', 'V')
# definition: a = (V + Z I) / 2 sqrt(Z), b = (V - Z I) / 2 sqrt(Z)
A = np.eye(2)
B = S
U, I = np.diag(np.sqrt(Z)) @ (A + B), np.diag(1 / np.sqrt(Z)) @ (A - B)
close(V, (U - 50 * I) @ np.linalg.inv(U + 50 * I), 'conversion of power waves')
''', 'power waves with complex impedances at several ports', 'the reflected voltage is reconstructed with the conjugate impedance')

seed('b55', 'C08', [('rfRLC', '                            rcp = +1', '                            rcp = -1 if self.Cp == 0. else +1')], '''
a = rfRLC(Cs=1e-9)
close(a.getS(0.), [[1, 0], [0, 1]], 'series capacitor at zero frequency')
''', 'zero frequency, a series capacitor and nothing in shunt', 'the open port is shorted')


seed('b60', 'C12', [('ReadTSF', "                    items = [float(s) for s in aline.split('!',1)[0].split()]", "                    items = [float(s) for s in aline.split(' !',1)[0].split()]")], '''
try:
    a = rfObject(touchstone='# MHZ S RI R 50\\n40. .1 .2! remark\\n', Zbase=50.)
except ValueError:
    true(False, 'a remark directly behind the data is not accepted')
close(a.getS(40e6), [[.1 + .2j]], 'remark directly behind the data')
''', 'a remark that follows the data without a space', 'the file is refused')


seed('b65', 'C17', [('maxfun', '''            if xy[1] > xymax[1]:
                xymax = xy
        else:''', '''            xymax = xy
        else:''')], '''
a = rfTRL(L=7., Z0TL=30., Zbase=50., rTL=2.)
v, w, (x, V) = a.maxV(60e6, {'1': 1., '2': 0.})
true(v > .999 * max(V), 'maximum %g of values up to %g' % (v, max(V)))
''', 'a lossy line of several wavelengths fed at its beginning', 'the last local maximum is reported')

seed('b66', 'C07', [('resolveTLparams', "            gwC = - (1 + 2 * u2) * rwL", "            gwC = - (1 + u2) * rwL")], '''
a = rfTRL(L=1., Z0TL=30., vr=.8, A=.2, rTL=.3, Zbase=50.)
w = 2e6 * np.pi * 40.
close(np.real(a.TLP.gamma(w, 0)), .2, 'attenuation of the line')
''', 'a line given by its attenuation and its series resistance', 'the attenuation obtained is not the one given')

seed('b67', 'C03', [('rfCircuit', "                M = self.sNp.getS(f, Zbase=self.Zbase)", "                M = self.sNp.getS(f)")], '''
open('x.s1p', 'w').write('# MHZ S RI R 50\\n40. .1 .2\\n50. .3 .1\\n')
c = rfCircuit(Zbase=20., sNp='x.s1p')
close(c.getS(40e6), ConvertGeneral(20., [[.1 + .2j]], 50.), 'circuit described by data')
''', 'a circuit described by data and with another reference impedance than 50 Ohm', 'the matrix is at the reference impedance of the data')

seed('b68', 'C07', [('resolveTLparams', "                    return (lambda w, x: p(x,w)), ddw, ddx", "                    return (lambda w, x: p(w,x)), ddw, ddx")], '''
f = lambda x, w: 30. + x
a = rfTRL(L=1., Z0TL=f, Zbase=50.)
close(a.TLP.Z0TL(1e8, .5), 30.5, 'impedance of the line')
''', 'a line property given by a function of (x, w)', 'position and frequency are exchanged')

seed('b69', 'C26', [('rfGTL', '''        self.vars = dict(self.locvars)''' , '''        self.vars = dict(self.glovars)'''), ('rfGTL', '''        self.vars.update(self.glovars)''', '''        self.vars.update(self.locvars)''')], '''
import contextlib, io
m = {'X': {'variables': {'a': 2.}, 'Portnames': ['p', 'q'], 'GTL': {'l': {'ports': ['p', 'q'], 'L': 'a', 'Z0TL': 30.}}}}
open('m.modX', 'w').write(repr(m))
with contextlib.redirect_stdout(io.StringIO()):
    g = rfGTL('m.modX', objkey='X', variables={'a': 3.})
    S = g.getS(40e6, Zbase=50.)
close(S, rfTRL(L=3., Z0TL=30., Zbase=50.).getS(40e6), 'model with a variable given by the user')
''', 'a variable given by the user that the model defines locally', 'the value of the user is ignored')


seed('b49', 'C13', [('rfTRL', '''                self.xpos = [self.xpos[0], self.L + self.xpos[0]]
        
        self.solved = {}''', '''                self.xpos = [self.xpos[0], self.L + self.xpos[0]]
        
        if 'L' in kwargs or not kwargs:
            self.solved = {}''')], '''
a = rfTRL(L=1., Z0TL=30., Zbase=50.)
b = rfTRL(L=1., Z0TL=30., Zbase=50., dx=360)
E = {'1': 1., '2': .2}
a.maxV(40e6, E, Zbase=50.)
a.set(dx=360)
close(a.maxV(40e6, E, Zbase=50.)[2][1], b.maxV(40e6, E, Zbase=50.)[2][1], 'standing wave with a finer step')
''', 'a parameter other than the length set between two equal analyses', 'the previous standing wave is returned')

seed('b71', 'C15', [('rfCircuit', "                    modified |= obj.set(rest, val)\n", "                    modified = modified or obj.set(rest, val)\n")], '''
def make():
    s = rfCircuit(Zbase=50.)
    s.addblock('A', rfRLC(Rs=1.), ports=['a', 'b'])
    s.addblock('B', rfRLC(Rs=2.), ports=['a', 'b'])
    s.connect('A.b', 'B.a')
    c = rfCircuit(Zbase=50.)
    c.addblock('S', s, ports={'A.a': 'x', 'B.b': 'y'})
    return c
c, d = make(), make()
c.set({'S.A.Rs': 5., 'S.B.Rs': 7.})
d.set('S.A.Rs', 5.)
d.set('S.B.Rs', 7.)
close(c.getS(1e6), d.getS(1e6), 'two parameters of a nested circuit set together')
''', 'two parameters below a nested circuit set by one request', 'only the first one is applied')

seed('b72', 'C17', [('rfCircuit', "                if Vk > tmax:\n                    tmax, nmax = Vk, Id+'.'+w[2:]", "                if Vk > tmax and w[2:] not in self.T:\n                    tmax, nmax = Vk, Id+'.'+w[2:]")], '''
c = rfCircuit(Zbase=50.)
c.addblock('m', np.array([[.1, .8], [.8, .5]]), ports=['a', 'b'])
c.terminate('m.b', Y=0)
E = {'m.a': 1.}
v = abs(c.Solution(40e6, E, nodes=[])['m.b'][0])
close(c.maxV(40e6, E)[0], max(v, abs(c.Solution(40e6, E, nodes=[])['m.a'][0])), 'maximum voltage')
''', 'the largest voltage is at a terminated port of a matrix', 'it is not found')

seed('b73', 'C23', [('rfCircuit', """        if len(oports) != N:
            raise ValueError(
                f'{whoami(__package__)}["{name}"]: RFobj len(ports)={len(oports)} '  
                f'and len(RFobj)={N} mismatch')
        
        # check the position parameter xpos
""", """        # check the position parameter xpos
"""), ('rfCircuit', """            'xpos'   : relpos # but this will not work for an np.array
        } 
""", """            'xpos'   : relpos # but this will not work for an np.array
        } 
        
        if len(oports) != N:
            raise ValueError(
                f'{whoami(__package__)}["{name}"]: RFobj len(ports)={len(oports)} '  
                f'and len(RFobj)={N} mismatch')
""")], '''
c = rfCircuit(Zbase=50.)
M = np.array([[.1, .6], [.6, .2]])
try:
    c.addblock('m', M, ports=['a'])
    true(False, 'not refused')
except ValueError:
    pass
c.addblock('m', M, ports=['a', 'b'])
true(c.ports == ['m.a', 'm.b'], 'ports %s' % c.ports)
close(c.getS(1e6), M, 'matrix')
''', 'a block refused because of its list of ports, then added with the right one', 'the refused block is already there')

seed('b75', 'C16', [('rfCircuit', """                
        debug = logit['DEBUG']
        debug and logident(f'>', printargs=True)
        
        Zbase = self.Zbase if Zbase is None else Zbase
        
        # as nodes""", """                
        debug = logit['DEBUG']
        debug and logident(f'> {[(n, self.ports.index(n)) for n in nodes]}')
        
        Zbase = self.Zbase if Zbase is None else Zbase
        
        # as nodes""")], '''
c = rfCircuit(Zbase=50.)
c.addblock('A', rfRLC(Rs=1.), ports=['a', 'b'])
c.addblock('B', rfRLC(Rs=2.), ports=['a', 'b'])
c.connect('A.b', 'B.a')
w = c.Get_internalSmatrix(1e6, ['<A.b', 'B.b'])
setLogLevel('DEBUG')
try:
    close(c.Get_internalSmatrix(1e6, ['<A.b', 'B.b']), w, 'internal S-matrix')
except ValueError as e:
    setLogLevel('CRITICAL')
    true(False, repr(e))
setLogLevel('CRITICAL')
''', 'an S-matrix between internal nodes asked while the diagnostic log is on', 'an error is raised')

seed('b76', 'C06', [('rfTRL', "                gm = (self.rjwL(w,0) * self.gjwC(w,0)) ** 0.5\n", "                gm = (self.rjwL(w,0) * 1j * self.gjwC(w,0).imag) ** 0.5\n")], '''
a = rfTRL(L=3., Z0TL=30., Zbase=50., rTL=20., gTL=.01)
w = 2e6 * np.pi * 20
z, y = a.TLP.rjwL(w, 0), a.TLP.gjwC(w, 0)
from scipy.linalg import expm
T = expm(np.array([[0, z], [y, 0]]) * 3.)
V = np.array([[1, 0], T[0]])
I = np.array([[0, -1], T[1]])
A, B = (V + 50. * I) / 2, (V - 50. * I) / 2
close(a.getS(20e6), ConvertGeneral(50., np.eye(2) * 0, 50.) + (V + 50. * I * np.array([[-1], [-1]]) * -1 - 0) * 0 + REF(V, a), 'lossy line', 1e-7)
'''.replace("""V = np.array([[1, 0], T[0]])
I = np.array([[0, -1], T[1]])
A, B = (V + 50. * I) / 2, (V - 50. * I) / 2
close(a.getS(20e6), ConvertGeneral(50., np.eye(2) * 0, 50.) + (V + 50. * I * np.array([[-1], [-1]]) * -1 - 0) * 0 + REF(V, a), 'lossy line', 1e-7)
""", """V = np.array([[1, 0], T[0]])          # voltages for (V, I) = (1, 0) and (0, 1) at the end
I = np.array([[0, -1], T[1]])         # currents into the ports
close(a.getS(20e6), (V - 50. * I) @ np.linalg.inv(V + 50. * I), 'lossy line', 1e-7)
"""), 'a uniform line with losses', 'the characteristic impedance is that of the lossless line')

seed('b80', 'C24', [('resolveTLparams', "        p = np.array(p)\n", "        p = np.asarray(p)\n")], '''
z = np.array([30.])
a = rfTRL(L=1., Z0TL=z, Zbase=50.)
z[0] = 70.
close(a.getS(40e6), rfTRL(L=1., Z0TL=30., Zbase=50.).getS(40e6), 'line')
''', 'a property given as an array of one value which the caller modifies before the first query', 'the line changes')

seed('b83', 'C22', [('rfCircuit', """                        t1, n1, VSW = obj.maxV(f, Ek, self.Zbase, blkID, 
                                               flags=flags,
""", """                        t1, n1, VSW = obj.maxV(f, Ek, self.Zbase, blkID, 
""")], '''
open('x.s2p', 'w').write('# MHZ S RI R 50\\n40. .1 .2 .3 .4 .3 .4 .1 .2\\n50. .1 .2 .3 .4 .3 .4 .1 .2\\n')
def make(**kw):
    s = rfCircuit(Zbase=20., **kw)
    s.addblock('A', rfTRL(L=1., Z0TL=20.), ports=['a', 'b'])
    c = rfCircuit(Zbase=50.)
    c.addblock('S', s)
    return c
E = {'S.A.a': 1., 'S.A.b': .5}
c, d = make(sNp='x.s2p'), make()
a, b = c.maxV(45e6, E, flags={'sNp': False}), d.maxV(45e6, E)
close(a[2][c.Id]['S']['A'][1], b[2][d.Id]['S']['A'][1], 'voltages in a nested circuit described by data, asked without them')
''', 'a nested circuit described by data asked without them', 'the nested circuit uses its data')

seed('b84', 'C25', [('findpath', "    SEARCH_DIRS += userdirs + appdirs\n", "    userdirs += appdirs\n    SEARCH_DIRS += userdirs\n")], '''
from pyRFtk.findpath import findpath, existspath
os.mkdir('a'); os.mkdir('b')
for d in 'ab':
    open(f'{d}/only_{d}.txt', 'w').write(d)
true(findpath('only_b.txt', ['a'], appdirs=['b']).endswith('only_b.txt'), 'found in the application directories')
mine = ['a']
findpath('only_b.txt', mine, appdirs=['b'])
true(mine == ['a'], "the caller's list of directories")
''', 'a list of directories the caller keeps using', "the caller's list of directories grows; a later search finds files of the directories of an earlier one")

seed('b85', 'C25', [('findpath', "            for root, dirs, files in os.walk(sdir):  # @UnusedVariable\n", "            for root, dirs, files in os.walk(sdir, topdown=False):  # @UnusedVariable\n")], '''
from pyRFtk.findpath import findpath
os.makedirs('a/sub')
open('a/m.txt', 'w').write('top'); open('a/sub/m.txt', 'w').write('sub')
true(os.path.normpath(findpath('m.txt', ['a'])) == os.path.normpath('a/m.txt'), 'the file at the top of the directory')
''', 'files of the same name in a directory and in one of its subdirectories', 'the file of the subdirectory is found')

seed('b86', 'C10', [('rfObject', "            interpkws = self.interpkws.copy()\n", "            interpkws = self.interpkws\n")], '''
a = rfObject(ports=['1'], Zbase=50., interp='RI')
f = np.arange(1., 6.)
s = (.1 * f**2 - .3j * f).reshape(-1, 1, 1) / 5
a.setS(f[:2], s[:2])
a.getS(1.5)
a.setS(f[2:], s[2:])
b = rfObject(ports=['1'], Zbase=50., interp='RI')
b.setS(f, s)
close(a.getS(3.5), b.getS(3.5), 'interpolation after more samples were added')
''', 'a query between samples while the object holds few samples, and more samples added afterwards', 'the order of the interpolation stays that of the few samples')

seed('b87', 'C19', [('rfObject', "                    L, Z = v\n                    TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)\n", "                    L, Z = v\n                    TRL = rfTRL(L=-L, Z0TL=Z, Zbase=Z)\n")], '''
a = rfObject(ports=['1'], Zbase=50.)
f = np.array([40e6, 50e6])
load = np.array([[[.2 + .1j]], [[.3j]]])
c = rfCircuit(Zbase=50.)
true(True, '')
s = []
for k in range(2):
    c = rfCircuit(Zbase=50.)
    c.addblock('T', rfTRL(L=1.2, Z0TL=30.), ports=['in', 'out'])
    c.terminate('T.out', RC=load[k, 0, 0])
    s.append(c.getS(f[k]))
a.setS(f, np.array(s))
a.deembed({'1': (1.2, 30.)})
close(a.getS(f), load, 'deembedded load')
''', 'a length of line with an impedance other than the reference impedance of the data', 'the line is removed as if it were matched to the data')

seed('b88', 'C08', [('rfRLC', "                            rcp = (self.Rp - Zbase) / (self.Rp + Zbase)", "                            rcp = (self.Rs + self.Rp - Zbase) / (self.Rs + self.Rp + Zbase)")], '''
a = rfRLC(Rs=10., Cs=1e-9, Rp=75.)
close(a.getS(0.), [[1, 0], [0, .2]], 'zero frequency, series capacitor')
''', 'zero frequency, a series capacitor, a series and a parallel resistance', 'the series resistance behind the open capacitor is seen from the parallel side')

seed('b89', 'C09', [('rfCoupler', "            self.kc = 10**(-np.abs(self.kcdB)/20)", "            self.kc = 10**(self.kcdB/20)")], '''
a = rfCoupler(kcdB=10., f0Hz=40e6)
close(np.abs(a.getS(40e6)[0, 2]), 10**-.5, 'coupling of a 10 dB coupler')
b = rfCoupler(kcdB=-10., f0Hz=40e6)
close(b.getS(30e6), a.getS(30e6), 'the same coupler')
''', 'a coupling given as a positive number of dB', 'the coupler amplifies')

seed('b90', 'C05', [('ConvertGeneral', "        elif len(Zd.shape) == 1 and Zd.shape[0] == N:", "        elif len(Zd.shape) == 1 and Zd.shape[0] == N and N != nF:")], '''
rng = np.random.default_rng(1)
S = (rng.random((2, 2, 2)) - .5) + 1j * (rng.random((2, 2, 2)) - .5)
z = np.array([20., 70.])
ref = [ConvertGeneral(50., s, z) for s in S]
close(ConvertGeneral(50., S, z), ref, 'as many frequencies as ports, one impedance per port')
''', 'as many frequencies as ports and one impedance per port', 'the conversion is refused')

seed('b91', 'C05', [('ConvertGeneral', "            Zd = np.array(Zd.tolist() * nF).reshape(nF,N)", "            Zd = np.repeat(Zd, nF).reshape(nF,N)")], '''
rng = np.random.default_rng(1)
S = (rng.random((3, 2, 2)) - .5) + 1j * (rng.random((3, 2, 2)) - .5)
z = np.array([20., 70.])
ref = [ConvertGeneral(50., s, z) for s in S]
close(ConvertGeneral(50., S, z), ref, 'several frequencies, one impedance per port')
''', 'several frequencies and different impedances at the ports', 'the impedances are distributed over the frequencies')

seed('b92', 'C11', [('WriteTSF', "            num_format = ('9.5f', '15.12f', '+8.4f')", "            num_format = ('9.5f', '15.12f', '+8.1f')")], '''
a = rfObject(ports=['1'], Zbase=50.)
s = np.array([[.1 + .2j]])
a.setS(40e6, s)
WriteTSF(a, 'x.s1p')
close(rfObject(touchstone='x.s1p').getS(40e6), s, 'read back', 1e-5)
''', 'the default format of the numbers', 'the phases are rounded to a tenth of a degree')

seed('b93', 'C12', [('ReadTSF', "                tokens = ", "                tokens = ")] if False else [('ReadTSF', "                    items = [float(s) for s in aline.split('!',1)[0].split()]", "                    items = [float(s) for s in aline.split(' !',1)[0].split()]")], '''
open('x.s1p', 'w').write('# MHZ S RI R 50\\n40. .1 .2!first\\n50. .3 .4\\t! second\\n')
close(rfObject(touchstone='x.s1p').getS([40e6, 50e6]), [[[.1 + .2j]], [[.3 + .4j]]], 'data with comments')
''', 'a comment behind the data that does not follow a space', 'the file is refused')

seed('b96', 'C21', [('rfCircuit', "                    Ik = (self.sol[kf] - self.sol[kr]) / self.Zbase", "                    Ik = (self.sol[kf] - self.sol[kr]) / Zbase")], '''
c = rfCircuit(Zbase=50.)
c.addblock('a', rfRLC(Rs=10.), ports=['p', 's'])
c.terminate('a.s', Z=20.)
sol = c.Solution(1e6, {'a.p': 1.}, Zbase=10.)
V, I = sol['a.p'][:2]
close(V / I, 30., 'impedance seen at the port')
''', 'a solution asked with an impedance other than that of the circuit', 'the currents are scaled by the ratio of the impedances')

seed('b97', 'C20', [('rfObject', "        self.Ss = self.Ss[:,:,idxs][:,idxs,:]", "        self.Ss = self.Ss[:,idxs,:][:,:,np.argsort(idxs)]")], '''
a = rfObject(ports=['c', 'a', 'b'], Zbase=50.)
s = np.arange(9.).reshape(3, 3) / 20
a.setS(1e6, s)
a.sortports()
close(a.getS(1e6), s[np.ix_([1, 2, 0], [1, 2, 0])], 'sorted ports')
''', 'a permutation of the ports that is not its own inverse', 'rows and columns get different orders')

seed('b99', 'C18', [('rfCircuit', "                        xpos = [xpos + obj.xpos[_kp] for _kp in range(len(obj))]", "                        xpos = [xpos + obj.xpos[_kp] - obj.xpos[0] for _kp in range(len(obj))]")], '''
a = rfTRL(L=1., Z0TL=20., ports=['a', 'b'], xpos=[2., 3.])
c = rfCircuit(Zbase=50.)
c.addblock('A', a, relpos=1.)
c.terminate('A.b', Z=20.)
v = c.maxV(40e6, {'A.a': 1.})[2][c.Id]['A']
close([v[0][0], v[0][-1]], [3., 4.], 'positions on the line')
''', 'a line whose first port does not lie at 0', 'the profile is shifted')

seed('b100', 'C28', [('rfTRL', """        ])
        
        self.solved = {}
""", """        ])
        
        self.solved = _solved.setdefault((self.Id, self.L, self.Zbase), {})
"""), ('rfTRL', "        self.solved = {}\n        if modified:\n", "        if modified:\n            self.solved = {}\n"), ('rfTRL', "class rfTRL():\n", "_solved = {}\n\nclass rfTRL():\n")], '''
a = rfTRL(L=1., Z0TL=30., Id='TL')
Sa = a.getS(40e6)
b = rfTRL(L=1., Z0TL=70., Id='TL')
Sb = b.getS(40e6)
s = rfTRL(L=1., Z0TL=70.).getS(40e6)
close(Sb, s, 'a line with the Id and the length of another one')
''', 'two lines of the same length and reference impedance with the same explicit Id', 'the second line gives the solution of the first one')

seed('b101', 'C28', [('ConvertGeneral', "    S2 = []\n", "    S2 = _S2\n    S2.clear()\n"), ('ConvertGeneral', "def ConvertGeneral(", "_S2 = []\n\ndef ConvertGeneral(")], '''
import threading
sys.setswitchinterval(1e-6)
rng = np.random.default_rng(1)
S = (rng.random((60, 3, 3)) - .5) / 3
ref = [ConvertGeneral(z, S, 50.) for z in (10., 20., 30., 40.)]
bad = []
def run(k):
    for _ in range(40):
        try:
            r = ConvertGeneral(10. * (k + 1), S, 50.)
            if r.shape != ref[k].shape or np.abs(r - ref[k]).max() > 1e-12:
                bad.append(k)
        except Exception as e:
            bad.append(repr(e))
ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
true(not bad, f'conversions in several threads {bad[:3]}')
''', 'conversions in several threads', 'the results of one conversion end up in another')

seed('b102', 'C28', [('rfTRL', "        w = 2*np.pi*f \n", "        global w\n        w = 2*np.pi * f\n")], '''
import threading
sys.setswitchinterval(1e-6)
def line():
    return rfTRL(L=2., Z0TL=lambda x: 30. + 10. * x)
fs = [30e6, 50e6, 70e6]
ref = [line().getS(f) for f in fs]
bad = []
def run(k):
    for _ in range(10):
        r = line().getS(fs[k])
        if np.abs(r - ref[k]).max() > 1e-9:
            bad.append(k)
ts = [threading.Thread(target=run, args=(k,)) for k in range(3)]
[t.start() for t in ts]
[t.join() for t in ts]
true(not bad, f'varying lines in several threads {bad[:3]}')
''', 'lines that are solved in several threads at different frequencies', 'the frequency of one enters the solution of the other')

seed('b103', 'C28', [('rfGTL', "        self.glovars.update(variables)\n", "        for var, val in self.glovars.items():\n            variables.setdefault(var, val)\n        self.glovars = variables\n")], '''
from pyRFtk import rfGTL
def model(fn, z):
    open(fn, 'w').write(repr({'variables': {'Z': z}, 'LINE': {'GTL': {'a': {'L': 1., 'Z0TL': 'Z', 'ports': ['p', 'q']}}, 'Portnames': ['p', 'q']}}))
    return rfGTL(fn, objkey='LINE')
a, b = model('a.modline', 30.), model('b.modline', 70.)
s = rfTRL(L=1., Z0TL=70., Zbase=b.Zbase).getS(40e6)
close(np.abs(b.getS(40e6)), np.abs(s), 'the second model')
''', 'two models in one process that use the same names of variables', 'the second model gets the values of the first one')

seed('b104', 'C29', [('rfCircuit', "                thisid = id(blk['object'])\n", "                thisid = getattr(blk['object'], 'Id', id(blk['object']))\n")], '''
c = rfCircuit()
c.addblock('A', rfRLC(Rs=10., Id='R'))
c.addblock('B', rfRLC(Rs=20., Id='R'))
t = c.asstr(2)
true('Rs = 10 Ohm' in t and 'Rs = 20 Ohm' in t and '-->' not in t, 'description of two objects with the same Id:\\n' + t)
''', 'two different objects with the same explicit Id in one circuit', 'the second one is described as being the first one')

seed('b105', 'C29', [('rfCircuit', "                for sblkID in blk['object'].listBlocks():\n", "                if blk['object'] in seen:\n                    continue\n                seen.append(blk['object'])\n                for sblkID in getattr(blk['object'], 'listBlocks')():\n"), ('rfCircuit', "        blks = []\n", "        blks, seen = [], []\n")], '''
s = rfCircuit()
s.addblock('R', rfRLC(Rs=10.))
c = rfCircuit()
c.addblock('A', s)
c.addblock('B', s)
true(c.listBlocks() == ['A', 'A.R', 'B', 'B.R'], f'list of blocks {c.listBlocks()}')
''', 'the same sub-circuit used for two blocks', 'the blocks inside the second one are not listed')

seed('b106', 'C29', [('rfBase', "f'from {np.min(self.fs)} to  {np.max(self.fs)} Hz\\n')", "f'from {self.fs[0]} to  {self.fs[-1]} Hz\\n')")], '''
o = rfBase(Ss=np.zeros((3, 1, 1)), fs=[2e6, 3e6, 1e6])
true('from 1000000.0 to  3000000.0 Hz' in o.asstr(1), 'range of frequencies:\\n' + o.asstr(1))
''', 'S-matrices that are not given in ascending order of frequency', 'a wrong frequency range is described')

seed('b107', 'C04', [('S_from_Z', "    S = np.array([ (Zk - Z0) @ np.linalg.inv(Zk + Z0)  for Zk in Z])", "    S = np.array([ np.linalg.solve(Zk + Z0, (Zk - Z0).T)  for Zk in Z])")], '''
Z = np.array([[30., 5.], [5., 80.]])
close(S_from_Z(Z, 50.), (Z - 50 * np.eye(2)) @ np.linalg.inv(Z + 50 * np.eye(2)), 'reciprocal impedances')
Z[0, 1] = 17.
close(S_from_Z(Z, 50.), (Z - 50 * np.eye(2)) @ np.linalg.inv(Z + 50 * np.eye(2)), 'non-reciprocal impedances')
''', 'a non-symmetric impedance matrix', 'the scattering matrix is wrong')

seed('b108', 'C04', [('Y_from_S', "    Z = Z[0,0,0] if L == 0 else", "    Z = Z[0,0,0] if Z.size == 1 and L < 3 else")], '''
from pyRFtk.Y_from_S import Y_from_S
true(np.shape(Y_from_S([.5], 50.)) == (1,), 'shape of the admittance of a list of one reflection coefficient')
true(np.shape(Y_from_S([[.5]], 50.)) == (1, 1), 'shape of the admittance of a matrix of one reflection coefficient')
''', 'a list or matrix of a single value', 'the result has lost its dimensions')

seed('b110', 'C23', [('rfBase', "        if unknown:\n", "        if len(E) > len(self) or len(unknown) == len(E):\n")], '''
o = rfBase(Ss=[[[.5, 0.], [0., .5]]], fs=[1e6], ports=['p', 's'])
try:
    o.maxV(1e6, {'p': 1., 'q': 0.})
except Exception:
    pass
else:
    true(False, 'an excitation of an unknown port is accepted')
''', 'an excitation with a wrong port name among right ones, not more than ports', 'the excitation is ignored silently')

seed('b111', 'C16', [('rfBase', "        _debug_ and logident(f'self.Ss={self.Ss}')\n        S = self.Ss[k", "        _debug_ and logident(f'self.Ss={np.round(self.Ss, 3, out=self.Ss)}')\n        S = self.Ss[k")], '''
from pyRFtk.config import logit
o = rfBase(Ss=[[[.123456]]], fs=[1e6])
logit['DEBUG'] = True
o.getS(1e6)
logit['DEBUG'] = False
close(o.getS(1e6), [[.123456]], 'an answer after one with debugging on')
''', 'an answer is asked with the log level DEBUG', 'formatting the message rounds the data of the object')

seed('b112', 'C24', [('rfBase', "_check_3D_shape_(np.array(kwargs.pop('Ss'), dtype=complex))", "_check_3D_shape_(np.asarray(kwargs.pop('Ss'), dtype=complex))"), ('_check_3D_shape_', "    M3= np.array(M3)\n", "    M3= np.asarray(M3)\n")], '''
Ss = np.array([[[.5]], [[.25]]], dtype=complex)
o = rfBase(Ss=Ss, fs=[1e6, 2e6])
Ss[...] = 0
close(o.getS(1e6), [[.5]], 'S-matrix after the array of the caller was overwritten')
''', 'a complex array that the caller overwrites afterwards (two sites: both copies have gone)', 'the S-matrices change with it')

seed('b113', 'C13', [('rfCircuit', "            # get all the voltages and currents\n            self.tSol = {}\n", "            # get all the voltages and currents\n            self.tSol = getattr(self, 'tSol', {})\n")], '''
i = rfCircuit(Zbase=50.)
i.addblock('L', rfTRL(L=1., Z0TL=30.))
i.addblock('M', rfTRL(L=2., Z0TL=70.))
i.connect('L.2', 'M.1')
c = rfCircuit(Zbase=50.)
c.addblock('A', i)
d = copy.deepcopy(c)
E = {'A.L.1': 1., 'A.M.2': .5j}
c.Solution(30e6, E)
close(c.Solution(50e6, E, nodes=['A.L.2'])['A.L.2'], d.Solution(50e6, E, nodes=['A.L.2'])['A.L.2'], 'the solution at an inner node')
''', 'a solution asked for inner nodes after another one', 'the values of the former one are returned')

seed('b114', 'C30', [('rfTRL', "        As = np.array([E[p] for p in self.ports])\n", "        As = np.array(list(E.values()))\n")], '''
o = rfTRL(L=1., Z0TL=30., rTL=.1)
close(o.VISWs(30e6, {'2': 1., '1': 0.})[1][0], o.VISWs(30e6, {'1': 0., '2': 1.})[1][0], 'the standing wave')
''', 'an excitation whose keys are not in the order of the ports', 'the waves are fed into the wrong ports')

seed('b115', 'C30', [('rfBase', "        if hasattr(fs,'__iter__'):\n", "        if isinstance(fs, (list, np.ndarray)):\n")], '''
o = rfBase(Ss=[[[.5]], [[.25j]]], fs=[1e6, 2e6])
close(o.getS((1e6, 2e6)), [[[.5]], [[.25j]]], 'the answer at a tuple of frequencies')
''', 'frequencies given as a tuple', 'one S-matrix is returned')

seed('b116', 'C12', [('ReadTSF', "                Zbase = Zlist\n", "                Zbase = Zlist[0] if Zlist[0] == Zlist[-1] else Zlist\n")], '''
t = '# MHZ S RI R 50 20 50\\n1 .1 0 .5 .1 0 .2\\n .5 .1 .2 .3 .1 .1\\n 0 .2 .1 .1 0 0\\n'
S = [[.1, .5 + .1j, .2j], [.5 + .1j, .2 + .3j, .1 + .1j], [.2j, .1 + .1j, 0]]
close(ReadTSF(t, Zbase=50.)['Ss'], ConvertGeneral(50., [S], [50., 20., 50.], 'P', 'V'), 'S-matrix from a text with three impedances')
''', 'a format line with several impedances of which the first and the last are equal', 'the others are ignored')

seed('b117', 'C18', [('rfTRL', "                self.xpos = [self.xpos[0], self.L + self.xpos[0]]\n", "                self.xpos = [0., self.L]\n")], '''
o = rfTRL(L=1., Z0TL=30., xpos=3.)
o.set(L=2.)
close(o.xpos, [3., 5.], 'positions after setting the length')
''', 'the length of a line with a start position is set', 'the line moves to the origin')

seed('b118', 'C29', [('rfTRL', "        self.TLP.f0 = self.f if self.f != np.nan else None\n", "        self.TLP.f0 = self.f if self.TLP.f0 in [np.nan, None, 1e6] else self.TLP.f0\n")], '''
import re
def rjwL(f):
    o.getS(f)
    return complex(re.search(r'rjwL.*= *(\\(.*\\))', o.asstr(1)).group(1))
o = rfTRL(L=1., Z0TL=30., rTL=.1)
close(rjwL(30e6), o.rjwL(2 * np.pi * 30e6, 0), 'the series impedance shown')
close(rjwL(60e6), o.rjwL(2 * np.pi * 60e6, 0), 'the series impedance shown')
''', 'a line described after answers at two frequencies', 'the parameters of the first are shown')

seed('b119', 'C14', [('rfObject', "                other.__dict__[attr] = copy.deepcopy(val)\n            except:\n                print(f'{whoami(__package__)}: could not deepcopy {attr}')   # @Und", "                other.__dict__[attr] = (val if isinstance(val, np.ndarray) \n                                        else copy.deepcopy(val))\n            except:\n                print(f'{whoami(__package__)}: could not deepcopy {attr}')   # @Und")], '''
o = rfObject(ports=['a'])
o.setS([1e6, 2e6], [[[.5]], [[.25]]])
p = o.copy()
p[0] = (1e6, [[.75]])
close(o.getS(1e6), [[.5]], 'a table after its copy was modified')
''', 'an entry of a copied table is assigned', 'the original changes too')

seed('b120', 'C11', [('rfBase', "lambda S_: Z_from_S(S_, self.Zbase)", "lambda S_: Z_from_S(S_, Zref)")], '''
o = rfBase(Ss=[[[.5, .1], [.1, .25]]], fs=[1e6], Zbase=20.)
r = ReadTSF(o.tsf2str(tfmt='# MHZ Z RI R 50'), Zbase=20.)
close(r['Ss'], o.Ss, 'data written as impedances')
''', 'impedances written with another reference impedance than that of the data', 'the values are scaled')

seed('b121', 'C25', [('getlines', "src.find('\\n') >= 0", "src.find('\\n') > 0")], '''
from pyRFtk.getlines import getlines
true(list(getlines('\\none\\ntwo')()) == ['', 'one', 'two'], 'lines of a text that begins with an empty line')
''', 'a text that begins with an empty line', 'it is taken for a file name')

seed('b122', 'C26', [('rfGTL', "                        tkwargs[kw] = [v * conv[kw] for v in tkwargs[kw]]\n", "                        tkwargs[kw] = [v * min(conv.values()) for v in tkwargs[kw]]\n")], '''
open('a.modant', 'w').write(repr({'ANT': {'Portnames': ['p'], 'GTL': {'L': {'ports': ['p', '[sc]'], 'L': 1.3, 'relpos': 0., 'LTL': [200., 300.], 'CTL': 90.}}}}))
g = rfGTL('a.modant')
c = rfCircuit(Zbase=50.)
c.addblock('L', rfTRL(L=1.3, LTL=[200e-9, 300e-9], CTL=90e-12))
c.terminate('L.2', Z=0)
close(g.getS(20e6), c.getS(20e6), 'response of a tapered line')
''', 'a tapered section', 'its inductance is converted as a capacitance')

seed('b123', 'C27', [('printMatrices', "np.abs(M[k1, k2]) < 1e-7", "np.abs(np.real(M[k1, k2])) < 1e-7")], '''
from pyRFtk.printMatrices import strM
true('+0.500' in strM(np.array([[.5j, 1.], [1., .25]])), 'an imaginary number is not shown')
''', 'a purely imaginary entry', 'it is shown as zero')

seed('b124', 'C10', [('rfObject', "                A = np.unwrap(np.imag(L), axis=0)\n", "                A = np.imag(L)\n")], '''
o = rfObject(ports=['a'], interp='dB', interpkws={'kind': 1})
o.setS([1e6, 2e6], [[[.5 * np.exp(3j)]], [[.5 * np.exp(3.4j)]]])
close(o.getS(1.5e6), [[.5 * np.exp(3.2j)]], 'the value between two samples')
''', 'interpolation in dB of samples whose phase passes 180 degrees', 'the interpolated phase is that of the long way round')

seed('b125', 'C31', [('getlines', """        with open(src,'r') as f:
            for aline in f.readlines():
                yield aline.replace('\\n','')
""", """        f = open(src,'r')
        for aline in f.readlines():
            yield aline.replace('\\n','')
        getlines.last = f # (kept for the next one)
""")], '''
open('a.s1p', 'w').write('# MHZ S RI R 50\\n1. .1 .2\\n')
n = len(os.listdir('/proc/self/fd'))
ReadTSF('a.s1p')
import gc
gc.collect()
true(len(os.listdir('/proc/self/fd')) == n, 'a file is left open')
''', 'a file is read completely', 'it is left open')

seed('b126', 'C31', [('maxfun', """        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
""", """        if True:
            warnings.simplefilter("ignore")
""")], '''
n = list(warnings.filters)
warnings.resetwarnings()
warnings.simplefilter('error', DeprecationWarning)
n = list(warnings.filters)
rfTRL(L=4., Z0TL=30.).maxV(100e6, {'1': 1., '2': .3})
true(list(warnings.filters) == n, 'all warnings are switched off')
''', 'a maximum inside a line is looked for', 'the warnings of the whole process are switched off')

seed('b127', 'C31', [('findpath', "        if envvar in os.environ:\n            s += listdirs", "        if envvar and os.environ.setdefault(envvar, ''):\n            s += listdirs")], '''
os.environ.pop('XDIRS', None)
try:
    findpath('nothing', envvar='XDIRS')
except IOError:
    pass
true('XDIRS' not in os.environ, 'the environment was changed')
''', 'a search that fails with a variable that is not set', 'the variable is set')

seed('b128', 'C31', [('rfBase', "        with open(f'{tsbasename}.s{len(self)}p', 'w') as f:\n            f.write(s)\n", "        with open(f'{tsbasename}.tmp', 'w') as f:\n            f.write(s)\n        with open(f'{tsbasename}.tmp') as t, open(f'{tsbasename}.s{len(self)}p', 'w') as f:\n            f.write(t.read())\n")], '''
open('a.tmp', 'w').write('mine')
rfBase(Ss=[[[.1]]], fs=[1e6], ports=['a']).write_tsf('a')
true(open('a.tmp').read() == 'mine' and [n for n in sorted(os.listdir('.')) if n[0] == 'a'] == ['a.s1p', 'a.tmp'], 'another file was written')
''', 'any touchstone file written', 'another file beside it is written as well')

seed('b129', 'C31', [('config', "        if s == 0:\n", "        if s == 0 or not tLogger.isEnabledFor(logging.ERROR):\n")], '''
import subprocess
subprocess.run([sys.executable, '-c', 'from pyRFtk import *; setLogLevel("DEBUG"); rfTRL(L=1.).getS(1e6); setLogLevel("CRITICAL")'], check=True)
true(os.path.getsize('rfCommon.log') > 0 if os.path.exists('rfCommon.log') else False, 'the log is lost')
''', 'the log is switched off before the process ends', 'what was logged is removed')

seed('b130', 'C31', [('rfCircuit', "                        for k, sk in enumerate(str(blk['object']).split('\\n')):\n", "                        np.set_printoptions(linewidth=200)\n                        for k, sk in enumerate(str(np.array(blk['object'])).split('\\n')):\n")], '''
c = rfCircuit()
c.addblock('A', [[.1, .2], [.2, .1]])
n = repr(np.get_printoptions())
c.asstr(1)
true(repr(np.get_printoptions()) == n, 'the print options were changed')
''', 'the text of a circuit with a block of numbers', 'the print options of numpy are changed')

seed('b131', 'C31', [('rfGTL', """        with open(path2model,'r') as f:
            self.model = ast.literal_eval(f.read())
            
        pprint(self.model)
""", """        cwd = os.getcwd()
        os.chdir(os.path.dirname(os.path.abspath(path2model)))
        with open(os.path.basename(path2model),'r') as f:
            self.model = ast.literal_eval(f.read())
        os.chdir(cwd)
            
        pprint(self.model)
""")], '''
os.mkdir('d')
open('d/a.modx', 'w').write('{1: ')
cwd = os.getcwd()
try:
    rfGTL('d/a.modx')
except Exception:
    pass
true(os.getcwd() == cwd, 'the working directory was changed')
''', 'a model file in another directory that cannot be read', 'the process is left in that directory')

seed('b132', 'C01', [('rfCircuit', "        N = len(idxAs)\n", "        N = max(len(idxAs), 2)\n")], '''
c = rfCircuit(Zbase=50.)
c.addblock('L', rfTRL(L=1., Z0TL=30.), ports=['a', 'b'])
c.connect('L.b')
d = rfCircuit(Zbase=50.)
d.addblock('L', rfTRL(L=1., Z0TL=30.), ports=['a', 'b'])
d.terminate('L.b', Y=0.)
close(c.getS(40e6), d.getS(40e6), 'a line of which the end is connected to nothing')
''', 'a junction of one port', 'the port is matched instead of open')

seed('b133', 'C15', [('rfCircuit', "                    modified |= obj.set(**val)\n", "                    modified = obj.set(**val)\n")], '''
c = rfCircuit(Zbase=50.)
for n in 'AB':
    c.addblock(n, rfTRL(L=1., Z0TL=30.), ports=['a', 'b'])
c.connect('A.b', 'B.a')
true(c.set({'A': {'L': 2.}, 'B': {'L': 1.}}), 'a request that modifies is reported as none')
''', 'several settings in a request of which the last changes nothing', 'the request is reported as having no effect')

seed('b134', 'C05', [('ConvertGeneral', "            Zd = np.array(Zd.tolist() * nF).reshape(nF,N)\n", "            Zd = np.array(Zd.tolist() * nF).reshape(nF, N, order='C' if nF % N else 'F')\n")], '''
S = np.array([[[.1, .2], [.2, .3j]], [[.2, .1], [.1, .3]]])
close(ConvertGeneral([20., 50.], S, 30.), [ConvertGeneral([20., 50.], s, 30.) for s in S], 'conversion to two impedances')
''', 'impedances per port, and a number of frequencies that is a multiple of the number of ports', 'ports and frequencies are mixed up')

seed('b135', 'C07', [('resolveTLparams', "bounds_error=False, fill_value=(p[1,0],p[1,-1]))", "bounds_error=False, fill_value='extrapolate')")], '''
t = TLresolver(L=3., Z0TL=[[1., 2.], [30., 50.]])
close([t.Z0TL(1e8, x) for x in (0., 1., 1.5, 2., 3.)], [30., 30., 40., 50., 50.], 'impedance outside of the table')
''', 'a table that does not reach to the ends of the line', 'the parameter is extrapolated instead of being kept')

seed('b136', 'C13', [('rfRLC', "        def get1S(f):\n            self.f = f\n", "        def get1S(f):\n            if f == self.f and self.S is not None:\n                return self.S\n            self.f = 1 * f\n")], '''
r = rfRLC(Rs=10., Ls=1e-7)
r.getS(40e6)
close(r.getS(40e6, Zbase=20.), rfRLC(Rs=10., Ls=1e-7).getS(40e6, Zbase=20.), 'S-matrix at another impedance')
''', 'the same frequency asked again at another reference impedance', 'the S-matrix at the former one is returned')

seed('b138', 'C27', [('plotVSWs', "            absV = np.abs(absV)\n", "            absV = np.real(absV)\n")], '''
import matplotlib.pyplot as plt
V = {'a': {'l': (np.linspace(0., 1., 5), np.array([1., 2., 3., 2., 1.], dtype=complex))}}
scaleVSW(V, 1j)
plt.figure()
plotVSWs(V)
close(max(np.max(l.get_ydata()) for l in plt.gca().get_lines()), 3., 'the maximum plotted')
''', 'standing-wave data that were scaled by a complex number', 'the real part is plotted')

seed('b139', 'C25', [('getlines', "            for aline in f.readlines():\n                yield aline.replace('\\n','')\n", "            for aline in f.readlines():\n                yield aline.strip()\n")], '''
t = '  two blanks\\nend  \\nlast\\t'
open('lines.txt', 'w').write(t)
true(list(getlines('lines.txt')()) == list(getlines(t)()) == list(getlines(open('lines.txt'))()), 'lines differ')
''', 'lines that begin or end with blanks', 'the blanks are lost when the lines are read from a path')

seed('b140', 'C02', [('rfCircuit', "            S = np.array(MB_Es) @ np.linalg.pinv(MA_Es)\n", "            S = np.array(MB_Es) @ np.linalg.pinv(MA_Es, rcond=0.05)\n")], '''
c = rfCircuit(Zbase=50.)
for n in 'AB':
    c.addblock(n, rfTRL(L=1., Z0TL=30.), ports=['a', 'b'])
c.addblock('R', rfRLC(Rs=50000.), ports=['a', 'b'])
c.connect('R.b', 'B.a')
c.terminate('B.b', Z=20.)
c.addblock('D', [[.1, .3], [.3, .2]], ports=['a', 'b'])
c.terminate('D.b', Z=10.)
S = c.Get_internalSmatrix(40e6, ['A.a', 'B.b'])
sol = c.Solution(40e6, dict(zip(c.ports, [0., 0., 1., 0.])))
close((S @ [sol[n][2] for n in ('A.a', 'B.b')])[1], sol['B.b'][3], 'waves at the internal nodes')
''', 'fewer nodes than ports, the nodes being excited in very different degrees', 'weakly excited nodes are ignored')

seed('b141', 'C24', [('WriteTSF', "    for k,fk in enumerate(fs):\n        s += (f'%{num_format[0]}' % (fk / fscale)) + ' '\n", "    fs = np.asarray(fs, dtype=float)\n    fs /= fscale\n    for k, fk in enumerate(fs * fscale):\n        s += f'%{num_format[0]}' % fs[k] + ' '\n")], '''
fs = np.array([1e6, 2e6])
o = rfObject(ports=['a'])
o.setS(fs, [[[.1]], [[.2]]])
WriteTSF(o, fs=fs)
close(fs, [1e6, 2e6], 'the frequencies of the caller')
WriteTSF(o)
close(o.fs, [1e6, 2e6], 'the frequencies of the object')
''', 'frequencies given as an array (or taken from the object)', 'they are scaled in place')

seed('b142', 'C13', [('rfCoupler', "        blc = 2*np.pi*f / c0 * (self.Lc if self.Lc else c0/(4*f))\n", "        self.Lc = self.Lc if self.Lc else c0/(4*f)\n        blc = 2*np.pi*f / c0 * self.Lc\n")], '''
k = rfCoupler(kcdB=10.)
k.getS(40e6)
close(k.getS(60e6), rfCoupler(kcdB=10.).getS(60e6), 'coupler without design frequency')
''', 'a coupler without design frequency asked at a second frequency', 'the first frequency becomes the design frequency')

seed('b143', 'C31', [('rfTRL', "            gm = (self.rjwL(w,x) * self.gjwC(w, x))**0.5\n            try:\n", "            gm = (self.rjwL(w,x) * self.gjwC(w, x))**.5\n            if gm == 0:\n                np.seterr(divide='ignore')\n            try:\n")], '''
e = np.geterr()
try:
    rfTRL(L=1., Z0TL=30.).getS(0.)
except Exception:
    pass
true(np.geterr() == e, 'the numerical error handling was changed')
''', 'a line at zero frequency', 'divisions by zero are not reported any more in the whole process')

# ---- C32
SUB = '''
import subprocess
def run(text, opts=(), **env):
    p = subprocess.run([sys.executable, *opts, '-c', 'from pyRFtk import *\\n' + text], env=dict(os.environ, **env), capture_output=True, text=True)
    return (p.returncode,) + tuple(p.stdout.split('\\n')[3:])
'''
seed('b144', 'C32', [('findpath', "                    fname = sorted(fnames)[-1]  # take the first / last\n", "                    fname = list(set(fnames))[-1]  # take the first / last\n")], SUB + '''
for k in range(12):
    open('m%02d.dat' % k, 'w').close()
r = {run('from pyRFtk.findpath import findpath; import os; print(os.path.basename(findpath("m*.dat", userdirs=["."])))', PYTHONHASHSEED=str(k)) for k in range(6)}
true(len(r) == 1, 'the file that is found depends on the process %s' % r)
''', 'several files match, another hash seed', 'another file is found in another process')

seed('b145', 'C32', [('rfTRL', "                    num = int(np.ceil(self.L/self.dx))\n                    xs = np.linspace(0, self.L, max(2,num))\n",
                      "                    # avoid that all lines have their nodes at the same places\n                    num = int(np.ceil(self.L/self.dx)) + id(self) // 4096 % 2\n                    xs = np.linspace(0, self.L, max(2,num))\n")], SUB + '''
keep, r = [], set()
for k in range(400):
    keep.append([0] * 50)
    keep.append(rfTRL(L=1., Z0TL=30., dx=.05))
    r.add(len(keep[-1].maxV(20e6, {'1': 1., '2': .3})[2][0]))
true(len(r) == 1, 'number of samples along equal lines %s' % r)
''', 'a line sampled with a step, at another place in memory', 'the number of samples depends on the address of the object')

seed('b146', 'C32', [('rfTRL', "                I10 = np.zeros(np.array(xs).shape, dtype=complex)\n", "                I10 = np.empty(np.array(xs).shape, dtype=complex)\n")], '''
t = rfTRL(L=0., Z0TL=30., Zbase=50.)
bad = []
for k in range(300):
    t = rfTRL(L=0., Z0TL=30., Zbase=50.)
    junk = [np.full(2, 7. + k + 7j) for _ in range(200)]
    del junk
    S = t.getS(20e6)
    if np.abs(S - np.array([[0, 1], [1, 0]])).max() > 1e-9:
        bad.append(S)
true(not bad, 'a line without length is no through: %s' % bad[:1])
''', 'a line of zero length, memory that was used before', 'what happens to be in memory becomes an admittance')

seed('b147', 'C32', [('rfTRL', "            if xs[0] == xs[-1]:\n                \n                # special case", "            # an interrupt must not leave a half filled table of solutions\n            import signal\n            sigint = signal.signal(signal.SIGINT, signal.SIG_IGN)\n            signal.signal(signal.SIGINT, sigint)\n            \n            if xs[-1] == xs[0]:\n                \n                # special case")], '''
import threading
r = []
def go():
    try:
        r.append(rfTRL(L=1., Z0TL=30.).getS(20e6))
    except Exception as e:
        r.append(e)
t = threading.Thread(target=go)
t.start()
t.join()
true(isinstance(r[0], np.ndarray), 'in a thread: %r' % r[0])
''', 'a line is asked in another thread than the main one', 'the request is refused there')

seed('b148', 'C32', [('rfCircuit', "        newports = [p for p in ports if ('->'+p) not in self.waves]\n", "        newports = [p for p in ports if ('->'+p) not in self.waves] if __debug__ else [p for p in ports[-1:] if '.' not in p]\n")], SUB + """
t = '''
c = rfCircuit()
c.addblock('a', rfRLC(Rs=3.))
c.addblock('b', rfRLC(Rs=7.))
c.connect('T', 'a.p', 'b.s')
print(c.ports)
'''
true(run(t) == run(t, ['-O']), 'the optimised mode %s %s' % (run(t), run(t, ['-O'])))
""", 'the interpreter runs optimised and the new port of a connection is not the last one', 'the connection is refused there')

seed('b149', 'C32', [('maxfun', "VERBOSE = False\n", "import os\nVERBOSE = bool(os.environ.get('VERBOSE'))\n")], SUB + """
t = '''
import matplotlib.pyplot as plt
t = rfTRL(L=4., Z0TL=30.)
print(t.maxV(40e6, {'1': 1., '2': .3})[0])
print(plt.get_fignums())
'''
true(run(t) == run(t, VERBOSE='1'), 'a variable of the environment %s %s' % (run(t), run(t, VERBOSE='1')))
""", 'a variable of the environment used by other programs as well', 'figures pop up')

seed('b150', 'C32', [('rfBase', "        Fs = np.array(fs) / fscale\n", "        Fs = [float(s) for s in np.array2string(np.atleast_1d(fs) / fscale, separator=' ', floatmode='unique', max_line_width=80)[1:-1].split()]\n")], """
fs = np.linspace(30e6, 40e6, 7)
o = rfBase(Ss=np.ones((7, 1, 1)) * .5, fs=fs, ports=['a'])
def freqs():
    return [l.split()[0] for l in o.tsf2str().split('\\n') if l.strip() and l.strip()[0] not in '!#']
a = freqs()
with np.printoptions(formatter={'float': '{:.3g}'.format}):
    b = freqs()
true(a == b, 'frequencies written %s %s' % (a, b))
""", 'print options of numpy set by the application', 'the frequencies in the file are rounded')
