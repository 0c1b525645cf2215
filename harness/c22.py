from hlib import *
import inspect

BITS = '''CONSTANTS
  Width = %d
  MaxSteps = %d
  Exhaustive = %s
  BasisSizes <- RunSizes
SPECIFICATION Spec
INVARIANTS TypeOK BasesOK %s
'''
STEP = '''CONSTANTS
  Norms = {%s}
  Sched <- RunSched
  ItResets = {1, 2, 3}
  MaxDepth = %d
  TolN = 3
  TolD = 20
  StdeResets = {0, 1, 2}
  CgResets = {1, 2, 4}
  Lo = 1
  Hi = 6
SPECIFICATION Spec
INVARIANTS StepOK CgOK
PROPERTY DepthMoves
'''


def word(s):
    return sum(1 << b for b in s)


def bits(c):
    import lib.utils.binaryoperations as bo
    c.tlc('Bits', BITS % (4, 3, 'TRUE', ''), defs=dict(RunSizes='{<<a,b>> : a \\in 0..7, b \\in 0..7}'))
    docs, _ = c.tlc('Bits', BITS % (64, 60, 'FALSE', ''), defs=dict(RunSizes='{<<3,1>>}'), simulate=100 if c.quick else 1500, depth=65)
    for d in docs:
        w = np.uint64(0)
        for k, e in enumerate(d['log']):
            want = word(e['w'])
            try:
                if e['op'] == 'fill':
                    w = np.uint64(want)
                elif e['op'] == 'get':
                    g = bo.getBit(w, e['p'])
                    if int(g) != e['out']:
                        c.violation('bit-get', 'getBit(%#x, %d) = %r, expected %d' % (int(w), e['p'], g, e['out']), dict(log=d['log'][:k + 1]))
                else:
                    w = {'flip': bo.flipBit, 'set': bo.setBit, 'unset': bo.unsetBit}[e['op']](w, e['p'])
            except Exception as ex:
                c.violation('bit-raises', '%s(%#x,%d) raised %s' % (e['op'], int(w), e['p'], ex), e)
                return
            if int(w) != want:
                c.violation('bit-' + e['op'], '%s at %d gives %#x, expected %#x' % (e['op'], e['p'], int(w), want), dict(log=d['log'][:k + 1]))
                return
            c.impl_steps += 1
            c.count('bit:' + e['op'])
        c.traces += 1
    small = '{<<a,b>> : a \\in 0..%d, b \\in 0..%d}' % ((8, 8) if c.quick else (11, 11))
    big = '{<<64,1>>, <<64,2>>, <<63,2>>, <<60,2>>, <<54,2>>, <<55,1>>, <<58,57>>, <<64,64>>, <<64,63>>, <<62,0>>}'
    docs, _ = c.tlc('Bits', BITS % (1, 0, 'TRUE', 'EmitBases'), defs=dict(RunSizes='%s \\cup %s' % (small, big)))
    for d in docs:
        want = [word(s) for s in d['b']]
        try:
            with guarded(60):
                got = [int(x) for x in bo.binarybasis(d['N'], d['k'])]
        except Exception as ex:
            c.violation('basis-raises', 'binarybasis(%d,%d) raised %s: %s' % (d['N'], d['k'], type(ex).__name__, ex), dict(N=d['N'], k=d['k']))
            continue
        if got != want:
            bad = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            c.violation('basis', 'binarybasis(%d,%d): %d states, expected %d; entry %d is %s, expected %s' % (
                d['N'], d['k'], len(got), len(want), bad, got[bad:bad + 1], want[bad:bad + 1]), dict(N=d['N'], k=d['k']))
        c.impl_steps += 1
        c.count('basis')
    c.sample(dict(basis=docs[0] if docs else None))


def call(f, want):
    """call with the arguments the function takes, by name"""
    return f(**{k: want[k] for k in inspect.signature(f).parameters})


def steps(c):
    import lib.utils.utilities as ut
    sched = [5, 3, 2]
    docs, _ = c.tlc('StepControl', STEP % ('1,2,3,4,5,6' if c.quick else '1,2,3,4,5,6,7', 3 if c.quick else 5), defs=dict(RunSched='<<5,3,2>>'))
    alpha, alphas, factor = 0.8, [0.4, 0.3, 0.1], 2.0
    size = lambda q: ([alpha] + alphas)[q['base']] / factor ** q['depth']
    for d in docs:
        i, o = d['i'], d['o']
        if d['part'] == 'step':
            a = dict(alpha_=size(i), alpha=alpha, alphas=list(alphas), nxdots=list(i['sched']) or None, normxopt=float(d['g']),
                     normxoptold=float(d['old']), normtol=d['tol'][0] / d['tol'][1], warmup=i['warm'], it=d['it'], rescaledepth=i['depth'],
                     factor=factor, itPerDepth=i['per'], itreset=i['every'], reset=i['reset'])
            want = (size(o), o['depth'], o['per'], o['reset'], d['rej'], o['warm'])
            try:
                with guarded(10):
                    got = call(ut.determineNewStepsize, a)
            except Exception as ex:
                c.violation('step-raises', 'determineNewStepsize(%s) raised %s' % (a, ex), d)
                continue
            ok = abs(got[0] - want[0]) < 1e-12 and tuple(got[1:]) == want[1:]
        else:
            a = dict(nlcgupperthresh=float(d['hi']) if i['win'] else None, nlcglowerthresh=float(d['lo']), nlcgnormtol=d['tol'][0] / d['tol'][1],
                     nlcgreset=i['cgN'], normxopt=float(d['g']), normxoptold=float(d['old']), it=d['it'], itstde=i['std'], stdereset=i['stdN'],
                     dostde=i['restarting'], itbeta=i['cg'], printnlcgmessage=False, printstdemessage=False)
            beta = (d['g'] / d['old']) ** 2 if d['on'] else 0.0
            want = (beta, o['std'], o['cg'], o['restarting'])
            try:
                with guarded(10):
                    got = call(ut.determineNonLinearCGBeta, a)
            except Exception as ex:
                c.violation('cg-raises', 'determineNonLinearCGBeta(%s) raised %s' % (a, ex), d)
                continue
            ok = abs(got[0] - want[0]) < 1e-12 and tuple(got[1:4]) == want[1:]
        if not ok:
            c.violation(d['part'], '%s: got %s expected %s' % (a, got, want), d)
            if c.too_many():
                return
        c.impl_steps += 1
        c.count(d['part'])
    c.traces += len(docs)
    c.sample(docs[0])


def run(c):
    bits(c)
    steps(c)
