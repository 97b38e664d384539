#!/usr/bin/env python3
"""P24: the Python module shows the library as Python objects: values, bounds, aliasing, ownership, readers and solutions.
Everything is compared with plain Python lists and with an independent finite element solver written here."""
import gc, itertools, math, os, sys
from mcpy import Explorer, Dec, run
import nla3d as n
n_ = n
UX, UY, UZ, TEMP = n.Dof.UX, n.Dof.UY, n.Dof.UZ, n.Dof.TEMP
INDEX = (IndexError,)
BADARG = (OverflowError, TypeError, IndexError)

# ---------------------------------------------------------------- small linear algebra
def solve(A, b):
    m = len(b); A = [r[:] + [b[i]] for i, r in enumerate(A)]; big = max([abs(x) for r in A for x in r[:m]] or [1.0])
    for k in range(m):
        p = max(range(k, m), key=lambda i: abs(A[i][k]))
        if abs(A[p][k]) < 1e-9 * big: return None
        A[k], A[p] = A[p], A[k]
        for i in range(k + 1, m):
            f = A[i][k] / A[k][k]
            if f:
                for j in range(k, m + 1): A[i][j] -= f * A[k][j]
    x = [0.0] * m
    for k in range(m - 1, -1, -1): x[k] = (A[k][m] - sum(A[k][j] * x[j] for j in range(k + 1, m))) / A[k][k]
    return x

# ---------------------------------------------------------------- vectors and matrices against lists
VAL = [1.5, -2.0, 3.25e7]
def vec_seq(c, sizes, first, depth, dyn):
    d = Dec(c.idx); N = first + d(sizes)
    mk = (lambda: n.dVec(N)) if dyn else getattr(n, 'Vec%d' % N)
    a, b = mk(), mk(); A, B = [0.0] * N, [0.0] * N; al = a
    for i in range(N): b[i] = B[i] = 0.5 - 1.25 * i
    for s in range(depth):
        o = d(12)
        c.op(['a[0]=', 'a[last]=', 'b[mid]=', 'zero', 'a+=b', 'a=a+b', 'a=-a', 'a=a-b', 'b=a*2.5', 'a+=a', 'b=copy', 'a,b=b,a'][o])
        if o == 0 and N: a[0] = A[0] = VAL[s % 3]
        elif o == 1 and N: a[N - 1] = A[N - 1] = VAL[(s + 1) % 3]
        elif o == 2 and N: b[N // 2] = B[N // 2] = VAL[(s + 2) % 3]
        elif o == 3: a.zero(); A[:] = [0.0] * N
        elif o == 4: x = a; a += b; A[:] = [p + q for p, q in zip(A, B)]; c.expect(str(x) == str(a), 'in-place', 'a += b: another name of a shows other values')
        elif o == 5: a = a + b; A = [p + q for p, q in zip(A, B)]
        elif o == 6: a = -a; A = [-p for p in A]
        elif o == 7: a = a - b; A = [p - q for p, q in zip(A, B)]
        elif o == 8: b = a * 2.5; B = [p * 2.5 for p in A]
        elif o == 9: a += a; A[:] = [p + p for p in A]
        elif o == 10: b = a * 1.0; B = A[:]
        elif o == 11: a, b, A, B = b, a, B, A
        gc.collect(0)
        for v, V, w in ((a, A, 'a'), (b, B, 'b')):
            c.expect(v.size() == N and list(v) == V, 'values', lambda: '%s is %s, expected %s' % (w, list(v), V))
            c.expect(str(v) == str(V), 'str', lambda: 'str(%s) is %s' % (w, v))
    if not dyn:
        q = sum(x * x for x in A); c.near(a.qlength(), q, 1e-12, 'length', 'square of the length'); c.near(a.length(), math.sqrt(q), 1e-12, 'length', 'length')
        sc = sum(abs(x * y) for x, y in zip(A, B)) + 1; c.near((a * b) / sc, sum(x * y for x, y in zip(A, B)) / sc, 1e-12, 'dot', 'scalar product')
    c.expect(a.compare(a) and (a.compare(b) == all(abs(x - y) <= 5e-5 for x, y in zip(A, B)) or any(abs(abs(x - y) - 5e-5) < 1e-9 for x, y in zip(A, B))), 'compare', 'compare() is wrong')
    c.state(A, B)

def bounds(c):
    d = Dec(c.idx); kind = d(9); bad = d(9); wr = d(2); val = 7.0
    if kind < 6: v, N = getattr(n, 'Vec%d' % (kind + 2))(), kind + 2
    elif kind < 9: N = [0, 1, 5][kind - 6]; v = n.dVec(N)
    i = [-1, N, N + 1, 65535, 65536, 2 ** 32, 0.5, 'x', None][bad]
    c.op('index %r of %s(%d)' % (i, type(v).__name__, N))
    ref = list(v)
    if wr: c.raises(BADARG, lambda: v.__setitem__(i, val), 'bounds', 'setting index %r of %d' % (i, N))
    else: c.raises(BADARG, lambda: v[i], 'bounds', 'getting index %r of %d' % (i, N))
    if i in (N, N + 1): c.raises(INDEX, lambda: v[i], 'bounds', 'index %d of %d' % (i, N))
    c.expect(list(v) == ref, 'bounds', 'a refused write changed the vector')
    if N: c.raises((TypeError,), lambda: v.__setitem__(0, 'x'), 'type', 'a string as a value')
    c.expect(list(v) == ref, 'bounds', 'a refused write changed the vector')

def dvec(c, depth):
    d = Dec(c.idx); N = d(5); how = d(3)
    if how == 0: v, V = n.dVec(N), [0.0] * N
    elif how == 1: v, V = n.dVec(N, -1.5), [-1.5] * N
    else: v, V = n.dVec(), []
    c.op('dVec(%d) way %d' % (N, how))
    for s in range(depth):
        o = d(6)
        if o == 0: v.reinit(3); V = [0.0] * 3
        elif o == 1: v.reinit(1, 2.5); V = [2.5]
        elif o == 2 and V: v.fill(0.75); V = [0.75] * len(V)
        elif o == 3 and V: v.zero(); V = [0.0] * len(V)
        elif o == 4: v.clear(); V = []
        elif o == 5 and V: v[len(V) - 1] = V[-1] = 4.0
        c.op('op %d' % o)
        c.expect(v.size() == len(V) and list(v) == V and (not V or v.isInit()), 'dvec', lambda: '%s, expected %s' % (list(v), V))
        if not V: continue
        c.expect(list(v / 2.0) == [x / 2.0 for x in V], 'dvec', 'division')
        w = n.dVec(v.size(), 1.0); x = w; w -= v; c.expect(list(w) == list(x) == [1.0 - y for y in V], 'in-place', lambda: 'w -= v is %s' % list(w))
    c.state(V)

SIZES = [127, 128, 129, 255, 256, 257, 300, 32768, 65535, 65536, 65537, 70000]
def bigvec(c):
    d = Dec(c.idx); N = SIZES[d(len(SIZES))]; how = d(3); v = n.dVec(N) if how == 0 else n.dVec(N, 0.25) if how == 1 else n.dVec(); V = [0.25 if how == 1 else 0.0] * N
    if how == 2: v.reinit(N)
    c.op('dVec(%d) way %d' % (N, how)); c.expect(v.size() == N and list(v) == V, 'size', 'a vector of %d values has %d' % (N, v.size()))
    for i in range(0, N, max(1, N // 997)): v[i] = V[i] = 0.5 * i - 7.0
    v[N - 1] = V[-1] = 1.25; c.tick(); c.expect(list(v) == V, 'values', 'values of a vector of %d' % N)
    w = v + v; w *= 0.5; w -= n.dVec(N, 1.0); c.expect(list(w) == [x - 1.0 for x in V], 'arithmetic', 'sum of vectors of %d' % N); c.state(N, how)
def bigmodel(c):
    d = Dec(c.idx); N = [127, 128, 129, 254, 255, 256, 257, 300][d(8)]; back = d(2); file = d(2); st = n.FEStorage(); E, A, h = 2.0, 3.0, 0.5
    if file:
        L = ['/PREP7', 'NBLOCK,6,SOLID', '(3i9,6e20.13)'] + ['%9d%9d%9d%20.13E%20.13E%20.13E' % (i + 1, 0, 0, h * i, 0, 0) for i in range(N)] + ['N,R5.3,LOC,       -1,', 'EBLOCK,19,SOLID', '(19i9)'] + [''.join('%9d' % x for x in [1, 1, 1, 1, 0, 0, 0, 0, 2, 0, i, i, i + 1]) for i in range(1, N)] + ['       -1']
        f = os.environ['MC_SCRATCH'] + '/big%d.cdb' % os.getpid(); open(f, 'w').write('\n'.join(L) + '\n'); md = n.MeshData(); ok = n.readCdbFile(f, md); os.unlink(f)
        c.expect(ok and list(md.nodesNumbers) == list(range(1, N + 1)) and len(md.cellNodes) == N - 1 and [list(x) for x in md.cellNodes] == [[i, i + 1] for i in range(1, N)], 'read', 'a file of %d nodes' % N)
    for i in range(N):
        nd = n.Node(); nd.pos[0] = h * i; st.addNode(nd)
    if st.nNodes() != N: c.fail('nodes', '%d nodes, expected %d' % (st.nNodes(), N)); return
    for i in (range(N - 1, 0, -1) if back else range(1, N)):
        e = n.ElementTRUSS3(); e.E = E; e.A = A; e.setNodeNumber(0, i); e.setNodeNumber(1, i + 1); st.addElement(e)
    c.expect(st.nElements() == N - 1 and [st.getElement(k).getNodeNumber(0) for k in range(1, N)] == (list(range(N - 1, 0, -1)) if back else list(range(1, N))), 'elements', 'elements of a chain of %d' % N)
    sol = n.LinearFESolver(); sol.attachFEStorage(st)
    for i in range(1, N + 1):
        for q in ((UX, UY, UZ) if i == 1 else (UY, UZ)): sol.addFix(i, q)
    for i in range(2, N + 1, 3): sol.addLoad(i, UX, 0.01)
    c.op('chain of %d nodes' % N); sol.solve(); F = [0.01 if i >= 2 and (i - 2) % 3 == 0 else 0.0 for i in range(N + 1)]; u = 0.0; c.near(st.getReaction(1, UX), -sum(F), 1e-9, 'reaction', 'support force')
    for i in range(2, N + 1): u += sum(F[i:]) * h / (E * A); c.near(st.getNodeDofSolution(i, UX), u, 1e-8 * max(1.0, u), 'solution', 'displacement of node %d' % i)
    c.state(N, back, file)

def inv3(m):
    d = det3(m); r = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            k = [x for x in range(3) if x != i]; l = [x for x in range(3) if x != j]
            r[j][i] = (-1) ** (i + j) * (m[k[0]][l[0]] * m[k[1]][l[1]] - m[k[0]][l[1]] * m[k[1]][l[0]]) / d
    return r
def det3(m): return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))
def close(a, b, tol=1e-10): return all(abs(x - y) <= tol * max(1.0, abs(y)) for p, q in zip(a, b) for x, y in zip(p, q))

def mat33(c, depth):
    d = Dec(c.idx); a, b = n.Mat33(), n.Mat33(); A = [[0.0] * 3 for _ in range(3)]
    c.expect(a.to_list() == A, 'default', lambda: 'a new Mat33 is %s' % a)
    B = [[1.0, 2.0, 3.0], [43.0, 5.0, 6.0], [7.0, 8.0, 20.0]]; b.from_list(B)
    for s in range(depth):
        o = d(9); c.op('op %d' % o)
        if o == 0: a[s % 3, 2] = A[s % 3][2] = 1.5 + s
        elif o == 1: a = a + b; A = [[x + y for x, y in zip(p, q)] for p, q in zip(A, B)]
        elif o == 2: x = a; a += b; A = [[x_ + y for x_, y in zip(p, q)] for p, q in zip(A, B)]; c.expect(str(x) == str(a), 'in-place', 'a += b: another name of a shows other values')
        elif o == 3: a = a.transpose(); A = [list(r) for r in zip(*A)]
        elif o == 4: b = a.copy(); B = [r[:] for r in A]
        elif o == 5: a = -b; A = [[-x for x in r] for r in B]
        elif o == 6: a = a - b; A = [[x - y for x, y in zip(p, q)] for p, q in zip(A, B)]
        elif o == 7: a = a * 0.5; A = [[x * 0.5 for x in r] for r in A]
        elif o == 8: a, b, A, B = b, a, B, A
        for m, M in ((a, A), (b, B)): c.expect(m.to_list() == M and str(m) == str(M) and m[1, 2] == M[1][2], 'values', lambda: '%s, expected %s' % (m, M))
    D = det3(A); sc = max(abs(x) for r in A for x in r) ** 3 + 1; c.near(a.det() / sc, D / sc, 1e-12, 'det', 'determinant')
    if abs(D) > 1e-3 * sc: I = a.inv(D).to_list(); c.expect(close(I, inv3(A), 1e-9), 'inverse', lambda: 'inverse of %s is %s' % (A, I))
    c.state(A, B)

def dmat(c):
    d = Dec(c.idx); M, N, way, i, j = 1 + d(4), 1 + d(4), d(5), d(6), d(6)
    V = [[1.0 + r * 10 + k for k in range(N)] for r in range(M)]; c.op('%dx%d way %d, index (%d, %d)' % (M, N, way, i, j))
    if way == 0: m = n.dMat.from_list(V)
    elif way == 1:
        m = n.dMat(M, N); c.expect(m.to_list() == [[0.0] * N] * M, 'default', lambda: 'a new matrix is %s' % m); m.fill(*[x for r in V for x in r])
    elif way == 2:
        m = n.dMat(2, 3); m.resize(M, N); c.expect(m.to_list() == [[0.0] * N] * M, 'resize', lambda: 'a resized matrix is %s' % m)
        for r in range(M):
            for k in range(N): m[r, k] = V[r][k]
    elif way == 3:
        x = n.dMat.from_list(V); m = n.dMat(x); x.zero(); del x
    else:
        m = n.dMat.from_list(V); x = m; m[M - 1, N - 1] = -4.0; V[-1][-1] = -4.0; c.expect(x[M - 1, N - 1] == -4.0, 'alias', 'another name of the same matrix')
    gc.collect(0)
    c.expect(m.dM() == M and m.dN() == N and m.to_list() == V and str(m) == str(V), 'values', lambda: '%s, expected %s' % (m, V))
    if i < M and j < N: m[i, j] = 9.5; V[i][j] = 9.5; c.expect(m[i, j] == 9.5, 'values', 'element read back')
    else:
        c.raises(INDEX, lambda: m[i, j], 'bounds', 'element (%d, %d) of %dx%d' % (i, j, M, N)); c.raises(INDEX, lambda: m.__setitem__((i, j), 1.0), 'bounds', 'setting element (%d, %d) of %dx%d' % (i, j, M, N))
    c.raises(BADARG, lambda: m[-1, 0], 'bounds', 'row -1'); c.raises(BADARG, lambda: m[0, 70000], 'bounds', 'column 70000')
    c.expect(m.to_list() == V, 'values', lambda: '%s, expected %s' % (m, V))
    c.raises((AssertionError, IndexError), lambda: n.dMat.from_list(V[:1] + [[1.0] * (N + 1)]), 'shape', 'a ragged list'); c.raises((AssertionError, IndexError), lambda: n.dMat.from_list([]), 'shape', 'an empty list')
    if way == 1: c.raises((AssertionError, IndexError, TypeError), lambda: m.fill(*[1.0] * (M * N + 1)), 'shape', 'fill with too many values')
    c.state(V)

SHAPES = [s for r in range(5) for s in itertools.product(range(5), repeat=r)]
def ragged(c):
    # nested lists of every shape: 0..4 rows of 0..4 values each
    d = Dec(c.idx); L = list(SHAPES[d(len(SHAPES))]); rows = len(L); V = [[1.0 + 10 * i + j for j in range(k)] for i, k in enumerate(L)]; c.op('rows of lengths %s' % L)
    if d(2):
        m = n.Mat33(); B = [[100.0 + 3 * i + j for j in range(3)] for i in range(3)]; m.from_list(B); ok = L == [3, 3, 3]
        if ok: m.from_list(V); c.expect(m.to_list() == V, 'values', lambda: '%s, expected %s' % (m, V))
        else: c.raises((AssertionError, IndexError), lambda: m.from_list(V), 'shape', 'Mat33 from rows of lengths %s' % L); c.expect(m.to_list() == B, 'shape', lambda: 'a refused list changed the matrix to %s' % m)
    else:
        ok = rows > 0 and L[0] > 0 and all(k == L[0] for k in L)
        if ok: m = n.dMat.from_list(V); c.expect(m.to_list() == V and m.dM() == rows and m.dN() == L[0], 'values', lambda: '%s, expected %s' % (m, V))
        else: c.raises((AssertionError, IndexError), lambda: n.dMat.from_list(V), 'shape', 'dMat from rows of lengths %s' % L)
    c.state(L, ok)

def msym(c, depth):
    d = Dec(c.idx); m = n.MatSym3(); m.zero(); V = [[0.0] * 3 for _ in range(3)]; w = n.MatSym3(); w.zero(); w[0, 1] = 2.0; w[2, 2] = -1.0
    W = [[0.0, 2.0, 0.0], [2.0, 0.0, 0.0], [0.0, 0.0, -1.0]]
    for s in range(depth):
        o = d(12)
        if o < 9: i, j = o // 3, o % 3; m[i, j] = V[i][j] = V[j][i] = 1.5 * s + o + 0.25; c.op('m[%d,%d]' % (i, j))
        elif o == 9: x = m; m += w; V = [[p + q for p, q in zip(a, b)] for a, b in zip(V, W)]; c.op('m+=w'); c.expect(str(x) == str(m), 'in-place', 'm += w: another name of m shows other values')
        elif o == 10: m.zero(); V = [[0.0] * 3 for _ in range(3)]; c.op('zero')
        else: m, w, V, W = w, m, W, V; c.op('swap')
        for q, Q in ((m, V), (w, W)):
            c.expect([[q[i, j] for j in range(3)] for i in range(3)] == Q and str(q) == str(Q) and q.toMat().to_list() == Q, 'values', lambda: '%s, expected %s' % (q, Q))
    for i, j in ((3, 0), (0, 3), (3, 3)): c.raises(INDEX, lambda: m[i, j], 'bounds', 'element (%d, %d)' % (i, j)); c.raises(INDEX, lambda: m.__setitem__((i, j), 1.0), 'bounds', 'setting element (%d, %d)' % (i, j))
    c.expect(m.dM() == 3 and m.dN() == 3 and m.getLength() == 6, 'shape', 'sizes'); c.state(V)

# ---------------------------------------------------------------- aliasing: members are references, assignment copies
def members(c, depth):
    d = Dec(c.idx); kind = d(3)
    if kind == 0: own = n.Node(); get = lambda: own.pos
    elif kind == 1: st = n.FEStorage(); st.addNode(n.Node()); own = st; get = lambda: st.getNode(1).pos
    else: own = n.MeshData(); own.nodesPos.push_back(n.Vec3()); get = lambda: own.nodesPos[0]
    def put(v):
        if kind == 0: own.pos = v
        elif kind == 1: st.getNode(1).pos = v
        else: own.nodesPos[0] = v
    P = [0.0] * 3; v = n.Vec3(); V = [0.0] * 3; ref = get()
    for s in range(depth):
        o = d(8); c.op(['p[1]=', 'p+=v', 'p=v', 'p=p*2', 'v[0]=', 'ref[2]=', 'p=p+v', 'v=p copy'][o])
        if o == 0: get()[1] = P[1] = s + 1.5
        elif o == 1:
            P = [a + b for a, b in zip(P, V)]
            if kind == 0: own.pos += v
            elif kind == 1: st.getNode(1).pos += v
            else: own.nodesPos[0] += v
        elif o == 2: put(v); P = V[:]
        elif o == 3: put(get() * 2.0); P = [a * 2.0 for a in P]
        elif o == 4: v[0] = V[0] = s - 7.25
        elif o == 5: ref[2] = P[2] = 3.0 - s
        elif o == 6: put(get() + v); P = [a + b for a, b in zip(P, V)]
        else: v = get() * 1.0; V = P[:]
        gc.collect(0)
        c.expect(list(get()) == P and list(ref) == P and list(v) == V, 'aliasing', lambda: 'position %s (seen as %s), expected %s; v %s, expected %s' % (list(get()), list(ref), P, list(v), V))
    del ref; c.state(P, V)

ET = [('ElementTRUSS3', 2, 1), ('ElementTETRA0', 4, 3), ('ElementQUADTH', 4, 2), ('SurfaceLINETH', 2, 2)]
def elements(c):
    d = Dec(c.idx); t = d(4); num = d(7) - 1; loc = d(3); name, nn, dim = ET[t]
    if loc == 0: e = getattr(n, name)(); own = e
    else:
        st = n.FEStorage()
        for i in range(9): st.addNode(n.Node())
        if loc == 1:
            e0 = getattr(n, name)(); st.addElement(e0); del e0; gc.collect(0); e = st.getElement(1)
        else: r = list(st.createElements(3, getattr(n, 'ElementType_' + name.replace('Element', '')))); c.expect(r == [1, 2, 3], 'create', 'numbers %s' % r); e = getattr(st, 'get' + (name if name[0] == 'E' else 'Element' + name))(2)
    c.op('%s, node index %d, way %d' % (name, num, loc)); want = [11 + k for k in range(nn)]
    for k in range(nn): e.setNodeNumber(k, want[k])
    c.expect(e.getNNodes() == nn, 'shape', '%d nodes' % e.getNNodes()); c.expect(e.getType() == getattr(n, 'ElementType_' + name.replace('Element', '')), 'type', 'type %d' % e.getType())
    if 0 <= num < nn: c.expect(e.getNodeNumber(num) == want[num], 'node number', 'node %d is %d' % (num, e.getNodeNumber(num))); e.setNodeNumber(num, 5); want[num] = 5
    else: c.raises(BADARG, lambda: e.getNodeNumber(num), 'bounds', 'getNodeNumber(%d) of %d' % (num, nn)); c.raises(BADARG, lambda: e.setNodeNumber(num, 5), 'bounds', 'setNodeNumber(%d) of %d' % (num, nn))
    c.expect([e.getNodeNumber(k) for k in range(nn)] == want, 'node number', lambda: 'nodes %s' % [e.getNodeNumber(k) for k in range(nn)])
    if loc:
        k = 1 if loc == 1 else 2; c.expect(e.getElNum() == k, 'number', 'element number %d' % e.getElNum())
        for o, on in enumerate(('getElementTRUSS3', 'getElementTETRA0', 'getElementQUADTH', 'getElementSurfaceLINETH')):
            if o == t: c.expect([getattr(st, on)(k).getNodeNumber(q) for q in range(nn)] == want, 'typed', 'typed access')
            else: c.raises(INDEX, lambda: getattr(st, on)(k), 'typed', '%s of a %s' % (on, name))
        c.expect(st.nElements() == (1 if loc == 1 else 3) and st.nNodes() == 9, 'count', 'sizes')
    f = {'ElementTRUSS3': ['E', 'A'], 'ElementTETRA0': ['E', 'my', 'alpha', 'T'], 'ElementQUADTH': ['k', 'rho', 'c', 'volFlux'], 'SurfaceLINETH': ['flux', 'htc']}[name]
    x = e if loc != 1 else getattr(st, 'get' + (name if name[0] == 'E' else 'Element' + name))(1)
    for q, a in enumerate(f): c.expect(getattr(x, a) == 0.0, 'default', '%s of a new element is %r' % (a, getattr(x, a)))
    for q, a in enumerate(f): setattr(x, a, 1.5 + q)
    c.expect([getattr(x, a) for a in f] == [1.5 + q for q in range(len(f))], 'members', 'element properties'); c.state(name, want)

# ---------------------------------------------------------------- models
class Truss:
    pos = [[0, 0, 0], [3, 0.5, 0], [0.25, 2, 0], [0.5, 0.75, 2.5], [2, 2, 1]]; bars = [(1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4), (1, 5), (2, 5), (3, 5), (4, 5)]; E, A = 30.0, 0.5
    def bar(self, b):
        p, q = (self.pos[i - 1] for i in b); v = [y - x for x, y in zip(p, q)]; L = math.sqrt(sum(x * x for x in v)); return [x / L for x in v], L

def build_truss(T, nn, bars, sol):
    st = n.FEStorage(); sol.attachFEStorage(st)
    for p in T.pos[:nn]:
        nd = n.Node(); nd.pos[0], nd.pos[1], nd.pos[2] = p; st.addNode(nd)
    for b in bars:
        e = n.ElementTRUSS3(); e.E = T.E; e.A = T.A; e.setNodeNumber(0, b[0]); e.setNodeNumber(1, b[1]); st.addElement(e)
    return st

def dense(T, st_n, bars):
    m = 3 * st_n; K = [[0.0] * m for _ in range(m)]
    for b in bars:
        u, L = T.bar(b); k = T.E * T.A / L; ix = [3 * (i - 1) + x for i in b for x in range(3)]; g = [-x for x in u] + u
        for a in range(6):
            for q in range(6): K[ix[a]][ix[q]] += k * g[a] * g[q]
    return K

def constrained(K, F, fix, scale=None):
    """solution with the given fixed values; returns u and reactions, or None when singular"""
    m = len(F); fr = [i for i in range(m) if i not in fix]; x = solve([[K[i][j] for j in fr] for i in fr], [F[i] - sum(K[i][j] * v for j, v in fix.items()) for i in fr]) if fr else []
    if x is None: return None
    u = [fix.get(i, 0.0) for i in range(m)]
    for i, v in zip(fr, x): u[i] = v
    return u, {i: sum(K[i][j] * u[j] for j in range(m)) - F[i] for i in fix}

def truss(c):
    T = Truss(); d = Dec(c.idx); sub = d(32) ; fixv = d(3); load = d(4); scheme = d(6)
    bars = T.bars[:6] + [T.bars[6 + k] for k in range(4) if sub >> k & 1]; nn = 5 if sub & 15 else 4
    fixed = {}; base = [0, 1, 2, 4, 5, 8] if sub >> 4 else [0, 1, 2, 5, 7, 8] + ([13] if nn == 5 else [])
    if scheme & 1: base += [10]
    if scheme & 2: base += [11, 3]
    if scheme & 4: base += [9]
    for k, i in enumerate(base): fixed[i] = [0.0, 0.01 * (k + 1), -0.02 * (k % 3)][fixv]
    F = [0.0] * (3 * nn)
    sol = n.LinearFESolver(); st = build_truss(T, nn, bars, sol)
    if load & 1: F[9] += 1.25; F[10] -= 0.5; sol.addLoad(4, UX, 1.25); sol.addLoad(4, UY, -0.5)
    if load & 2: F[3 * nn - 1] += 2.0; F[3 * nn - 1] += 1.0; sol.addLoad(nn, UZ, 2.0); sol.addLoad(nn, UZ, 1.0)
    for i in list(fixed): sol.addFix(1 + i // 3, (UX, UY, UZ)[i % 3], fixed[i])
    c.op('truss of %d bars, fixed %s, load %d' % (len(bars), fixed, load))
    # loads at fixed dofs belong to the reactions
    r = constrained(dense(T, nn, bars), F, fixed)
    if r is None: return
    sol.solve()
    if sub % 4 == 0: sol.addLoad(4, UZ, 0.25); F[11] += 0.25; sol.solve()
    r = constrained(dense(T, nn, bars), F, fixed)
    if r is None: return
    u, R = r; sc = max(abs(x) for x in u) or 1.0
    for i in range(3 * nn):
        c.near(st.getNodeDofSolution(1 + i // 3, (UX, UY, UZ)[i % 3]) / sc, u[i] / sc, 1e-8, 'solution', 'displacement %d of node %d' % (i % 3, 1 + i // 3))
    rs = max([abs(x) for x in R.values()] + [1e-3])
    for i in fixed: c.near(st.getReaction(1 + i // 3, (UX, UY, UZ)[i % 3]) / rs, (R[i] + F[i]) / rs, 1e-7, 'reaction', 'support force %d of node %d' % (i % 3, 1 + i // 3))
    for k, b in enumerate(bars):
        g, L = T.bar(b); s = T.E / L * sum(g[x] * (u[3 * (b[1] - 1) + x] - u[3 * (b[0] - 1) + x]) for x in range(3)); c.near(st.getElementTRUSS3(k + 1).S / (T.E * sc), s / (T.E * sc), 1e-8, 'stress', 'stress of bar %d' % (k + 1))
    c.expect(st.nDofs() == 3 * nn and st.nConstrainedDofs() == len(fixed) and st.nUnknownDofs() == 3 * nn - len(fixed), 'counts', 'numbers of dofs'); c.state([round(x / sc, 6) for x in u])

# 4-node conduction elements with convective and heated edges
GP = 1 / math.sqrt(3)
def quad_th(P, k, q):
    K = [[0.0] * 4 for _ in range(4)]; F = [0.0] * 4; C = [[0.0] * 4 for _ in range(4)]
    for a in (-GP, GP):
        for b in (-GP, GP):
            N = [(1 - a) * (1 - b) / 4, (1 + a) * (1 - b) / 4, (1 + a) * (1 + b) / 4, (1 - a) * (1 + b) / 4]; da = [-(1 - b) / 4, (1 - b) / 4, (1 + b) / 4, -(1 + b) / 4]; db = [-(1 - a) / 4, -(1 + a) / 4, (1 + a) / 4, (1 - a) / 4]
            J = [[sum(x[i] * p[j] for x, p in zip([[s, t] for s, t in zip(da, db)], P)) for j in (0, 1)] for i in (0, 1)]; D = J[0][0] * J[1][1] - J[0][1] * J[1][0]
            G = [[(J[1][1] * s - J[0][1] * t) / D, (-J[1][0] * s + J[0][0] * t) / D] for s, t in zip(da, db)]
            for i in range(4):
                F[i] += q * N[i] * D
                for j in range(4): K[i][j] += k * (G[i][0] * G[j][0] + G[i][1] * G[j][1]) * D; C[i][j] += N[i] * N[j] * D
    return K, F, C

def thermal(c, transient):
    d = Dec(c.idx); mesh = d(3); fixm = d(6); load = d(3); conv = d(4); dist = d(2); q = d(2); order = d(2)
    P = [[x * 1.5 + (0.1 * y if dist else 0), y + (0.15 * x * x if dist else 0)] for y in range(3) for x in range(3)][:6 if mesh < 2 else 9]
    el = [(1, 2, 5, 4), (2, 3, 6, 5)][:2 if mesh else 1] + ([(4, 5, 8, 7), (6, 9, 8, 5)] if mesh == 2 else [])
    if mesh == 0: P = [P[0], P[1], P[3], P[4]]; el = [(1, 2, 4, 3)]
    nn = len(P); bottom = el[0][:2]; k, qv = 0.75, -1.25 * q
    sol = n.LinearTransientFESolver() if transient else n.LinearFESolver()
    st = n.FEStorage(); sol.attachFEStorage(st); st.createNodes(nn)
    for i, p in enumerate(P): st.getNode(i + 1).pos[0] = p[0]; st.getNode(i + 1).pos[1] = p[1]
    r = list(st.createElements(len(el), n.ElementType_QUADTH)); c.expect(r == list(range(1, len(el) + 1)), 'create', 'numbers %s' % r)
    K = [[0.0] * nn for _ in range(nn)]; C = [[0.0] * nn for _ in range(nn)]; F = [0.0] * nn
    for i, e in zip(r, el):
        w = st.getElementQUADTH(i); w.k = k; w.volFlux = qv; w.rho = 2.0; w.c = 0.5
        for j, m in enumerate(e): w.setNodeNumber(j, m)
        if order: w.setIntegrationOrder(3)
        Ke, Fe, Ce = quad_th([P[m - 1] for m in e], k, qv)
        for a in range(4):
            F[e[a] - 1] += Fe[a]
            for b in range(4): K[e[a] - 1][e[b] - 1] += Ke[a][b]; C[e[a] - 1][e[b] - 1] += Ce[a][b] * 2.0 * 0.5
    if conv:
        s = n.SurfaceLINETH(); L = math.dist(P[bottom[0] - 1], P[bottom[1] - 1]); i, j = bottom[0] - 1, bottom[1] - 1
        if conv & 1: s.htc = 0.5; s.etemp[0] = 10.0; s.etemp[1] = -4.0 if conv == 3 else 10.0
        if conv & 2: s.flux = 3.0; F[i] += 1.5 * L; F[j] += 1.5 * L
        if conv & 1:
            t0, t1 = 10.0, (-4.0 if conv == 3 else 10.0)
            for a, b, f in ((i, i, 3), (j, j, 3), (i, j, 6), (j, i, 6)): K[a][b] += 0.5 * L / f
            F[i] += 0.5 * L * (t0 / 3 + t1 / 6); F[j] += 0.5 * L * (t0 / 6 + t1 / 3)
        s.setNodeNumber(0, bottom[0]); s.setNodeNumber(1, bottom[1]); st.addElement(s)
    fixed = {}
    for a, v in [[(nn - 1, 5.0)], [(0, 1.0), (nn - 1, -2.0)], [], [(1, 0.0), (2, 4.0), (nn - 1, 1.0)], [(0, 0.0)], [(nn - 1, 3.0), (nn - 2, 3.0)]][fixm]: fixed[a] = v; sol.addFix(a + 1, TEMP, v)
    if load: sol.addLoad(1 + (nn // 2), TEMP, 2.5); F[nn // 2] += 2.5
    if load == 2: sol.addLoad(1, TEMP); sol.addLoad(1 + (nn // 2), TEMP, -0.75); F[nn // 2] -= 0.75
    if dist and transient and order: return                                          # distorted: 2x2 and 3x3 rules differ
    c.op('heat: %d quads%s, fixed %s, load %d, edge %d' % (len(el), ' distorted' if dist else '', fixed, load, conv))
    if dist and order:
        w3 = None
    if transient:
        sol.numberOfTimesteps = 3; sol.time0 = 0.0; sol.time1 = 0.6; sol.initValue = 1.5; al, de, dt = sol.alpha, sol.delta, 0.2
        u = [fixed.get(i, 1.5) for i in range(nn)]; v = [0.0] * nn; w = [0.0] * nn
        A = [[K[i][j] + de / (al * dt) * C[i][j] for j in range(nn)] for i in range(nn)]
        for s in range(3):
            # Newmark: w1 = (u1-u)/(al dt^2) - v/(al dt) - (1/(2al)-1) w ; v1 = v + dt((1-de) w + de w1)
            base_w = [-(u[i]) / (al * dt * dt) - v[i] / (al * dt) - (1 / (2 * al) - 1) * w[i] for i in range(nn)]; base_v = [v[i] + dt * ((1 - de) * w[i] + de * base_w[i]) for i in range(nn)]
            rhs = [F[i] - sum(C[i][j] * base_v[j] for j in range(nn)) for i in range(nn)]; r1 = constrained(A, rhs, fixed)
            if r1 is None: return
            u1 = r1[0]; w1 = [base_w[i] + u1[i] / (al * dt * dt) for i in range(nn)]; v1 = [v[i] + dt * ((1 - de) * w[i] + de * w1[i]) for i in range(nn)]; u, v, w = u1, v1, w1
        R = {}
    else:
        r1 = constrained(K, F, fixed)
        if r1 is None: return
        u, R = r1
    if dist and order: return
    sol.solve(); sc = max([abs(x) for x in u] + [1.0])
    for i in range(nn): c.near(st.getNodeDofSolution(i + 1, TEMP) / sc, u[i] / sc, 1e-8, 'solution', 'temperature of node %d' % (i + 1))
    rs = max([abs(x) for x in R.values()] + [1.0])
    L_ = [0.0] * nn
    if load: L_[nn // 2] = 2.5 if load == 1 else 1.75
    for i in R: c.near(st.getReaction(i + 1, TEMP) / rs, (R[i] + L_[i]) / rs, 1e-8, 'reaction', 'heat at fixed node %d' % (i + 1))
    c.expect(not st.isTransient() or transient, 'transient', 'storage is transient'); c.state([round(x / sc, 6) for x in u])

# linear tetrahedra
def grads(P):
    M = [[1.0] + list(map(float, p)) for p in P]; g = [solve(M, [1.0 if i == a else 0.0 for i in range(4)]) for a in range(4)]; e = [[P[k][j] - P[0][j] for j in range(3)] for k in (1, 2, 3)]; return [x[1:] for x in g], det3(e) / 6.0
def tetra(c):
    d = Dec(c.idx); mesh = d(2); fixm = d(4); load = d(3); th = d(3); my = [0.0, 0.3, 0.45][d(3)]; E = [1.0, 2.0e3][d(2)]; pert = d(2)
    cube = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]
    P = [[p[0] * 2.0 + pert * 0.1 * p[1] * p[2], p[1] * 1.0 - pert * 0.2 * p[0], p[2] * 1.5 + pert * 0.15 * p[0] * p[1]] for p in cube]
    el = [(1, 2, 4, 5), (2, 3, 4, 7), (2, 7, 5, 6), (4, 5, 7, 8), (2, 4, 5, 7)] if mesh else [(1, 2, 4, 5)]
    nodes = 8 if mesh else 5
    if not mesh: P = P[:5]; P[2] = [2.5, 2.5, 2.5]
    alpha, T = (0.0, 0.0) if th == 0 else (1e-3, 50.0); lam, mu = E * my / ((1 + my) * (1 - 2 * my)), E / (2 * (1 + my)); m = 3 * nodes
    K = [[0.0] * m for _ in range(m)]; F = [0.0] * m
    sol = n.LinearFESolver(); st = n.FEStorage(); sol.attachFEStorage(st); st.createNodes(nodes)
    for i, p in enumerate(P):
        v = n.Vec3(); v[0], v[1], v[2] = p; st.getNode(i + 1).pos = v
    st.createElements(len(el), n.ElementType_TETRA0); info = []
    for k, e in enumerate(el):
        G, V = grads([P[i - 1] for i in e])
        if V < 0: e = (e[0], e[2], e[1], e[3]); G, V = grads([P[i - 1] for i in e])
        t = T if th < 2 else T * (k + 1); x = st.getElementTETRA0(k + 1); x.E = E; x.my = my; x.alpha = alpha; x.T = t; info.append((e, G, V, t))
        for j in range(4): x.setNodeNumber(j, e[j])
        for a in range(4):
            for i in range(3):
                F[3 * (e[a] - 1) + i] += (3 * lam + 2 * mu) * alpha * t * G[a][i] * V
                for b in range(4):
                    for j in range(3): K[3 * (e[a] - 1) + i][3 * (e[b] - 1) + j] += V * (lam * G[a][i] * G[b][j] + mu * G[a][j] * G[b][i] + (mu * sum(G[a][s] * G[b][s] for s in range(3)) if i == j else 0.0))
    act = sorted({i for x in info for i in x[0]}); fixed = {}
    fl = [(act[0], (0, 1, 2)), (act[1], (1, 2)), (act[2], (2,))] if fixm < 2 else [(i, (0, 1, 2)) for i in act[:3]]
    for i, ds in fl:
        for q in ds: fixed[3 * (i - 1) + q] = 0.0 if fixm % 2 == 0 else 0.01 * (i + q)
    for i, v in fixed.items(): sol.addFix(1 + i // 3, (UX, UY, UZ)[i % 3], v)
    ld = {}
    if load: ld[3 * (act[-1] - 1)] = 0.02 * E; ld[3 * (act[-1] - 1) + 2] = -0.03 * E
    if load == 2: ld[3 * (act[-2] - 1) + 1] = 0.01 * E
    for i, v in ld.items(): sol.addLoad(1 + i // 3, (UX, UY, UZ)[i % 3], v); F[i] += v
    free = dict(fixed)
    for i in range(m):
        if 1 + i // 3 not in act: free[i] = 0.0
    r = constrained(K, F, free)
    if r is None: return
    c.op('%d tetrahedra, E=%g my=%g thermal=%d fixed %s load %s' % (len(el), E, my, th, fixed, ld)); sol.solve(); u, R = r; sc = max(abs(x) for x in u) or 1.0
    for i in range(m):
        if 1 + i // 3 in act: c.near(st.getNodeDofSolution(1 + i // 3, (UX, UY, UZ)[i % 3]) / sc, u[i] / sc, 1e-7, 'solution', 'displacement %d of node %d' % (i % 3, 1 + i // 3))
    rs = max([abs(x) for x in R.values()] + [1e-6 * E])
    for i in fixed: c.near(st.getReaction(1 + i // 3, (UX, UY, UZ)[i % 3]) / rs, (R[i] + ld.get(i, 0.0)) / rs, 1e-7, 'reaction', 'support force at dof %d' % i)
    for k, (e, G, V, t) in enumerate(info):
        H = [[sum(u[3 * (e[a] - 1) + i] * G[a][j] for a in range(4)) for j in range(3)] for i in range(3)]; ex = sum(H[i][i] for i in range(3)); x = st.getElementTETRA0(k + 1) if k % 2 else st.getElement(k + 1)
        S = n.MatSym3(); S.zero(); c.expect(x.getTensor(S, n.tensorQuery_E, n.GP_MEAN, 1.0), 'tensor', 'no stress'); Ts = n.MatSym3(); Ts.zero(); x.getTensor(Ts, n.tensorQuery_TSTRAIN, n.GP_MEAN, 2.0) if k else st.getElement(1).getTensor(Ts, n.tensorQuery_TSTRAIN); ss = E * sc + E * abs(alpha * t) + 1e-12
        for i in range(3):
            for j in range(3):
                want = mu * (H[i][j] + H[j][i]) + ((lam * ex - (3 * lam + 2 * mu) * alpha * t) if i == j else 0.0); c.near(S[i, j] / ss, want / ss, 1e-6, 'stress', 'stress %d%d of element %d' % (i, j, k + 1)); c.near(Ts[i, j], (2.0 if k else 1.0) * alpha * t if i == j else 0.0, 1e-12, 'thermal strain', 'element %d' % (k + 1))
        c.near(st.getElementTETRA0(k + 1).vol, V, 1e-10, 'volume', 'element %d' % (k + 1))
    c.state([round(x / sc, 6) for x in u])

# ---------------------------------------------------------------- ownership: any order of letting objects go
NAMES = ['storage', 'solver', 'node', 'element', 'vtk', 'rigid', 'mesh']
ORDERS = list(itertools.permutations(range(7)))
def ownership(c):
    d = Dec(c.idx); solve_at = d(4); order = ORDERS[d(len(ORDERS))]; T = Truss(); o = {}
    o['solver'] = [n.LinearFESolver(), n.NonlinearFESolver(), n.LinearTransientFESolver(), n.LinearFESolver()][solve_at]; o['storage'] = n.FEStorage(); st, sol = o['storage'], o['solver']; sol.attachFEStorage(st); o['mesh'] = n.MeshData()
    for p in T.pos[:2]: o['node'] = n.Node(); o['node'].pos[0], o['node'].pos[1], o['node'].pos[2] = p; st.addNode(o['node'])
    e = o['element'] = n.ElementTRUSS3(); e.E = 2.0; e.A = 3.0; e.setNodeNumber(0, 1); e.setNodeNumber(1, 2); st.addElement(e)
    v = o['vtk'] = n.VtkProcessor(st, os.environ['MC_SCRATCH'] + '/own%d' % os.getpid()); sol.addPostProcessor(v)
    rb = o['rigid'] = n.RigidBodyMpc(); rb.storage = st; rb.masterNode = 1; v3 = n.Vec3(); v3[0] = 2.0; o['mesh'].nodesPos.push_back(v3)
    c.expect(sol.getNumberOfPostProcessors() == 1 and st.nNodes() == 2 and st.nElements() == 1, 'counts', 'sizes')
    if solve_at == 3:
        for i in (1, 2):
            for q in (UX, UY, UZ):
                if (i, q) != (2, UX): sol.addFix(i, q)
        sol.addLoad(2, UX, 6.0); sol.solve(); u, L = T.bar((1, 2)); c.near(st.getNodeDofSolution(2, UX), 6.0 * L / (2.0 * 3.0 * u[0] * u[0]), 1e-9, 'solution', 'displacement')
    else: st.addMpcCollection(rb)
    del st, sol, e, v, rb; seq = []
    for k in order:
        name = NAMES[k]; seq.append(name); alive = name not in ('node', 'element')
        del o[name]; gc.collect(0); c.tick()
        x = [n.Node() for _ in range(3)] + [n.ElementTETRA0(), n.dVec(7), n.MatSym3()]; del x
        if 'storage' in o:
            s = o['storage']; c.expect(s.nNodes() == 2 and s.nElements() == 1 and list(s.getNode(1).pos) == [0.0, 0.0, 0.0] and list(s.getNode(2).pos) == [3.0, 0.5, 0.0] and s.getElementTRUSS3(1).E == 2.0 and s.getElementTRUSS3(1).getNodeNumber(1) == 2, 'kept', lambda: 'the model changed after %s' % seq); del s
        if 'solver' in o: c.expect(o['solver'].getNumberOfPostProcessors() == 1, 'kept', lambda: 'post-processors after %s' % seq)
        if 'mesh' in o: c.expect(list(o['mesh'].nodesPos[0]) == [2.0, 0.0, 0.0], 'kept', 'mesh data')
    c.op('let go in the order ' + ' '.join(seq))
    for f in os.listdir(os.environ['MC_SCRATCH']):
        if f.startswith('own%d' % os.getpid()): os.unlink(os.path.join(os.environ['MC_SCRATCH'], f))
    c.state(solve_at, tuple(seq))

# ---------------------------------------------------------------- reading files
def cdb(c):
    d = Dec(c.idx); nv = d(4); ne = d(4); nf = d(3); nl = d(3); nc = d(3); eol = ['\n', '\r\n'][d(2)]; comp = d(2)
    nums = [[1, 2, 3, 4], [10, 7, 3, 22], [100, 200, 5, 6, 9], [4]][nv]; pos = [[1.5 * k, -0.25 * k * k, 1e3 / (k + 1)] for k in range(len(nums))]
    L = ['/PREP7', 'NBLOCK,6,SOLID', '(3i9,6e20.13)'] + ['%9d%9d%9d%20.13E%20.13E%20.13E' % (a, 0, 0, *p) for a, p in zip(nums, pos)] + ['N,R5.3,LOC,       -1,']
    el = [[nums[(k + q) % len(nums)] for q in range(2 + k)] for k in range(ne)]; ty = [1 + k % 2 for k in range(ne)]
    L += ['EBLOCK,19,SOLID', '(19i9)'] + [''.join('%9d' % x for x in [3, t, 1, 1, 0, 0, 0, 0, len(e), 0, 5 + k] + e) for k, (e, t) in enumerate(zip(el, ty))] + ['       -1']
    fix = [(nums[k % len(nums)], (UX, TEMP)[k % 2], 0.5 * k - 0.5) for k in range(nf)]; load = [(nums[-1], (UY, TEMP)[k % 2], 2.5 + k) for k in range(nl)]
    L += ['D,%d,%s,%.12g' % (a, 'TEMP' if q == TEMP else 'UX', v) for a, q, v in fix] + ['F,%d,%s,%.12g' % (a, 'HEAT' if q == TEMP else 'FY', v) for a, q, v in load]
    for k in range(nc): L += ['CE,R5.0,DEFI,%8d,%8d,  %.8f' % (2, k + 1, 0.5), 'CE,R5.0,NODE,%10d,UX  ,  1.0,%10d,UY  , -2.0' % (nums[0], nums[-1])]
    L += ['CMBLOCK,BOT,NODE,       1', '(8i10)', '%10d' % nums[0]]
    f = os.environ['MC_SCRATCH'] + '/py%d.cdb' % os.getpid(); open(f, 'w', newline='').write(eol.join(L) + eol); c.op('%d nodes, %d elements, %d+%d conditions, %d equations' % (len(nums), ne, nf, nl, nc))
    md = n.MeshData(); md.nodesNumbers.push_back(99); ok = n.readCdbFile(f, md); os.unlink(f); c.expect(ok, 'read', 'not read')
    if comp:
        md.compressNumbers(); o = sorted(nums); w = {a: i + 1 for i, a in enumerate(o)}; m2 = lambda a: w[a]
        # new numbers follow the order of the nodes in the list or of the old numbers; either way they are 1..N and stand for the same nodes
        got = list(md.nodesNumbers); c.expect(sorted(got) == list(range(1, len(nums) + 1)), 'compress', lambda: 'numbers %s' % got); back = {a: b for a, b in zip(nums, got)}; m2 = lambda a: back[a]
    else: m2 = lambda a: a; c.expect(list(md.nodesNumbers) == nums, 'nodes', lambda: 'numbers %s' % list(md.nodesNumbers))
    c.expect(len(md.nodesPos) == len(pos) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for p, q in zip(md.nodesPos, pos) for x, y in zip(list(p), q)), 'positions', lambda: 'positions %s' % [list(p) for p in md.nodesPos])
    c.expect([list(e) for e in md.cellNodes] == [[m2(a) for a in e] for e in el] and list(md.cellNumbers) == [5 + k for k in range(ne)], 'elements', lambda: 'elements %s' % [list(e) for e in md.cellNodes])
    if ne: c.expect(list(md.cellIntData['TYPE']) == ty and list(md.cellIntData['MAT']) == [3] * ne and sorted(md.cellIntData.keys()) == ['CS', 'MAT', 'REAL', 'SECT', 'SHAPE', 'TYPE'], 'attributes', lambda: 'types %s' % list(md.cellIntData['TYPE']))
    if ne:
        for t in (1, 2): c.expect(list(md.getCellsByAttribute('TYPE', t)) == [k for k in range(ne) if ty[k] == t], 'attributes', 'elements of type %d' % t)
    c.expect(list(md.getDegeneratedCells()) == [k for k, e in enumerate(el) if len(set(e)) < len(e)], 'degenerated', lambda: 'degenerated %s' % list(md.getDegeneratedCells()))
    c.expect([(b.node, b.node_dof, b.value) for b in md.fixBcs] == [(m2(a), q, v) for a, q, v in fix], 'fix', lambda: 'fixed %s' % [(b.node, b.node_dof, b.value) for b in md.fixBcs])
    c.expect([(b.node, b.node_dof, b.value) for b in md.loadBcs] == [(m2(a), q, v) for a, q, v in load], 'load', lambda: 'loads %s' % [(b.node, b.node_dof, b.value) for b in md.loadBcs])
    c.expect(len(md.mpcs) == nc and all(x.b == 0.5 for x in md.mpcs), 'mpc', '%d equations' % len(md.mpcs)); c.expect(list(md.feComps.keys()) == ['BOT'], 'components', lambda: 'components %s' % list(md.feComps.keys()))
    md.clear(); c.expect(len(md.nodesNumbers) == 0 and len(md.cellNodes) == 0 and len(md.fixBcs) == 0 and len(md.loadBcs) == 0 and len(md.mpcs) == 0, 'clear', 'data left after clear()'); c.state(nv, ne, nf, nl, nc, comp)

# a model described by a file: constraint equations of the file used from Python
def file_model(c):
    d = Dec(c.idx); b = [0.0, 0.5, -0.25][d(3)]; co = [1.0, -2.0, 0.5][d(3)]; ld = [0.0, 3.0][d(2)]; swap = d(2); T = Truss()
    L = ['NBLOCK,6,SOLID', '(3i9,6e20.13)'] + ['%9d%9d%9d%20.13E%20.13E%20.13E' % (k + 1, 0, 0, *map(float, T.pos[k])) for k in range(4)] + ['-1', 'EBLOCK,19,SOLID', '(19i9)'] + [''.join('%9d' % x for x in [1, 1, 1, 1, 0, 0, 0, 0, 2, 0, k + 1] + list(e)) for k, e in enumerate(T.bars[:6])] + ['-1']
    t = ['%10d,UX  ,  %.8f' % (4, 1.0), '%10d,UY  ,  %.8f' % (3, co)]
    if swap: t.reverse()
    L += ['CE,R5.0,DEFI,       2,       1,  %.8f' % b, 'CE,R5.0,NODE,' + ','.join(t)]
    L += ['D,%d,%s,0' % (a, q) for a, q in ((1, 'UX'), (1, 'UY'), (1, 'UZ'), (2, 'UY'), (2, 'UZ'), (3, 'UZ'))] + ['F,4,FZ,%.8f' % ld]
    f = os.environ['MC_SCRATCH'] + '/pm%d.cdb' % os.getpid(); open(f, 'w').write('\n'.join(L) + '\n'); md = n.MeshData(); c.expect(n.readCdbFile(f, md), 'read', 'not read'); os.unlink(f); md.compressNumbers()
    sol = n.LinearFESolver(); st = n.FEStorage(); sol.attachFEStorage(st)
    for i, j in enumerate(st.createNodes(md.nodesNumbers.size())): st.getNode(j).pos = md.nodesPos[i]
    ind = md.getCellsByAttribute('TYPE', 1)
    for i, j in zip(st.createElements(ind.size(), n.ElementType_TRUSS3), ind):
        e = st.getElementTRUSS3(i); e.E = T.E; e.A = T.A
        for q in (0, 1): e.setNodeNumber(q, md.cellNodes[j][q])
    for v in md.loadBcs: sol.addLoad(v.node, v.node_dof, v.value)
    for v in md.fixBcs: sol.addFix(v.node, v.node_dof, v.value)
    for m in md.mpcs: st.addMpc(m)
    c.op('file with a constraint equation: b=%g coefficient %g load %g' % (b, co, ld)); gc.collect(0)
    sol.solve(); K = dense(T, 4, T.bars[:6]); fixed = [0, 1, 2, 4, 5, 8]; fr = [i for i in range(12) if i not in fixed]; A = [[K[i][j] for j in fr] + [0.0] for i in fr] + [[0.0] * (len(fr) + 1)]; F = [ld if i == 11 else 0.0 for i in fr] + [b]
    for i, v in ((9, 1.0), (7, co)): A[fr.index(i)][-1] += v; A[-1][fr.index(i)] += v
    x = solve(A, F)
    for k, i in enumerate(fr): c.near(st.getNodeDofSolution(1 + i // 3, (UX, UY, UZ)[i % 3]), x[k], 1e-7, 'solution', 'displacement %d of node %d' % (i % 3, 1 + i // 3))
    c.expect(st.nMpc() == 1, 'count', 'equations'); md.clear(); gc.collect(0); c.near(st.getNodeDofSolution(4, UX), x[fr.index(9)], 1e-7, 'kept', 'after the mesh data was cleared'); c.state([round(v, 6) for v in x])

def vtkfiles(c):
    d = Dec(c.idx); steps = 1 + d(3); kind = d(2); allr = d(2); job = 'v%d_' % os.getpid(); path = os.environ['MC_SCRATCH']; sol = n.LinearTransientFESolver() if kind else n.LinearFESolver(); st = n.FEStorage(); sol.attachFEStorage(st); st.createNodes(4)
    for i, p in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))): st.getNode(i + 1).pos[0] = p[0]; st.getNode(i + 1).pos[1] = p[1]
    st.createElements(1, n.ElementType_QUADTH); e = st.getElementQUADTH(1); e.k = e.rho = e.c = 1.0
    for i in range(4): e.setNodeNumber(i, i + 1)
    sol.addFix(1, TEMP, 2.0); sol.addLoad(3, TEMP, 1.0)
    if kind: sol.numberOfTimesteps = steps
    else: steps = 1
    v = n.VtkProcessor(st, os.path.join(path, job))
    if allr: v.writeAllResults()
    c.expect(sol.addPostProcessor(v) == 1, 'number', 'number of the post-processor'); del v; c.expect(sol.addPostProcessor(n.VtkProcessor(st, os.path.join(path, job + 'b'))) == 2, 'number', 'number of the second post-processor'); gc.collect(0); c.op('vtk files of %d steps' % steps); sol.solve()
    T = [st.getNodeDofSolution(i + 1, TEMP) for i in range(4)]; txt = {}
    for f in os.listdir(path):
        if f.startswith(job): txt[f] = open(os.path.join(path, f)).read(); os.unlink(os.path.join(path, f))
    want = sorted(job + b + '%d.vtk' % k for b in ('', 'b') for k in range(steps + 1)); c.expect(sorted(txt) == want, 'files', lambda: 'files %s, expected %s' % (sorted(txt), want))
    for b in ('', 'b'):
        w = txt[job + b + '%d.vtk' % steps]; c.expect('POINTS 4' in w and 'CELLS 1' in w, 'content', 'mesh'); k = w.split('\n').index(next(l for l in w.split('\n') if 'TEMP' in l and l.startswith('SCALARS')))
        got = [float(x) for x in ' '.join(w.split('\n')[k + 2:]).split()[:4]]; c.expect(all(abs(x - y) <= 1e-5 * max(1.0, abs(y)) for x, y in zip(got, T)), 'content', lambda: 'temperatures in the file %s, solution %s' % (got, T))
    c.state(steps, kind, allr)

def main():
    E = Explorer('P24'); t = E.thorough; D = 5 if t else 4
    E.family('vec', 'Vec2..Vec7 against lists: all sequences of %d operations out of 12' % D, 6 * 12 ** D, lambda c: vec_seq(c, 6, 2, D, False))
    E.family('dvec', 'dVec of 1..5 values against lists: all sequences of %d operations out of 12' % D, 5 * 12 ** D, lambda c: vec_seq(c, 5, 1, D, True))
    E.family('bounds', 'Vec2..7 and dVec of 0, 1, 5 values: 9 indices that are not valid, reading and writing', 9 * 9 * 2, bounds)
    E.family('dvec-life', 'dVec: 3 ways to create, sizes 0..4, all sequences of %d of reinit/fill/zero/clear/set' % D, 15 * 6 ** D, lambda c: dvec(c, D))
    E.family('mat33', 'Mat33 against nested lists: all sequences of %d operations out of 9' % D, 9 ** D, lambda c: mat33(c, D))
    E.family('dmat', 'dMat of 1..4 x 1..4, 5 ways to fill, every index of 6x6', 16 * 5 * 36, dmat)
    E.family('ragged', 'from_list with nested lists of every shape of 0..4 rows of 0..4 values, Mat33 and dMat', 2 * len(SHAPES), ragged)
    E.family('matsym', 'MatSym3 against nested lists: all sequences of %d operations out of 12' % D, 12 ** D, lambda c: msym(c, D))
    E.family('members', 'positions of a free node, of a node of a model, of mesh data: all sequences of %d operations out of 8' % (D + 1), 3 * 8 ** (D + 1), lambda c: members(c, D + 1))
    E.family('elements', '4 element types x node indices -1..5 x 3 ways to create', 4 * 7 * 3, elements)
    E.family('ownership', 'all 5040 orders of letting 7 objects go x 3 solvers, one of them with and without a solution', 4 * len(ORDERS), ownership)
    E.family('cdb', 'files of 4 node lists x 0..3 elements x conditions x equations x line endings x renumbering', 4 * 4 * 3 * 3 * 3 * 2 * 2, cdb)
    E.family('file-model', 'a model with a constraint equation read from a file and solved: 3 constants x 3 coefficients x load x order of terms', 36, file_model)
    E.family('truss', 'space trusses: 32 topologies x 3 support values x 4 loads x 6 support sets, one and two solutions', 32 * 3 * 4 * 6, truss)
    E.family('thermal', 'plane conduction with convective and heated edges', 3 * 6 * 3 * 4 * 2 * 2 * 2, lambda c: thermal(c, False))
    E.family('thermal-transient', 'the same in 3 time steps', 3 * 6 * 3 * 4 * 2 * 2 * 2, lambda c: thermal(c, True))
    E.family('tetra', 'linear tetrahedra: 2 meshes x supports x loads x thermal x 3 Poisson ratios x 2 moduli x distortion', 2 * 4 * 3 * 3 * 3 * 2 * 2, tetra)
    E.family('vec-big', 'dVec of 127..70000 values, three ways to create', 3 * len(SIZES), bigvec)
    E.family('model-big', 'chains of 127..300 nodes read from a file and built, two orders of elements', 32, bigmodel)
    E.family('vtk', 'files written during a solution', 12, vtkfiles)
    return run(E)
if __name__ == '__main__': sys.exit(main())
