import copy
from fluids.numerics import arrays as A
from fluids import numerics as N


def call(T, op, fn, kw, **x):
    k0 = copy.deepcopy(kw)
    out = T.call(op, fn, kw, **x)
    same = repr(k0) == repr(kw)
    T.cur[-1]['kept'] = same
    T.cell = None
    return out


def square(c, n, rng):
    u = lambda: rng.uniform(-1, 1)
    M = [[u() for _ in range(n)] for _ in range(n)]
    if c == 'dominant':
        for i in range(n): M[i][i] = rng.choice([-1, 1])*(n + rng.random())
    if c == 'permuted':
        p = list(range(n)); rng.shuffle(p)
        M = [[(rng.choice([-1, 1])*(1 + rng.random()) if p[i] == j else (u()*.3 if rng.random() < .3 and i != j else 0.0)) for j in range(n)] for i in range(n)]
    if c == 'tiny':
        s = 10**rng.uniform(-8, -3)
        M = [[s*x for x in r] for r in M]
    if c == 'huge':
        s = 10**rng.uniform(3, 8)
        M = [[s*x for x in r] for r in M]
    if c == 'mixed':
        M = [[10**rng.uniform(-3, 3)*rng.choice([-1, 1]) for _ in range(n)] for _ in range(n)]
    return M


def amp(M, n):
    """growth of the closed forms, which divide by leading minors"""
    had = 1.0
    for r in M: had *= sum(map(abs, r)) or 1.0
    import numpy as np
    out = 1.0
    for k in range(1, n + 1):
        h = 1.0
        for r in M[:k]: h *= sum(map(abs, r[:n])) or 1.0
        d = abs(np.linalg.det(np.array([r[:k] for r in M[:k]])))
        out *= max(1.0, h/d) if d else float('inf')
    return out


def squares(M, n, rng, T):
    z = any(not any(r) for r in M) or any(not any(r[j] for r in M) for j in range(n))
    cp = lambda: copy.deepcopy(M)
    call(T, 'det', A.det, {'matrix': cp()})
    call(T, 'inv', A.inv, {'matrix': cp()}, zeroline=z)
    b = [rng.choice([0.0, 1.0, rng.uniform(-5, 5)]) for _ in range(n)]
    if not any(b): b[rng.randrange(n)] = 1.0
    call(T, 'solve', A.solve, {'matrix': cp(), 'b': list(b)}, zeroline=z)
    call(T, 'lu', A.lu, {'A': cp()}, zeroline=z)
    if 2 <= n <= 4:
        a = amp(M, n)
        if a < 1e8: call(T, 'direct', [N.solve_2_direct, N.solve_3_direct, N.solve_4_direct][n - 2], {'mat': cp(), 'vec': list(b)}, amp=a)


def run(job, rng, T, tier):
    m = job['m']
    T.trace(job['cell'])
    if m == 'reached':
        squares([[float(x) for x in r] for r in job['A']], job['n'], rng, T)
        return
    for rep in range(3 if tier == 'quick' else 15):
        if rep: T.trace()
        if m == 'square':
            squares(square(job['c'], job['n'], rng), job['n'], rng, T)
        elif m == 'rect':
            i, j, r = job['i'], job['j'], job['r']
            while 1:
                if r == 0: M = [[0.0]*j for _ in range(i)]
                else:
                    P = [[float(rng.randrange(-3, 4)) for _ in range(r)] for _ in range(i)]
                    S = [[float(rng.randrange(-3, 4)) for _ in range(j)] for _ in range(r)]
                    M = [[sum(P[a][k]*S[k][b] for k in range(r)) for b in range(j)] for a in range(i)]
                import numpy as np
                s = np.linalg.svd(np.array(M), compute_uv=False)
                if r == 0 or (s[r-1] > 1e-3*s[0] and (r == len(s) or s[r] < 1e-12*s[0])): break
            rc = {} if r in (0, min(i, j)) else {'rcond': 1e-9}
            call(T, 'null', A.null_space, dict(a=copy.deepcopy(M), **rc))
            b = [rng.uniform(-5, 5) for _ in range(i)]
            if r and rng.random() < .3: b = [float(sum(x)) for x in M]
            call(T, 'gelsd', A.gelsd, dict(a=copy.deepcopy(M), b=b, **rc))
            call(T, 'transpose', A.transpose, {'matrix': M})
            call(T, 'shape', A.shape, {'value': M}, dims=(i, j))
            call(T, 'shape', A.shape, {'value': np.array(M)} if False else {'value': [M, M]}, dims=(2, i, j))
            call(T, 'sumrows', A.sum_matrix_rows, {'matrix': M})
            call(T, 'sumcols', A.sum_matrix_cols, {'matrix': M})
            B = [[rng.uniform(-3, 3) for _ in range(j)] for _ in range(i)]
            s = rng.choice([-1, 1])*rng.log(.01, 100)
            call(T, 'madd', A.scalar_add_matrices, {'A': M, 'B': B})
            call(T, 'msub', A.scalar_subtract_matrices, {'A': M, 'B': B})
            call(T, 'smul', A.scalar_multiply_matrix, {'scalar': s, 'matrix': B})
            call(T, 'sdiv', A.scalar_divide_matrix, {'scalar': s, 'matrix': B})
            out = call(T, 'stack', A.stack_vectors, {'vectors': B})
            T.cur[-1]['fresh'] = isinstance(out, list) and out is not B and all(x is not y for x, y in zip(out, B))
        elif m == 'mult':
            i, j, k = job['i'], job['j'], job['k']
            P = [[rng.uniform(-3, 3) for _ in range(j)] for _ in range(i)]
            S = [[rng.uniform(-3, 3) for _ in range(k)] for _ in range(j)]
            call(T, 'matmul', A.matrix_multiply, {'A': P, 'B': S})
            call(T, 'matvec', A.matrix_vector_dot, {'matrix': P, 'vector': [rng.uniform(-3, 3) for _ in range(j)]})
        elif m == 'vec':
            n = job['n']
            v = lambda: [rng.choice([0.0, 1.0, -2.0, rng.uniform(-9, 9)]) for _ in range(n)]
            call(T, 'dot', A.dot_product, {'a': v(), 'b': v()})
            call(T, 'norm2', A.norm2, {'arr': v()})
            call(T, 'argsort', A.argsort1d, {'arr': v()})
            call(T, 'sortpair', A.sort_paired_lists, {'list1': v(), 'list2': v()})
            kind = rng.choice(['float', 'int', 'default'])
            kw = {'N': n}
            call(T, 'eye', (lambda N: A.eye(N, int)) if kind == 'int' else A.eye if kind == 'default' else (lambda N: A.eye(N, dtype=float)), kw, kind=kind)
            M = [v() for _ in range(n)]
            if n > 1:
                call(T, 'totri', A.array_as_tridiagonals, {'arr': M})
            b = [rng.choice([-1, 1])*rng.uniform(3, 9) for _ in range(n)]
            a, c = [[rng.uniform(-1, 1) for _ in range(n - 1)] for _ in 'ab']
            call(T, 'fromtri', A.tridiagonals_as_array, {'a': a, 'b': b, 'c': c})
            call(T, 'solvetri', A.solve_tridiagonal, {'a': a, 'b': b, 'c': c, 'd': v()[:-1] + [1.0]})
            W = [[rng.uniform(-3, 3) for _ in range(n)] for _ in range(n)]
            ix = rng.sample(range(n), rng.randrange(1, n + 1))
            call(T, 'subset', A.subset_matrix, {'whole': W, 'subset': ix}, index=ix)
            lo, hi, st = rng.randrange(n), rng.randrange(1, n + 1), rng.choice([1, 2, 3])
            ix = list(range(lo, hi, st))
            call(T, 'subset', lambda whole, sl=slice(lo, hi, st): A.subset_matrix(whole, sl), {'whole': W}, index=ix)
            call(T, 'shape', A.shape, {'value': v()}, dims=(n,))
        else:
            bad(job['k'], rng, T)


def bad(k, rng, T):
    R = [[1.0, 2.0], [3.0, 4.0]]
    r = lambda fn, *p, want='ValueError': (T.call('refused', fn, {}, pos=p, want=want))
    if k == 'ragged':
        g = [[1.0, 2.0], [3.0]]
        for f in (A.transpose, A.sum_matrix_rows, A.sum_matrix_cols): r(f, g)
        r(A.matrix_multiply, g, R); r(A.matrix_multiply, R, g); r(A.matrix_vector_dot, g, [1.0, 2.0])
        for f in (A.scalar_add_matrices, A.scalar_subtract_matrices): r(f, R, g)
    elif k == 'mismatch':
        r(A.dot_product, [1.0], [1.0, 2.0]); r(A.dot_product, [1.0, 2.0, 3.0], [1.0, 2.0])
        r(A.matrix_vector_dot, R, [1.0]); r(A.matrix_vector_dot, R, [1.0, 2.0, 3.0]); r(A.matrix_multiply, R, [[1.0, 2.0]]); r(A.matrix_multiply, R, [[1.0, 2.0]]*3)
        for f in (A.scalar_add_matrices, A.scalar_subtract_matrices): r(f, R, [[1.0, 2.0]]); r(f, R, [[1.0], [2.0]]); r(f, [[1.0], [2.0]], R)
        r(A.sort_paired_lists, [1.0, 2.0], [1.0]); r(A.gelsd, R, [1.0]); r(A.gelsd, R, [1.0, 2.0, 3.0])
    elif k == 'empty':
        T.call('empty', A.transpose, {}, pos=([],), want=[]); T.call('empty', A.transpose, {}, pos=([[]],), want=[])
        T.call('empty', A.stack_vectors, {}, pos=([],), want=[]); T.call('empty', A.sort_paired_lists, {}, pos=([], []), want=([], []))
        T.call('empty', A.null_space, {}, pos=([],), want=[]); T.call('empty', A.null_space, {}, pos=([[]],), want=[])
        T.call('empty', A.argsort1d, {}, pos=([],), want=[])
        T.call('gelsd0', A.gelsd, {'a': [], 'b': []}, n=0); T.call('gelsd0', A.gelsd, {'a': [[]], 'b': []}, n=0)
        for e in ([], [[]]):
            r(A.sum_matrix_rows, e); r(A.sum_matrix_cols, e); r(A.scalar_multiply_matrix, 2.0, e); r(A.scalar_divide_matrix, 2.0, e)
            r(A.scalar_add_matrices, e, e); r(A.scalar_subtract_matrices, e, e); r(A.matrix_multiply, e, R); r(A.matrix_multiply, R, e)
    else:
        r(A.eye, 0); r(A.eye, -2); r(A.eye, 2.0, want='TypeError'); r(A.scalar_divide_matrix, 0.0, R, want='ZeroDivisionError')
        for n in (2, 3, 4, 5):
            Z = [[1.0]*n for _ in range(n)]; Z[rng.randrange(n)] = [0.0]*n
            r(A.inv, Z); r(A.solve, Z, [1.0]*n); r(A.lu, Z)
        r(A.solve, [[0.0]], [1.0])
