"""C00 not a property: the stand-ins for numpy, scipy.sparse and scipy.special against the originals.

Every expression below is evaluated symbolically and, at a model of its path, with the real libraries; a difference is a
mistake of the machinery, an undecided case is something the stand-ins lack.  python run.py C00 --no-evidence -v
"""
import math
from symx.harness import Case

MODS = ['sidetopics.util.sparse_elementwise']
BOUNDS = "one matrix each of 2x3, 3x3 and 3x2 symbolic entries"

EXPRS = r'''
A + B ; A - B ; A * B ; A / P ; -A ; abs(A) ; A ** 2 ; P ** 0.5 ; P ** -1 ; 1 / P ; 2 - A ; A // 1 ; np.mod(A, 1)
A @ C ; A.dot(C) ; np.dot(A, C) ; np.matmul(A, C) ; np.inner(v, v) ; np.vdot(v, v) ; np.outer(u, v) ; np.tensordot(A, C, axes=1) ; np.kron(u, v)
np.einsum('ij,jk->ik', A, C) ; np.einsum('ij,ij->i', A, B) ; np.einsum('ij->j', A) ; np.einsum('i,ij->ij', u, A) ; np.einsum('ij,ij', A, B)
np.add(A, B) ; np.subtract(A, B) ; np.multiply(A, B) ; np.divide(A, P) ; np.true_divide(A, P) ; np.square(A) ; np.reciprocal(P) ; np.negative(A) ; np.power(P, 2)
np.exp(A) ; np.log(P) ; np.log1p(P) ; np.expm1(A) ; np.sqrt(P) ; np.absolute(A) ; np.fabs(A) ; np.sign(A) ; np.log2(P) ; np.log10(P)
np.maximum(A, B) ; np.minimum(A, B) ; np.fmax(A, B) ; np.fmin(A, B) ; np.clip(A, -1, 1) ; A.clip(0) ; A.clip(max=1) ; np.clip(A, None, 1) ; np.where(A > B, A, B) ; np.where(A > 0, A, 0)
A.sum() ; A.sum(axis=0) ; A.sum(axis=1) ; A.sum(axis=-1) ; A.sum(axis=1, keepdims=True) ; np.sum(A) ; np.sum(A, axis=(0, 1)) ; np.sum(A, axis=0, keepdims=True) ; sum(A) ; sum(v)
A.mean() ; A.mean(axis=0) ; np.mean(A, axis=1) ; A.var() ; A.var(axis=0) ; A.var(ddof=1) ; np.var(A, axis=1) ; A.std() ; np.std(A, axis=0) ; np.average(A, axis=1) ; np.average(A, axis=1, weights=P[0])
A.max() ; A.max(axis=0) ; A.max(axis=1) ; np.max(A) ; np.amax(A, axis=1) ; A.min() ; A.min(axis=0) ; np.min(A) ; np.amin(A, axis=1, keepdims=True) ; max(v) ; min(v) ; np.ptp(v)
A.prod() ; A.prod(axis=0) ; np.prod(v) ; np.cumsum(v) ; v.cumsum() ; np.cumsum(A, axis=0) ; np.cumsum(A, axis=1) ; np.cumprod(v) ; np.diff(v) ; np.diff(A, axis=0)
A.T ; A.transpose() ; np.transpose(A) ; A.reshape(3, 2) ; A.reshape((3, 2)) ; A.reshape(-1) ; A.reshape((-1, 1)) ; A.reshape((3, 2), order='F') ; A.ravel() ; A.ravel(order='F') ; A.flatten() ; np.ravel(A) ; np.reshape(A, (3, 2)) ; np.reshape(A, 6, order='F')
v[:, np.newaxis] ; v[np.newaxis, :] ; v[None, :] ; v[:, None] * u ; A[..., 0] ; A[..., np.newaxis] ; np.expand_dims(v, 0) ; np.expand_dims(v, axis=1) ; np.squeeze(v[:, None]) ; v[:, None].squeeze() ; np.atleast_1d(v) ; np.atleast_2d(v) ; np.swapaxes(A, 0, 1) ; A.swapaxes(0, 1) ; np.moveaxis(A, 0, 1) ; np.broadcast_to(v, (2, 3))
A[0] ; A[-1] ; A[:, 1] ; A[::-1] ; A[:, ::-1] ; A[0:1, 1:] ; A[[1, 0]] ; A[:, [2, 0]] ; A[np.array([0, 1, 0])] ; A[[0, 1], [2, 1]] ; A[np.ix_([1, 0], [2, 1])] ; A[np.array([True, False])] ; v[np.array([True, False, True])] ; A.take([1, 0], axis=0) ; np.take(A, [2, 0], axis=1) ; np.take(v, [2, 0]) ; v.take([1])
A[A > 0] ; A[A > 0].sum() ; v[v > 0] ; np.extract(v > 0, v) ; np.compress([True, False, True], v) ; np.flip(v) ; np.flipud(A) ; np.fliplr(A) ; np.roll(v, 1) ; np.delete(v, 1) ; np.insert(v, 1, 2.5) ; np.append(v, 1.5) ; np.append(u, v)
np.hstack((A, B)) ; np.vstack((A, B)) ; np.concatenate((A, B)) ; np.concatenate((A, B), axis=1) ; np.concatenate([u, v]) ; np.stack((A, B)) ; np.stack([u, u], axis=1) ; np.column_stack((u, u)) ; np.row_stack((v, v)) if hasattr(np, 'row_stack') else v ; np.r_[u, v] ; np.c_[u, u] ; np.tile(v, 2) ; np.tile(v, (2, 1)) ; np.repeat(v, 2) ; np.repeat(A, 2, axis=0) ; v.repeat(2) ; np.repeat(v, [1, 0, 2]) ; np.block([[A], [B]])
np.array_split(v, 2)[0] ; np.split(v, 3)[1] ; np.vsplit(A, 2)[1] ; np.hsplit(A, 3)[2] ; np.array([u, u]) ; np.array([x for x in v]) ; np.array(list(A)) ; np.asarray([v[0], v[1] + 1]) ; np.fromiter((x * 2 for x in v), dtype=np.float64) ; np.fromiter((x for x in v), float, 3)
np.argmax(v) ; v.argmax() ; A.argmax(axis=1) ; np.argmin(v) ; np.argmax(A, axis=0) ; np.argsort(v) ; v.argsort()[::-1] ; np.argsort(-v) ; np.sort(v) ; sorted(v) ; np.argsort(v, kind='stable') ; np.lexsort((v, )) ; np.argpartition(v, 1)[:2].sum() ; np.partition(v, 1)[1] ; np.sort(A, axis=1) ; np.searchsorted(np.array([1., 2., 3.]), v)
np.nonzero(v > 0)[0] ; np.flatnonzero(v > 0) ; np.argwhere(v > 0) ; np.where(v > 0)[0] ; (v > 0).nonzero()[0] ; np.count_nonzero(v > 0) ; (v > 0).sum() ; np.any(v > 0) ; np.all(v > 0) ; (A > 0).any(axis=1) ; (A > 0).all(axis=0) ; np.logical_and(v > 0, v < 1) ; np.logical_or(v > 0, v < -1) ; np.logical_not(v > 0) ; ~(v > 0) ; (v > 0) & (v < 1) ; (v > 0) | (v < -1) ; (v > 0) ^ (v < 1)
np.isnan(A) ; np.isinf(A) ; np.isfinite(A) ; np.isfinite(A).all() ; np.isclose(A, B) ; np.allclose(A, A) ; np.array_equal(A, A) ; np.nan_to_num(A) ; A == B ; A != B ; A >= B
np.zeros(3) + v ; np.zeros_like(A) ; np.ones_like(A) ; np.full_like(A, 2) ; np.full((2, 3), 2.) + A ; np.ones((2, 3)) * A ; np.eye(3) + S ; np.identity(3) ; np.arange(3) * v ; np.linspace(0, 1, 3) * v ; np.diag(v) ; np.diag(S) ; S.diagonal() ; np.diagonal(S) ; np.trace(S) ; S.trace() ; np.tril(S) ; np.triu(S) ; np.diagflat(v) ; np.tri(3) * S ; S[np.diag_indices(3)] ; S[np.tril_indices(3)] ; S[np.triu_indices(3, 1)]
np.linalg.norm(v) ; np.linalg.norm(A) ; np.linalg.norm(A, axis=1) ; np.linalg.norm(v, 1) ; np.linalg.norm(v, ord=np.inf) ; np.linalg.det(Q) ; np.linalg.inv(Q) ; np.linalg.slogdet(Q)[1] ; np.linalg.solve(Q, v) ; np.linalg.cholesky(Q) ; np.linalg.matrix_power(S, 2) ; np.linalg.multi_dot([A, C, A])
np.cov(A.T) ; np.cov(A, rowvar=False) ; np.cov(A.T, bias=True) ; np.bincount([0, 1, 1], weights=v) ; np.bincount(np.array([0, 2, 2]), minlength=4) ; np.unique(np.array([3, 1, 3])) ; np.unique(np.array([3, 1, 3]), return_inverse=True)[1] ; np.unique(np.array([3, 1, 3]), return_counts=True)[1] ; np.isin(np.array([1, 2, 3]), [2]) ; np.in1d(np.array([1, 2, 3]), [2]) if hasattr(np, 'in1d') else 0 ; np.setdiff1d([1, 2, 3], [2]) ; np.intersect1d([1, 2, 3], [2, 3]) ; np.union1d([1], [2]) ; np.digitize(v, [0.])
np.logaddexp(u[0], u[1]) ; np.logaddexp.reduce(v) ; np.add.reduce(A) ; np.add.reduce(A, axis=1) ; np.maximum.reduce(v) ; np.multiply.reduce(v) ; np.minimum.reduce(A, axis=0) ; np.add.accumulate(v) ; np.multiply.outer(u, v) ; np.add.outer(u, v) ; np.subtract.outer(u, v) ; np.add.reduceat(v, [0, 2])
np.apply_along_axis(lambda r: r / r.sum(), 1, P) ; np.vectorize(lambda x: x * 2)(v) ; np.nansum(A) ; np.nanmax(v) ; np.median(v) ; np.round(v) ; np.rint(v) ; np.floor(v) ; np.ceil(v) ; np.trunc(v) ; v.round() ; np.heaviside(v, 0.5) ; np.interp(0.5, [0, 1], [2, 3]) ; np.hypot(u[0], u[1]) ; np.float_power(P, 2) ; np.copysign(v, -1) ; np.cbrt(v) ; np.sinh(u) ; np.tanh(u) ; np.cosh(u) ; np.arctan(u) ; np.degrees(u)
A.astype(np.float32) ; A.astype(np.float64, copy=False) ; A.astype('float64') ; A.astype(float) ; N.astype(np.float64) ; N + 1 ; N * A ; N / 2 ; N // 2 ; N % 2 ; N.sum(axis=1) ; N.dot(C) ; N.T @ A ; N.max() ; N.astype(bool) ; (N > 0).astype(int) ; N.astype(np.int32) ; np.repeat(np.arange(3), [1, 2, 0]) ; A.tolist() ; v.tolist() ; A.item(2) ; A.copy() ; A.size * u ; A.ndim + u ; len(A) * u ; A.nbytes ; A.dtype == np.float64 ; np.shape(A)[1] ; np.size(A) ; np.ndim(A)
[x for row in A for x in row] ; [r.sum() for r in A] ; [a * b for a, b in zip(u, u)] ; [i * x for i, x in enumerate(v)] ; list(map(lambda x: x + 1, v)) ; dict(zip('abc', v))['b'] ; [x for _, x in np.ndenumerate(A)] ; [A[ix] for ix in np.ndindex(2, 3)] ; [x for x in np.nditer(A)] ; [x for x in A.flat] ; sum(x * y for x, y in zip(v, v)) ; math.exp(u[0]) ; math.log(P[0, 0]) ; math.sqrt(P[0, 0]) ; math.fsum(v) ; functools.reduce(lambda a, b: a + b, v) ; any(x > 0 for x in v) ; all(x > 0 for x in v) ; math.log1p(P[0, 0]) ; math.isnan(u[0]) ; math.isfinite(u[0]) ; math.floor(u[0]) ; math.prod(v) ; math.pow(P[0, 0], 2) ; math.lgamma(P[0, 0]) ; operator.add(u[0], u[1]) ; round(u[0]) ; int(u[0]) ; divmod(u[0], 1)[1] ; pow(u[0], 2) ; bool(u[0] > 0) ; isinstance(u[0], float) ; np.isscalar(u[0])
sp.gammaln(P) ; sp.digamma(P) ; sp.psi(P) ; sp.logsumexp(A) ; sp.logsumexp(A, axis=1) ; sp.logsumexp(A, axis=0, keepdims=True) ; sp.softmax(A, axis=1) ; sp.log_softmax(A, axis=1) ; sp.xlogy(P, P) ; sp.entr(P) ; sp.expit(u) ; sp.loggamma(P) ; sp.betaln(P[0, 0], P[0, 1]) ; sp.polygamma(1, P) ; sp.multigammaln(3.0, 1) ; sp.rel_entr(P, P) ; sp.log1p(P) ; sp.exp2(u) ; sp.gamma(P)
la.norm(v) ; la.inv(Q) ; la.det(Q) ; la.solve(Q, v) ; la.cholesky(Q, lower=True) ; la.cho_solve(la.cho_factor(Q), v) ; la.logsumexp(A) if hasattr(la, 'logsumexp') else 0 ; la.block_diag(Q, Q) ; la.pinv(Q) ; la.solve(Q, v, assume_a='pos')
W.sum() ; W.sum(axis=0) ; W.sum(axis=1) ; np.asarray(W.sum(axis=1)).ravel() ; np.squeeze(np.asarray(W.sum(axis=1))) ; np.array(W.sum(axis=1)).reshape(-1) ; W.sum(axis=1).A1 ; W.sum(axis=0).A1 ; W.dot(C) ; W @ C ; C.T @ W.T ; W.T.dot(A) ; A @ W.T ; W.T @ W ; W.multiply(A) ; W.multiply(2) ; W * 2 ; 2 * W ; W / 2 ; W.T ; W.transpose() ; W.tocsc() ; W.tocoo().tocsr() ; W.todense() ; W.toarray() ; W.A if hasattr(W, 'A') else W ; W.nnz ; W.getnnz() ; W.getnnz(axis=1) ; W.mean() ; W.max() ; W.max(axis=1) ; W.min()
W[0] ; W[0, :] ; W[1, :].toarray() ; W[:, 1] ; W[:, [0, 2]] ; W[[1, 0]] ; W[[1, 0], :] ; W[0, 2] ; W[0:1] ; W[0:1, :] ; W[:, 1:] ; W.getrow(1) ; W.getcol(2) ; W[np.array([True, False])] ; W[:, np.array([True, False, True])] ; W[np.arange(2)] ; W.data ; W.data[W.indptr[0]:W.indptr[1]] ; W.indices ; W.indptr ; np.diff(W.indptr) ; W.nonzero()[0] ; W.nonzero()[1] ; W.copy() ; W.astype(np.float32) ; W.astype(bool) ; W.astype(bool).sum(axis=0) ; W.sign() ; W.power(2) ; W.sqrt() ; abs(W) ; W.log1p() ; W.expm1() ; -W ; W + W ; W - W ; W.maximum(W) ; W.diagonal() ; W > 0 ; (W > 0).sum(axis=1) ; (W != 0).astype(int) ; W.reshape((3, 2)) ; np.sum(W) ; W.has_sorted_indices ; W.shape[0] ; W.count_nonzero() ; W.ndim ; W.tolil().tocsr() ; W.todok().tocsr()
[W[d].sum() for d in range(2)] ; [r.toarray() for r in W] ; [x for x in W[0].data] ; [(i, x) for i, x in zip(W[1].indices, W[1].data)][0][1] ; [W.data[W.indptr[d]:W.indptr[d+1]].sum() for d in range(2)] ; [v_ for i_, j_, v_ in zip(*ssp.find(W))] ; W.tocoo().data ; W.tocoo().row ; W.tocoo().col ; W.tocsc().indices ; W.tocsc().indptr ; W.tocsc().data ; [x for x in W.tocoo().data]
ssp.vstack([W, W]) ; ssp.hstack([W, W]) ; ssp.vstack((W, W), format='csr') ; ssp.diags(v) ; ssp.diags(u, 0).dot(W) ; ssp.diags([u], [0]).dot(W) ; ssp.diags(1 / P[:, 0]) @ W ; ssp.eye(3) ; ssp.identity(3) ; W.dot(ssp.diags(v, 0)) ; ssp.csr_matrix(A) ; ssp.csr_matrix((2, 3)) ; ssp.csr_matrix((W.data * 2, W.indices, W.indptr), shape=W.shape) ; ssp.csr_matrix((W.data, W.nonzero()), shape=(2, 3)) ; ssp.coo_matrix((W.tocoo().data, (W.tocoo().row, W.tocoo().col)), shape=(2, 3)) ; ssp.csc_matrix(A) ; ssp.lil_matrix((2, 3)) ; ssp.issparse(W) ; ssp.isspmatrix_csr(W) ; ssp.isspmatrix(W) ; ssp.tril(ssp.csr_matrix(S)) ; ssp.triu(ssp.csr_matrix(S), 1) ; ssp.kron(W, W) ; ssp.block_diag([W, W]) ; ssp.spdiags(v, 0, 3, 3) ; type(W) is ssp.csr_matrix ; isinstance(W, ssp.csr_matrix) ; W.format == 'csr' ; ssp.coo_array((2, 3)).shape[0] ; ssp.csr_array(A) ; ssp.dok_matrix((2, 3)) ; ssp.random_array if False else 1
'''

STMTS = r'''
R = A.copy(); R += B
R = A.copy(); R -= v
R = A.copy(); R *= u[:, np.newaxis]
R = A.copy(); R /= P
R = A.copy(); R[0] = v
R = A.copy(); R[:, 1] = u
R = A.copy(); R[A > 0] = 0
R = A.copy(); R[A > 0] *= 2
R = A.copy(); R[[0, 1], [1, 2]] = 5
R = A.copy(); R[0, 1] += u[0]
R = A.copy(); R[:] = 1
R = A.copy(); R[...] = B
R = A.copy(); R[1:, :2] = 0
R = A.copy(); R.fill(2)
R = A.copy(); np.add(A, B, out=R)
R = A.copy(); np.exp(R, out=R)
R = np.empty_like(A); np.multiply(A, 2, out=R)
R = np.empty((2, 2)); np.dot(A, C, out=R)
R = np.empty((2, 2)); np.matmul(A, C, out=R)
R = np.zeros_like(A); np.divide(A, B, out=R, where=B > 0)
R = np.zeros_like(A); np.log(P, out=R, where=P > 1)
R = np.zeros(3); np.add.at(R, [0, 1, 1], v)
R = np.zeros((3, 2)); np.add.at(R, np.array([0, 2]), A[:, :2])
R = np.zeros(3); np.add.at(R, np.array([2, 2, 0]), 1)
R = np.zeros(2); np.sum(A, axis=1, out=R)
R = np.zeros(2); A.sum(axis=1, out=R)
R = np.zeros(3); A.max(axis=0, out=R)
R = A.copy(); np.copyto(R, B)
R = A.copy(); np.copyto(R, 0, where=B > 0)
R = A.copy(); np.putmask(R, B > 0, 1)
R = v.copy(); np.put(R, [0, 2], [1, 2])
R = v.copy(); R.sort()
R = v.copy(); R[::-1].sort()
R = v.copy(); np.random.seed(1)
R = S.copy(); np.fill_diagonal(R, 0)
R = S.copy(); R[np.diag_indices(3)] += 1
R = S.copy(); R.flat[::4] = 0
R = S.copy(); R[np.arange(3), np.arange(3)] -= 1
R = A.copy(); R.T[0] = 1
R = A.copy(); Z = R[0]; Z += 1
R = A.copy(); Z = R.reshape(-1); Z[2] = 7
R = A.copy(); Z = R.ravel(); Z *= 2
R = A.copy(); np.clip(R, 0, 1, out=R)
R = A.copy(); np.maximum(R, 0, out=R)
R = A.copy(); R[R < 0] = R[R < 0] ** 2
R = A.copy(); i, j = np.where(A > 0); R[i, j] = 1
R = A.copy(); R, Z = R * 2, R
R = [0.0] * 3; R[1] += v[1]
R = {}; R['a'] = v[0]; R = [R.get('a', 0)]
R = []; R.append(v[0]); R.extend(v[1:])
R = []; [R.append(x) for x in v if x > 0]
R = 0.0; R = sum(x for x in v)
R = v.copy(); m = R.max(); R -= m; np.exp(R, out=R); R /= R.sum()
R = np.zeros(3)
for i in range(3): R[i] = v[i] if v[i] > 0 else -v[i]
R = np.zeros((2, 3))
for d, row in enumerate(A): R[d, :] = row / (1 + abs(row).sum())
R = W.copy(); R.data *= 2
R = W.copy(); R.data[:] = 1
R = W.copy(); R.data[R.data > 2] = 2
R = W.copy(); R *= 2
R = W.copy(); R /= 2
R = W.copy(); R.eliminate_zeros()
R = W.copy(); R.sort_indices()
R = W.copy(); R.sum_duplicates()
R = W.tolil(); R[0, 0] = 5; R = R.tocsr()
R = W.copy(); R.data = np.log(R.data)
R = W.copy(); R[0, 0] = 5
R = ssp.csr_matrix(A); R.setdiag(0)
R = W.copy(); R.data = np.where(R.data > 1, R.data, 0)
R = np.zeros(2)
for d in range(2): R[d] = W[d, :].data.sum()
R = np.zeros((2, 2))
for d in range(2): R[d] = W[d].dot(C)
R = np.zeros((2, 2))
for d in range(2): R[d] = C[W.indices[W.indptr[d]:W.indptr[d+1]]].T.dot(W.data[W.indptr[d]:W.indptr[d+1]])
R = np.zeros((2, 3)); c = W.tocoo(); R[c.row, c.col] = c.data
R = np.zeros(3); np.add.at(R, W.indices, W.data)
R = np.bincount(W.indices, weights=W.data, minlength=3)
R = np.add.reduceat(W.data, W.indptr[:-1])
R = np.split(W.data, W.indptr[1:-1])[0]
R = np.repeat(np.arange(2), np.diff(W.indptr))
R = np.array([W.data[i] for i in range(W.nnz)])
R = ssp.csr_matrix(W.shape, dtype=np.float64)
R = ssp.csr_matrix((np.ones(2), ([0, 1], [2, 0])), shape=(2, 3)) + W
R = ssp.csr_matrix(W, copy=True); R.data += 1
R = ssp.csr_matrix(W, dtype=np.float32)
R = np.asarray(W.todense()) + A
R = W.toarray().astype(int)
R = np.squeeze(np.asarray(W.max(axis=1).todense()))
R = W.copy(); R.data = R.data.astype(np.float32)
R = W[:, ::-1] if False else W
R = A.copy(order='F')
R = np.asfortranarray(A)
R = np.ascontiguousarray(A.T)
R = np.require(A, requirements='C')
R = A.flags['C_CONTIGUOUS']
R = np.array(A, copy=True, order='F', dtype=np.float64)
R = np.array(A, ndmin=3)
with np.errstate(divide='ignore', invalid='ignore'): R = A / P
R = np.ma.masked_array(v, mask=[0, 1, 0]).sum()
R = np.ndarray((2, 3)); R[:] = A
R = np.ndarray(shape=(2, 3), dtype=np.float64); R.fill(0); R += A
R = np.zeros(A.shape, dtype=A.dtype); R[:, :] = A
R = np.dstack((A, B))
R = np.cross(v, v)
R = np.meshgrid(u, v)[0]
R = np.trapz(v) if hasattr(np, 'trapz') else np.trapezoid(v)
R = np.quantile(v, 0.5)
R = np.percentile(v, 50)
R = np.histogram([1, 2, 2], bins=2)[0]
R = np.convolve(u, v)
R = np.packbits([1])
R = np.array(v, dtype=object)
R = np.rec if False else 0
'''


def expr(h, e):
    import functools, operator
    from fractions import Fraction
    np = h.np
    A, B, C = h.reals('A', (2, 3), -3, 3), h.reals('B', (2, 3), -3, 3), h.reals('C', (3, 2), -3, 3)
    P = h.poss('P', (2, 3), 0.25, 3)
    u, v = h.reals('u', (2,), -3, 3), h.reals('v', (3,), -3, 3)
    S = h.reals('S', (3, 3), -3, 3)
    N = h.ints('N', (2, 3), 0, 4)
    W = h.from_dense([[1, 0, 1], [0, 1, 1]], h.poss('w', (4,), 0.5, 4))
    Q = np.eye(3) * 2 + np.outer(v, v)
    if h.symbolic:
        from symx import env as e_
        ssp, sp, la, mt = e_.sparse, e_._special, e_._la, e_._math
    else:
        import scipy.sparse as ssp
        import scipy.special as sp
        import scipy.linalg as la
        mt = math
    env = dict(np=np, ssp=ssp, sp=sp, la=la, A=A, B=B, C=C, P=P, u=u, v=v, S=S, N=N, W=W, Q=Q, math=mt, functools=functools,
               operator=operator)
    if e[0] == 'E':
        R = eval(e[1:].strip(), env)
    else:
        exec(e[1:], env)
        R = env['R']
    out(h, R)
    h.ok('evaluated')


def out(h, R, tag='R'):
    if isinstance(R, (list, tuple)):
        for i, r in enumerate(R):
            out(h, r, '%s.%d' % (tag, i))
    else:
        if hasattr(R, 'todense'):
            R = R.todense()
        h.observe(tag, R)
        s = getattr(R, 'shape', ())
        h.observe(tag + ' shape', h.np.array([int(x) for x in s] + [len(s)]))


def cases(tier):
    es = ['E' + e for line in EXPRS.strip().split('\n') for e in line.split(' ; ')]
    cur = []
    for line in STMTS.strip().split('\n'):
        if line.startswith('R = ') or line.startswith('with ') or line.startswith('R, ') or line.startswith('R '):
            cur.append('S' + line)
        else:
            cur[-1] += '\n' + line
    es += cur
    return [Case(e[1:].strip(), expr, dict(e=e), budget=60) for e in es]
