"""shared by the checks of the two Gibbs samplers"""
# words of the documents, one after the other; their lengths; number of words
LAY = {'one': ([0], [1], 1), 'two': ([0, 1], [1, 1], 2), 'pair': ([0, 1], [2], 2), 'mix': ([1, 0, 1], [2, 1], 2),
       'same': ([0, 0], [2], 1), 'gap': ([0, 1], [1, 0, 1], 2), 'three': ([2, 0, 1], [3], 3), 'last': ([1, 0], [2, 0], 2)}
RAND_MAX = 2147483647


class Spy:
    """a module with some functions replaced"""

    def __init__(self, mod, **k):
        self.__dict__.update(k)
        self._mod = mod

    def __getattr__(self, n):
        return getattr(self._mod, n)


class St:
    """arbitrary topics on a concrete layout of words, and counts that match them"""

    def __init__(self, h, lay, K, kind, model=False, zero=False):
        self.h, self.K = h, K
        self.words, self.lens, self.T = LAY[lay]
        self.D, self.N = len(self.lens), len(self.words)
        np = h.np
        self.dkt = np.uint16 if kind == 'dmr' else np.int32
        self.w = h.array(self.words, dtype=np.uint16)
        self.docLens = h.array(self.lens, dtype=np.int32)
        self.z0 = [h.choose('z%d' % i, list(range(K))) for i in range(self.N)]
        self.z = h.array(self.z0, dtype=np.uint8)
        self.base = h.ints('base', (K, self.T), 1 if zero else 0, 50, dtype=np.int32) if model else h.zeros((K, self.T), dtype=np.int32)
        self.basek = h.zeros((K,), dtype=np.int32)
        for k in range(K):
            for t in range(self.T):
                self.basek[k] += self.base[k, t]
        self.ndk, self.nkv, self.nk = self.hist(self.z0)

    def hist(self, z):
        h, K = self.h, self.K
        ndk, nkv, nk = h.zeros((self.D, K), dtype=self.dkt), h.snap(self.base), h.snap(self.basek)
        i = 0
        for d in range(self.D):
            for _ in range(self.lens[d]):
                k = int(z[i])
                ndk[d, k] += 1
                nkv[k, self.words[i]] += 1
                nk[k] += 1
                i += 1
        return ndk, nkv, nk

    def check(self, z, ndk, nkv, nk, query, label):
        h = self.h
        zs = h.flat(z)
        h.check("%s: one topic per token" % label, len(zs) == self.N)
        for k in zs:
            h.check("%s: every topic is in range" % label, h.and_(h.le_(0, k), h.lt(k, self.K)))
        dk, kv, kk = self.hist(zs)
        h.eq("%s: document-topic counts are the histogram of the topics" % label, ndk, dk)
        if query:
            _, kv, kk = self.hist(self.z0)
            h.eq("%s: a query leaves the topic-word counts alone" % label, nkv, kv)
            h.eq("%s: a query leaves the topic totals alone" % label, nk, kk)
        else:
            h.eq("%s: topic-word counts are the histogram of the topics" % label, nkv, kv)
            h.eq("%s: topic totals are the histogram of the topics" % label, nk, kk)
