"""Stand-in for scipy.sparse (not installed for the system's Python): the attributes of a
CSR matrix that python/pysol.pyx uses, as in scipy."""


class csr_matrix(object):
    def __init__(self, parts, shape):
        self.data, self.indices, self.indptr = parts
        self.shape = shape
        self.ndim = 2

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def nnz(self):
        return int(self.indptr[-1])
