"""C29: every sparse kernel of every generated family, over enumerated nonzero patterns."""
import c17


class Check(c17.Check):
    OP, SRC, HEADER, DRIVER = 'sparse', 'sparse.cpp', 'rosko_kernels.h', 'sparse.inc'
    EXTRA = {'haswell': ['-DUSE_ROSKO_HASWELL'], 'armv8': ['-DUSE_ROSKO_ARMV8']}
    COMMITTED = False
    RULE = ('every limit of a range x architecture: all entries of both generated tables x every depth 1..%d x column orders x both guard placements with full and with staggered columns, '
            'one column with every subset of the rows (of tiles above a height: subsets of up to two and of all but one), and for depths up to %d every sequence of column sizes from {1, 2, m-1, m} (the plain kernels: followed by empty columns; the compressed ones: empty columns anywhere); non-trivial: a kernel of a family')

    def bounds(self):
        return (70, 7) if self.thorough else (21, 4)
