"""Alias / mutation model of the library calls that the package makes.

Only *facts about Python, numpy, pandas and scipy* live here; nothing about
nimble.  Everything not listed is taken to return a fresh object and to leave
its arguments alone.
"""

# functions whose result may share storage with the first argument
ALIAS_ARG0 = {
    'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray',
    'numpy.asfortranarray', 'numpy.squeeze', 'numpy.ravel', 'numpy.reshape',
    'numpy.transpose', 'numpy.atleast_1d', 'numpy.atleast_2d',
    'numpy.atleast_3d', 'numpy.swapaxes', 'numpy.moveaxis', 'numpy.diagonal',
    'numpy.broadcast_to', 'numpy.expand_dims', 'numpy.asmatrix', 'numpy.real',
    'numpy.split', 'numpy.array_split', 'numpy.hsplit', 'numpy.vsplit',
    'numpy.flip', 'numpy.fliplr', 'numpy.flipud', 'numpy.rollaxis',
    'numpy.nditer',
    'pandas.DataFrame', 'pandas.Series', 'pandas.DataFrame.from_records',
    'scipy.sparse.coo_matrix', 'scipy.sparse.csr_matrix',
    'scipy.sparse.csc_matrix', 'scipy.sparse.dia_matrix',
    'scipy.sparse.bsr_matrix', 'scipy.sparse.coo_array',
}
# of the above: a keyword copy=True makes the result fresh
COPY_KW = {'pandas.DataFrame', 'pandas.Series', 'scipy.sparse.coo_matrix',
           'scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix',
           'numpy.array'}
# functions that write to their first argument
MUTATE_ARG0 = {
    'random.shuffle', 'numpy.put', 'numpy.place', 'numpy.copyto',
    'numpy.fill_diagonal', 'numpy.random.shuffle', 'numpy.putmask',
    'numpy.put_along_axis', 'heapq.heapify', 'heapq.heappush',
    'heapq.heappop', 'bisect.insort', 'setattr', 'delattr',
    'operator.setitem', 'operator.iadd', 'operator.imul', 'operator.isub',
    'operator.delitem', 'operator.itruediv', 'operator.ior',
}
# result: fresh container whose elements are the elements of the argument
SHALLOW = {'list', 'tuple', 'sorted', 'set', 'frozenset', 'dict', 'reversed',
           'copy.copy', 'filter', 'iter', 'collections.OrderedDict',
           'itertools.chain', 'itertools.islice', 'itertools.chain.from_iterable',
           'collections.deque', 'itertools.product', 'itertools.tee'}
RESULT_TYPES = {
    'len': 'int', 'int': 'int', 'str': 'str', 'float': 'float',
    'bool': 'bool', 'repr': 'str', 'isinstance': 'bool', 'issubclass': 'bool',
    'abs': 'scalar', 'sum': 'scalar', 'hash': 'int', 'id': 'int',
    'type': 'type', 'callable': 'bool', 'hasattr': 'bool', 'any': 'bool',
    'all': 'bool', 'round': 'scalar', 'ord': 'int', 'chr': 'str',
    'list': 'list', 'sorted': 'list', 'tuple': 'tuple', 'dict': 'dict',
    'set': 'set', 'frozenset': 'frozenset', 'range': 'range',
    'enumerate': 'iter', 'zip': 'iter', 'map': 'iter', 'filter': 'iter',
    'reversed': 'iter', 'iter': 'iter',
    'numpy.isnan': 'nd', 'numpy.dtype': 'dtype',
    'pandas.DataFrame': 'df', 'pandas.Series': 'df',
    'scipy.sparse.coo_matrix': 'coo', 'scipy.sparse.csr_matrix': 'csr',
    'scipy.sparse.csc_matrix': 'csc',
    'numpy.random.default_rng': 'rng', 'random.Random': 'rng',
    'numpy.random.RandomState': 'rng',
    'copy.deepcopy': None, 'copy.copy': None,
    'collections.OrderedDict': 'dict', 'collections.defaultdict': 'dict',
    'collections.Counter': 'dict',
    'numpy.issubdtype': 'bool', 'numpy.array_equal': 'bool',
    'numpy.nan': 'float',
}
NUMPY_DEFAULT = 'nd'

SCALAR_TYPES = frozenset(['int', 'str', 'float', 'bool', 'None', 'scalar',
                          'type', 'range', 'dtype', 'bytes', 'frozenset',
                          'slice', 'func'])

# methods of library objects that write to the receiver
MUTATORS = {
    'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
    'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
    'difference_update', 'intersection_update',
    'symmetric_difference_update', 'appendleft', 'popleft', 'extendleft',
    'fill', 'resize', 'put', 'itemset', 'partition', 'setflags', 'byteswap',
    'sum_duplicates', 'eliminate_zeros', 'setdiag', 'sort_indices', 'prune',
    '__setitem__', '__delitem__', '__iadd__', '__isub__', '__imul__',
    '__itruediv__', '__ifloordiv__', '__imod__', '__ipow__', '__ior__',
    '__iand__', '__setattr__', 'move_to_end', 'rotate', 'setfield',
}
# mutating when receiver is of that type only
TYPE_MUTATORS = {
    'df': {'insert', 'pop', 'update', 'clear', '__setitem__', 'setflags',
           '__delitem__', 'isetitem', '__iadd__', '__isub__', '__imul__',
           '__itruediv__', '__ifloordiv__', '__imod__', '__ipow__',
           'put', 'itemset'},
    'nd': {'fill', 'resize', 'put', 'itemset', 'partition', 'setflags',
           'sort', '__setitem__', '__iadd__', '__isub__', '__imul__',
           '__itruediv__', '__ifloordiv__', '__imod__', '__ipow__',
           'setfield'},
    'coo': {'resize', 'sum_duplicates', 'eliminate_zeros', 'setdiag',
            'sort_indices', 'prune', '__setitem__', '__iadd__', '__isub__',
            '__imul__', '__itruediv__'},
    'csr': {'resize', 'sum_duplicates', 'eliminate_zeros', 'setdiag',
            'sort_indices', 'prune', '__setitem__', '__iadd__', '__isub__',
            '__imul__', '__itruediv__'},
    'csc': {'resize', 'sum_duplicates', 'eliminate_zeros', 'setdiag',
            'sort_indices', 'prune', '__setitem__', '__iadd__', '__isub__',
            '__imul__', '__itruediv__'},
    'list': {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
             'reverse', '__setitem__', '__delitem__', '__iadd__', '__imul__'},
    'dict': {'update', 'setdefault', 'popitem', 'pop', 'clear',
             '__setitem__', '__delitem__', 'move_to_end', 'subtract'},
    'set': {'add', 'discard', 'update', 'remove', 'pop', 'clear',
            'difference_update', 'intersection_update',
            'symmetric_difference_update'},
    'str': set(), 'tuple': set(), 'int': set(), 'float': set(),
    'bool': set(), 'None': set(), 'scalar': set(), 'type': set(),
    'func': set(), 'iter': set(), 'rng': set(), 'dtype': set(),
    'file': set(), 'range': set(), 'bytes': set(), 'frozenset': set(),
    'module': set(), 'slice': set(), 'match': set(),
}
# library methods with an inplace=True switch
INPLACE_KW = {'drop', 'rename', 'fillna', 'sort_values', 'sort_index',
              'reset_index', 'set_index', 'replace', 'dropna',
              'drop_duplicates', 'where', 'mask', 'interpolate', 'query',
              'eval', 'clip', 'set_axis', 'ffill', 'bfill'}
# methods whose result may share storage with the receiver
ALIAS_METHODS = {
    'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view',
    'diagonal', 'to_numpy', 'get', '__getitem__', 'setdefault', 'pop',
    'tocoo', 'tocsr', 'tocsc', 'asformat', 'popitem', '__enter__',
    'infer_objects', 'xs', 'getfield', 'newbyteorder', '__iadd__',
    '__isub__', '__imul__', '__itruediv__', '__ifloordiv__', '__imod__',
    '__ipow__', 'items_view', '__iter__', 'read_view', 'set_axis',
}
# methods giving a fresh container over the receiver's elements
SHALLOW_METHODS = {'values', 'items', 'keys', 'iterrows', 'itertuples',
                   'tolist_shallow', '__copy__'}
# attributes of library objects that are (views of) the object itself
ALIAS_ATTRS = {'T', 'flat', 'real', 'imag', 'base', 'loc', 'iloc', 'at',
               'iat', 'values', 'A', 'A1', 'array'}
SCALAR_ATTRS = {'shape', 'ndim', 'size', 'dtype', 'nnz', 'dtypes', 'format',
                'empty', '__name__', '__class__', '__doc__', 'itemsize',
                '__module__', 'tzinfo'}
# methods with scalar / immutable results
SCALAR_METHODS = {'startswith', 'endswith', 'join', 'strip', 'lower',
                  'upper', 'format', 'rstrip', 'lstrip', 'isdigit', 'count',
                  'any', 'all', 'decode', 'encode', 'title', 'zfill',
                  'find', 'rfind', 'getnnz', 'ljust', 'rjust', 'center'}
METHOD_TYPES = {
    'split': 'list', 'tolist': 'list', 'todense': 'nd', 'toarray': 'nd',
    'to_numpy': 'nd', 'astype': None, 'splitlines': 'list',
    'tocoo': 'coo', 'tocsr': 'csr', 'tocsc': 'csc', 'nonzero': 'tuple',
    'keys': 'iter', 'items': 'iter', 'values': 'iter', 'groupby': 'lib',
    'sample': 'list',
}

# sparse formats: conversion between different formats builds new arrays
SPARSE_FORMAT = {'scipy.sparse.coo_matrix': 'coo',
                 'scipy.sparse.csr_matrix': 'csr',
                 'scipy.sparse.csc_matrix': 'csc',
                 'tocoo': 'coo', 'tocsr': 'csr', 'tocsc': 'csc'}
STORAGE_TAGS = frozenset(['nd', 'df', 'coo', 'csr', 'csc'])
