"""How a partial graph may be stored and come back: types, layouts and media."""
import ast
import io
import json
import pickle

import numpy as np

from . import core


def _npy(m):
    b = io.BytesIO()
    np.save(b, m)
    return b.getvalue()


DTYPES = ['int8', 'int8', 'int16', 'int32', 'int64', '>i2', '>i4', '>i8']     # the last three: byte-swapped here
LAYOUTS = ['plain', 'fortran', 'transposed', 'strided', 'columns', 'reversed', 'readonly', 'slice3d', 'buffer', 'offset', 'memmap']
MEDIA = ['npy', 'npz', 'json', 'text', 'pickle', 'raw']


def dump(rows, medium, dtype):
    """rows -> bytes"""
    m = core.arr(rows, dtype)
    if medium == 'npy':
        return _npy(m)
    if medium == 'npz':
        b = io.BytesIO()
        np.savez_compressed(b, m=m)
        return b.getvalue()
    if medium == 'json':
        return json.dumps(m.tolist()).encode()
    if medium == 'text':
        return ('array(' + repr(m.tolist()) + ')').encode()
    if medium == 'pickle':
        return pickle.dumps(m)
    if medium == 'raw':
        return b'%d %d ' % m.shape + m.astype('int8').tobytes()
    raise KeyError(medium)


def load(data, medium, dtype, layout):
    """bytes -> array of the given type and layout (what the next process passes to the library)"""
    if medium == 'npy':
        m = np.load(io.BytesIO(data))
    elif medium == 'npz':
        m = np.load(io.BytesIO(data))['m']
    elif medium == 'json':
        m = np.array(json.loads(data))
    elif medium == 'text':
        m = np.array(ast.literal_eval(data.decode()[6:-1]))
    elif medium == 'pickle':
        m = pickle.loads(data)
    else:
        a, b, rest = data.split(b' ', 2)
        m = np.frombuffer(rest, dtype='int8').reshape(int(a), int(b))
    return relayout(m.astype(dtype), layout)


def relayout(m, layout):
    R, C = m.shape
    if layout == 'plain':
        return np.ascontiguousarray(m)
    if layout == 'fortran':
        return np.asfortranarray(m)
    if layout == 'transposed':
        return np.ascontiguousarray(m.T).T
    if layout == 'strided':
        big = np.full((2 * R, C), 1, m.dtype)
        big[::2] = m
        return big[::2]
    if layout == 'columns':
        big = np.full((R, 3 * C), 1, m.dtype)
        big[:, ::3] = m
        return big[:, ::3]
    if layout == 'reversed':
        big = np.ascontiguousarray(m[::-1, ::-1])
        return big[::-1, ::-1]
    if layout == 'readonly':
        m = np.ascontiguousarray(m)
        m.setflags(write=False)
        return m
    if layout == 'slice3d':
        big = np.ones((3, R, C), m.dtype)
        big[1] = m
        return big[1]
    if layout == 'buffer':
        return np.frombuffer(m.tobytes(), dtype=m.dtype).reshape(R, C)   # read-only view of bytes
    if layout == 'memmap':                                               # the type np.load(mmap_mode='r') gives
        m = np.frombuffer(m.tobytes(), dtype=m.dtype).reshape(R, C)
        return m.view(np.memmap)
    if layout == 'offset':
        b = np.zeros(R * C * m.itemsize + 1, 'int8')
        v = b[1:].view(m.dtype).reshape(R, C)                            # unaligned
        v[:] = m
        return v
    raise KeyError(layout)
