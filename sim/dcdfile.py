"""Reference DCD writer (independent of pwtools): header and frames as bytes."""
import struct
import numpy as np

def rec(b):
    return struct.pack('<i', len(b)) + b + struct.pack('<i', len(b))

def header(natoms, nstep_hdr=0, timestep=0.5):
    b = b'CORD' + struct.pack('<i', nstep_hdr) + struct.pack('<3i', 0, 1, 0) + struct.pack('<5i', *[0] * 5)
    b = b'CORD' + struct.pack('<9i', nstep_hdr, 0, 1, 0, 0, 0, 0, 0, 0) + struct.pack('<f', timestep) + struct.pack('<10i', 1, 0, 0, 0, 0, 0, 0, 0, 0, 24)
    t = struct.pack('<i', 2) + b'REMARK CORD DCD file'.ljust(80) + b'REMARK user@host'.ljust(80)
    return rec(b) + rec(t) + rec(struct.pack('<i', natoms))

def frame(cc, xyz):
    """cc: a b c alpha beta gamma (as stored); xyz (natoms,3) float32"""
    a, b, c, al, be, ga = cc
    out = rec(struct.pack('<6d', a, ga, b, be, al, c))
    for k in range(3):
        out += rec(np.ascontiguousarray(xyz[:, k], dtype='<f4').tobytes())
    return out

def make(cc, coords, nstep_hdr=0, timestep=0.5):
    return header(coords.shape[1], nstep_hdr, timestep) + b''.join(frame(cc[i], coords[i]) for i in range(len(coords)))
