"""Vocabulary shared by the specifications.  Everything here is ordinary Python: it is executed natively when a
counterexample is replayed and interpreted symbolically when an obligation is generated."""

def le(buf, off, n):
    """Unsigned little-endian integer of n bytes at off (the caller has established the bounds)."""
    return int.from_bytes(buf[off:off + n], 'little')

def sle(buf, off, n):
    """Signed little-endian integer of n bytes at off."""
    return int.from_bytes(buf[off:off + n], 'little', signed=True)
