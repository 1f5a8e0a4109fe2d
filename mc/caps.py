"""Make this process (root) subject to ordinary file permissions"""
import ctypes
import os


class _Hdr(ctypes.Structure):
    _fields_ = [('version', ctypes.c_uint32), ('pid', ctypes.c_int)]


class _Data(ctypes.Structure):
    _fields_ = [('effective', ctypes.c_uint32), ('permitted', ctypes.c_uint32), ('inheritable', ctypes.c_uint32)]


def drop_dac():
    """Drop CAP_DAC_OVERRIDE and CAP_DAC_READ_SEARCH (effective and permitted sets) -> bool: permissions now apply"""
    libc = ctypes.CDLL(None, use_errno=True)
    hdr, data = _Hdr(0x20080522, 0), (_Data * 2)()
    if libc.capget(ctypes.byref(hdr), data):
        return False
    # access() looks at the permitted set
    for f in ("effective", "permitted"):
        setattr(data[0], f, getattr(data[0], f) & ~((1 << 1) | (1 << 2)))
    if libc.capset(ctypes.byref(hdr), data):
        return False
    return True


def effective(tmp):
    """Whether a 0555 directory can't be written by this process"""
    d = os.path.join(tmp, 'perm')
    os.mkdir(d, 0o555)
    try:
        open(os.path.join(d, 'x'), 'w').close()
    except PermissionError:
        return True
    finally:
        os.chmod(d, 0o755)
        import shutil
        shutil.rmtree(d)
    return False
