"""Simulated disk for HDF5 history files.

The real HDF5 library does the formatting; every read and write it issues goes
through ``SimFile``, which applies the fault plan.  The directory entry is a
real file in a scratch directory (so that code which also touches the path by
other means sees it); its bytes are exactly what survives a process crash.
"""

import errno
import os


class SimFile:
    def __init__(self, disk, path):
        self.d = disk
        self.path = path
        self.fd = os.open(path, os.O_RDWR)
        disk.fds.append(self.fd)
        self.size = os.fstat(self.fd).st_size
        self.pos = 0

    # -- file protocol -------------------------------------------------------
    def seek(self, p, w=0):
        if w == 0:
            self.pos = p
        elif w == 1:
            self.pos += p
        else:
            self.pos = self.size + p
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        self.d.reads += 1
        data = os.pread(self.fd, len(b), self.pos)
        n = len(data)
        b[:n] = data
        self.pos += n
        return n

    def read(self, n=-1):
        self.d.reads += 1
        if n is None or n < 0:
            n = max(0, self.size - self.pos)
        out = os.pread(self.fd, n, self.pos)
        self.pos += len(out)
        return out

    def write(self, b):
        b = bytes(b)
        keep, err = self.d.on_op('w', len(b))
        part = b if keep is None else b[:keep]
        if part:
            os.pwrite(self.fd, part, self.pos)
            self.size = max(self.size, self.pos + len(part))
        if err is not None:
            raise err
        self.pos += len(b)
        return len(b)

    def truncate(self, n=None):
        n = self.pos if n is None else n
        keep, err = self.d.on_op('t', n)
        if keep is None:
            os.ftruncate(self.fd, n)
            self.size = n
        if err is not None:
            raise err
        return n

    def flush(self):
        keep, err = self.d.on_op('f', 0)
        if err is not None:
            raise err

    def close(self):
        pass


class Disk:
    """plan: list of faults
    {'kind': 'enospc'|'eio'|'short'|'crash'|'torn', 'open': i, 'op': j}
    {'kind': 'open_eio'|'open_busy'|'open_perm', 'open': i}
    ``open`` counts write-mode opens in the world, ``op`` the write, truncate
    and flush operations issued since that open.
    """

    def __init__(self, world, plan=()):
        self.w = world
        self.plan = [dict(p) for p in plan]
        self.opens = -1
        self.ops = 0
        self.total_ops = 0
        self.reads = 0
        self.fds = []
        self.log = []
        self.crashed = False
        self.fired = []
        self.modes = []

    def crash(self):
        """the process dies: nothing it does from here on reaches the disk.

        (The code under test runs on as a ghost so that it unwinds normally;
        whatever it returns or raises is not looked at.)"""
        self.crashed = True
        self.w.event('crash', self.opens, self.ops)

    # -- faults ----------------------------------------------------------------
    def on_op(self, kind, size):
        self.ops += 1
        self.total_ops += 1
        self.log.append((self.opens, self.ops, kind, size))
        if self.crashed:
            return 0, None
        for p in self.plan:
            if p.get('open') != self.opens or 'op' not in p:
                continue
            until = p.get('until', p['op'])
            if not (p['op'] <= self.ops <= until):
                continue
            k = p['kind']
            self.w.faults['disk_' + k] += 1
            self.fired.append((k, self.opens, self.ops))
            self.w.event('disk', k, self.opens, self.ops)
            if k == 'crash':
                self.crash()
                return 0, None
            if k == 'torn':
                self.crash()
                return int(size * float(p.get('frac', 0.5))), None
            if k == 'enospc':
                return 0, OSError(errno.ENOSPC, 'No space left on device')
            if k == 'eio':
                return 0, OSError(errno.EIO, 'Input/output error')
            if k == 'short':
                return (
                    int(size * float(p.get('frac', 0.5))),
                    OSError(errno.ENOSPC, 'No space left on device'),
                )
            if k == 'slow':
                self.w.clock.advance(float(p.get('dt', 1.0)))
        return None, None

    # -- what the code under test calls ----------------------------------------
    def open(self, real, name=None, mode='r', *a, **k):
        path = os.fspath(name) if not hasattr(name, 'read') else None
        if path is None:
            return real(name, mode, *a, **k)
        if isinstance(path, bytes):
            path = path.decode()
        path = os.path.abspath(path)
        if mode == 'r':
            return real(self._obj(path), 'r')
        self.opens += 1
        self.ops = 0
        self.modes.append(mode)
        self.w.event('open', os.path.basename(path), mode)
        for p in self.plan:
            if p.get('open') == self.opens and p['kind'].startswith('open_'):
                self.w.faults['disk_' + p['kind']] += 1
                self.fired.append((p['kind'], self.opens, 0))
                raise {
                    'open_eio': OSError(errno.EIO, 'Input/output error'),
                    'open_busy': BlockingIOError(
                        errno.EAGAIN, 'unable to lock file'
                    ),
                    'open_perm': PermissionError(
                        errno.EACCES, 'Permission denied'
                    ),
                }[p['kind']]
        exists = os.path.exists(path)
        if mode in ('x', 'w-') and exists:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        if mode == 'r+' and not exists:
            raise FileNotFoundError(errno.ENOENT, 'No such file', path)
        if self.crashed:
            path = os.path.join(os.path.dirname(path), 'ghost.h5')
            mode = 'w'
        if mode == 'w' or not os.path.exists(path):
            with open(path, 'wb'):
                pass
        return real(self._obj(path), 'a' if mode in ('a', 'r+') else 'w')

    def _obj(self, path):
        if not os.path.exists(path):
            raise FileNotFoundError(errno.ENOENT, 'No such file', path)
        return SimFile(self, path)

    def close(self):
        for fd in self.fds:
            try:
                os.close(fd)
            except OSError:
                pass
        self.fds = []
