"""Storage failures as events: every storage call that can report an error does so once per history, and an iterator that is
not valid has either reached the end or failed."""
from keys import *

GETERR = 'rocksdb_iter_get_error'
CLOSING = ('rocksdb_wait_for_compact', 'rocksdb_transactiondb_flush_wal', 'rocksdb_transactiondb_close')
MOVES = (SEEK, NEXT, 'rocksdb_iter_seek_to_first', 'rocksdb_iter_prev', 'rocksdb_iter_seek_to_last', 'rocksdb_iter_seek_for_prev')


def error_arg(crate, args, info):
    for i, a in enumerate(args):
        ty = crate.types[info.argtys[i]] if i < len(info.argtys or ()) else None
        if (ty['s'] if ty else '') in ('*mut *mut i8', '*mut *mut u8', '*mut *mut libc::c_char', '*mut *mut std::ffi::c_char'):
            return a
    return None


class Failing:
    """Mixin. Subclasses tell what happened in a state: failure(st) -> name or None, fail(I, st, name, info), moved(st, f)."""
    fork_errors = False

    def do_ffi(self, I, st, n, args, info):
        err = error_arg(info.body.crate, args, info)
        failed = self.failure(st)
        h = I.deepval(st, args[0]) if args else None
        if n == GETERR:
            if failed == 'iterator':
                return [self.broken(I, st, n, err, info)]
            outs = [(st, UNIT)]
            if failed is None and self.position(st, h) == 'moved':
                s = st.copy()
                self.fail(I, s, 'iterator', info)
                outs.append(self.broken(I, s, n, err, info))
            return outs
        if n in MOVES:
            st = st.copy()
            self.moved(st, h, 'moved')
        at = self.position(st, h) if n == VALID else None
        outs = super().do_ffi(I, st, n, args, info)
        if n == VALID:
            res = []
            for s, v in outs:
                end = v.op == 'c' and v.args[1] == 0
                if at == ('valid' if end else 'end') or failed == 'iterator' and not end:
                    continue
                s = s.copy()
                self.moved(s, h, 'end' if end else 'valid')
                res.append((s, v))
                if end and at not in ('valid', 'end') and failed is None:
                    b = s.copy()
                    self.fail(I, b, 'iterator', info)
                    res.append((b, v))
            return res or outs
        if err is not None and failed is None and n not in CLOSING:
            s = st.copy()
            self.fail(I, s, n, info)
            self.seen_ffi.add(n)
            s, _ = self.broken(I, s, n, err, info)
            outs = outs + [(s, I_(0) if n in (GET, GFU) or n.endswith('_open') else T('call', n, info.sid, 1, *args))]
        return outs

    def broken(self, I, st, n, err, info):
        s = st.copy()
        r, p = I.deref_loc(err)
        e = T('call', n + '/error', info.sid, 0)
        I.store(s, r, p, e)
        I.assume(s, mk_eq(e, I_(0)), 0)
        return s, UNIT
