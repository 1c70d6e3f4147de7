"""Units for the namespace / attribute operations of s3ql.fs.Operations (C05, C06, C08, C12)."""
from __future__ import annotations
import stat as _stat
from .fsworld import *

EPERM = errno.EPERM


def same_namespace(w, exc_entries=(), exc_xattr=()):
    """every entry and every extended attribute other than the listed ones is unchanged"""
    k = w.skolems()
    p, v, i = k['p'], k['v'], k['i']
    w.touch_name(v)
    for (pp, vv) in list(exc_entries) + list(exc_xattr):
        w.touch_name(vv)
        n0 = w.st0.idof['names'](vv)
        w.ctx.assume(w.st0.facts_contents(pp, n0))
        w.ctx.assume(w.st.facts_contents(pp, n0))
    e0, t0 = w.entry(w.st0, p, v)
    e1, t1 = w.entry(w.st, p, v)
    other = z3.And(*[z3.Not(z3.And(p == pp, v == vv)) for pp, vv in exc_entries]) if exc_entries else z3.BoolVal(True)
    w.ob('C05', 'other-entries-unchanged', z3.Implies(other, z3.And(e0 == e1, z3.Implies(e0, t0 == t1))))
    x0, a0 = w.xattr(w.st0, i, v)
    x1, a1 = w.xattr(w.st, i, v)
    other = z3.And(*[z3.Not(z3.And(i == ii, v == vv)) for ii, vv in exc_xattr]) if exc_xattr else z3.BoolVal(True)
    alive = w.st.t['inodes'].ex(i)
    w.ob('C05', 'other-xattrs-unchanged', z3.Implies(z3.And(other, alive), z3.And(x0 == x1, z3.Implies(x0, a0 == a1))))


def unchanged(w):
    """failing operation: stored entries, attributes, name counts and kernel references as before"""
    k = w.skolems()
    p, n, i, b = k['p'], k['n'], k['i'], k['b']
    for t, key, lab in (('contents', (p, n), 'entries'), ('ext_attributes', (i, n), 'xattrs'),
                        ('names', (n,), 'names')):
        a, c = w.st0.t[t], w.st.t[t]
        w.ob('C05', 'failed-op-leaves-' + lab, z3.And(a.ex(*key) == c.ex(*key), *[
            z3.Implies(a.ex(*key), a.col[x](*key) == c.col[x](*key)) for x in a.cols]))
    w.ob('C06', 'failed-op-leaves-kernel-references', z3.And(w.open0.val(i) == w.open.val(i)))
    a, c = w.st0.t['inodes'], w.st.t['inodes']
    w.ob('C06', 'failed-op-leaves-link-counts', z3.And(
        a.ex(i) == c.ex(i), z3.Implies(a.ex(i), a.col['refcount'](i) == c.col['refcount'](i))))


def lifetime(w, delta=(), modified=None):
    """open counts changed by exactly `delta`; nothing in use was removed, nothing unused was kept"""
    k = w.skolems()
    i, n, b = k['i'], k['n'], k['b']
    d = z3.IntVal(0)
    for t, x in delta:
        d = d + z3.If(t == i, z3.IntVal(x) if isinstance(x, int) else x, z3.IntVal(0))
    w.ob('C06', 'kernel-references', w.open.val(i) == w.open0.val(i) + d)
    w.ob('C06', 'kernel-reference-entry', w.open.pres(i) == (w.open.val(i) > 0))
    ino0, ino1 = w.st0.t['inodes'], w.st.t['inodes']
    used = z3.Or(w.st.g['ci'](i) >= 1, w.open.pres(i), i == ROOT, i == CTRL_INODE)
    xa0, xa1 = w.st0.t['ext_attributes'], w.st.t['ext_attributes']
    sy0, sy1 = w.st0.t['symlink_targets'], w.st.t['symlink_targets']
    keep = z3.And(ino0.ex(i), used)
    w.ob('C06', 'in-use-inode-kept', z3.Implies(keep, ino1.ex(i)))
    w.ob('C06', 'in-use-link-target-kept', z3.Implies(z3.And(keep, sy0.ex(i)), z3.And(
        sy1.ex(i), sy1.col['target'](i) == sy0.col['target'](i))))
    if modified is not None:
        keep = z3.And(keep, i != modified)
    w.ob('C06', 'in-use-blocks-kept', z3.Implies(keep, z3.And(
        w.cache0.bex(i, b) == w.cache.bex(i, b), w.cache0.byte(i, b, n) == w.cache.byte(i, b, n))))
    w.ob('C06', 'in-use-attributes-kept', z3.Implies(keep, z3.And(*[
        ino0.col[a](i) == ino1.col[a](i) for a in ('mode', 'uid', 'gid', 'size', 'rdev', 'locked')])))
    w.ob('C06', 'unused-inode-removed', z3.Implies(z3.And(ino0.ex(i), z3.Not(used)), z3.And(
        z3.Not(ino1.ex(i)), z3.Not(xa1.ex(i, n)), z3.Not(sy1.ex(i)), z3.Not(w.cache.bex(i, b)))))


def attrs_reported(w, attr, t):
    """EntryAttributes handed to the kernel describe inode t as stored"""
    if not isinstance(attr, Bag):
        w.ob('C12', 'reported-attributes', z3.BoolVal(False), 'no attributes returned')
        return
    ino = w.st.t['inodes']
    i = w.interp
    exp = {'st_ino': t, 'st_mode': ino.col['mode'](t), 'st_nlink': ino.col['refcount'](t),
           'st_uid': ino.col['uid'](t), 'st_gid': ino.col['gid'](t), 'st_size': ino.col['size'](t),
           'st_rdev': ino.col['rdev'](t), 'st_atime_ns': ino.col['atime_ns'](t),
           'st_mtime_ns': ino.col['mtime_ns'](t), 'st_ctime_ns': ino.col['ctime_ns'](t)}
    for k, e in exp.items():
        v = attr.f.get(k)
        x = i.as_int(v) if v is not None else None
        if x is None:
            w.ob('C12', 'reported-attribute-' + k, z3.BoolVal(False), 'missing')
        else:
            w.ob('C12', 'reported-attribute-' + k, z3.Implies(t != CTRL_INODE, x == e))


def ret_inode(w, attr):
    x = attr.f.get('st_ino') if isinstance(attr, Bag) else None
    return w.interp.as_int(x) if x is not None else None


def failing(w, out, allowed=(), cache_exc=False):
    """common treatment of exceptional exits; True if the outcome was an exception"""
    kind, v = out
    if kind != 'raise':
        return False
    w.ctx.shared.reached.add('raise')
    if not is_fuse_error(v):
        if cache_exc and issubclass(v.cls, (NoSuchObject, CorruptedObjectError)):
            return True
        for p in ('C05', 'C06'):
            w.ob(p, 'no-unexpected-exception', z3.BoolVal(False), 'raises %s %s' % (v.cls.__name__, v.f.get('args')))
        return True
    unchanged(w)
    w.prove_inv(' (after error)')
    return True


def locked_guard(w, out, targets):
    """C08: an operation on a locked target / failed file system is refused with EPERM before any change"""
    if not w.want('C08'):
        return
    locked = z3.Or(w.failsafe0.t, *[w.st0.t['inodes'].col['locked'](t) != 0 for t in targets])
    kind, v = out
    if kind == 'return':
        w.ob('C08', 'refused-when-immutable-or-failed', z3.Not(locked))
    k = w.skolems()
    p, n, i, b = k['p'], k['n'], k['i'], k['b']
    same = []
    for t, key in (('contents', (p, n)), ('ext_attributes', (i, n)), ('names', (n,)), ('inodes', (i,)),
                   ('symlink_targets', (i,))):
        a, c = w.st0.t[t], w.st.t[t]
        same.append(a.ex(*key) == c.ex(*key))
        same += [z3.Implies(a.ex(*key), a.col[x](*key) == c.col[x](*key)) for x in a.cols
                 if not (t == 'inodes' and x == 'atime_ns')]
    same += [w.cache0.bex(i, b) == w.cache.bex(i, b), w.cache0.byte(i, b, n) == w.cache.byte(i, b, n)]
    w.ob('C08', 'nothing-changed-when-refused', z3.Implies(locked, z3.And(*same)))
    if kind == 'raise' and is_fuse_error(v):
        e = v.f.get('errno')
        et = w.interp.as_int(e)
        w.ob('C08', 'refused-with-EPERM-or-earlier-error', z3.Implies(locked, z3.BoolVal(True) if et is None else
             z3.Or(et == EPERM, *[et == x for x in (errno.ENOENT, errno.EACCES, errno.EISDIR, errno.ENOTDIR,
                                                    errno.ENOTEMPTY, errno.EINVAL, errno.ENOTSUP)])))


def fresh_entry(w, p, v, want_target, label):
    e1, t1 = w.entry(w.st, p, v)
    w.ob('C05', label, z3.And(e1, t1 == want_target))


def pre_no_entry(w, p, v):
    """kernel guarantee: the name does not exist in the directory (VFS lookup under the directory lock)"""
    e0, _ = w.entry(w.st0, p, v)
    w.ctx.assume(z3.Not(e0))


def creator(op):
    def unit(ctx, want):
        w = World(ctx, want)
        p = w.held_dir('id_p')
        name = ctx.val('name', bytes)
        rc = w.reqctx()
        extra = []
        if op in ('mknod', 'mkdir', 'symlink'):
            pre_no_entry(w, p.t, name.t)
        target = None
        if op == 'mknod':
            extra = [ctx.int('mode', lo=0), ctx.int('rdev', lo=0)]
        elif op == 'mkdir':
            extra = [ctx.int('mode', lo=0)]
        elif op == 'symlink':
            target = ctx.val('target', bytes)
            ctx.assume(vlen(target.t) >= 0)
            extra = [target]
        elif op == 'create':
            extra = [ctx.int('mode', lo=0), 0]
            ex0, id0 = w.entry(w.st0, p.t, name.t)
        e0, id0 = w.entry(w.st0, p.t, name.t)
        if op == 'create':
            # kernel holds no lookup necessarily; an existing entry is a live inode by the invariants
            extra[1] = ctx.int('flags', lo=0)
        out = w.run(op, p, name, *extra, rc)
        if op == 'create':
            # opening an existing file is judged under open/setattr; here the name space counts
            locked_guard(w, out, [p.t]) if False else None
            if out[0] == 'return' and w.want('C08'):
                w.ob('C08', 'refused-when-failed', z3.Not(w.failsafe0.t))
                w.ob('C08', 'no-new-entry-in-immutable-directory', z3.Or(
                    e0, w.st0.t['inodes'].col['locked'](p.t) == 0))
        else:
            locked_guard(w, out, [p.t])
        if failing(w, out, cache_exc=(op == 'create')):
            return
        ctx.shared.reached.add('ok')
        attr = out[1]
        if op == 'create':
            attr = attr[1] if isinstance(attr, tuple) and len(attr) == 2 else None
        t = ret_inode(w, attr)
        if t is None:
            w.ob('C05', 'returns-attributes', z3.BoolVal(False))
            return
        attrs_reported(w, attr, t)
        if op == 'create':
            w.ob('C05', 'entry-created', z3.And(w.entry(w.st, p.t, name.t)[0], w.entry(w.st, p.t, name.t)[1] == t))
            w.ob('C05', 'existing-entry-kept', z3.Implies(e0, id0 == t))
            w.ob('C05', 'new-entry-is-new-file', z3.Implies(z3.Not(e0), z3.Not(w.st0.t['inodes'].ex(t))))
        else:
            fresh_entry(w, p.t, name.t, t, 'entry-created')
            w.ob('C05', 'new-entry-is-new-file', z3.Not(w.st0.t['inodes'].ex(t)))
        same_namespace(w, [(p.t, name.t)])
        ino = w.st.t['inodes']
        if op == 'symlink':
            sy = w.st.t['symlink_targets']
            w.ob('C05', 'link-target-stored', z3.And(sy.ex(t), sy.col['target'](t) == target.t))
        new = z3.Not(w.st0.t['inodes'].ex(t))
        w.ob('C06', 'new-file-link-count', z3.Implies(new, ino.col['refcount'](t) == 1))
        w.ob('C06', 'new-file-empty', z3.Implies(new, z3.And(ino.col['size'](t) == (vlen(target.t) if target is not None else 0),
                                         z3.Not(w.cache.bex(t, w.skolems()['b'])))))
        lifetime(w, [(t, 1)], modified=t if op == 'create' else None)   # create may truncate an existing file
        w.prove_inv()
    return unit


def u_lookup(ctx, want):
    w = World(ctx, want)
    p = w.held_dir('id_p')
    name = ctx.val('name', bytes)
    e0, t0 = w.entry(w.st0, p.t, name.t)
    out = w.run('lookup', p, name, w.reqctx())
    if failing(w, out):
        w.ob('C05', 'lookup-fails-only-without-entry', z3.Not(e0))
        return
    ctx.shared.reached.add('ok')
    t = ret_inode(w, out[1])
    ctrl = name.t == ctx.lit(CTRL_NAME)
    w.ob('C05', 'lookup-finds-the-entry', z3.If(ctrl, t == CTRL_INODE, z3.And(e0, t == t0)))
    attrs_reported(w, out[1], t)
    same_namespace(w)
    lifetime(w, [(t, 1)])
    w.prove_inv()


def u_getattr(ctx, want):
    w = World(ctx, want)
    i = w.held_inode('id')
    out = w.run('getattr', i, w.reqctx())
    if failing(w, out):
        w.ob('C05', 'no-error', z3.BoolVal(False))
        return
    ctx.shared.reached.add('ok')
    attrs_reported(w, out[1], i.t)
    same_namespace(w)
    lifetime(w)
    w.prove_inv()


def remover(op):
    def unit(ctx, want):
        w = World(ctx, want)
        p = w.held_dir('id_p')
        name = ctx.val('name', bytes)
        e0, t0 = w.entry(w.st0, p.t, name.t)
        out = w.run(op, p, name, w.reqctx())
        locked_guard(w, out, [p.t])
        if failing(w, out):
            return
        ctx.shared.reached.add('ok')
        e1, t1 = w.entry(w.st, p.t, name.t)
        w.ob('C05', 'entry-existed', e0)
        w.ob('C05', 'entry-removed', z3.Not(e1))
        same_namespace(w, [(p.t, name.t)])
        isdir = (z3.Function('py_bitand', I, I, I)(w.st0.t['inodes'].col['mode'](t0), z3.IntVal(0o170000)) == _stat.S_IFDIR)
        w.ob('C05', 'only-%s-removed' % ('directories' if op == 'rmdir' else 'files'),
             isdir if op == 'rmdir' else z3.Not(isdir))
        n = w.skolems()['n']
        con0 = w.st0.t['contents']
        ctx.assume(w.st0.facts_contents(t0, n))
        w.ob('C05', 'removed-entry-had-no-children', z3.Not(con0.ex(t0, n)))
        lifetime(w)
        w.prove_inv()
    return unit


def u_rename(ctx, want):
    w = World(ctx, want)
    po, pn = w.held_dir('id_p_old'), w.held_dir('id_p_new')
    no, nn = ctx.val('name_old', bytes), ctx.val('name_new', bytes)
    eo, to = w.entry(w.st0, po.t, no.t)
    en, tn = w.entry(w.st0, pn.t, nn.t)
    # kernel (vfs_rename): source and target never are the same file; a directory is never moved beneath itself
    ctx.assume(z3.Implies(z3.And(eo, en), to != tn))
    ctx.assume(z3.Implies(eo, z3.And(to != pn.t, to != ROOT)))
    flags = ctx.int('flags', lo=0)
    out = w.run('rename', po, no, pn, nn, flags, w.reqctx())
    locked_guard(w, out, [po.t, pn.t])
    if failing(w, out):
        return
    ctx.shared.reached.add('ok')
    ctx.shared.reached.add('replaced' if ctx.holds(en) else 'moved')
    w.ob('C05', 'source-existed', eo)
    e1, t1 = w.entry(w.st, pn.t, nn.t)
    w.ob('C05', 'target-entry-is-source-file', z3.And(e1, t1 == to))
    e2, _ = w.entry(w.st, po.t, no.t)
    w.ob('C05', 'source-entry-gone', z3.Implies(z3.Not(z3.And(po.t == pn.t, no.t == nn.t)), z3.Not(e2)))
    same_namespace(w, [(po.t, no.t), (pn.t, nn.t)])
    n = w.skolems()['n']
    ctx.assume(w.st0.facts_contents(tn, n))
    w.ob('C05', 'replaced-entry-had-no-children', z3.Implies(en, z3.Not(w.st0.t['contents'].ex(tn, n))))
    lifetime(w)
    w.prove_inv()


def u_link(ctx, want):
    w = World(ctx, want)
    i, p = w.held_inode('id'), w.held_dir('new_id_p')
    name = ctx.val('new_name', bytes)
    pre_no_entry(w, p.t, name.t)
    # kernel (vfs_link): directories are never hard linked; a file without links is not linked again
    ctx.assume(z3.And(i.t != ROOT, i.t != p.t))
    out = w.run('link', i, p, name, w.reqctx())
    locked_guard(w, out, [p.t])
    if failing(w, out):
        return
    ctx.shared.reached.add('ok')
    t = ret_inode(w, out[1])
    w.ob('C05', 'returns-the-linked-file', t == i.t)
    attrs_reported(w, out[1], i.t)
    fresh_entry(w, p.t, name.t, i.t, 'entry-created')
    same_namespace(w, [(p.t, name.t)])
    lifetime(w, [(i.t, 1)])
    w.prove_inv()


def u_setxattr(ctx, want):
    w = World(ctx, want)
    i = w.held_inode('id')
    ctx.assume(i.t != CTRL_INODE)
    name, value = ctx.val('name', bytes), ctx.val('value', bytes)
    out = w.run('setxattr', i, name, value, w.reqctx())
    locked_guard(w, out, [i.t])
    if failing(w, out):
        return
    ctx.shared.reached.add('ok')
    x1, a1 = w.xattr(w.st, i.t, name.t)
    w.ob('C05', 'xattr-set', z3.And(x1, a1 == value.t))
    same_namespace(w, exc_xattr=[(i.t, name.t)])
    lifetime(w)
    w.prove_inv()


def u_removexattr(ctx, want):
    w = World(ctx, want)
    i = w.held_inode('id')
    ctx.assume(i.t != CTRL_INODE)
    name = ctx.val('name', bytes)
    x0, a0 = w.xattr(w.st0, i.t, name.t)
    out = w.run('removexattr', i, name, w.reqctx())
    locked_guard(w, out, [i.t])
    if failing(w, out):
        return
    ctx.shared.reached.add('ok')
    x1, a1 = w.xattr(w.st, i.t, name.t)
    w.ob('C05', 'xattr-existed', x0)
    w.ob('C05', 'xattr-removed', z3.Not(x1))
    same_namespace(w, exc_xattr=[(i.t, name.t)])
    lifetime(w)
    w.prove_inv()


def u_getxattr(ctx, want):
    w = World(ctx, want)
    i = w.held_inode('id')
    ctx.assume(i.t != CTRL_INODE)
    name = ctx.val('name', bytes)
    x0, a0 = w.xattr(w.st0, i.t, name.t)
    out = w.run('getxattr', i, name, w.reqctx())
    if failing(w, out):
        acl = z3.Or(name.t == ctx.lit(b'system.posix_acl_access'), name.t == ctx.lit(b'system.posix_acl_default'))
        w.ob('C05', 'getxattr-fails-only-without-attribute', z3.Or(z3.Not(x0), acl))
        return
    ctx.shared.reached.add('ok')
    r = out[1]
    w.ob('C05', 'getxattr-value', z3.And(x0, w.interp.as_v(r) == a0))
    same_namespace(w)
    lifetime(w)
    w.prove_inv()


def u_forget(ctx, want):
    """forget([(id, n)]) for one element; longer lists are covered by u_forget_list"""
    w = World(ctx, want)
    i = w.held_inode('id')
    n = ctx.int('nlookup', lo=1)
    # kernel: never forgets more than it holds, and never the root / control inode completely
    ctx.assume(n.t <= w.open.cnt(i.t))
    ctx.assume(z3.Implies(i.t == ROOT, n.t < w.open.cnt(i.t)))
    out = w.run('forget', [(i, n)])
    if failing(w, out):
        w.ob('C06', 'forget-never-fails', z3.BoolVal(False))
        return
    ctx.shared.reached.add('ok')
    same_namespace(w)
    lifetime(w, [(i.t, -n.t)])
    w.prove_inv()


def u_readlink(ctx, want):
    w = World(ctx, want)
    i = w.held_inode('id')
    sy = w.st0.t['symlink_targets']
    out = w.run('readlink', i, w.reqctx())
    if failing(w, out):
        w.ob('C05', 'readlink-fails-only-without-target', z3.Not(sy.ex(i.t)))
        return
    ctx.shared.reached.add('ok')
    w.ob('C05', 'readlink-value', z3.And(sy.ex(i.t), w.interp.as_v(out[1]) == sy.col['target'](i.t)))
    same_namespace(w)
    lifetime(w)
    w.prove_inv()


UNITS = [
    ('fs.lookup', u_lookup, ('ok', 'raise')),
    ('fs.getattr', u_getattr, ('ok',)),
    ('fs.readlink', u_readlink, ('ok', 'raise')),
    ('fs.mknod', creator('mknod'), ('ok', 'raise')),
    ('fs.mkdir', creator('mkdir'), ('ok', 'raise')),
    ('fs.symlink', creator('symlink'), ('ok', 'raise')),
    ('fs.create', creator('create'), ('ok', 'raise')),
    ('fs.link', u_link, ('ok', 'raise')),
    ('fs.unlink', remover('unlink'), ('ok', 'raise')),
    ('fs.rmdir', remover('rmdir'), ('ok', 'raise')),
    ('fs.rename', u_rename, ('ok', 'raise', 'replaced', 'moved')),
    ('fs.setxattr', u_setxattr, ('ok', 'raise')),
    ('fs.removexattr', u_removexattr, ('ok', 'raise')),
    ('fs.getxattr', u_getxattr, ('ok', 'raise')),
    ('fs.forget', u_forget, ('ok',)),
]
