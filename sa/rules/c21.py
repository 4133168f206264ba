"""C21: what is saved is what is loaded."""
from ..common import *

EXPLANATION = ('Saving and loading are run abstractly on a symbolic file store in which opening for writing empties a file '
               'and the pickler keeps what it is given; the loaded dictionary is compared with what was saved last.')


def run(prog, rep):
    rep.assumptions += ['the pickler gives back what it was given']
    for k in range(8):
        for kind in ('one', 'empty', 'nothing'):
            scenario(rep, 'storage', lambda: storage(prog, rep, k, kind))


def storage(prog, rep, mask, kind):
    """what is saved last is what is loaded"""
    I = interp(prog)
    st = State()
    ST = 'beluga.utils.storage'
    files = {}

    def opened(I, st, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', const('r'))
        if mode.op == 'const' and 'w' in mode.args[0]:
            files[a[0]] = []
        return mk('opaque', 'file', a[0], mode)

    def target(f):
        return f.args[1]

    def dump(I, st, a, k):
        fo = a[1] if len(a) > 1 else k['file']
        d = a[0]
        ks = I.V(st, I.read(st, d, '$keys'))
        files.setdefault(target(fo), []).append({y.args[0]: I.lib.dict_get(I, st, d, y) for y in ks.args})
        return NONE

    def load(I, st, a, k):
        return dict_(I, st, files[target(a[0])][0])
    for m in ('cloudpickle', 'pickle', 'dill'):
        I.intercepts[m + '.dump'] = dump
        I.intercepts[m + '.load'] = load
    I.intercepts['open'] = opened
    I.intercepts['builtins.open'] = opened
    fs, fl = I.module_name(ST, 'save', st), I.module_name(ST, 'load', st)
    if fs is None or fl is None:
        raise Broken('save or load not found')
    w = 'beluga/utils/storage.py:save'
    mkv = lambda tag: {k: I.new_list(st, seq(sym(tag + k))) for k in ('sol_set', 'ocp', 'bvp')}
    old, vals = mkv('old '), mkv('')
    if kind == 'empty':
        # values that count as false are values all the same
        vals = {'sol_set': I.new_list(st, EMPTY), 'ocp': dict_(I, st, {}), 'bvp': FALSE}
    elif kind == 'nothing':
        vals = {'sol_set': num(0), 'ocp': const(''), 'bvp': I.new_array(st, EMPTY)}
    kw = {k: v for i, (k, v) in enumerate(vals.items()) if mask >> i & 1}
    I.call(fs, [], dict(old, filename=const('f')), st, None)
    if mask == 7:
        I.call(fs, [vals['sol_set'], vals['ocp'], vals['bvp'], const('f')], {}, st, None)
    else:
        I.call(fs, [], dict(kw, filename=const('f')), st, None)
    d = I.call(fl, [const('f')], {}, st, None)
    note(rep, I)
    nm = 'saving %s%s over an older file' % (', '.join(sorted(kw)) or 'nothing',
                                             {'one': '', 'empty': ' (empty)', 'nothing': ' (zero)'}[kind])
    names = (('sol_set', 'solutions'), ('ocp', 'ocp'), ('bvp', 'bvp'))
    rep.equal_bag('%s: what was given is stored' % nm, I.V(st, I.read(st, d, '$keys')),
                  seq(*[const(n) for k, n in names if k in kw]), w)
    for k, name in names:
        if k in kw:
            rep.equal('%s: %s comes back' % (nm, name), I.lib.dict_get(I, st, d, const(name)), vals[k], w)
    # the default file of saving can be loaded
    I.call(fs, [vals['sol_set']], {}, st, None)
    rep.check('%s: default file' % nm, const('data.beluga') in files, 'default file name changed', w)
