"""C25: log messages go where the user asked, by level."""
from ..common import *

EXPLANATION = ('Setting up the log is run abstractly, once or twice in a row, for every combination of the standard levels '
               'with recording stand-ins for the logger and its handlers; from the final set of handlers it is decided '
               'which messages reach the screen and the file.')
LG = 'beluga.utils.logging'
LEVELS = (10, 20, 30, 40, 50)
W = 'beluga/utils/logging.py:init_logging'


def run(prog, rep):
    rep.assumptions += ['the standard library sends a record to the handlers of the logger whose level it reaches, and drops '
                        'it below the level of the logger; level 0 of a logger means the level of its parent']
    for fn in ('init_logging', 'add_logger'):
        for d in LEVELS:
            for f in (0,) + LEVELS:
                scenario(rep, '%s %d %d' % (fn, d, f), lambda: levels(prog, rep, fn, d, f))
    scenario(rep, 'defaults', lambda: defaults(prog, rep))
    scenario(rep, 'fit_string', lambda: fit(prog, rep))


def setup(prog):
    I = interp(prog)
    I.int_literals = True
    st = State()
    cls = find_class(prog, LC, 'LocalCompiler')
    I.loggers = {}
    fields = ('setLevel', 'addHandler', 'removeHandler', 'setFormatter', 'debug', 'info', 'warning', 'error', 'hasHandlers')

    def obj(st, name, kind):
        o = I.input_obj(name, cls)
        for m in fields:
            key = 'verif.%s.%s' % (name, m)
            st.heap[(o, m)] = mk('mod', key)
            I.intercepts[key] = lambda I, st, a, k, o=o, m=m: method(st, o, m, a, k)
        st.heap[(o, 'level')] = num(0)
        st.heap[(o, 'propagate')] = TRUE
        st.heap[(o, 'handlers')] = I.new_list(st, EMPTY)
        st.heap[(o, 'kind')] = const(kind)
        return o

    def method(st, o, m, a, k):
        v = (list(a) + list(k.values()) + [NONE])[0]
        if m == 'setLevel':
            st.heap[(o, 'level')] = I.V(st, v)
        elif m in ('addHandler', 'removeHandler'):
            l = I.read(st, o, 'handlers')
            xs = list(I.V(st, l).args)
            if m == 'addHandler' and v not in xs:
                xs.append(v)
            if m == 'removeHandler' and v in xs:
                xs.remove(v)
            st.heap[(l, '$')] = seq(*xs)
        return NONE

    def get(I, st, a, k):
        n = a[0].args[0] if a and a[0].op == 'const' else ''
        if n not in I.loggers:
            I.loggers[n] = obj(st, 'logger %s' % n, 'logger')
        return I.loggers[n]
    cnt = [0]

    def handler(kind):
        def new(I, st, a, k):
            cnt[0] += 1
            o = obj(st, '%s%d' % (kind, cnt[0]), kind)
            names = ('filename', 'mode', 'encoding', 'delay') if kind == 'file' else ('stream',)
            d = dict(zip(names, a))
            d.update(k)
            for n, v in d.items():
                st.heap[(o, n)] = v
            return o
        return new
    I.intercepts['logging.getLogger'] = get
    I.intercepts['logging.StreamHandler'] = handler('screen')
    I.intercepts['logging.FileHandler'] = handler('file')
    I.intercepts['logging.Formatter'] = lambda I, st, a, k: mk('opaque', 'formatter')
    return I, st


def reached(I, st, o, level):
    """kinds of handlers of logger o that get a record of this level; None when not known"""
    lv = I.read(st, o, 'level')
    if not is_num(lv):
        return None
    lv = numval(lv) or 30
    out = []
    for h in I.V(st, I.read(st, o, 'handlers')).args:
        hl = I.read(st, h, 'level')
        if not is_num(hl):
            return None
        if level >= lv and level >= numval(hl):
            k = I.read(st, h, 'kind').args[0]
            if k == 'file':
                k = show(I.V(st, I.read(st, h, 'filename')))
            out.append(k)
    return sorted(out)


def levels(prog, rep, fn, d, f):
    for again in (None, ((10, 10),), ((10, 0),), ((50, 20), (20, 0)), ((10, 0), (10, 10))):
        I, st = setup(prog)
        F = I.module_name(LG if fn == 'init_logging' else 'beluga.beluga', fn, st)
        if F is None:
            raise Broken('%s not found' % fn)
        for x, y in again or ():
            I.call(F, [], {'display_level': num(x), 'file_level': num(y), 'filename': const('old.log')}, st, None)
        I.call(F, [], {'display_level': num(d), 'file_level': num(f), 'filename': const('my.log')}, st, None)
        note(rep, I)
        nm = '%s(%d, %d)%s' % (fn, d, f, ' after %s' % (again,) if again else '')
        o = I.loggers.get('beluga')
        if o is None:
            rep.undecided(nm, 'no logger named beluga is asked for')
            return
        for lev in LEVELS:
            want = (['screen'] if lev >= d else []) + ([show(const('my.log'))] if f and lev >= f else [])
            r = reached(I, st, o, lev)
            if r is None:
                rep.undecided('%s: message of level %d' % (nm, lev), 'levels not literal')
            else:
                rep.check('%s: message of level %d' % (nm, lev), r == sorted(want), 'goes to %s, not to %s' % (r, sorted(want)), W)
        rep.equal('%s: messages stay in this log' % nm, I.V(st, I.read(st, o, 'propagate')), FALSE, W)
        rep.equal('%s: display level is kept for the progress bar' % nm, I.V(st, I.read(st, o, 'display_level_')), num(d), W)


def defaults(prog, rep):
    I, st = setup(prog)
    F = I.module_name('beluga.beluga', 'add_logger', st)
    if F is None:
        raise Broken('add_logger not found')
    I.call(F, [], {}, st, None)
    o = I.loggers.get('beluga')
    if o is None:
        rep.undecided('defaults', 'no logger named beluga is asked for')
        return
    for lev in LEVELS:
        want = (['screen'] if lev >= 20 else []) + [show(const('beluga.log'))]
        r = reached(I, st, o, lev)
        if r is None:
            rep.undecided('default log: message of level %d' % lev, 'levels not literal')
            continue
        rep.check('default log: message of level %d' % lev, r == sorted(want), 'goes to %s, not to %s' % (r, sorted(want)), W)


def fit(prog, rep):
    I, st = setup(prog)
    F = I.module_name(LG, 'fit_string', st)
    if F is None:
        raise Broken('fit_string not found')
    w = 'beluga/utils/logging.py:fit_string'
    for n in range(0, 14):
        s = 'abcdefghijklmnopq'[:n]
        for width in (4, 5, 8, 11):
            for j, c in (('left', 'ljust'), ('center', 'center'), ('right', 'rjust'), (None, 'center')):
                r = I.call(F, [const(s), num(width)], {'justification': const(j)} if j else {}, st, None)
                want = s[:width - 3] + '...' if len(s) > width else getattr(s, c)(width, ' ')
                rep.equal('text of %d in width %d, %s' % (n, width, j), I.V(st, r), const(want), w)
    rejects(rep, 'unknown justification', I, st, lambda: I.call(F, [const('a'), num(5), const('top')], {}, st, None), w, 'ValueError')
