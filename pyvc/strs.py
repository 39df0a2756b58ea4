"""Strings: concrete strings are Python strings, others are lists of parts (StrV)."""
import string as _string
from fractions import Fraction
from vals import *
import lib
from lib import model, MODELS

# methods applied as they are when everything is concrete
PLAIN = ('strip lstrip rstrip split rsplit splitlines lower upper title capitalize isdigit isalpha isspace startswith endswith '
         'find rfind index count replace zfill ljust rjust center partition rpartition isnumeric isalnum').split()


def plain(name):
    def f(X, s, *a, **k):
        a = [x for x in a]
        if not isinstance(s, str) or any(isinstance(x, (StrV, Ref, IteV)) or is_z(x) for x in a):
            raise Unsupported('str.%s of a symbolic string' % name)
        r = getattr(s, name)(*a, **k)
        return X.newlist(Cat([Unit(x) for x in r])) if isinstance(r, list) else r
    return f


for _n in PLAIN:
    MODELS['str.' + _n] = plain(_n)


@model('str.format')
def _format(X, s, *a, **k):
    if not isinstance(s, str):
        raise Unsupported('format of a symbolic string')
    out, auto = [], 0
    for lit, fld, spec, conv in _string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if fld is None:
            continue
        if fld == '':
            v, auto = a[auto], auto + 1
        elif fld.isdigit():
            v = a[int(fld)]
        elif fld in k:
            v = k[fld]
        else:
            v = StrV([('field', fld, tuple(a), tuple(k.items()))])
        if spec and '{' in spec:
            raise Unsupported('nested format specification')
        out.append(lib.format1(X, v, spec or ''))
    return lib.strcat(X, out)


@model('str.join')
def _join(X, s, it):
    t = X.iter_tree(it)
    us = t.ts if isinstance(t, Cat) else (t,)
    if all(isinstance(u, Unit) for u in us):
        out = []
        for j, u in enumerate(us):
            if j:
                out.append(s)
            out.append(u.v)
        if all(isinstance(x, (str, StrV)) for x in out):
            return lib.strcat(X, out)
    return StrV([('join', s, t)])


# ------------------------------------------------------------------ data files of the package
import os as _os
import json as _json


def _pathf(name, fn):
    def f(X, *a):
        if not all(isinstance(x, str) for x in a):
            return StrV([('path', name, tuple(a))])
        return fn(*a)
    MODELS[name] = f


_pathf('os.path.join', _os.path.join)
_pathf('os.path.dirname', _os.path.dirname)
_pathf('os.path.abspath', _os.path.abspath)
_pathf('os.path.realpath', _os.path.realpath)
_pathf('os.path.basename', _os.path.basename)


def pyvalue(X, v):
    """a Python value as a value of the interpreter"""
    if isinstance(v, float):
        return Fraction(repr(v)) if v == v and abs(v) != float('inf') else StrV([('float', repr(v))])
    if isinstance(v, list):
        return X.newlist(Cat([Unit(pyvalue(X, x)) for x in v]))
    if isinstance(v, dict):
        return X.alloc('dict', Cat([Unit((k, pyvalue(X, x))) for k, x in v.items()]))
    return v


@model('builtins.open')
def _open(X, path, mode='r', **k):
    if not isinstance(path, str) or set(mode) - set('rtb') or not path.startswith(X.repo):
        raise Unsupported('open')
    return X.alloc('file', EMPTY, meta={'path': path})


@model('json.load')
def _jload(X, f):
    if not (isinstance(f, Ref) and X.obj(f).kind == 'file'):
        raise Unsupported('json.load')
    X.used_lib.add('json.load')
    return pyvalue(X, _json.load(open(X.obj(f).meta['path'])))


@model('numpy.load')
def _npload(X, path, *a, **k):
    if not isinstance(path, str) or not path.startswith(X.repo):
        raise Unsupported('numpy.load')
    import numpy
    X.used_lib.add('numpy.load')
    t = numpy.load(path)
    if t.ndim != 2 or t.dtype.kind != 'i':
        raise Unsupported('numpy.load of another kind of table')
    import models as M
    old = X.opts.get('rows', 12)
    X.opts['rows'] = 1000
    try:
        return X.newlist(Cat([Unit(M.mkarr(X, (t.shape[1],), lambda j, r=r: int(r[j]))) for r in t]))
    finally:
        X.opts['rows'] = old


# ------------------------------------------------------------------ re, on concrete strings
import re as _re


def _conc(*a):
    if not all(isinstance(x, (str, int, type(None))) for x in a):
        raise Unsupported('regular expression on a symbolic string')


def _match(X, m):
    return None if m is None else X.alloc('match', EMPTY, meta={'m': m})


def _refn(name, conv):
    def f(X, pat, s, *a):
        X.used_lib.add('re')
        if isinstance(pat, Ref):
            pat = X.obj(pat).meta['p']
        _conc(pat, s, *a)
        return conv(X, getattr(_re, name)(pat, s, *a))
    MODELS['re.' + name] = f
    MODELS['pattern.' + name] = f


_refn('findall', lambda X, r: pyvalue(X, r))
_refn('split', lambda X, r: pyvalue(X, r))
_refn('search', _match)
_refn('match', _match)
_refn('fullmatch', _match)


@model('re.compile')
def _recompile(X, p, flags=0):
    _conc(p)
    if flags != 0:
        raise Unsupported('re flags')
    return X.alloc('pattern', EMPTY, meta={'p': p})


@model('re.sub')
def _resub(X, p, r, s):
    _conc(p, r, s)
    if isinstance(p, Ref):
        p = X.obj(p).meta['p']
    return _re.sub(p, r, s)


def _mt(name):
    def f(X, m, *a):
        _conc(*a)
        return getattr(X.obj(m).meta['m'], name)(*a)
    MODELS['match.' + name] = f


for _n in ('group', 'start', 'end', 'span', 'groups'):
    _mt(_n)
