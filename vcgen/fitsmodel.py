"""Ghost file store: what astropy.io.fits, astropy.io.ascii and astropy.table write and read back.

A file is a list of HDUs; an HDU has a name, a header and data (an array, a table of columns, or nothing).
What is read is what was written: the model does not contain the byte format. Files nobody wrote in the
scenario come from ip.disk(path), which a scenario supplies.
"""
from .engine import E
from .values import *
from .terms import *
from .arrays import mk, same_dim
from . import arrays as AR
from . import npmodel as NP


class H:
    """content of one HDU"""

    def __init__(self, kind, name, data=None, header=None):
        self.kind, self.name, self.data, self.header = kind, name, data, header if header is not None else {}


def snapshot(d):
    """the data as they are now"""
    if d is None:
        return None
    if isinstance(d, NP.Rec):
        return NP.Rec(d.n, {k: snapshot(v) for k, v in d.fields.items()}, list(d.order), ci=True)
    d = NP.A(d)
    return mk(d.shape, d.reader(), d.dtype)


def upper(n):
    if isinstance(n, SStr):
        raise Unsupported('symbolic HDU name')
    return n.strip().upper() if n is not None else ''


def nowrite():
    if len(E.frames) > 1:
        raise Unsupported('file access in a loop over a symbolic range')


def files(ip):
    if not hasattr(ip, 'files'):
        ip.files = {}
    return ip.files


def key(path):
    if not isinstance(path, (str, SStr)):
        raise PyExc('OSError', 'file name')
    return strterm(path).sexpr()


def stored(ip, path):
    """the HDUs of a file, or None"""
    k = key(path)
    fs = files(ip)
    if k in fs:
        return fs[k]
    disk = getattr(ip, 'disk', None)
    r = disk(path) if disk else None
    if r is not None:
        fs[k] = r
    return r


def store(ip, path, hdus, overwrite):
    nowrite()
    ow = ip.truth(overwrite)
    if not ow:
        ex = key(path) in files(ip) or E.decide(ip.fs('exists', path))
        if ex:
            raise PyExc('OSError', 'File already exists')
    files(ip)[key(path)] = [H(h.kind, h.name, snapshot(h.data), dict(h.header)) for h in hdus]


def hdu_obj(ip, h):
    """the object a program sees"""
    o = Inst(None)
    o.ghost['hdu'] = h.kind
    o.attrs['data'] = h.data
    o.attrs['name'] = h.name
    o.attrs['header'] = PDict(dict(h.header))
    o.ghost['methods'] = {'writeto': lambda filename, overwrite=False, **k: store(ip, filename, with_primary([content(o)]), overwrite),
                          'copy': lambda: hdu_obj(ip, content(o, True))}
    o.ghost['getattr'] = lambda a: method(o, a)
    return o


def method(o, a):
    m = o.ghost['methods'].get(a)
    if m is None:
        raise Unsupported('astropy object attribute %s' % a)
    return Builtin(a, m)


def content(o, copy=False):
    if not isinstance(o, Inst) or 'hdu' not in o.ghost:
        raise Unsupported('not an HDU')
    d = o.attrs['data']
    hd = o.attrs['header']
    name = o.attrs['name']
    if 'EXTNAME' in hd.d:
        name = upper(hd.d['EXTNAME'])
    return H(o.ghost['hdu'], name, snapshot(d) if copy else d, hd.d)


def with_primary(hs):
    """a file starts with a primary HDU: an image is turned into one, anything else gets an empty one before it"""
    if hs and hs[0].kind in ('primary',):
        return hs
    if hs and hs[0].kind == 'image':
        return [H('primary', hs[0].name, hs[0].data, hs[0].header)] + hs[1:]
    return [H('primary', 'PRIMARY')] + hs


def make_hdu(ip, kind):
    def f(data=None, header=None, name=None, **kw):
        if kw and any(v is not None and v is not False for v in kw.values()):
            raise Unsupported('HDU options')
        if isinstance(data, Inst) and 'table' in data.ghost:
            data = data.ghost['table']
        if kind == 'table':
            if data is not None and not isinstance(data, NP.Rec):
                raise Unsupported('table data')
        elif data is not None:
            if isinstance(data, NP.Rec) or isinstance(data, (PList, SymList, str, SStr)):
                raise PyExc('TypeError', 'image data must be an array')
            data = NP.A(data)
        o = hdu_obj(ip, H(kind, upper(name) if name is not None else ('PRIMARY' if kind == 'primary' else ''), data))
        if isinstance(header, PDict):
            o.attrs['header'] = PDict(dict(header.d))
        return o
    return f


def hdulist(ip, items, path=None, mode='readonly'):
    o = Inst(None)
    st = {'l': list(items)}

    def put(new):
        old = st['l']

        def undo():
            st['l'] = old
        nowrite()
        E.undoable(undo)
        st['l'] = new

    def append(h):
        if not isinstance(h, Inst) or 'hdu' not in h.ghost:
            raise PyExc('ValueError', 'HDUList can only append an HDU')
        l = st['l']
        if not l:
            if h.ghost['hdu'] == 'image':
                # astropy makes a primary HDU of it
                c = content(h)
                h = hdu_obj(ip, H('primary', c.name, c.data, c.header))
            elif h.ghost['hdu'] == 'table':
                put([hdu_obj(ip, H('primary', 'PRIMARY')), h])
                return None
        elif h.ghost['hdu'] == 'primary':
            c = content(h)
            h = hdu_obj(ip, H('image', '' if c.name == 'PRIMARY' else c.name, c.data, c.header))
        put(l + [h])

    def find(k):
        l = st['l']
        if NP.is_arr(k) and k.ndim == 0:
            k = k.item()
        if isinstance(k, tuple):
            if len(k) == 2 and k[1] == 1:
                k = k[0]
            else:
                raise Unsupported('HDU version')
        if isinstance(k, str):
            for j, h in enumerate(l):
                if content(h).name == upper(k):
                    return j
            raise PyExc('KeyError', 'Extension %s not found' % k)
        if isinstance(k, SStr):
            raise Unsupported('symbolic HDU name')
        k = const(k)
        if isinstance(k, int):
            if not -len(l) <= k < len(l):
                raise PyExc('IndexError', 'HDU index out of range')
            return k % len(l)
        raise Unsupported('HDU key')

    def contains(k):
        try:
            find(k)
            return True
        except PyExc:
            return False

    def writeto(filename, overwrite=False, **kw):
        store(ip, filename, with_primary([content(h) for h in st['l']]), overwrite)

    def flush(**kw):
        if mode in ('update', 'append'):
            nowrite()
            files(ip)[key(path)] = [H(c.kind, c.name, snapshot(c.data), dict(c.header)) for c in [content(h) for h in st['l']]]
    o.ghost['methods'] = {'append': append, 'writeto': writeto, 'flush': flush, 'close': flush,
                          'index_of': find, 'insert': lambda i, h: (append(h) if same_dim(i, len(st['l'])) else NP.unsupported('HDU insertion'))}
    o.ghost['getattr'] = lambda a: method(o, a)
    o.ghost['getitem'] = lambda k: st['l'][find(k)]
    o.ghost['contains'] = contains
    o.ghost['len'] = lambda: len(st['l'])
    o.ghost['iter'] = lambda: (len(st['l']), lambda i: st['l'][i])
    o.ghost['context'] = flush
    return o


def opener(ip):
    def f(name=None, mode='readonly', memmap=None, **kw):
        if kw:
            raise Unsupported('fits.open options')
        hs = stored(ip, name)
        if hs is None:
            raise PyExc('OSError', 'no such file')
        return hdulist(ip, [hdu_obj(ip, H(h.kind, h.name, snapshot(h.data), dict(h.header))) for h in hs], name, mode)
    return f


def getdata(ip):
    def f(filename, ext=None, **kw):
        h = opener(ip)(filename)
        if kw:
            raise Unsupported('getdata options')
        if ext is None:
            raise Unsupported('getdata without extension')
        return h.ghost['getitem'](ext).attrs['data']
    return f


def table(ip):
    def f(data=None, **kw):
        if kw or not isinstance(data, NP.Rec):
            raise Unsupported('Table')
        o = Inst(None)
        o.ghost['table'] = data

        def write(filename, overwrite=False, format=None, **k):
            if k or format not in (None, 'fits'):
                raise Unsupported('table format')
            store(ip, filename, [H('primary', 'PRIMARY'), H('table', '', data)], overwrite)
        o.ghost['methods'] = {'write': write}
        o.ghost['getattr'] = lambda a: method(o, a)
        o.ghost['getitem'] = lambda k: NP.getitem(ip, data, k)
        o.ghost['setitem'] = lambda k, v: NP.setitem(ip, data, k, v)
        o.ghost['len'] = lambda: data.n
        return o
    return f


def ascii_read(ip):
    def f(path, format=None, **kw):
        if kw:
            raise Unsupported('ascii options')
        rd = getattr(ip, 'readtable', None)
        if rd is None:
            raise Unsupported('ascii table')
        return rd(path, format)
    return f


def attr(ip, mod, name):
    if mod == 'astropy.io.fits':
        if name == 'open':
            return Builtin('fits.open', opener(ip))
        if name == 'HDUList':
            def mklist(items=None):
                l = hdulist(ip, [])
                for h in (NP.to_list(ip, items).items if items is not None else []):
                    l.ghost['methods']['append'](h)
                return l
            return Builtin('fits.HDUList', mklist)
        k = {'ImageHDU': 'image', 'PrimaryHDU': 'primary', 'BinTableHDU': 'table'}.get(name)
        if k:
            return Builtin('fits.' + name, make_hdu(ip, k))
        if name == 'getdata':
            return Builtin('fits.getdata', getdata(ip))
    if mod == 'astropy.table' and name == 'Table':
        return Builtin('Table', table(ip))
    if mod == 'astropy.io.ascii' and name == 'read':
        return Builtin('ascii.read', ascii_read(ip))
    raise Unsupported('%s.%s' % (mod, name))
