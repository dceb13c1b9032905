"""Tagged JSON values, canonical forms, and an independent model of each
property type's domain (coerce / equality), written from the documentation."""
import datetime
import json
import math


class Undef(object):
    """The model's 'undefined'"""
    def __repr__(self):
        return '<undef>'


UNDEF = Undef()


class Arr(object):
    """The model's array: class name, kind of dtype, numpy array"""

    def __init__(self, cls, a):
        self.cls = cls
        self.a = a

    def tolist(self):
        return self.a.tolist()


class Alien(object):
    """A value no property type knows"""
    def __init__(self, n=0):
        self.n = n


class SubList(list):
    """A caller's own kind of list"""


class SubStr(str):
    """A caller's own kind of string"""


class Span(object):
    """A plain class for instance properties: no HasProperties, built from one argument or keywords"""

    def __init__(self, a, b=0):
        if isinstance(a, bool) or not isinstance(a, (int, float)):
            raise ValueError('not a span')
        self.a, self.b = a, b

    def __eq__(self, other):
        return isinstance(other, Span) and (self.a, self.b) == (other.a, other.b)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self.a, self.b))

    def __repr__(self):
        return 'Span(%r, %r)' % (self.a, self.b)


class JDict(dict):
    """A dictionary given to an instance property, which holds it by reference"""


class ModelValidationError(ValueError):
    def __init__(self, message, tuples=None):
        super().__init__(message)
        self.tuples = tuples if tuples is not None else []


GENERIC = (ValueError, KeyError, TypeError, AttributeError)
TOL = 1e-9


# -- tagged values ---------------------------------------------------------

def enc(v):
    if v is None:
        return ['none']
    if isinstance(v, bool):
        return ['b', v]
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, float):
        return ['f', repr(v)]
    if isinstance(v, complex):
        return ['c', repr(v.real), repr(v.imag)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, list):
        return ['l', [enc(x) for x in v]]
    if isinstance(v, tuple):
        return ['t', [enc(x) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ['set', [enc(x) for x in sorted(v, key=repr)]]
    if isinstance(v, dict):
        return ['d', [[enc(k), enc(x)] for k, x in v.items()]]
    if isinstance(v, datetime.datetime):
        return ['dt', v.isoformat()]
    if v is UNDEF:
        return ['undef']
    if isinstance(v, Arr):
        return ['arr', v.cls, v.a.dtype.kind, list(v.a.shape), [repr(x) for x in v.a.flatten().tolist()]]
    raise TypeError('cannot encode %r' % (v,))


def dec(t, side=None):
    k = t[0]
    if k == 'none':
        return None
    if k == 'b':
        return bool(t[1])
    if k == 'i':
        return int(t[1])
    if k == 'f':
        return float(t[1])
    if k == 'c':
        return complex(float(t[1]), float(t[2]))
    if k == 's':
        return t[1]
    if k == 'l':
        return [dec(x, side) for x in t[1]]
    if k == 't':
        return tuple(dec(x, side) for x in t[1])
    if k == 'set':
        return set(dec(x, side) for x in t[1])
    if k == 'd':
        return dict((dec(a, side), dec(b, side)) for a, b in t[1])
    if k == 'dt':
        return datetime.datetime.fromisoformat(t[1])
    if k == 'undef':
        return side.undefined
    if k == 'alien':
        return Alien(t[1] if len(t) > 1 else 0)
    if k == 'o':
        return side.obj(t[1])
    if k == 'np':
        import numpy
        return getattr(numpy, t[1])(float(t[2]) if t[1][0] == 'f' else int(t[2]))
    if k == 'lsub':
        return SubList(dec(x, side) for x in t[1])
    if k == 'od':
        import collections
        return collections.OrderedDict((dec(a, side), dec(b, side)) for a, b in t[1])
    if k == 'span':
        return Span(dec(t[1], side), dec(t[2], side))
    if k == 'jd':
        return JDict((dec(a, side), dec(b, side)) for a, b in t[1])
    if k == 'ssub':
        return SubStr(t[1])
    if k == 'arr':
        return side.array(t) if side is not None and hasattr(side, 'array') else dec_array(t)
    if k == 'ref':
        return side.held_value(t[1], t[2])
    raise ValueError('bad tag %r' % (t,))


def numpy_of(t):
    import numpy
    conv = {'f': float, 'i': int, 'b': lambda x: x == 'True', 'U': str, 'c': complex}[t[2]]
    a = numpy.array([conv(x) for x in t[4]], dtype={'f': float, 'i': int, 'b': bool, 'U': str, 'c': complex}[t[2]])
    return a.reshape(tuple(t[3]))


def dec_array(t):
    """A real array (or vector) from its tagged form"""
    a = numpy_of(t)
    if t[1] == 'ndarray':
        return a
    import vectormath
    return getattr(vectormath, t[1])(a)


def canon_array(cls, a):
    def one(x):
        if isinstance(x, float):
            return '%.9g' % (x + 0.0)
        return repr(x)
    kind = {'u': 'i'}.get(a.dtype.kind, a.dtype.kind)
    return ['arr', cls, kind, list(a.shape), [one(x) for x in a.flatten().tolist()]]


def canon(v, side=None):
    """Canonical JSON form; container subclasses canonicalise as their base"""
    if v is None:
        return None
    if side is not None and v is side.undefined:
        return ['undef']
    if isinstance(v, bool):
        return ['b', v]
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, float):
        return ['f', repr(v)]
    if isinstance(v, complex):
        return ['c', repr(v)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, list):
        return ['l', [canon(x, side) for x in v]]
    if isinstance(v, tuple):
        return ['t', [canon(x, side) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ['set', sorted((canon(x, side) for x in v), key=repr)]
    if isinstance(v, dict):
        return ['d', sorted(([canon(k, side), canon(x, side)] for k, x in v.items()), key=repr)]
    if isinstance(v, datetime.datetime):
        return ['dt', v.isoformat()]
    if isinstance(v, Alien):
        return ['alien', v.n]
    if isinstance(v, Span):
        return ['span', canon(v.a, side), canon(v.b, side)]
    if side is not None:
        i = side.index(v)
        if i is not None:
            return ['o', i]
    if type(v).__name__ == 'bool_':
        return ['b', bool(v)]
    if isinstance(v, Arr):
        return canon_array(v.cls, v.a)
    if hasattr(v, 'tolist') and hasattr(v, 'dtype'):
        return canon_array(type(v).__name__, v)
    return ['?', type(v).__name__]


# -- type zoo: build / coerce / eq -----------------------------------------

# the standard web colors (CSS), and the one-letter names
CSS = '''
aliceblue:f0f8ff antiquewhite:faebd7 aqua:00ffff aquamarine:7fffd4 azure:f0ffff beige:f5f5dc bisque:ffe4c4
black:000000 blanchedalmond:ffebcd blue:0000ff blueviolet:8a2be2 brown:a52a2a burlywood:deb887 cadetblue:5f9ea0
chartreuse:7fff00 chocolate:d2691e coral:ff7f50 cornflowerblue:6495ed cornsilk:fff8dc crimson:dc143c cyan:00ffff
darkblue:00008b darkcyan:008b8b darkgoldenrod:b8860b darkgray:a9a9a9 darkgreen:006400 darkgrey:a9a9a9
darkkhaki:bdb76b darkmagenta:8b008b darkolivegreen:556b2f darkorange:ff8c00 darkorchid:9932cc darkred:8b0000
darksalmon:e9967a darkseagreen:8fbc8f darkslateblue:483d8b darkslategray:2f4f4f darkslategrey:2f4f4f
darkturquoise:00ced1 darkviolet:9400d3 deeppink:ff1493 deepskyblue:00bfff dimgray:696969 dimgrey:696969
dodgerblue:1e90ff firebrick:b22222 floralwhite:fffaf0 forestgreen:228b22 fuchsia:ff00ff gainsboro:dcdcdc
ghostwhite:f8f8ff gold:ffd700 goldenrod:daa520 gray:808080 green:008000 greenyellow:adff2f grey:808080
honeydew:f0fff0 hotpink:ff69b4 indianred:cd5c5c indigo:4b0082 ivory:fffff0 khaki:f0e68c lavender:e6e6fa
lavenderblush:fff0f5 lawngreen:7cfc00 lemonchiffon:fffacd lightblue:add8e6 lightcoral:f08080 lightcyan:e0ffff
lightgoldenrodyellow:fafad2 lightgray:d3d3d3 lightgreen:90ee90 lightgrey:d3d3d3 lightpink:ffb6c1 lightsalmon:ffa07a
lightseagreen:20b2aa lightskyblue:87cefa lightslategray:778899 lightslategrey:778899 lightsteelblue:b0c4de
lightyellow:ffffe0 lime:00ff00 limegreen:32cd32 linen:faf0e6 magenta:ff00ff maroon:800000 mediumaquamarine:66cdaa
mediumblue:0000cd mediumorchid:ba55d3 mediumpurple:9370db mediumseagreen:3cb371 mediumslateblue:7b68ee
mediumspringgreen:00fa9a mediumturquoise:48d1cc mediumvioletred:c71585 midnightblue:191970 mintcream:f5fffa
mistyrose:ffe4e1 moccasin:ffe4b5 navajowhite:ffdead navy:000080 oldlace:fdf5e6 olive:808000 olivedrab:6b8e23
orange:ffa500 orangered:ff4500 orchid:da70d6 palegoldenrod:eee8aa palegreen:98fb98 paleturquoise:afeeee
palevioletred:db7093 papayawhip:ffefd5 peachpuff:ffdab9 peru:cd853f pink:ffc0cb plum:dda0dd powderblue:b0e0e6
purple:800080 rebeccapurple:663399 red:ff0000 rosybrown:bc8f8f royalblue:4169e1 saddlebrown:8b4513 salmon:fa8072
sandybrown:f4a460 seagreen:2e8b57 seashell:fff5ee sienna:a0522d silver:c0c0c0 skyblue:87ceeb slateblue:6a5acd
slategray:708090 slategrey:708090 snow:fffafa springgreen:00ff7f steelblue:4682b4 tan:d2b48c teal:008080
thistle:d8bfd8 tomato:ff6347 turquoise:40e0d0 violet:ee82ee wheat:f5deb3 white:ffffff whitesmoke:f5f5f5
yellow:ffff00 yellowgreen:9acd32
'''
COLORS = {'b': (0, 0, 255), 'c': (0, 255, 255), 'g': (0, 255, 0), 'm': (255, 0, 255), 'r': (255, 0, 0),
          'w': (255, 255, 255), 'y': (255, 255, 0), 'k': (0, 0, 0)}
COLORS.update((w.split(':')[0], tuple(int(w.split(':')[1][i:i + 2], 16) for i in (0, 2, 4))) for w in CSS.split())


def build(spec, p, env):
    """The real property for a type spec. env gives classes and callbacks."""
    t = spec['t']
    kw = {}
    for k in ('min', 'max', 'cast', 'strip', 'change_case', 'regex', 'coerce', 'min_length', 'max_length',
              'observe_mutations', 'required', 'case_sensitive'):
        if k in spec:
            kw[k] = spec[k]
    if 'default' in spec:
        kw['default'] = env.default(spec['default'])
    if t == 'any':
        return p.Property('any', **kw)
    if t == 'int':
        return p.Integer('int', **kw)
    if t == 'float':
        return p.Float('float', **kw)
    if t == 'complex':
        return p.Complex('complex', **kw)
    if t == 'bool':
        return p.Boolean('bool', **kw)
    if t == 'str':
        return p.String('str', **kw)
    if t == 'choice':
        return p.StringChoice('choice', choices=dict((k, list(v)) for k, v in spec['choices']), **kw)
    if t == 'color':
        return p.Color('color', **kw)
    if t == 'dt':
        return p.DateTime('datetime', **kw)
    if t in ('list', 'tuple', 'set'):
        cls = {'list': p.List, 'tuple': p.Tuple, 'set': p.Set}[t]
        if spec.get('item') is not None:
            kw['prop'] = build(spec['item'], p, env)
        return cls(t, **kw)
    if t == 'dict':
        if spec.get('key') is not None:
            kw['key_prop'] = build(spec['key'], p, env)
        if spec.get('value') is not None:
            kw['value_prop'] = build(spec['value'], p, env)
        return p.Dictionary('dict', **kw)
    if t == 'union':
        return p.Union('union', props=[build(s, p, env) for s in spec['alts']], **kw)
    if t == 'inst':
        return p.Instance('inst', env.cls(spec['cls']), **kw)
    if t == 'span':
        return p.Instance('span', Span, serializer=lambda v, **kw: [v.a, v.b], deserializer=lambda v, **kw: Span(*v), **kw)
    if t == 'jdict':
        return p.Instance('jdict', dict, deserializer=lambda v, **kw: JDict(json.loads(json.dumps(v))), **kw)
    if t == 'custom':
        return env.custom_property(spec, kw)
    if t == 'url':
        for k in ('remove_parameters', 'remove_fragment'):
            if k in spec:
                kw[k] = spec[k]
        return p.extras.web.URL('url', **kw)
    if t == 'arr':
        kw['dtype'] = tuple({'float': float, 'int': int, 'bool': bool}[d] for d in spec['dtype'])
        kw['shape'] = None if spec['shape'] is None else set(tuple(s) for s in spec['shape'])
        return p.Array('arr', **kw)
    if t in VECTORS:
        if spec.get('length'):
            kw['length'] = spec['length']
        return getattr(p, VECTORS[t])('vec', **kw)
    raise ValueError(t)


VECTORS = {'vec3': 'Vector3', 'vec2': 'Vector2', 'vec3a': 'Vector3Array', 'vec2a': 'Vector2Array'}
DIRECTIONS = {'zero': (0, 0, 0), 'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1), '-x': (-1, 0, 0), '-y': (0, -1, 0),
              '-z': (0, 0, -1), 'east': (1, 0, 0), 'west': (-1, 0, 0), 'north': (0, 1, 0), 'south': (0, -1, 0),
              'up': (0, 0, 1), 'down': (0, 0, -1)}


def has_array(spec):
    if spec is None:
        return False
    return spec['t'] == 'arr' or spec['t'] in VECTORS or any(has_array(spec.get(k)) for k in ('item', 'value')) or \
        any(has_array(s) for s in spec.get('alts', []))


def has_type(spec, t):
    return spec is not None and (spec['t'] == t or any(has_type(spec.get(k), t) for k in ('item', 'key', 'value')) or
                                 any(has_type(s, t) for s in spec.get('alts', [])))


def tagged_array(t):
    if not isinstance(t, list) or not t:
        return False
    return t[0] == 'arr' or any(tagged_array(x) for x in t[1:])


def direction(s, n, name):
    d = DIRECTIONS.get(s.lower())
    if d is None or (n == 2 and d[2]):
        invalid(name)
    return list(d[:n])


def plain(v):
    """Model arrays inside lists as plain arrays"""
    if isinstance(v, Arr):
        return v.a
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def numeric(v, name):
    import numpy
    if isinstance(v, Arr):
        return v.a.copy()
    try:
        a = numpy.array(plain(v))
    except ValueError:
        invalid(name)
    return a


def coerce_array(spec, v, name):
    import numpy
    t = spec['t']
    if t == 'arr':
        if not isinstance(v, (list, tuple, Arr)):
            invalid(name)
        if isinstance(v, Arr):
            a = v.a.copy()
        elif spec.get('coerce') is False:
            invalid(name)
        else:
            a = numeric(v, name)
        kinds = ''.join({'float': 'f', 'int': 'iu', 'bool': 'b'}[d] for d in spec['dtype'])
        if a.dtype.kind not in kinds:
            invalid(name)
        if spec['shape'] is not None and not any(
                len(s) == a.ndim and all(x in ('*', y) for x, y in zip(s, a.shape)) for s in spec['shape']):
            invalid(name)
        return Arr('ndarray' if not isinstance(v, Arr) else ('ndarray' if spec.get('coerce') is not False else v.cls), a)
    n = 3 if '3' in t else 2
    if t in ('vec3', 'vec2'):
        if isinstance(v, str):
            v = direction(v, n, name)
        elif not isinstance(v, (list, tuple, Arr)):
            invalid(name)
        a = numeric(v, name)
        if a.shape != (n,) or a.dtype.kind not in 'fiub':
            invalid(name)
        a = a.astype(float)
        if spec.get('length'):
            size = float(numpy.sqrt((a ** 2).sum()))
            if size == 0 or size == float('inf'):
                invalid(name)
            a = a * (spec['length'] / size)
        return Arr(VECTORS[t], a)
    if not isinstance(v, (list, tuple, Arr)):
        invalid(name)
    if not isinstance(v, Arr):
        v = [direction(x, n, name) if isinstance(x, str) else x for x in v]
    a = numeric(v, name)
    if a.dtype.kind not in 'fiub':
        invalid(name)
    a = numpy.squeeze(a)
    if a.size == n:
        a = a.reshape((1, n))
    if a.ndim != 2 or a.shape[1] != n:
        invalid(name)
    a = a.astype(float)
    if spec.get('length'):
        sizes = numpy.sqrt((a ** 2).sum(axis=1))
        if (sizes == 0).any() or numpy.isinf(sizes).any():
            invalid(name)
        a = a * (spec['length'] / sizes)[:, None]
    return Arr(VECTORS[t], a)


def eq_array(a, b):
    import numpy
    if not isinstance(a, Arr) or not isinstance(b, Arr) or a.cls != b.cls:
        return False
    x, y = a.a, b.a
    if x.shape != y.shape:
        return False
    nx, ny = numpy.isnan(x), numpy.isnan(y)
    if not numpy.array_equal(nx, ny):
        return False
    return bool(numpy.allclose(x[~nx], y[~ny], atol=TOL))


def invalid(name):
    raise ModelValidationError('invalid', [('invalid', name)])


def coerce(spec, v, env, name):
    """The model's validation: returns the coerced value or raises"""
    t = spec['t']
    if type(v).__module__ == 'numpy' and hasattr(v, 'item') and t in ('int', 'float', 'complex'):
        v = v.item()
    if t == 'any':
        return v
    if t == 'int':
        if isinstance(v, bool):
            n = int(v)
        elif isinstance(v, int):
            n = v
        elif isinstance(v, float):
            if math.isnan(v) or math.isinf(v):
                invalid(name)
            n = int(v)
            if not spec.get('cast') and abs(v - n) > TOL:
                invalid(name)
        elif isinstance(v, str) and spec.get('cast'):
            try:
                n = int(v)
            except ValueError:
                invalid(name)
        else:
            invalid(name)
        _bounds(spec, n, name)
        return n
    if t == 'float':
        if isinstance(v, (bool, int, float)):
            try:
                x = float(v)
            except OverflowError:
                invalid(name)
            if not spec.get('cast') and abs(v - x) > TOL:
                invalid(name)
        elif isinstance(v, str) and spec.get('cast'):
            try:
                x = float(v)
            except ValueError:
                invalid(name)
        else:
            invalid(name)
        _bounds(spec, x, name)
        return x
    if t == 'complex':
        if isinstance(v, (bool, int, float, complex)):
            try:
                return complex(v)
            except OverflowError:
                invalid(name)
        if isinstance(v, str) and spec.get('cast'):
            try:
                return complex(v)
            except ValueError:
                invalid(name)
        invalid(name)
    if t == 'bool':
        if spec.get('cast'):
            return bool(v)
        if not isinstance(v, bool):
            invalid(name)
        return v
    if t == 'str':
        if not isinstance(v, str):
            invalid(name)
        if 'regex' in spec:
            import re
            if not re.search(spec['regex'], v):
                invalid(name)
        if spec.get('strip'):
            v = v.strip(spec['strip'])
        if spec.get('change_case') == 'upper':
            v = v.upper()
        elif spec.get('change_case') == 'lower':
            v = v.lower()
        if spec.get('strip'):
            v = v.strip(spec['strip'])
        return v
    if t == 'choice':
        if not isinstance(v, str):
            invalid(name)
        fold = (lambda s: s) if spec.get('case_sensitive') else (lambda s: s.upper())
        for key, alts in spec['choices']:
            if fold(v) in [fold(key)] + [fold(a) for a in alts]:
                return key
        invalid(name)
    if t == 'color':
        if isinstance(v, str):
            if v in COLORS:
                return COLORS[v]
            s = v.upper().lstrip('#')
            if len(s) == 3:
                s = ''.join(c * 2 for c in s)
            if len(s) != 6 or any(c not in '0123456789ABCDEF' for c in s):
                invalid(name)
            return tuple(int(s[i:i + 2], 16) for i in (0, 2, 4))
        if not isinstance(v, (list, tuple)) or len(v) != 3:
            invalid(name)
        for x in v:
            if not isinstance(x, int) or not 0 <= x <= 255:
                invalid(name)
        return tuple(v)
    if t == 'dt':
        if isinstance(v, datetime.datetime):
            return v
        if not isinstance(v, str):
            invalid(name)
        for fmt, n in (('%Y/%m/%d', 10), ('%Y-%m-%d', 10), ('%Y-%m-%dT%H:%M:%SZ', 20)):
            if len(v) == n:
                try:
                    return datetime.datetime.strptime(v, fmt)
                except ValueError:
                    pass
        invalid(name)
    if t in ('list', 'tuple', 'set'):
        typ = {'list': list, 'tuple': tuple, 'set': set}[t]
        if not isinstance(v, typ):
            if not spec.get('coerce'):
                invalid(name)
            if isinstance(v, Arr):
                v = list(v.a)
            if not isinstance(v, (list, tuple, set)):
                v = [v]
        out = []
        for x in v:
            if spec.get('item') is None:
                out.append(x)
                continue
            try:
                out.append(coerce(spec['item'], x, env, name))
            except ValueError:
                invalid(name)
        return typ(out)
    if t == 'dict':
        if not isinstance(v, dict):
            if not spec.get('coerce'):
                invalid(name)
            try:
                v = dict(v)
            except (TypeError, ValueError):
                invalid(name)
        out = {}
        for k, x in v.items():
            try:
                if spec.get('key') is not None:
                    k = coerce(spec['key'], k, env, name)
                if spec.get('value') is not None:
                    x = coerce(spec['value'], x, env, name)
            except ValueError:
                invalid(name)
            out[k] = x
        return out
    if t == 'union':
        for s in spec['alts']:
            try:
                return coerce(s, v, env, name)
            except GENERIC:
                continue
        invalid(name)
    if t == 'inst':
        try:
            if env.is_instance(v, spec['cls']):
                return v
            if isinstance(v, dict):
                return env.construct_kw(spec['cls'], v)
            return env.construct_bad(spec['cls'], v)
        except GENERIC:
            invalid(name)
    if t == 'span' or t == 'jdict':
        cls = Span if t == 'span' else dict
        try:
            return v if isinstance(v, cls) else cls(**v) if isinstance(v, dict) else cls(v)
        except GENERIC:
            invalid(name)
    if t == 'custom':
        return env.custom_coerce(spec, v, name)
    if t == 'arr' or t in VECTORS:
        return coerce_array(spec, v, name)
    if t == 'url':
        if not isinstance(v, str):
            invalid(name)
        return url(spec, v, name)
    raise ValueError(t)


def url(spec, v, name):
    import re
    m = re.match(r'^([a-z]+)://([a-z.:0-9@]+)((?:/[a-z/]*)?)(\?[a-z=&0-9]+)?(#[a-z]+)?$', v)
    if m is None:
        invalid(name)
    scheme, host, path, query, frag = m.groups()
    return '%s://%s%s%s%s' % (scheme, host, path, '' if spec.get('remove_parameters') else query or '',
                              '' if spec.get('remove_fragment') else frag or '')


def _bounds(spec, x, name):
    if 'min' in spec and x < spec['min']:
        invalid(name)
    if 'max' in spec and x > spec['max']:
        invalid(name)


def eq(spec, a, b, env):
    t = spec['t']
    if t == 'float':
        return _feq(a, b)
    if t == 'complex':
        if not isinstance(a, (int, float, complex)) or not isinstance(b, (int, float, complex)):
            return False
        return _feq(a.real, b.real) and _feq(a.imag, b.imag)
    if t == 'bool':
        return a is b
    if t in ('list', 'tuple'):
        if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)):
            return False
        return len(a) == len(b) and all(_ieq(spec.get('item'), x, y, env) for x, y in zip(a, b))
    if t == 'set':
        if not isinstance(a, set) or not isinstance(b, set) or len(a) != len(b):
            return False
        rest = list(b)
        for x in a:
            for y in rest:
                if _ieq(spec.get('item'), x, y, env):
                    rest.remove(y)
                    break
            else:
                return False
        return True
    if t == 'dict':
        if not isinstance(a, dict) or not isinstance(b, dict) or len(a) != len(b):
            return False
        return all(k in b and _ieq(spec.get('value'), a[k], b[k], env) for k in a)
    if t == 'union':
        return any(eq(s, a, b, env) for s in spec['alts'])
    if t == 'inst':
        return env.equal(a, b)
    if t == 'custom':
        return a == b
    if t == 'arr' or t in VECTORS:
        return eq_array(a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return same_any(a, b)
    return bool(a == b)


def same_any(a, b):
    """Comparison of a type that knows nothing of arrays"""
    import numpy
    x, y = (v.a if isinstance(v, Arr) else v for v in (a, b))
    try:
        r = x == y
    except ValueError:
        return False
    if hasattr(r, '__iter__'):
        return bool(numpy.all(r))
    return bool(r)


def _ieq(spec, a, b, env):
    if spec is None:
        return bool(a == b)
    return eq(spec, a, b, env)


def _feq(a, b):
    try:
        return abs(a - b) <= TOL or a == b or (a != a and b != b)
    except TypeError:
        return False


# -- generators --------------------------------------------------------------

WORDS = ['a', 'bb', 'Cc', ' x ', 'hello', 'HELLO', '', 'zz top', 'q1']


def gen_type(rng, depth=2, insts=(), allow=None, observe=0.5, arrays=True):
    kinds = ['int', 'int', 'float', 'bool', 'str', 'str', 'choice', 'color', 'dt', 'complex']
    if arrays:
        kinds += ['arr', 'vec3', 'vec2', 'vec3a', 'vec2a', 'url', 'span', 'jdict']
    if depth > 0:
        kinds += ['list', 'list', 'set', 'dict', 'tuple', 'union']
    if insts:
        kinds += ['inst']
    if allow is not None:
        kinds = [k for k in kinds if k in allow] or list(allow)
    t = rng.choice(kinds)
    s = {'t': t}
    if t == 'int':
        if rng.random() < .4:
            s['min'] = rng.randint(-5, 2)
        if rng.random() < .4:
            s['max'] = rng.randint(3, 12)
        if rng.random() < .25:
            s['cast'] = True
    elif t == 'float':
        if rng.random() < .3:
            s['min'] = rng.choice([-5.5, 0.0])
        if rng.random() < .3:
            s['max'] = rng.choice([2.5, 9.75])
        if rng.random() < .25:
            s['cast'] = True
    elif t == 'complex':
        if rng.random() < .25:
            s['cast'] = True
    elif t == 'bool':
        if rng.random() < .3:
            s['cast'] = True
    elif t == 'str':
        r = rng.random()
        if r < .2:
            s['strip'] = rng.choice([' ', ' ', 'ha ', '\n '])
            if rng.random() < .3:
                s['change_case'] = rng.choice(['upper', 'lower'])
        elif r < .4:
            s['change_case'] = rng.choice(['upper', 'lower'])
        elif r < .55:
            s['regex'] = '^[a-zA-Z0-9 ]*$'
    elif t == 'choice':
        s['choices'] = rng.choice([[['a', ['alpha', 'aa']], ['B', ['beta']], ['c', []]]] * 3 +
                                  [[['red', ['r', 'Rouge']], ['Green light', []]], [['a', []], ['ab', []], ['abc', ['A b']]]])
        if rng.random() < .4:
            s['case_sensitive'] = True
    elif t in ('list', 'tuple', 'set'):
        scalars = None if t != 'set' else {'int', 'str', 'float', 'choice', 'color', 'tuple'}
        if t != 'set' and depth > 1 and rng.random() < .25:
            s['item'] = gen_type(rng, depth - 1, insts, observe=observe, arrays=arrays)
        else:
            s['item'] = gen_type(rng, 0, insts if t != 'set' else (), scalars, arrays=arrays)
        if t == 'set' and s['item']['t'] == 'tuple':
            s['item'] = {'t': 'int'}
        if t == 'set':
            s['item']['nonan'] = True       # (each nan is an element of its own, placed by its address)
        if rng.random() < .1:
            s['item'] = None
            if t == 'set':
                s['item'] = {'t': 'int'}
        if rng.random() < .35:
            s['coerce'] = True
        if t != 'tuple' and rng.random() < observe:
            s['observe_mutations'] = True
    elif t == 'dict':
        if rng.random() < .7:
            s['key'] = gen_type(rng, 0, (), {'str', 'int'})
        if rng.random() < .8:
            s['value'] = gen_type(rng, depth - 1 if rng.random() < .3 else 0, insts, observe=observe, arrays=arrays)
        if rng.random() < .25:
            s['coerce'] = True
        if rng.random() < observe:
            s['observe_mutations'] = True
    elif t == 'union':
        s['alts'] = [gen_type(rng, 0, insts, {'int', 'str', 'bool', 'color', 'float', 'choice'} |
                              ({'inst'} if insts else set()))
                     for _ in range(rng.randint(2, 3))]
    elif t == 'inst':
        s['cls'] = rng.choice(list(insts))
    elif t == 'arr':
        s['dtype'] = rng.choice([['float', 'int'], ['float', 'int'], ['float'], ['int'], ['bool'], ['int', 'float'],
                                 ['bool', 'int'], ['float', 'int', 'bool']])
        s['shape'] = rng.choice([[['*']], [['*']], [['*', 2]], [[2, '*']], [[2], [3]], None, [['*'], ['*', '*']]])
    elif t in VECTORS:
        if rng.random() < .3:
            s['length'] = rng.choice([1.0, 2.5])
    elif t == 'url':
        if rng.random() < .4:
            s['remove_parameters'] = True
        if rng.random() < .4:
            s['remove_fragment'] = True
    return s


def gen_number(rng, dt):
    if dt == 'bool':
        return rng.random() < .5
    if dt == 'int':
        return rng.randint(-9, 9)
    return rng.choice([rng.randint(-9, 9) + .5, 0.25, -0.0, float(rng.randint(-3, 3)), float('nan'), float('inf'), 1e-3])


def gen_array(spec, rng):
    dt = rng.choice(spec['dtype'])
    if spec['shape'] is None:
        shape = rng.choice([[2], [2, 2], [], [1, 0]])
    else:
        shape = [rng.choice([0, 1, 2, 3]) if x == '*' else x for x in rng.choice(spec['shape'])]
    n = 1
    for x in shape:
        n *= x
    flat = [gen_number(rng, dt) for _ in range(n)]
    kind = {'bool': 'b', 'int': 'i', 'float': 'f'}[dt]
    if shape and n and rng.random() < .5:
        def nest(vals, dims):
            if len(dims) == 1:
                return [rng.choice(['l', 'l', 't']), [enc(x) for x in vals]]
            k = len(vals) // dims[0]
            return ['l', [nest(vals[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])]]
        return nest(flat, shape)
    return ['arr', 'ndarray', kind, shape, [repr(x) for x in flat]]


def gen_vector(spec, rng):
    t = spec['t']
    n = 3 if '3' in t else 2
    words = ['x', '-Y', 'east', 'North'] + (['zero'] if not spec.get('length') else []) + (['z', 'up'] if n == 3 else [])

    def nums():
        while True:
            v = [rng.choice([rng.randint(-4, 4), rng.randint(-8, 8) / 4.0]) for _ in range(n)]
            if any(v):
                return v if spec.get('length') or rng.random() < .9 else [float('nan')] + v[1:]
    if t in ('vec3', 'vec2'):
        r = rng.random()
        if r < .3:
            return enc(rng.choice(words))
        v = nums()
        if r < .6:
            return enc(v if r < .5 else tuple(v))
        return ['arr', VECTORS[t] if r < .8 else 'ndarray', 'f', [n], [repr(float(x)) for x in v]]
    rows = [nums() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    r = rng.random()
    if rows and r < .6:
        return ['l', [enc(rng.choice(words)) if rng.random() < .3 else enc(x) for x in rows]]
    if len(rows) == 1 and r < .8:
        return enc(rows[0])
    return ['arr', VECTORS[t] if r < .8 and rows else 'ndarray', 'f', [len(rows), n], [repr(float(x)) for row in rows for x in row]]


URLS = ['http://a.b', 'https://a.b/c/d', 'ftp://u@h:21/x?q=1&r=2', 'http://a.b/c?q=1#frag', 'http://a.b#f', 'http://a.b/?z=3']


def gen_value(spec, rng, kind, ctx):
    """A tagged value: kind is 'ok' (in the domain, maybe coerced) or 'bad'.

    ctx.objs(cls) -> indexes of objects usable for instance properties,
    ctx.kwargs(cls, rng) -> tagged kwargs dict for a class."""
    if kind == 'bad':
        return gen_bad(spec, rng, ctx)
    if rng.random() < ODD:
        v = gen_odd(spec, rng, ctx)
        if v is not None:
            return v
    t = spec['t']
    if t == 'any':
        return enc(rng.choice([1, 'x', 2.5, True]))
    if t == 'int':
        lo, hi = spec.get('min', -9), spec.get('max', 12)
        n = rng.randint(lo, hi)
        r = rng.random()
        if r < .6:
            return enc(n)
        if r < .75:
            return enc(float(n))
        if r < .85 and lo <= 0 and hi >= 1:
            return enc(bool(rng.getrandbits(1)))
        if spec.get('cast'):
            return enc(str(n)) if r < .95 else enc(n + .25 if n >= 0 else n - .25)
        return enc(n + 4e-10 if n >= 0 else n - 4e-10)
    if t == 'float':
        lo, hi = spec.get('min', -5.5), spec.get('max', 9.75)
        x = rng.choice([lo, hi, lo + (hi - lo) * rng.randint(1, 15) / 16.0])
        r = rng.random()
        if r < .1 and 'min' not in spec and 'max' not in spec:
            return enc(rng.choice([float('inf'), float('-inf')] + ([] if spec.get('nonan') else [float('nan')]) + [1e300]))
        if r < .6:
            return enc(x)
        if r < .8 and lo <= 1 <= hi:
            return enc(1)
        if spec.get('cast') and r < .95:
            return enc(str(x))
        return enc(x)
    if t == 'complex':
        r = rng.random()
        if spec.get('cast') and r < .2:
            return enc('1+2j')
        return enc(rng.choice([1, 2.5, 1 + 2j, -3j, complex('inf')] + ([] if spec.get('nonan') else [complex('nan')])))
    if t == 'bool':
        if spec.get('cast'):
            return enc(rng.choice([0, 1, '', 'x', [], True, False, None]))
        return enc(rng.choice([True, False]))
    if t == 'str':
        w = rng.choice(WORDS)
        return enc(w)
    if t == 'choice':
        key, alts = rng.choice(spec['choices'])
        w = rng.choice([key] + alts)
        if not spec.get('case_sensitive') and rng.random() < .5:
            w = w.swapcase()
        return enc(w)
    if t == 'color':
        return enc(rng.choice(['red', 'k', 'navy', 'orchid', 'firebrick', '#a0F', '00ff10', '0fC', (1, 2, 3), [255, 0, 9],
                               (True, 0, 255)]))
    if t == 'dt':
        return rng.choice([enc('1995/08/12'), enc('1995-08-12T18:00:00Z'), enc('2001-02-03'),
                           ['dt', '2020-02-29T12:34:56'], ['dt', '0987-01-02T03:04:05']])
    if t in ('list', 'tuple', 'set'):
        if spec.get('coerce') and rng.random() < .15 and spec.get('item') is not None \
                and spec['item']['t'] in ('int', 'float', 'str', 'bool'):
            item = gen_value(spec['item'], rng, 'ok', ctx)
            if item[0] not in ('l', 't', 'set', 'none'):
                return item
        items = [gen_item(spec.get('item'), rng, ctx) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        tag = {'list': 'l', 'tuple': 't', 'set': 'set'}[t]
        if spec.get('coerce') and rng.random() < .5:
            tag = rng.choice(['l', 't'])
            if t == 'set':
                items = [i for i in items if i[0] not in ('l', 'd')]
        if tag == 'set':
            items = [i for i in items if i[0] not in ('l', 'd', 'set')]
        return [tag, items]
    if t == 'dict':
        out, seen = [], set()
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            k = gen_item(spec.get('key'), rng, ctx) if spec.get('key') else enc(rng.choice(['k1', 'k2', 'k3', 7]))
            if repr(k) in seen or k[0] in ('l', 'd', 'set', 'f', 'b'):
                continue
            seen.add(repr(k))
            v = gen_item(spec.get('value'), rng, ctx) if spec.get('value') else enc(rng.choice([1, 'v', True]))
            out.append([k, v])
        if spec.get('coerce') and rng.random() < .3:
            return ['l', [['t', kv] for kv in out]]
        return ['d', out]
    if t == 'union':
        return gen_value(rng.choice(spec['alts']), rng, 'ok', ctx)
    if t == 'inst':
        objs = ctx.objs(spec['cls'])
        if objs and (rng.random() < .7 or not ctx.dicts):
            return ['o', rng.choice(objs)]
        if ctx.dicts:
            return ctx.kwargs(spec['cls'], rng)
        return ['none_obj'] if False else ['alien']
    if t == 'span':
        return rng.choice([['span', enc(rng.randint(-2, 2)), enc(rng.choice([0, 0.5]))]] * 2 +
                          [enc(rng.choice([1, 2.5])), enc({'a': 1}), enc({'a': 2, 'b': 3})])
    if t == 'jdict':
        v = rng.choice([{}, {'a': 1}, {'k': [1, {'z': None}]}, {'n': {'m': [], 'x': [[2.5], 'q']}}, {'a': True, 'b': ['s']}])
        return ['jd', enc(v)[1]] if rng.random() < .85 else enc([[k, 1] for k in v])
    if t == 'custom':
        return enc(rng.randint(0, 9))
    if t == 'arr':
        return gen_array(spec, rng)
    if t in VECTORS:
        return gen_vector(spec, rng)
    if t == 'url':
        return enc(rng.choice(URLS))
    raise ValueError(t)


# how often a value is an unusual member of the domain
ODD = .07
ODD_WORDS = ['\u00df', '\u0130i', '\ufb01n', 'caf\u00e9 \u4e2d', '\U0001f600', 'a\x00b', ' \n', 'x' * 150, '  y  ' * 300, 'null', '"', '\u2028',
             "it's", '{}', 'nan', '0']


def gen_odd(spec, rng, ctx):
    """An unusual member of the domain, or None: large, long, of a foreign but accepted class"""
    t = spec['t']
    if t == 'int':
        if rng.random() < .5:
            lo, hi = spec.get('min', -9), spec.get('max', 12)
            n = rng.randint(lo, hi)
            return ['np', rng.choice(['int64', 'int8', 'float64']), str(n)]
        if 'max' not in spec:
            return enc(rng.choice([2 ** 53 + 1, 10 ** 30, 2 ** 31, 10 ** 22 + 1]))
        if 'min' not in spec:
            return enc(rng.choice([-2 ** 63, -10 ** 30]))
    if t == 'float':
        if 'min' in spec or 'max' in spec:
            x = spec.get('min', spec.get('max'))
            return rng.choice([['np', 'float64', repr(x)], ['np', 'float32', repr(x)]])
        return rng.choice([['np', 'float64', '0.1'], ['np', 'float32', '0.5'], ['np', 'int64', '-3'], enc(2 ** 60), enc(-0.0),
                           enc(5e-324), enc(1.7976931348623157e308), enc(0.1 + 0.2), enc(1e22)])
    if t == 'complex':
        return rng.choice([['np', 'float64', '2.5'], ['np', 'int64', '3'], enc(complex(-0.0, 1e300)), enc(complex(1e-12, float('-inf')))])
    if t == 'str':
        if 'regex' in spec:
            return enc(rng.choice(['Z' * 400, 'A1 ' * 40, 'null', '0']))
        w = rng.choice(ODD_WORDS)
        return ['ssub', w] if rng.random() < .15 else enc(w)
    if t == 'choice':
        key, alts = rng.choice(spec['choices'])
        return ['ssub', rng.choice([key] + alts)]
    if t == 'color':
        return enc(rng.choice(sorted(COLORS)))
    if t == 'dt':
        return rng.choice([['dt', '2020-02-29T12:34:56.789012'], ['dt', '9999-12-31T23:59:59'], ['dt', '0001-01-01T00:00:00'],
                           enc('2000-02-29'), enc('1999-12-31T23:59:59Z')])
    if t in ('list', 'tuple', 'set') and spec.get('item') is not None:
        item = spec['item']
        if t == 'list' and not spec.get('coerce') and rng.random() < .3:
            return ['lsub', [gen_value(item, rng, 'ok', ctx) for _ in range(rng.randint(0, 3))]]
        if spec.get('coerce') and item['t'] in ('int', 'float') and t != 'set' and rng.random() < .5:
            items = [gen_value({'t': 'int', 'min': math.ceil(item.get('min', -3)), 'max': math.floor(item.get('max', 3))}, rng, 'ok', ctx)
                     for _ in range(3)]
            if all(i[0] == 'i' for i in items):
                return ['arr', 'ndarray', 'i', [3], [i[1] for i in items]]
        if item['t'] in ('int', 'float', 'str', 'choice', 'color', 'bool', 'dt') and rng.random() < .5:
            items = [gen_value(item, rng, 'ok', ctx) for _ in range(rng.choice([12, 20, 40]))]
            if t == 'set':
                items = [i for i in items if i[0] not in ('l', 'd', 'set')]
            return [{'list': 'l', 'tuple': 't', 'set': 'set'}[t], items]
    if t == 'dict' and not spec.get('coerce'):
        v = gen_value(dict(spec), rng, 'ok', ctx)
        return ['od', v[1]] if v[0] == 'd' else None
    if t == 'arr' and spec['shape'] is None:
        return ['arr', 'ndarray', {'bool': 'b', 'int': 'i', 'float': 'f'}[spec['dtype'][0]], [2, 1, 3],
                [{'bool': 'True', 'int': '1099511627776', 'float': '2.5'}[spec['dtype'][0]]] * 6]
    return None


def gen_item(spec, rng, ctx):
    if spec is None:
        return enc(rng.choice([1, 2, 'i', 2.5]))
    v = gen_value(spec, rng, 'ok', ctx)
    return v


def gen_bad(spec, rng, ctx):
    t = spec['t']
    always = [['alien'], ['none']]
    if t == 'any':
        return enc(1)
    if t == 'int':
        c = [enc(1.5), enc('x'), enc([1]), enc(1j), enc(float('nan')), enc(float('inf'))]
        if 'min' in spec:
            c.append(enc(spec['min'] - 1))
        if 'max' in spec:
            c += [enc(spec['max'] + 1)] * 2
        if not spec.get('cast'):
            c.append(enc('5'))
        else:
            c.remove(enc(1.5))
        return rng.choice(c + always)
    if t == 'float':
        c = [enc('x'), enc([1.0]), enc(1j), enc(10 ** 400)]
        if 'min' in spec:
            c.append(enc(spec['min'] - 1))
        if 'max' in spec:
            c.append(enc(spec['max'] + 1))
        return rng.choice(c + always)
    if t == 'complex':
        return rng.choice([enc('x'), enc([1]), enc(10 ** 400)] + always)
    if t == 'bool':
        if spec.get('cast'):
            return gen_value(spec, rng, 'ok', ctx)
        return rng.choice([enc(1), enc(0), enc('true'), ['none']] + always)
    if t == 'str':
        c = [enc(1), enc(True), enc(['a'])]
        if 'regex' in spec:
            c += [enc('no!'), enc('a_b')]
        return rng.choice(c + always)
    if t == 'choice':
        c = [enc('nope'), enc(3), enc('')]
        if spec.get('case_sensitive'):
            c += [enc('A'), enc('ALPHA')]
        return rng.choice(c + always)
    if t == 'color':
        return rng.choice([enc('nocolor'), enc((1, 2)), enc((1, 2, 256)), enc([1, 2, 3.5]), enc('#12345'), enc(5)] + always)
    if t == 'dt':
        return rng.choice([enc('1995'), enc('1995-13-12T18:00:00Z'), enc(5), enc('garbage---')] + always)
    if t in ('list', 'tuple', 'set'):
        other = {'list': [enc((1,)), enc('ab'), enc(3)], 'tuple': [enc([1]), enc('ab'), enc(3)],
                 'set': [enc([1]), enc('ab'), enc(3)]}[t]
        if spec.get('item') is None:
            return rng.choice(other + always) if not spec.get('coerce') else gen_value(spec, rng, 'ok', ctx)
        good = gen_value(dict(spec, coerce=False), rng, 'ok', ctx)
        bad = gen_bad(spec['item'], rng, ctx)
        if t == 'set' and bad[0] in ('l', 'd', 'set'):
            bad = ['alien']
        items = list(good[1])
        items.insert(rng.randint(0, len(items)), bad)
        c = [[good[0], items]] * 3
        if not spec.get('coerce'):
            c += other + always
        return rng.choice(c)
    if t == 'dict':
        c = [enc([1]), enc('abc'), enc(5)]
        good = gen_value(dict(spec, coerce=False), rng, 'ok', ctx)
        if spec.get('value') is not None:
            c += [['d', good[1] + [[_key(spec, rng), gen_bad(spec['value'], rng, ctx)]]]] * 3
        if spec.get('key') is not None:
            bk = gen_bad(spec['key'], rng, ctx)
            if bk[0] not in ('l', 'd', 'set', 'alien'):
                c += [['d', good[1] + [[bk, gen_item(spec.get('value'), rng, ctx) if spec.get('value') else enc(1)]]]]
        return rng.choice(c)
    if t == 'union':
        return rng.choice(always + [enc([1, 2]), enc({'zz': 1})])
    if t == 'inst':
        c = [enc(5), enc('x'), enc([1])] + always
        if ctx.dicts:
            c += [['d', [[enc('nosuch'), enc(1)]]]]
        return rng.choice(c)
    if t == 'span':
        return rng.choice([enc('x'), enc([1]), enc({'b': 1}), enc({'a': 1, 'zz': 1}), enc({'a': 'x'}), enc(True)] + always)
    if t == 'jdict':
        return rng.choice([enc(5), enc('abc'), enc([1]), enc([[1, 2, 3]])] + always)
    if t == 'custom':
        return enc('bad')
    if t == 'arr':
        c = [enc('x'), enc(5), enc([[1, 2], [3]]), enc(['a']), ['l', [['alien']]], ['arr', 'ndarray', 'U', [1], ['q']],
             enc({'a': 1})]
        if spec['shape'] is not None:
            c += [['arr', 'ndarray', 'f', [1, 1, 1], ['0.5']], ['arr', 'ndarray', 'f', [], ['1.0']]]
        if 'bool' not in spec['dtype']:
            c += [['arr', 'ndarray', 'b', [2], ['True', 'False']]]
        if 'int' not in spec['dtype']:
            c += [enc([1, 2])]
        return rng.choice(c + always)
    if t in VECTORS:
        c = [enc('sideways'), enc([1]), enc([1, 2, 3, 4, 5]), enc(5), enc([['a', 'b']]), ['l', [['alien']] * 3],
             enc([1, [2], 3]), enc([[1, 2, 3], [4]]), enc([10 ** 400, 1, 1][:3 if '3' in t else 2])]
        if spec.get('length'):
            c += [enc([0] * (3 if '3' in t else 2))] * 2
            if t in ('vec3', 'vec2'):
                c += [enc('zero')]
        if '2' in t:
            c += [enc('up')]
            if t == 'vec2a':
                c += [enc(['z'])]
        return rng.choice(c + always)
    if t == 'url':
        return rng.choice([enc('nourl'), enc('/a/b'), enc('http:/x'), enc(5)] + always)
    raise ValueError(t)


def _key(spec, rng):
    if spec.get('key') is None:
        return enc('k9')
    return enc(7) if spec['key']['t'] == 'int' and 'max' not in spec['key'] else \
        (enc(spec['key'].get('min', 0)) if spec['key']['t'] == 'int' else enc('kk'))
