"""C16: file and image properties hold usable files under I/O faults."""
import base64
import builtins
import hashlib
import io

from .. import core, seams
from ..coreworld import Skip
from ..sim import Injector, attempt, deep, gen_faults, outcome, require, wchoice

MODES = ['r', 'r+', 'rb', 'rb+', 'w', 'w+', 'wb', 'wb+', 'a', 'a+', 'ab', 'ab+']
READING = ('r', 'r+', 'rb', 'rb+')
NAMES = ['/sim/a.png', '/sim/b.png', '/sim/big.png', '/sim/cut.png', '/sim/text', '/sim/empty', '/sim/dir', '/sim/none', '/sim/new']
PREAMBLE = 'data:image/png;base64,'
SIGNATURE = b'\x89PNG\r\n\x1a\n'
_pngs = {}


def image(n):
    """A pypng image; 2 is bigger than most buffers and 3 than any"""
    import png
    if n >= 2:
        line, out = b'row', []
        for _ in range({2: 240, 3: 900}[n]):
            row = b''
            while len(row) < {2: 320, 3: 1280}[n]:
                line = hashlib.sha512(line).digest()
                row += line
            out.append(bytearray(row))
        return png.from_array(out, 'L;8')
    return png.from_array([[(x * 7 + y * 3 + n) % 2 for x in range(4 + n)] for y in range(3 + n)], 'L;1')


def png_bytes(n):
    if n not in _pngs:
        out = io.BytesIO()
        image(n).write(out)
        _pngs[n] = out.getvalue()
    return _pngs[n]


class SimFile(object):
    """An open file of the simulated file system"""

    def __init__(self, fs, name, mode, data):
        self.fs, self.name, self.mode = fs, name, mode
        self.data = data
        self.pos = len(data) if mode.startswith('a') else 0
        self.closed = False

    def use(self, what):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self.fs.inj.cross(what)

    def read(self, n=-1):
        self.use('read')
        end = len(self.data) if n is None or n < 0 else self.pos + self.fs.short(n)
        out = bytes(self.data[self.pos:end])
        self.pos = min(max(end, self.pos), len(self.data))
        return out if 'b' in self.mode else out.decode('latin-1')

    def seek(self, pos, whence=0):
        self.use('seek')
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else len(self.data) + pos
        return self.pos

    def tell(self):
        return self.pos

    def write(self, data):
        self.use('write')
        if isinstance(data, str):
            data = data.encode('latin-1')
        self.data[self.pos:self.pos + len(data)] = data
        self.pos += len(data)
        return len(data)

    def flush(self):
        pass

    def readable(self):
        return True

    seekable = writable = readable

    def close(self):
        if not self.closed:
            self.fs.inj.cross('close')
            self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


class SimFS(object):
    def __init__(self, inj, st, vast=False):
        self.inj, self.st = inj, st
        self.files = {'/sim/a.png': bytearray(png_bytes(0)), '/sim/b.png': bytearray(png_bytes(1)),
                      '/sim/big.png': bytearray(png_bytes(2)),
                      '/sim/cut.png': bytearray(png_bytes(0)[:20]), '/sim/text': bytearray(b'hello'),
                      '/sim/empty': bytearray()}
        if vast:
            self.files['/sim/vast.png'] = bytearray(png_bytes(3))
        self.opened = []
        self.shorts = False
        self.n = 0

    def short(self, n):
        """A sized read may return less"""
        if self.shorts and n > 1:
            self.st.fault('short read')
            return n // 2
        return n

    def open(self, name, mode='r', *args, **kwargs):
        if not (isinstance(name, str) and name.startswith('/sim/')):
            return self.real(name, mode, *args, **kwargs)
        self.n += 1
        try:
            self.inj.cross('open')
        except OSError:
            raise [PermissionError, FileNotFoundError, OSError, IsADirectoryError][self.n % 4]('injected')
        if name == '/sim/dir':
            raise IsADirectoryError(21, 'Is a directory', name)
        base = mode.replace('b', '')
        if base in ('r', 'r+') and name not in self.files:
            raise FileNotFoundError(2, 'No such file', name)
        if base in ('w', 'w+') or name not in self.files:
            self.files[name] = bytearray()
        f = SimFile(self, name, mode, self.files[name])
        self.opened.append(f)
        return f

    def __enter__(self):
        import codecs
        self.real = builtins.open
        self.saved = (builtins.open, io.open, codecs.open)
        builtins.open = io.open = codecs.open = self.open
        return self

    def __exit__(self, *_):
        import codecs
        builtins.open, io.open, codecs.open = self.saved


class Junk(object):
    """Something file-like, up to a point"""

    def __init__(self, kind):
        self.kind = kind
        self.closed = kind == 'closed'
        if kind == 'mode':
            self.mode = 'x'
        if kind != 'noread':
            self.read = lambda n=-1: b''
        if kind != 'noseek':
            self.seek = lambda *a: 0

    def close(self):
        self.closed = True


class World(object):
    def __init__(self, plan, st):
        self.p = p = seams.load()
        self.st = st
        self.inj = Injector(st)
        self.fs = SimFS(self.inj, st, 'vast.png' in str(plan['ops']))
        self.objs, self.handles = {}, {}
        self.content = {}       # id(image stream) -> bytes
        self.closable = set()   # ids of files which something was allowed to close
        self.keep = []
        props = [[n, dict(s)] for n, s in plan['props']]
        with self.fs:
            try:
                self.cls = self.make(plan, props)
            except ValueError:
                # (a default which cannot be opened may be refused with the class)
                for _, s in props:
                    s.pop('default', None)
                self.cls = self.make(plan, props)
        self.specs = dict(props)

    def make(self, plan, props):
        p, w = self.p, self
        ns = {'_REGISTRY': {}}
        for n, s in props:
            kw = {'required': False}
            if 'default' in s:
                kw['default'] = s['default']
            if 'valid' in s:
                kw['valid_modes'] = list(s['valid'])
            if s['t'] == 'file':
                ns[n] = p.File('f', s['mode'], **kw)
            elif s['t'] == 'img':
                if s.get('filename'):
                    kw['filename'] = s['filename']
                ns[n] = p.ImagePNG('i', **kw)
            else:
                ns[n] = p.List('l', p.ImagePNG('i'), observe_mutations=s.get('observe', False), required=False)

        def seen(self, change):
            w.inj.cross('an observer')

        def check(self, change):
            w.inj.cross('a validator')
        if plan.get('listen'):
            ns['_seen'] = p.observer(p.everything)(seen)
            ns['_check'] = p.validator(p.everything)(check)
        return type(p.HasProperties)(str('Holder'), (p.HasProperties,), ns)

    def obj(self, l):
        if l not in self.objs:
            raise Skip()
        return self.objs[l]

    def value(self, v):
        """A fresh or known value, and what it is"""
        k = v[0]
        if k == 'name':
            return v[1]
        if k == 'handle':
            if v[1] not in self.handles:
                raise Skip()
            return self.handles[v[1]]
        if k == 'held':
            o = self.obj(v[1])
            x = o._get(v[2]) if v[2] in self.specs else None
            if x is None or isinstance(x, list):
                raise Skip()
            return x
        if k == 'list':
            return [self.value(x) for x in v[1]]
        if k == 'bytes':
            b = io.BytesIO(self.data(v[1]))
            b.seek(v[2])
            return b
        if k == 'image':
            return image(v[1])
        if k == 'junk':
            return Junk(v[1]) if isinstance(v[1], str) else deep(v[1])
        raise ValueError(k)

    def data(self, n):
        return [png_bytes(0), png_bytes(1), png_bytes(2), b'hello', b'', SIGNATURE, png_bytes(0)[:4]][n] if n < 7 else png_bytes(3)

    # what a property may hold -----------------------------------------------------

    def modes(self, s):
        if 'valid' in s:
            return list(s['valid'])
        if s['t'] == 'file':
            return [s['mode']] if s['mode'] is not None else None
        return ['rb', 'rb+', 'wb+', 'ab+']

    def fits(self, s, v):
        """Is v acceptable as a file of this property (without looking at faults)"""
        if not all(hasattr(v, a) for a in ('read', 'seek')):
            return False
        if getattr(v, 'closed', False):
            return False
        m = self.modes(s)
        return not hasattr(v, 'mode') or m is None or v.mode in m

    def snapshot(self):
        out = {}
        for l, o in self.objs.items():
            for n in self.specs:
                v = o._get(n)
                out[l, n] = v if not isinstance(v, list) else list(v)
        return out

    def check_held(self, when):
        for l, o in sorted(self.objs.items()):
            for n, s in sorted(self.specs.items()):
                v = o._get(n)
                if v is None:
                    continue
                for x in v if s['t'] == 'imgs' else [v]:
                    self.check_one(l, n, s, x, when)

    def check_one(self, l, n, s, x, when):
        require(all(hasattr(x, a) for a in ('read', 'seek')), 'not-a-file', 'after %s %s.%s holds %r', when, l, n, x)
        shut = getattr(x, 'closed', False)
        require(not shut or id(x) in self.closable, 'closed', 'after %s the file held by %s.%s is closed', when, l, n)
        if s['t'] == 'file':
            m = self.modes(s)
            require(m is None or not hasattr(x, 'mode') or x.mode in m, 'wrong-mode',
                    'after %s %s.%s holds a file of mode %s', when, l, n, getattr(x, 'mode', None))
            return
        require(id(x) in self.content, 'unknown-image', 'after %s %s.%s holds a stream never assigned', when, l, n)
        if not shut:
            require(x.getvalue() == self.content[id(x)], 'image-content', 'after %s the image held by %s.%s has changed',
                    when, l, n)


def brief(op):
    return ' '.join(str(op[k]) for k in ('a', 'o', 'p', 'v', 'h') if k in op)[:200]


class Files(core.Scenario):
    name = 'files'
    quick = 50000
    thorough = 2000000
    batch = 100

    def gen(self, rng, tier):
        props = []
        for i in range(rng.randint(1, 4)):
            t = wchoice(rng, dict(file=5, img=5, imgs=2))
            s = {'t': t}
            if t == 'file':
                s['mode'] = rng.choice([None, 'r', 'rb', 'rb', 'r+', 'w', 'wb', 'a', 'rb+'])
                if rng.random() < .4:
                    s['valid'] = sorted(set(([s['mode']] if s['mode'] else []) + rng.sample(MODES, rng.randint(1, 4)))) \
                        if s['mode'] else None
                    if not s['valid']:
                        del s['valid']
                if s['mode'] in READING and rng.random() < .15:
                    s['default'] = rng.choice(['/sim/text', '/sim/none', '/sim/a.png'])
            elif t == 'img':
                if rng.random() < .3:
                    s['filename'] = 'x.png'
                if rng.random() < .15:
                    s['default'] = rng.choice(['/sim/a.png', '/sim/none'])
            else:
                s['observe'] = rng.random() < .5
            props.append(['p%d' % i, s])
        ops, objs, handles, docs = [], ['o0'], [], []
        names = [n for n, _ in props]
        spec = dict((n, s) for n, s in props)
        ops.append({'i': 0, 'a': 'new', 'faults': [], 'kwargs': []})
        for i in range(1, rng.randint(5, 16) * (3 if tier == 'thorough' and rng.random() < .3 else 1)):
            kinds = dict(open=3, set=9, delete=3, reset=.7, new=1, validate=1, seek=2, close=.5, save=2, equal=.5,
                         shorts=.4, copy=1)
            if docs:
                kinds['load'] = 3
            k = wchoice(rng, kinds)
            op = {'i': i, 'a': k, 'faults': gen_faults(rng, .35, 7)}
            for f in op['faults']:
                if rng.random() < .5:
                    f['exc'] = 'OSError'
            if k == 'open':
                op.update(name=rng.choice(NAMES), mode=rng.choice(['rb', 'rb', 'rb', 'r', 'wb', 'r+', 'rb+', 'ab+']),
                          faults=[])
                handles.append('h%d' % i)
            elif k == 'new':
                op['kwargs'] = [[n, self.value(rng, spec[n], objs, handles, names)] for n in names if rng.random() < .4]
                objs.append('o%d' % i)
            elif k == 'shorts':
                op['on'] = rng.random() < .6
            else:
                op['o'] = rng.choice(objs[-3:])
                if k in ('set', 'delete', 'reset', 'seek', 'close'):
                    op['p'] = rng.choice(names)
                if k == 'set':
                    op['v'] = self.value(rng, spec[op['p']], objs, handles, names)
                if k == 'seek':
                    op['to'] = rng.choice([0, 1, 5, 8, 1000])
                if k == 'equal':
                    op['o2'] = rng.choice(objs[-3:])
                if k == 'save':
                    docs.append('d%d' % i)
                if k == 'load':
                    op['d'] = rng.choice(docs[-3:])
                    op['damage'] = rng.choice([None] * 6 + ['preamble', 'jpg', 'cut', 'junk', 'notpng', 'number'])
                    objs.append('o%d' % i)
                if k == 'copy':
                    objs.append('o%d' % i)
            ops.append(op)
        return {'props': props, 'ops': ops, 'listen': rng.random() < .7}

    def value(self, rng, s, objs, handles, names, deep_=True):
        if s['t'] == 'imgs' and deep_ and rng.random() < .9:
            return ['list', [self.value(rng, s, objs, handles, names, False) for _ in range(rng.choice([0, 1, 2, 2, 3]))]]
        r = rng.random()
        if r < .004:
            return rng.choice([['name', '/sim/vast.png'], ['bytes', 7, 1]])
        if r < .38:
            return ['name', rng.choice(NAMES[:3] if s['t'] != 'file' and rng.random() < .6 else NAMES)]
        if r < .58 and handles:
            return ['handle', rng.choice(handles[-4:])]
        if r < .68:
            return ['held', rng.choice(objs[-3:]), rng.choice(names)]
        if r < .85:
            return ['bytes', rng.choice([0, 1, 2, 2, 3, 4, 5, 6]), rng.choice([0, 0, 0, 3, 8, 1000])]
        if r < .93 and s['t'] != 'file':
            return ['image', rng.randint(0, 2)]
        return ['junk', rng.choice(['noread', 'noseek', 'closed', 'mode', 'ok', 5, {}, False, ['x']])]

    # -- run ----------------------------------------------------------------------------

    def run(self, plan, st):
        w = World(plan, st)
        w.docs = {}
        with w.fs:
            for op in plan['ops']:
                w.inj.disarm()
                try:
                    getattr(self, 'do_' + op['a'])(w, op, st)
                    st.log(op['i'], op['a'], 'ok')
                except Skip:
                    st.log(op['i'], op['a'], 'skip')
                finally:
                    w.inj.disarm()
                w.check_held(brief(op))

    def faulty(self, w, op, st, call):
        w.inj.arm(op['i'], op['faults'])
        w.mark = len(w.fs.opened)
        status, r = attempt(call)
        w.fired = fired = w.inj.fired()
        w.inj.disarm()
        if fired or w.fs.shorts:
            st.nontrivial = True
        st.log(op['a'], status, outcome(r) if status == 'err' else None)
        return status, r, fired

    def do_shorts(self, w, op, st):
        w.fs.shorts = op['on']

    def do_open(self, w, op, st):
        status, r = attempt(lambda: w.fs.open(op['name'], op['mode']))
        if status == 'ok':
            w.handles['h%d' % op['i']] = r

    def adopt(self, w, o):
        """Note what a new object's images contain (already judged)"""
        w.keep.append(o)

    def do_new(self, w, op, st):
        kw, before = {}, w.snapshot()
        for n, v in op['kwargs']:
            if n in w.specs:
                kw[n] = w.value(v)
        named = [set(x for x in (v if isinstance(v, list) else [v]) if isinstance(x, str)) for v in kw.values()]
        if sum(len(x) for x in named) != len(set().union(*named)):
            raise Skip()    # (opening a file may create or truncate it)
        for n, v in kw.items():
            self.may_close(w, w.specs[n], v)
        want = dict((n, self.expected(w, w.specs[n], v)) for n, v in kw.items())
        status, r, fired = self.faulty(w, op, st, lambda: w.cls(**kw))
        self.unchanged(w, before, op)
        self.open_failures(w, op, status, r, fired)
        if status == 'err':
            require(isinstance(r, ValueError) or fired, 'bad-error', 'construction with %s raised %r', op['kwargs'], r)
            return
        w.objs['o%d' % op['i']] = r
        for n, s in w.specs.items():
            v = r._get(n)
            if n in kw:
                self.accepted(w, 'o%d' % op['i'], n, s, kw[n], want[n], v, op)
            elif s.get('default') and v is not None and s['t'] == 'img':
                self.default(w, v)
            else:
                require(v is None or 'default' in s, 'from-nowhere', 'a new object holds %r as %s', v, n)

    def content(self, w, stream, data):
        w.keep.append(stream)
        got = stream.getvalue()
        require(got == data, 'incomplete-copy', 'the image holds %d bytes of a source of %d', len(got), len(data))
        w.content[id(stream)] = got

    def default(self, w, v):
        # (opened at some point of the construction, which may truncate the file)
        data = v.getvalue()
        require(data in [png_bytes(i) for i in range(3 if len(data) < 10 ** 6 else 4)], 'incomplete-copy', 'an image by default is %r', data[:40])
        self.content(w, v, data)

    def may_close(self, w, s, v):
        """The source of an image is closed once it has been read"""
        if isinstance(v, list):
            for x in v:
                self.may_close(w, s, x)
        elif s['t'] != 'file' and not (isinstance(v, io.BytesIO) and id(v) in w.content):
            w.closable.add(id(v))
            w.keep.append(v)

    def expected(self, w, s, v):
        """None if it must be refused, else what would be held"""
        import png
        if s['t'] == 'imgs':
            if not isinstance(v, list):
                return None
            seen, out = set(), []
            for x in v:
                one = self.expected(w, {'t': 'img'}, x)
                if one is None or id(x) in seen and not isinstance(x, str):
                    # (the first use closes it, unless it is an image already held)
                    if not (one is not None and one[0] == 'same'):
                        return None
                seen.add(id(x))
                out.append(one)
            return ['list', out]
        if isinstance(v, str):
            mode = s.get('mode', 'rb') if s['t'] == 'file' else 'rb'
            if mode is None:
                return None
            base = mode.replace('b', '')
            if v == '/sim/dir' or base in ('r', 'r+') and v not in w.fs.files:
                return None
            if s['t'] == 'file':
                return ['open', v, mode]
            data = bytes(w.fs.files[v])
            return ['copy', data] if data.startswith(SIGNATURE) else None
        if s['t'] == 'img' and isinstance(v, png.Image):
            return ['copy', None]
        if s['t'] == 'img' and id(v) in w.content and isinstance(v, io.BytesIO):
            return ['same', v] if not v.closed else None
        if not w.fits(s, v):
            return None
        if s['t'] == 'file':
            return ['same', v]
        if isinstance(v, Junk):
            return None
        data = bytes(v.data) if isinstance(v, SimFile) else v.getvalue()
        at = v.tell()
        if not data.startswith(SIGNATURE):
            # (a copy may still be taken if the signature is where reading goes on)
            return None if SIGNATURE not in data else ['maybe', data]
        return ['copy', data] if at == 0 else ['maybe', data]

    def accepted(self, w, l, n, s, given, want, v, op):
        require(want is not None, 'accepted-unusable', '%s.%s accepted %r and holds %r', l, n, given, v)
        if s['t'] == 'imgs':
            require(isinstance(v, list) and len(v) == len(want[1]), 'wrong-list', '%s.%s holds %r', l, n, v)
            for x, g, k in zip(v, given, want[1]):
                self.accepted(w, l, n, {'t': 'img'}, g, k, x, op)
            return
        if want[0] == 'same':
            require(v is want[1], 'other-file', '%s.%s was given %r and holds %r', l, n, given, v)
            return
        if want[0] == 'open':
            require(isinstance(v, SimFile) and (v.name, v.mode) == tuple(want[1:]), 'other-file',
                    '%s.%s was given %r and holds %r', l, n, given, v)
            return
        require(isinstance(v, io.BytesIO) and v is not given, 'not-a-copy', '%s.%s holds %r', l, n, v)
        data = want[1]
        if data is None:
            data = v.getvalue()
            require(data in [png_bytes(i) for i in range(3 if len(data) < 10 ** 6 else 4)], 'incomplete-copy', 'an image was written as %r', data[:40])
        self.content(w, v, data)
        for f in w.fs.opened[w.mark:] if isinstance(given, str) and op['a'] == 'set' and not w.fired else []:
            require(f.closed, 'left-open', 'the file %s was opened as the source of an image and left open', f.name)
        require(v.tell() == 0, 'not-at-start', 'a newly held image is positioned at %s', v.tell())

    def unchanged(self, w, before, op, but=None):
        now = w.snapshot()
        for k, v in before.items():
            if k == but:
                continue
            same = now[k] is v or isinstance(v, list) and isinstance(now[k], list) and len(v) == len(now[k]) and all(
                a is b for a, b in zip(v, now[k]))
            require(same, 'replaced', '%s changed %s.%s from %r to %r', brief(op), k[0], k[1], v, now[k])

    def open_failures(self, w, op, status, err, fired):
        """Failing to open is a ValueError"""
        if fired and len(fired) == 1 and fired[0]._site == 'open' and isinstance(fired[0], OSError):
            require(status == 'err' and isinstance(err, ValueError), 'open-failure', 'a failing open gave %r', err)

    def do_set(self, w, op, st):
        o, s = w.obj(op['o']), w.specs.get(op['p'])
        if s is None:
            raise Skip()
        v = w.value(op['v'])
        before = w.snapshot()
        here = (op['o'], op['p'])
        self.may_close(w, s, v)
        want = self.expected(w, s, v)
        status, r, fired = self.faulty(w, op, st, lambda: setattr(o, op['p'], v))
        self.unchanged(w, before, op, here)
        self.open_failures(w, op, status, r, fired)
        now = o._get(op['p'])
        if status == 'err':
            late = any(e._site == 'an observer' for e in fired)
            if late and now is not before[here]:
                self.accepted(w, op['o'], op['p'], s, v, want, now, op)
                return
            self.unchanged(w, before, op)
            require(fired or want is None or want[0] == 'maybe' or has_maybe(want) or w.fs.shorts, 'refused',
                    'assigning %s raised %r', op['v'], r)
            if not fired and isinstance(v, str):
                require(isinstance(r, ValueError), 'open-failure', 'assigning the file name %s raised %r', v, r)
            st.probe('refused')
            return
        st.probe('assigned')
        self.accepted(w, op['o'], op['p'], s, v, want, now, op)

    def do_delete(self, w, op, st, reset=False):
        o, s = w.obj(op['o']), w.specs.get(op['p'])
        if s is None:
            raise Skip()
        before = w.snapshot()
        here = (op['o'], op['p'])
        old = before[here]
        if old is not None and s['t'] != 'imgs':
            was = getattr(old, 'closed', False)
        status, r, fired = self.faulty(w, op, st, lambda: delattr(o, op['p']))
        self.unchanged(w, before, op, here)
        now = o._get(op['p'])
        if status == 'err':
            require(fired, 'refused', 'deleting raised %r', r)
        else:
            require(now is None, 'not-deleted', 'after a deletion %s.%s is %r', op['o'], op['p'], now)
        if old is None or s['t'] == 'imgs':
            return
        if now is None:
            w.closable.add(id(old))
            if not any(e._site == 'close' for e in fired):
                require(old.closed, 'left-open', 'deleting %s.%s left its file open', op['o'], op['p'])
            st.probe('deleted')
        else:
            self.unchanged(w, before, op)
            require(old.closed == was, 'closed', 'a failed deletion closed the file')
            st.probe('deletion refused')

    def do_reset(self, w, op, st):
        o, s = w.obj(op['o']), w.specs.get(op['p'])
        if s is None or 'default' in s or s['t'] == 'imgs':
            raise Skip()
        before = w.snapshot()
        old = before[op['o'], op['p']]
        status, r, fired = self.faulty(w, op, st, lambda: o._reset(op['p']))
        self.unchanged(w, before, op, (op['o'], op['p']))
        if o._get(op['p']) is None and old is not None:
            w.closable.add(id(old))
        elif status == 'err':
            self.unchanged(w, before, op)

    def do_validate(self, w, op, st):
        o = w.obj(op['o'])
        before = w.snapshot()
        status, r, fired = self.faulty(w, op, st, o.validate)
        self.unchanged(w, before, op)
        shut = any(getattr(x, 'closed', False) for n in w.specs for v in [o._get(n)] if v is not None
                   for x in (v if isinstance(v, list) else [v]))
        if not fired:
            require((status == 'ok') == (not shut), 'validate', 'validate %s although the files held are %s',
                    'succeeded' if status == 'ok' else 'raised %r' % r, 'closed' if shut else 'open')

    def do_seek(self, w, op, st):
        v = w.obj(op['o'])._get(op['p']) if op['p'] in w.specs else None
        if v is None or isinstance(v, list) or getattr(v, 'closed', True):
            raise Skip()
        attempt(lambda: v.seek(op['to']))

    def do_close(self, w, op, st):
        v = w.obj(op['o'])._get(op['p']) if op['p'] in w.specs else None
        if v is None or isinstance(v, list):
            raise Skip()
        w.closable.add(id(v))
        v.close()

    def do_equal(self, w, op, st):
        a, b = w.obj(op['o']), w.obj(op['o2'])
        before = w.snapshot()
        self.faulty(w, op, st, lambda: w.p.equal(a, b))
        self.unchanged(w, before, op)

    def images_only(self, w, o):
        """{prop: expected document value}; Skip with files or closed images"""
        out = {}
        for n, s in w.specs.items():
            v = o._get(n)
            if v is None:
                continue
            if s['t'] == 'file' or any(x.closed for x in (v if isinstance(v, list) else [v])):
                raise Skip()
            enc = [PREAMBLE + base64.b64encode(w.content[id(x)]).decode() for x in (v if isinstance(v, list) else [v])]
            out[n] = enc if isinstance(v, list) else enc[0]
        return out

    def do_save(self, w, op, st):
        o = w.obj(op['o'])
        want = self.images_only(w, o)
        before = w.snapshot()
        status, r, fired = self.faulty(w, op, st, lambda: o.serialize(include_class=False))
        self.unchanged(w, before, op)
        require(status == 'ok', 'cannot-save', 'serialize raised %r', r)
        require(r == want, 'wrong-document', 'serialize left out part of an image: %s bytes of %s',
                dict((k, len(str(v))) for k, v in r.items()), dict((k, len(str(v))) for k, v in want.items()))
        w.docs['d%d' % op['i']] = r
        if want:
            st.probe('image serialized')

    def do_load(self, w, op, st):
        doc = w.docs.get(op['d'])
        if doc is None:
            raise Skip()
        doc = deep(doc)
        d = op['damage']
        if d:
            names = [n for n in doc if isinstance(doc[n], str)]
            if not names:
                raise Skip()
            n = names[op['i'] % len(names)]
            doc[n] = {'preamble': doc[n][5:], 'jpg': doc[n].replace('png', 'jpg', 1), 'cut': doc[n][:len(PREAMBLE) + 8], 'junk': PREAMBLE + '!!!',
                      'notpng': PREAMBLE + base64.b64encode(b'hello').decode(), 'number': 5}[d]
            st.fault('damaged image: ' + d)
            st.nontrivial = True
        keep = deep(doc)
        before = w.snapshot()
        status, r, fired = self.faulty(w, op, st, lambda: w.cls.deserialize(doc))
        self.unchanged(w, before, op)
        require(doc == keep, 'document-changed', 'deserialize changed its document')
        if status == 'err':
            defaults = any('default' in s for s in w.specs.values())
            require(d or fired or defaults, 'cannot-load', 'the document of an image raised %r', r)
            return
        require(not d, 'loaded-junk', 'a damaged image (%s) was loaded', d)
        self.judge_loaded(w, r, doc)
        w.objs['o%d' % op['i']] = r
        st.probe('image loaded')

    def judge_loaded(self, w, r, doc):
        for n, s in w.specs.items():
            v = r._get(n)
            if n in doc:
                require(v is not None, 'lost', 'the loaded object has no %s', n)
                if isinstance(v, list):
                    require(len(v) == len(doc[n]), 'lost', 'the loaded object has %s images of %s', len(v), len(doc[n]))
                for x, t in zip(v, doc[n]) if isinstance(v, list) else [(v, doc[n])]:
                    self.content(w, x, base64.b64decode(t[len(PREAMBLE):]))
            elif v is not None and s['t'] == 'img':
                self.default(w, v)

    def do_copy(self, w, op, st):
        o = w.obj(op['o'])
        doc = self.images_only(w, o)
        before = w.snapshot()
        status, r, fired = self.faulty(w, op, st, lambda: w.p.copy(o))
        self.unchanged(w, before, op)
        if status == 'err':
            require(fired or any('default' in s for s in w.specs.values()), 'cannot-copy', 'copy raised %r', r)
            return
        for n in doc:
            for x in r._get(n) if isinstance(r._get(n), list) else [r._get(n)]:
                require(id(x) not in w.content or x.closed, 'shared', 'a copy shares its image with another object')
        self.judge_loaded(w, r, doc)
        w.objs['o%d' % op['i']] = r


def has_maybe(want):
    return want[0] == 'list' and any(x[0] == 'maybe' for x in want[1])


CHECK = core.Check(
    'C16', [Files()],
    real=['properties.basic.File, properties.images.ImagePNG, List of ImagePNG; png (pypng); io.BytesIO; base64'],
    stub=['file system: simulated behind builtins.open / io.open; every open, read, seek and close may fail, sized reads '
          'may be short', 'observers and validators: scripted, with injected exceptions'],
    rule='a run counts when an injected exception was raised, reads were short or a damaged image was loaded; '
         'histories are distinct by sha1 of the event log')
