"""Contract of the file system, the network and zip files as nempy uses them."""
import _sa
import zipfile


class World:
    def __init__(self, concrete):
        self.n = 0
        self.concrete = concrete
        self.urls = []
        self.docs = None


class _Path:
    def __init__(self, *parts):
        self.s = ''
        for p in parts:
            p = p.s if isinstance(p, _Path) else p
            self.s = p if self.s == '' else self.s + '/' + p
        self.name = self.s

    def __truediv__(self, other):
        return _Path(self, other)

    def joinpath(self, *parts):
        return _Path(self, *parts)

    def mkdir(self, *a, **k):
        pass

    def exists(self):
        return exists(self)

    def is_file(self):
        return exists(self)

    def read_text(self, *a, **k):
        return text(self)

    def open(self, *a, **k):
        return _File(self)

    def __str__(self):
        return self.s

    def __fspath__(self):
        return self.s


def path(*parts):
    return _Path(*parts)


def as_str(p):
    return p.s if isinstance(p, _Path) else p


def exists(p):
    p = as_str(p)
    if world.docs is not None:
        return p.split('/')[-1] in world.docs
    if world.concrete:
        day = p.split('/')[-1][14:22]
        return 'NemSpdOutputs_' + day in ' '.join(world.urls)
    return _sa.apply('fexists', p, world.n)


def text(p):
    if world.docs is not None:
        return as_str(p).split('/')[-1]
    _sa.event('read', as_str(p), world.n)
    return _sa.apply('ftext', as_str(p), world.n)


class _File:
    def __init__(self, p):
        self.p = p

    def read(self):
        return text(self.p)

    def close(self):
        pass


def fopen(p, *a, **k):
    return _File(p)


class _Response:
    def __init__(self, url):
        self.content = _sa.apply('content', url, world.n)
        self.status_code = 200
        self.url = url
        self.ok = True


def get(url, *a, **k):
    if world.docs is None:
        world.n = world.n + 1
        _sa.event('get', url)
        world.urls.append(url)
    return _Response(url)


class _Zip:
    def __init__(self, content):
        self.content = content

    def extractall(self, path=None, *a, **k):
        if world.docs is None:
            _sa.event('extract', self.content, as_str(path))

    def close(self):
        pass


def zip_file(content, *a, **k):
    if not world.concrete and _sa.apply('badzip', content):
        raise zipfile.BadZipFile('File is not a zip file')
    return _Zip(content)


def bytes_io(x):
    return x


def sleep(n):
    _sa.event('sleep')


def parse(x):
    if world.docs is not None:
        return world.docs[x]
    return _sa.apply('parsed', x)
