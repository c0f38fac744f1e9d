"""A scratch directory, observed and failing file operations, and packages for
the document harnesses.

All file operations of the code under test are real ones inside a scratch
directory; those that could leave it are refused.  While an Observer is active
every operation is counted, `on_op` sees the state of the directory between any
two of them (what a process that stops there leaves behind), and the operation
whose number equals the (symbolic) fault position fails."""
import errno
import io
import os
import shutil
import tempfile
import zipfile
from io import BytesIO
from symex import fsops

_real_open = fsops.real_open
_real = fsops.real
BASE = '/dev/shm' if os.path.isdir('/dev/shm') else None


class Escape(Exception):
    """the code under test touched something outside the scratch directory"""


class Scratch(object):
    def __init__(self, ctx, relative=False):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='ezodf-verif-', dir=BASE))
        self.cwd = os.getcwd()
        ctx.cleanup(self.remove)
        os.chdir(self.dir)
        self.relative = relative

    def remove(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, True)

    def name(self, base):
        """the name handed to the code under test"""
        return base if self.relative else os.path.join(self.dir, base)

    def write(self, base, data):
        with _real_open(os.path.join(self.dir, base), 'wb') as f:
            f.write(data)

    def read(self, base):
        try:
            with _real_open(os.path.join(self.dir, base), 'rb') as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError):
            return None

    def unlink(self, base):
        try:
            _real['unlink'](os.path.join(self.dir, base))
        except FileNotFoundError:
            pass

    def list(self):
        return sorted(os.listdir(self.dir))


class Observer(object):
    """Used as a context manager around the calls under test."""

    def __init__(self, ctx, scratch, fault=None, lazy=False, on_op=None):
        self.ctx, self.scratch, self.fault, self.lazy, self.on_op = ctx, scratch, fault, lazy, on_op
        self.n = 0
        self.hit = None
        self.active = False
        self.busy = False
        self.log = []
        ctx.cleanup(self.stop)

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return True
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p == self.scratch.dir or p.startswith(self.scratch.dir + os.sep)

    def tick(self, kind, *paths):
        for p in paths:
            if not isinstance(p, int) and not self.inside(p):
                raise Escape('%s %r' % (kind, p))
        self.n += 1
        self.log.append(kind)
        self.state()
        if self.fault is not None and self.ctx.fork(self.ctx.eq(self.fault, self.n)):
            self.hit = kind
            raise OSError(errno.ENOSPC if kind in ('write', 'sendfile') else errno.EIO, 'injected fault in %s' % kind)

    def state(self):
        if self.on_op is not None:
            self.busy = True
            try:
                self.on_op()
            finally:
                self.busy = False

    def op(self, name, real, a, k):
        if self.busy:
            return real(*a, **k)
        if name == 'open':
            flags = a[1] if len(a) > 1 else k.get('flags', 0)
            if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                return real(*a, **k)
            self.tick('create', a[0])
        elif name in ('write', 'sendfile', 'copy_file_range', 'ftruncate'):
            if name == 'write' and a[0] in (1, 2):
                return real(*a, **k)
            self.tick('sendfile' if name == 'copy_file_range' else name)
        else:
            self.tick(name, *[p for p in a if isinstance(p, (str, bytes)) or hasattr(p, '__fspath__')])
        return real(*a, **k)

    def open(self, file, mode, a, k):
        if self.busy:
            return _real_open(file, mode, *a, **k)
        writing = any(c in mode for c in 'wax+')
        if not writing:
            if isinstance(file, int) or not self.inside(file):
                return _real_open(file, mode, *a, **k)
            self.tick('open', file)
            return _real_open(file, mode, *a, **k)
        self.tick('create', file)
        return Proxy(_real_open(file, mode, *a, **k), self)

    def start(self):
        self.active = True
        fsops.current[0] = self
        return self

    __enter__ = start

    def stop(self, *a):
        self.active = False
        fsops.current[0] = None

    __exit__ = stop


class Proxy(object):
    """A file opened for writing."""

    def __init__(self, f, obs):
        self._f, self._obs = f, obs

    def _tick(self, kind):
        if self._obs.active and not self._obs.busy:
            self._obs.tick(kind)

    def write(self, data):
        try:
            self._tick('write')
        except OSError:
            self._f.write(data[:len(data) // 2])
            raise
        n = self._f.write(data)
        if not self._obs.lazy:
            self._f.flush()
        return n

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def truncate(self, *a):
        self._tick('truncate')
        return self._f.truncate(*a)

    def close(self):
        if not self._f.closed:
            try:
                self._tick('close')
            finally:
                self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)


class FaultyStream(BytesIO):
    """A stream whose writes are counted (and fail) like those of files."""

    def __init__(self, obs, data=b''):
        self.obs = obs
        BytesIO.__init__(self)
        BytesIO.write(self, data)
        self.seek(0)

    def write(self, data):
        if self.obs is not None and self.obs.active and not self.obs.busy:
            self.obs.tick('write')
        return BytesIO.write(self, data)


# ------------------------------------------------------------------- packages
OFFICE = 'urn:oasis:names:tc:opendocument:xmlns:office:1.0'
NS = ('xmlns:office="%s" xmlns:text="urn:oasis:names:tc:opendocument:xmlns:text:1.0" '
      'xmlns:table="urn:oasis:names:tc:opendocument:xmlns:table:1.0" '
      'xmlns:style="urn:oasis:names:tc:opendocument:xmlns:style:1.0" '
      'xmlns:draw="urn:oasis:names:tc:opendocument:xmlns:drawing:1.0" '
      'xmlns:meta="urn:oasis:names:tc:opendocument:xmlns:meta:1.0" '
      'xmlns:dc="http://purl.org/dc/elements/1.1/" '
      'xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"' % OFFICE)
PREFIX = 'application/vnd.oasis.opendocument.'

BODY = {
    'text': '<office:text><text:p>first</text:p><text:p>second</text:p></office:text>',
    'spreadsheet': '<office:spreadsheet><table:table table:name="A"><table:table-column/><table:table-row><table:table-cell/></table:table-row></table:table></office:spreadsheet>',
    'presentation': '<office:presentation><draw:page draw:name="one"/></office:presentation>',
    'graphics': '<office:drawing><draw:page draw:name="one"/></office:drawing>',
    'chart': '<office:chart/>',
    'image': '<office:image/>',
}


def kind_of(mimetype):
    k = mimetype[len(PREFIX):].split('-')[0]
    return k


def xmlparts(mimetype):
    body = BODY[kind_of(mimetype)]
    content = '<office:document-content %s><office:body>%s</office:body></office:document-content>' % (NS, body)
    styles = ('<office:document-styles %s><office:styles><style:style style:name="S" style:family="paragraph"/></office:styles>'
              '</office:document-styles>' % NS)
    meta = ('<office:document-meta %s><office:meta><dc:title>a title</dc:title><meta:keyword>kw</meta:keyword>'
            '<meta:user-defined meta:name="tag">value</meta:user-defined></office:meta></office:document-meta>' % NS)
    return {'content.xml': content.encode(), 'styles.xml': styles.encode(), 'meta.xml': meta.encode()}


OTHERS = [('settings.xml', b'<settings/>', 'text/xml', zipfile.ZIP_DEFLATED),
          ('Pictures/p1.png', bytes(range(256)) * 4, 'image/png', zipfile.ZIP_STORED),
          ('Configurations2/', b'', 'application/vnd.sun.xml.ui.configuration', zipfile.ZIP_STORED),
          ('Object 1/content.xml', b'<object/>', 'text/xml', zipfile.ZIP_DEFLATED),
          ('Th\xfcmbnails/content.xml.png', b'\x00\x01\x02' * 50, '', zipfile.ZIP_DEFLATED)]


def package(mimetype, parts=None, others=OTHERS, drop=(), mimemember=True, manifest=True, root=True, order='mimetype first'):
    """the bytes of a package as an office suite writes it"""
    parts = dict(xmlparts(mimetype) if parts is None else parts)
    for d in drop:
        parts.pop(d, None)
    out = BytesIO()
    z = zipfile.ZipFile(out, 'w', zipfile.ZIP_DEFLATED)
    entries = []
    if mimemember:
        z.writestr(zipfile.ZipInfo('mimetype', (2010, 1, 2, 3, 4, 6)), mimetype)
    if root:
        entries.append(('/', mimetype))
    todo = [(n, d, 'text/xml', zipfile.ZIP_DEFLATED) for n, d in parts.items()]
    if order == 'others first':
        todo = list(others) + todo
    else:
        todo = todo + list(others)
    for n, d, m, c in todo:
        zi = zipfile.ZipInfo(n, (2010, 1, 2, 3, 4, 6))
        zi.compress_type = c
        z.writestr(zi, d)
        entries.append((n, m))
    if manifest:
        man = '<manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0">'
        for n, m in entries:
            man += '<manifest:file-entry manifest:full-path="%s" manifest:media-type="%s"/>' % (n, m)
        zi = zipfile.ZipInfo('META-INF/manifest.xml', (2010, 1, 2, 3, 4, 6))
        zi.compress_type = zipfile.ZIP_DEFLATED
        z.writestr(zi, (man + '</manifest:manifest>').encode('utf-8'))
    z.close()
    return out.getvalue()


def flat(mimetype):
    body = BODY[kind_of(mimetype)]
    return ('<?xml version="1.0" encoding="UTF-8"?><office:document %s office:mimetype="%s"><office:styles/>'
            '<office:body>%s</office:body></office:document>' % (NS, mimetype, body)).encode('utf-8')


def members(data):
    """[(name, content, compression)] in the order of the package, None if it is no complete zip file"""
    try:
        z = zipfile.ZipFile(BytesIO(data))
        if z.testzip() is not None:
            return None
        # the order of the data, not of the directory
        infos = sorted(z.infolist(), key=lambda i: i.header_offset)
        return [(i.filename, z.read(i), i.compress_type) for i in infos]
    except (zipfile.BadZipFile, EOFError, OSError, KeyError, RuntimeError, ValueError, zipfile.zlib.error):
        return None
