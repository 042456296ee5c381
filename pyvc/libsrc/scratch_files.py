"""A file system of the files written so far: every path keeps the records written to it."""

FILES = {}
FOLDERS = {}


def fspath(p):
  return p if isinstance(p, str) else p.__fspath__()


class NotFoundError(Exception):
  pass


class TFRecordWriter:

  def __init__(self, path, options=None):
    self.path = fspath(path)
    self.records = []
    self.open = True
    FILES[self.path] = self.records

  def write(self, record):
    assert self.open
    self.records.append(record)

  def flush(self):
    assert self.open

  def close(self):
    self.open = False

  def __enter__(self):
    return self

  def __exit__(self, a, b, c):
    self.close()


class TFRecordDataset:

  def __init__(self, filenames):
    self.path = fspath(filenames)

  def as_numpy_iterator(self):
    if self.path not in FILES:
      raise NotFoundError()
    return list(FILES[self.path])


def mkdtemp(suffix='', prefix='tmp', dir='/scratch'):
  path = dir + '/' + prefix + 'x' * (len(FOLDERS) + 1) + suffix
  FOLDERS[path] = True
  return path


def rmtree(path, ignore_errors=False):
  path = fspath(path)
  for d in (FILES, FOLDERS):
    for k in list(d):
      if k == path or k.startswith(path + '/'):
        del d[k]


def exists(path):
  path = fspath(path)
  return path in FILES or path in FOLDERS


def listdir(path):
  path = fspath(path)
  if path not in FOLDERS:
    raise FileNotFoundError()
  out = []
  for k in FILES:
    if k.startswith(path + '/') and '/' not in k[len(path) + 1:]:
      out.append(k[len(path) + 1:])
  return out


def join(a, *rest):
  for b in rest:
    b = fspath(b)
    a = b if b.startswith('/') else fspath(a) + '/' + b
  return a


class Path:

  def __init__(self, *parts):
    self._path = join(*[fspath(p) for p in parts])

  def __fspath__(self):
    return self._path

  def __str__(self):
    return self._path

  def __truediv__(self, b):
    return Path(self._path, b)

  @property
  def name(self):
    return self._path.split('/')[-1]

  @property
  def suffix(self):
    n = self.name
    i = n.rfind('.')
    return n[i:] if 0 < i < len(n) - 1 else ''

  @property
  def stem(self):
    n = self.name
    return n[:len(n) - len(self.suffix)]

  @property
  def parent(self):
    return Path(self._path[:len(self._path) - len(self.name) - 1])

  def as_posix(self):
    return self._path

  def exists(self):
    return exists(self)
