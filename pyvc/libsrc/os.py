"""os, as far as it is used."""
import os.path
from scratch_files import fspath, listdir


class PathLike:
  pass
