"""etils.epath, as far as putting_dune uses it."""
from scratch_files import Path
