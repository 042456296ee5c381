"""tempfile."""
from scratch_files import mkdtemp
