"""os.path."""
from scratch_files import exists, join
