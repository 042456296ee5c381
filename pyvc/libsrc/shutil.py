"""shutil."""
from scratch_files import rmtree
