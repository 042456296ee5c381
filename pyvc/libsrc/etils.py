"""etils."""
from etils import epath
