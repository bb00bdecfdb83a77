from .core import *  # noqa
from . import handmod
