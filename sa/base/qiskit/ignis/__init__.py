from .version import __version__
