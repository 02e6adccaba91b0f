from . import vtime as _vtime  # noqa: F401  (patches the clock before connectrpc is imported)
