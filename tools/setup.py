"""Checks that everything the checks import is present; there is nothing to build ahead of a check."""
import numpy, zstandard, corsikaio, zlib, ctypes  # noqa
import sys
print('python', sys.version.split()[0], 'numpy', numpy.__version__, 'zstandard', zstandard.__version__)
