import sys

from .core import worker_main

worker_main(sys.argv[1:])
