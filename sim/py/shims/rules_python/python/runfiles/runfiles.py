from runfiles.runfiles import *  # pylint: disable=wildcard-import
