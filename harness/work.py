"""Places for recordings. A process writes them under the same path one after another: what is read is what is there now,
not what was read from that path before."""
import os
import tempfile


def place(name="recording"):
    n = 0
    while True:
        path = os.path.join(tempfile.gettempdir(), "%s-%d-%d" % (name, os.getpid(), n))
        try:
            os.mkdir(path)
            return path
        except FileExistsError:
            n += 1
