"""Fresh process of C16: reads trainings from stdin, prints the digests of their results."""
import json
import sys

from .. import boot

boot.boot()

from . import c16  # noqa

if __name__ == "__main__":
    spec = json.loads(sys.stdin.read())
    order = list(enumerate(spec["ops"]))
    if spec["reverse"]:
        order.reverse()
    out = {i: c16.digest(c16.result(c)) for i, c in order}
    print(json.dumps([out[i] for i in range(len(out))]))
