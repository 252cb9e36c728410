"""Fresh process of C09: restores saved models, returns their answers before and after retraining."""
import base64
import json
import pickle
import sys

from .. import boot

boot.boot()

from .. import zoo  # noqa
from . import c09  # noqa

if __name__ == "__main__":
    req = json.loads(sys.stdin.read())
    out = []
    for op, blob in zip(req["ops"], req["blobs"]):
        _, fit, ask = c09.prepare(op)
        m = zoo.safe(pickle.loads, base64.b64decode(blob))
        if isinstance(m, dict):
            out.append((m, m))
            continue
        first = ask(m)
        failed = zoo.safe(fit, m)
        out.append((first, failed if isinstance(failed, dict) else ask(m)))
    print(base64.b64encode(pickle.dumps(out)).decode())
