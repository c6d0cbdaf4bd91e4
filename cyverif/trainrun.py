"""Run the training program with a stepped clock and record what it does.

usage: trainrun.py REPO OUT [hydra arguments]

Time seen by the program advances by one second per reading. Every batch
delivered by the sampler is recorded, and at each reading of the clock the
files written so far are copied into the record. What saved figures show is
recorded too.
"""
import os
import pickle
import runpy
import sys
import time

repo, out = sys.argv[1:3]
script = os.path.join(repo, 'scripts', 'train.py')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, repo)
sys.argv = [script] + sys.argv[3:]
record = {'batches': [], 'files': [], 'plots': {}}
real = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter')}
ticks = [0]


def snapshot():
    files = {}
    for name in ('final.params', 'losses.npy', 'validation.npy'):
        if os.path.exists(name):
            with open(name, 'rb') as f:
                files[name] = f.read()
    record['files'].append((len(record['batches']), files))


def stepped(name):
    def read():
        if sys._getframe(1).f_code.co_filename == script:
            snapshot()
            ticks[0] += 1
            return 1e6 + ticks[0]
        return real[name]()
    return read


for n in real:
    setattr(time, n, stepped(n))

import numpy as np  # noqa: E402
from cyjax import ml  # noqa: E402

step = ml.BatchSampler.__next__


def recorded(self):
    batch = step(self)
    record['batches'].append(tuple(np.array(a) for a in batch))
    return batch


ml.BatchSampler.__next__ = recorded

from matplotlib.figure import Figure  # noqa: E402
from cyverif import plots  # noqa: E402

save = Figure.savefig


def savefig(self, fname, *args, **kw):
    record['plots'][os.path.basename(str(fname))] = plots.shown(self)
    return save(self, fname, *args, **kw)


Figure.savefig = savefig
try:
    runpy.run_path(script, run_name='__main__')
finally:
    with open(out, 'wb') as f:
        pickle.dump(record, f)
