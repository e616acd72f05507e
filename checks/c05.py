from harness.env import scale
from harness.histcheck import conf, run as histories


def run(ck):
    k = dict(Ids=['fresh', 'dup'], Regs=['same', 'other'], Tss=['up', 'eq', 'down'],
             Zdas=['keep', 'alt', 'flip'])
    histories(ck, [
        conf(Depth=2, **k),
        conf(Depth=2, HasKey=False, IsClosed=True, **k),
        conf(Depth=1, FreeFirst=True, IsClosed=True, InCluster=True, Sigs=['ok', 'failed'],
             MaxDev=2, **k),
        conf(Depth=1, Kinds=['STD', 'DUM'], Sigs=['ok', 'failed'], MaxDev=2, **k),
    ] + scale([], [conf(Depth=3, **k)]),
        {'cont': scale(500, 8000), 'none': scale(50, 1000), 'cluster': scale(100, 1000)},
        limit=scale(500, 20000), design=conf(Depth=2, Amts=['P'], **k))
