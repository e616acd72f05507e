from harness.env import scale
from harness.histcheck import conf, run as histories


def run(ck):
    k = dict(FreeFirst=True, Kinds=['STD', 'DUM', 'REV'], Amts=['Z', 'P', 'N', 'C'],
             Sigs=['ok', 'failed', 'bad'])
    histories(ck, [
        conf(Depth=1, MaxDev=3, Chains=['good', 'bad'], Tcs=['right', 'wrong'], Regs=['same', 'other'],
             Zdas=['keep', 'flip'], **k),
        conf(Depth=1, MaxDev=3, HasKey=False, IsClosed=True, Chains=['good', 'bad'], **k),
        conf(Depth=1, MaxDev=3, IsClosed=True, InCluster=True, Chains=['good', 'bad'],
             Ids=['fresh', 'dup'], Zdas=['keep', 'flip'], **k),
        conf(Depth=2, FreeFirst=True, Kinds=['STD', 'DUM', 'REV'], Amts=['Z', 'C'],
             Sigs=['ok', 'failed']),
    ], {'initial': scale(500, 6000), 'none': scale(50, 1000), 'cluster': scale(50, 1000)},
        limit=scale(500, 20000),
        design=conf(Depth=2, FreeFirst=True, Kinds=['STD', 'DUM', 'REV'], Amts=['Z', 'P'],
                    Sigs=['ok', 'failed']))
