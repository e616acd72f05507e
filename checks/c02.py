from harness.env import scale
from harness.histcheck import conf, run as histories


def run(ck):
    k = dict(Kinds=['STD', 'DUM', 'REV'], Tcs=['right', 'wrong'])
    histories(ck, [
        conf(Depth=2, Amts=['P', 'N', 'C'], Sigs=['ok', 'failed'], **k),
        conf(Depth=3, Amts=['P', 'N'], **k),
        conf(Depth=2, Amts=['P', 'N'], HasKey=False, Kinds=['STD', 'DUM', 'REV']),
        conf(Depth=1, FreeFirst=True, IsClosed=True, InCluster=True, Amts=['Z', 'C'], **k),
    ] + scale([], [conf(Depth=4, Amts=['P', 'N'], **k)]),
        {'counter': scale(600, 8000), 'none': scale(100, 2000)},
        limit=scale(500, 20000), design=conf(Depth=2, Amts=['P', 'N', 'C'], **k))
