from harness.env import scale
from harness.histcheck import conf, run as histories


def run(ck):
    histories(ck, [
        conf(Depth=4, HasKey=False, Kinds=['STD', 'DUM'], Sigs=['ok', 'failed']),
        conf(Depth=3, Kinds=['STD', 'DUM', 'REV'], Amts=['Z', 'C'], Sigs=['ok', 'failed']),
        conf(Depth=3, FreeFirst=True, IsClosed=True, InCluster=True, Kinds=['STD', 'REV'],
             Sigs=['ok', 'failed']),
    ] + scale([], [conf(Depth=6, HasKey=False, Kinds=['STD', 'REV'], Sigs=['ok', 'failed'])]),
        {'restore': scale(500, 8000), 'none': scale(100, 1000)},
        limit=scale(900, 20000),
        design=conf(Depth=scale(3, 4), Kinds=['STD', 'DUM', 'REV'], Sigs=['ok', 'failed']))
