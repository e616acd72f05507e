from harness.env import scale
from harness.histcheck import conf, run as histories


def run(ck):
    histories(ck, [
        conf(Depth=2, FreeFirst=True, HasKey=False, Kinds=['STD', 'DUM'], Sigs=['ok', 'failed'],
             Chains=['good', 'bad']),
        conf(Depth=3, HasKey=True, Sigs=['ok', 'failed'], Chains=['good', 'bad']),
        conf(Depth=2, FreeFirst=True, IsClosed=True, InCluster=True, Chains=['good', 'bad'],
             Kinds=['STD', 'DUM'], Sigs=['ok', 'failed']),
        # a configured chaining value: at the start, in a cluster, midway
        conf(Depth=2, FreeFirst=True, Start='next', HasKey=False, Kinds=['STD', 'DUM', 'REV'],
             Sigs=['ok', 'failed'], Chains=['good', 'bad'], TailOnly=True),
        conf(Depth=3, FreeFirst=True, Start='mid', Kinds=['STD', 'DUM', 'REV'],
             Sigs=['ok', 'failed'], Chains=['good', 'bad'], TailOnly=True, Amts=['P']),
        conf(Depth=1, FreeFirst=True, Start='next', IsClosed=True, InCluster=True,
             Chains=['good', 'bad']),
    ] + scale([], [conf(Depth=5, Kinds=['STD', 'REV'], Sigs=['ok', 'failed'], Chains=['good', 'bad'])]),
        {'chain': scale(500, 8000), 'restore': scale(100, 2000)},
        limit=scale(700, 20000),
        design=conf(Depth=scale(3, 4), Kinds=['STD', 'DUM', 'REV'], Sigs=['ok', 'failed'],
                    Amts=['Z', 'P'], Chains=['good']))
