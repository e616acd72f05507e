"""The demonstration register (demo.py) run as a script."""
import json
import random

from . import cli
from . import env
from . import hist
from . import scen
from . import world as w


def run(cid, n, closed, own):
    """n: how many receipts are asked for."""
    rng = random.Random('%s/%s' % (env.SEED, cid))
    s = scen.Setup(rng, closed, serial_form='hex')
    c = hist.Case(cid, hist.Env(s.store, s.aes, s.keynames))
    with cli.scratch():
        files = {'priv': w.priv_pem(s.key), 'aes': w.b64(s.aes) + rng.choice(['', '\n']),
                 'pub': w.key_pem(s.key) if closed else s.cert.pem()}
        for k, v in files.items():
            with open(k, 'w') as f:
                f.write(v)
        argv = ['priv', 'pub'] + ([s.serial] if closed else []) + ['aes', str(n)]
        random.seed(rng.random())
        out = (cli.spawn if own else cli.run)('demo.py', argv)
    recs, ok = [], out.ok
    if n < 1:
        # nothing is made then
        ok = not out.out.strip().startswith(b'{')
    else:
        try:
            gs = json.loads(out.text())['Belege-Gruppe']
            recs = [r for g in gs for r in g['Belege-kompakt']]
            ok = ok and len(gs) == 1 and gs[0]['Signaturzertifikat'] == '' and gs[0]['Zertifizierungsstellen'] == []
        except (ValueError, KeyError):
            ok = False
    obs = {'ok': True, 'exc': [], 'rec': w.NONE, 'has': False, 'st': {'regs': [], 'used': []}}
    c.evs.append({'kind': 'made', 'done': ok, 'n': len(recs), 'asked': max(n, 0), 'obs': obs})
    if recs:
        c.judge([(None, [], recs)])
        c.evs[-1]['must'] = []
    return c.dump()
