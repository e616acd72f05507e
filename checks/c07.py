from harness import env, trust
from harness.env import scale
from harness.histcheck import count_verdicts, enumerate_and_replay, random_cases


def replay(cid, plan, conf):
    return trust.trust(cid, plan, env.SEED, 1)


def run(ck):
    cases = enumerate_and_replay(
        ck, 'GenTrust', [{'MaxLen': scale(4, 6), 'Emit': True}],
        ['Meaning', 'OneReason', 'BareIrrelevant'], replay, limit=scale(None, 30000), times=3)
    cases += random_cases(ck, {'sig': scale(100, 1500), 'none': scale(200, 3000)},
                          {'mode': 'cert'})
    count_verdicts(ck, cases)
    ck.judge(cases)
