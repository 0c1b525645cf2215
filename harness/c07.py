import replay_trunc
from replay_reg import simulate_and_replay


def run(c):
    replay_trunc.exhaustive(c, steps=2 if c.quick else 3, amps='{0,1,2}')
    replay_trunc.simulate(c, 350 if c.quick else 5000, 7, ['Move', 'MoveTrunc', 'Truncate', 'Tied'])
    # limits that remove nothing, inside general histories
    simulate_and_replay(c, ['NewProduct', 'NewTensors', 'Position', 'Arith', 'OneSite', 'TwoSite', 'NoTrunc'],
                        40 if c.quick else 600, 20)
