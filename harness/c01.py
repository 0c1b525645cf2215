from replay_reg import simulate_and_replay, exhaustive


def run(c):
    # the register machine's own invariants, breadth first in small bounds
    exhaustive(c, ['NewProduct', 'Position', 'PositionT', 'Ortho', 'Arith', 'OneSite'], steps=3 if c.quick else 3 + 1)
    # histories replayed on the library
    k = ['NewProduct', 'NewTensors', 'Position', 'Position', 'PositionT', 'Schmidt', 'Canonize', 'Ortho', 'Arith', 'OneSite', 'TwoSite', 'Dot', 'NoTrunc']
    simulate_and_replay(c, k, 150 if c.quick else 2500, 30 if c.quick else 40)
