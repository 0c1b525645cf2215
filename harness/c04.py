from replay_reg import simulate_and_replay, exhaustive


def run(c):
    # the register machine's own invariants, breadth first in small bounds
    exhaustive(c, ['NewProduct', 'Copy', 'File', 'Position', 'Arith'], steps=3 if c.quick else 3 + 1)
    # histories replayed on the library
    k = ['NewProduct', 'NewTensors', 'Arith', 'Position', 'OneSite', 'TwoSite', 'Copy', 'File']
    simulate_and_replay(c, k, 150 if c.quick else 2500, 30 if c.quick else 40)
