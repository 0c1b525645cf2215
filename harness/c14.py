"""C14: Trotter evolution, histories of calls from specs/Evolution.tla."""
import replay_evo as R


def run(c):
    c.bfs('Evolution', R.CFG % (2, 4 if c.quick else 5, 3, 'FALSE', '"tebd"', 'FALSE', '"f","b","r"'), workers=4)
    docs, _ = c.tlc('Evolution', R.CFG % (5, 5, 4, 'TRUE', '"tebd"', 'FALSE', '"f","b","r"'), simulate=160 if c.quick else 1500, depth=400)
    R.replay(c, docs)
    docs, _ = c.tlc('Evolution', R.CFG % (4, 5, 3, 'TRUE', '"tebd"', 'FALSE', '"f","b","r"'), simulate=100 if c.quick else 800, depth=400, seed=c.seed + 1000)
    R.replay(c, docs, lossy=True)
