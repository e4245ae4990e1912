"""Reference rules of the demo game, written from the documented rules, independent of /repo.

board = tuple of text rows (top row first). A state is an instance of St, never changed after creation.
"""
DIRS = {"North": (0, 1), "South": (0, -1), "East": (1, 0), "West": (-1, 0), "Stop": (0, 0)}
BACK = {"North": "South", "South": "North", "East": "West", "West": "East", "Stop": "Stop"}
LEFT = {"North": "West", "South": "East", "East": "North", "West": "South", "Stop": "Stop"}
MOVES = ("North", "South", "East", "West")
SCARED = 40


class Bad(Exception):
    pass


class Board:
    def __init__(self, rows):
        self.rows = tuple(rows)
        self.h, self.w = len(rows), len(rows[0])
        self.walls, self.food, self.caps = set(), set(), []
        found = []
        for y in range(self.h):
            for x in range(self.w):
                c = rows[self.h - 1 - y][x]
                if c == "%":
                    self.walls.add((x, y))
                elif c == ".":
                    self.food.add((x, y))
                elif c == "o":
                    self.caps.append((x, y))
                elif c == "P":
                    found.append((0, (x, y)))
                elif c == "G":
                    found.append((1, (x, y)))
                elif c in "1234":
                    found.append((int(c), (x, y)))
        found.sort()
        self.agents = [p for _, p in found]
        self.order = found
        self.ghosts = sum(1 for k, _ in found if k)


class St:
    __slots__ = ("board", "agents", "food", "caps", "score", "win", "lose", "moved", "ate_food", "ate_cap", "caught")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw[k])

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return St(**d)

    def key(self):
        """What the rules depend on"""
        return self.agents, self.food, self.caps, self.score, self.win, self.lose


def start(board, max_ghosts=1000):
    ps = board.agents[:1] + board.agents[1:1 + max_ghosts]
    return St(board=board, agents=tuple((p, "Stop", 0) for p in ps), food=frozenset(board.food), caps=tuple(board.caps),
              score=0, win=False, lose=False, moved=None, ate_food=None, ate_cap=None, caught=(False,) * len(ps))


def cell(pos):
    return int(pos[0] + 0.5), int(pos[1] + 0.5)


def open_moves(s, i):
    pos, d, _ = s.agents[i]
    c = cell(pos)
    if c != tuple(pos):
        return None
    return {m for m, (dx, dy) in DIRS.items() if (c[0] + dx, c[1] + dy) not in s.board.walls}


def legal(s, i):
    if s.win or s.lose:
        return set()
    ms = open_moves(s, i)
    d = s.agents[i][1]
    if ms is None:
        return {d}
    if i == 0:
        return ms
    ms = ms - {"Stop"}
    back = BACK[d]
    if d != "Stop" and back in ms and len(ms) > 1:
        ms = ms - {back}
    return ms


def near(a, b):
    return abs(a[0] - b[0]) + abs(a[1] - b[1]) <= 0.7


def move(s, i, m):
    if m not in legal(s, i):
        raise Bad(m)
    agents, food, caps, score = list(s.agents), s.food, s.caps, s.score
    win = lose = False
    ate_food = ate_cap = None
    caught = list(s.caught)
    pos, d, t = agents[i]
    dx, dy = DIRS[m]
    if i == 0:
        caught = [False] * len(agents)
        score -= 1
        pos = (pos[0] + dx, pos[1] + dy)
        agents[0] = (pos, d if m == "Stop" else m, t)
        if pos in food:
            food = food - {pos}
            score += 10
            ate_food = pos
            if not food:
                score += 500
                win = True
        if pos in caps:
            k = caps.index(pos)
            caps = caps[:k] + caps[k + 1:]
            ate_cap = pos
            agents = [agents[0]] + [(p, dd, SCARED) for p, dd, _ in agents[1:]]
        touched = range(1, len(agents))
    else:
        step = 0.5 if t > 0 else 1
        pos = (pos[0] + dx * step, pos[1] + dy * step)
        if t == 1:
            pos = cell(pos)
        agents[i] = (pos, m, max(0, t - 1))
        touched = [i]
    pac = agents[0][0]
    for g in touched:
        gp, gd, gt = agents[g]
        if near(pac, gp):
            if gt > 0:
                score += 200
                agents[g] = (s.board.agents[g], "Stop", 0)
                caught[g] = True
            elif not win:
                score -= 500
                lose = True
    return s.but(agents=tuple(agents), food=food, caps=caps, score=score, win=win, lose=lose, moved=i,
                 ate_food=ate_food, ate_cap=ate_cap, caught=tuple(caught))


def text(s):
    b = s.board
    grid = {}
    for x in range(b.w):
        for y in range(b.h):
            grid[x, y] = "." if (x, y) in s.food else "%" if (x, y) in b.walls else " "
    for i, (p, d, _) in enumerate(s.agents):
        grid[cell(p)] = "G" if i else {"North": "v", "South": "^", "West": ">"}.get(d, "<")
    for c in s.caps:
        grid[c] = "o"
    return "\n".join("".join(grid[x, y] for x in range(b.w)) for y in reversed(range(b.h))) + f"\nScore: {s.score}\n"


def toward(s, goals, away=False):
    """A Pacman move on a shortest way to one of the cells (or the one leading farthest from them)"""
    goals = {cell(g) for g in goals} - s.board.walls
    if not goals:
        return None
    dist = {g: 0 for g in goals}
    todo = list(goals)
    for c in todo:
        for m in MOVES:
            n = (c[0] + DIRS[m][0], c[1] + DIRS[m][1])
            if n not in dist and n not in s.board.walls and 0 <= n[0] < s.board.w and 0 <= n[1] < s.board.h:
                dist[n] = dist[c] + 1
                todo.append(n)
    ms = sorted(legal(s, 0))
    pos = s.agents[0][0]
    score = {m: dist.get((pos[0] + DIRS[m][0], pos[1] + DIRS[m][1]), 10 ** 6) for m in ms}
    if not ms:
        return None
    return (max if away else min)(ms, key=lambda m: score[m])


MODES = ("any", "capsule", "ghost", "food", "flee", "stay", "pace")


def pick(s, i, mode, rnd):
    """Chooses a legal move of character i (None if there is none)"""
    ms = sorted(legal(s, i))
    if not ms:
        return None
    r = rnd.random()
    if i == 0:
        m = None
        if mode == "capsule":
            m = toward(s, s.caps or s.food)
        elif mode == "ghost":
            m = toward(s, [a[0] for a in s.agents[1:]])
        elif mode == "food":
            m = toward(s, s.food)
        elif mode == "flee":
            m = toward(s, [a[0] for a in s.agents[1:]], away=True)
        elif mode == "stay":
            m = "Stop" if r < 0.9 else None
        elif mode == "pace":
            d = s.agents[0][1]
            m = d if d in ms and d != "Stop" and r < 0.8 else None
        if m is not None and r < 0.93:
            return m
    return rnd.choice(ms)
