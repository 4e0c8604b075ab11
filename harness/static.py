"""Scenarios of Static.tla, shared by C05 and C27."""


def scenario(rng, ident, size, ndof):
    """Random banded factors, permutation, displacements and supports."""
    band = rng.choice([0, 1, 2, 4])
    top = 3 if size < 30 else 1
    sym = rng.random() < .4
    low, upp = [], []
    for k in range(1, size + 1):
        first = max(1, k - band)
        diag = 1 if size > 12 else rng.choice([1, 1, -1, 2])
        low.append([first, [rng.randrange(-top, top + 1) if size < 30
                            else 0 for _ in range(first, k)] + [diag]])
        last = min(size, k + band)
        diag = rng.choice([1, -1, 2, 3, 5]) if size < 30 else rng.choice([3, 4, -5])
        upp.append([k, [diag] + [rng.randrange(-top, top + 1)
                                 for _ in range(k, last)]])
    perm = list(range(1, size + 1))
    if not sym:
        rng.shuffle(perm)
    disp = [rng.choice([0, rng.randrange(-40, 41), rng.randrange(-40, 41)])
            for _ in range(size)]
    # supports: `size` free components spread over nodes with ndof components
    extra = rng.choice([0, 1, 3, 8])
    nnodes = -(-(size + extra)//ndof)
    flags = [0]*size + [-1]*(nnodes*ndof - size)
    rng.shuffle(flags)
    cons = [flags[n*ndof:(n + 1)*ndof] for n in range(nnodes)]
    return {"id": ident, "low": low, "up": upp, "perm": perm, "u": disp,
            "cons": cons}


def scenarios(ctx, num, big=0):
    rng = ctx.rng
    out = []
    for k in range(num):
        size = rng.choice([1, 1, 2, 3, 4, 6, 8, 12])
        out.append(scenario(rng, k, size, rng.choice([1, 2, 2, 3, 6])))
    for k in range(big):
        out.append(scenario(rng, num + k, rng.choice([60, 90]), rng.choice([2, 3])))
    return out
