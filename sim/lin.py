"""Small linearizability checker (Wing-Gong search with memoisation)."""


def linearizable(ops, init, step):
    """
    ops: objects with .inv, .ret (None if pending).  step(state, op) yields the
    states the operation may leave, given its recorded outcome (for a pending
    one: any outcome).  states must be hashable.  returns True/False.
    """
    ops = sorted(ops, key=lambda o: o.inv)
    n = len(ops)
    if n > 60:
        raise ValueError("history too long for the checker")
    full = (1 << n) - 1
    must = sum(1 << i for i, o in enumerate(ops) if o.ret is not None)
    seen = set()
    stack = [(0, init)]
    while stack:
        done, state = stack.pop()
        if done & must == must:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        # an op may go next only if no unfinished op returned before it began
        horizon = min((o.ret for i, o in enumerate(ops)
                       if not done >> i & 1 and o.ret is not None),
                      default=None)
        for i, o in enumerate(ops):
            if done >> i & 1:
                continue
            if horizon is not None and o.inv > horizon:
                continue
            for new in step(state, o):
                stack.append((done | 1 << i, new))
    return done == full and False
