NM = 'search/_minimization/_nelder_mead.py'
MR = 'search/_minimization/_run.py'
RE = 'search/result/_minimization.py'
CT = 'search/_controller.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


ALL = ['C18', 'C19', 'C20']
TAKE = "        ind = np.argsort(fsim)\n        sim = np.take(sim, ind, 0)\n        fsim = np.take(fsim, ind, 0)\n        iterations += 1\n"
START = "    ind = np.argsort(fsim)\n    fsim = np.take(fsim, ind, 0)\n    # sort so sim[0,:] has the lowest function value\n    sim = np.take(sim, ind, 0)\n"
HIST = "            simplex_history.append(np.copy(sim))\n            fun_simplex_history.append(np.copy(fsim))\n"
SHRINK = "                    for j in one2np1:\n                        sim[j] = sim[0] + sigma * (sim[j] - sim[0])\n                        fsim[j] = await func(sim[j])\n"
XT = "                np.max(np.ravel(np.abs(sim[1:] - sim[0]))) <= xtol\n"
FT = "np.max(np.abs(fsim[0] - fsim[1:])) <= ftol"
WHILE = "    while (fcalls[0] < maxfun and iterations < maxiter):\n"
END = "    if fcalls[0] >= maxfun:\n        warnflag = 1\n        msg = _status_message['maxfev']\n    elif iterations >= maxiter:\n        warnflag = 2\n        msg = _status_message['maxiter']\n    elif (\n        fprime_cutoff is not None\n        and _get_fprime_estimate(sim=sim, fval=fval) > fprime_cutoff\n    ):\n"
SLOPE = "        if (\n            fprime_cutoff is not None\n            and _get_fprime_estimate(sim=sim, fval=fsim[0]) > fprime_cutoff\n        ):\n            break\n"
OUT = "                    if fxc <= fxr:\n                        sim[-1] = xc\n                        fsim[-1] = fxc\n"
IN = "                    if fxcc < fsim[-1]:\n                        sim[-1] = xcc\n                        fsim[-1] = fxcc\n"
REFL = "            if fxr < fsim[-2]:\n                sim[-1] = xr\n                fsim[-1] = fxr\n"
EXP = "            if fxe < fxr:\n                sim[-1] = xe\n                fsim[-1] = fxe\n            else:\n                sim[-1] = xr\n                fsim[-1] = fxr\n"
JOINED = "JoinedMinimizationResult(child=res, ancestor=res_fake)"

# -- C18 ------------------------------------------------------------------
B = ['C18']
broken('pv-swap', B, (NM, OUT, OUT.replace('fsim[-1] = fxc', 'fsim[-1] = fxr')))
broken('pv-pos1', B, (NM, "    x = sim[0]\n", "    x = sim[1]\n"))
broken('pv-last', B, (NM, "    x = sim[0]\n    fval = fsim[0]\n", "    x = sim[-1]\n    fval = fsim[-1]\n"))
broken('pv-mean', B, (NM, "    x = sim[0]\n", "    x = np.mean(sim, axis=0)\n"))
broken('pv-takeonly', B, (NM, TAKE, TAKE.replace("        sim = np.take(sim, ind, 0)\n", "")))
broken('pv-sortf', B, (NM, TAKE, "        fsim = np.sort(fsim)\n        iterations += 1\n"))
broken('pv-shrinkold', B, (NM, SHRINK, "                    for j in one2np1:\n                        fsim[j] = await func(sim[j])\n                        sim[j] = sim[0] + sigma * (sim[j] - sim[0])\n"))
broken('pv-shrinkskip', B, (NM, SHRINK, SHRINK.replace("for j in one2np1:", "for j in one2np1[:-1]:") + "                    sim[N] = sim[0] + sigma * (sim[N] - sim[0])\n"))
broken('pv-abs', B, (NM, "        value=fval,\n", "        value=abs(fval),\n"))
broken('pv-noresort', B, (NM, TAKE, "        iterations += 1\n"))
broken('pv-int', B, (NM, "sim = np.array(initial_simplex, dtype=float)", "sim = np.array(initial_simplex)"))
broken('hi-order', B, (NM, HIST, ""), (NM, TAKE, "        if keep_history:\n" + HIST + TAKE), (NM, "        if keep_history:\n        else:\n            simplex_history[0] = np.copy(sim)", "        if not keep_history:\n            simplex_history[0] = np.copy(sim)"))
broken('hi-nolast', B, (NM, "        else:\n            simplex_history[0] = np.copy(sim)", "        elif iterations < 2:\n            simplex_history[0] = np.copy(sim)"))
broken('st-fakevalue', B, (MR, JOINED, "JoinedMinimizationResult(child=res_fake, ancestor=res)"))
broken('st-second', B, (MR, "            func=func, initial_simplex=simplex_blowup, **nelder_mead_kwargs", "            func=add_fake_potential(fake_potential, func), initial_simplex=simplex_blowup, **nelder_mead_kwargs"))
broken('st-shortcut', B, (MR, "        simplex_final = res_fake", "        if not res_fake.success:\n            return res_fake\n        simplex_final = res_fake"))
broken('jo-value', B, (RE, "    JOIN_KEYS = [\n        'num_fev',", "    JOIN_KEYS = [\n        'value', 'num_fev',"))
broken('jo-order', B, (RE, "return np.concatenate([obj1, obj2])", "return np.concatenate([obj2, obj1])"))
broken('jo-else', B, (RE, "            return getattr(self.child, key)", "            return getattr(self.ancestor, key)"))
broken('wr-abs', B, (CT, "self.gap_fct = wrap_to_coroutine(gap_fct)", "fct = wrap_to_coroutine(gap_fct)\n\n        async def gap(pos):\n            return abs(await fct(pos))\n        self.gap_fct = gap"))
broken('stored', B, (CT, "            pos = result.pos\n", "            pos = result.pos\n            result.value = max(result.value, 0)\n"))
# -- C19 ------------------------------------------------------------------
B = ['C19']
broken('cn-exp', B, (NM, "            fxe = await func(xe)", "            fxe = await func.__wrapped__(xe)")) if False else None
broken('cn-once', B, (NM, "        ncalls[0] += 1\n        return await function(*args)", "        res = await function(*args)\n        if res >= 0:\n            ncalls[0] += 1\n        return res")) if False else None
broken('cn-raw', B, (NM, "    fcalls, func = wrap_function(func)\n", "    fcalls, counted = wrap_function(func)\n"), (NM, "func(x) for x in sim", "counted(x) for x in sim"), (NM, "fxr = await func(xr)", "fxr = await counted(xr)"))
broken('cn-iter', B, (NM, "num_fev=fcalls[0]", "num_fev=iterations + N"))
broken('cn-minus', B, (NM, "num_fev=fcalls[0]", "num_fev=fcalls[0] - 1"))
broken('cn-two', B, (NM, "ncalls[0] += 1", "ncalls[0] += 2"))
broken('cn-init', B, (NM, "await asyncio.gather(*[func(x) for x in sim]), dtype=float)", "await asyncio.gather(*[root(x) for x in sim]), dtype=float)"), (NM, "    fcalls, func = wrap_function(func)\n", "    root = func\n    fcalls, func = wrap_function(func)\n"))
broken('li-fev', B, (NM, WHILE, "    while iterations < maxiter:\n"))
broken('li-iter', B, (NM, WHILE, "    while fcalls[0] < maxfun:\n"))
broken('li-le', B, (NM, WHILE, WHILE.replace("fcalls[0] < maxfun", "fcalls[0] <= maxfun")))
broken('li-or', B, (NM, WHILE, WHILE.replace(" and ", " or ")))
broken('li-le2', B, (NM, WHILE, WHILE.replace("iterations < maxiter", "iterations <= maxiter + 1")))
broken('li-default', B, (NM, "    if maxfun is None:\n", "    if not maxfun:\n"))
broken('li-cap', B, (NM, "    if maxfun is None:\n        maxfun = N * 200\n", "    maxfun = N * 200\n"))
broken('sl-off', B, (NM, SLOPE, ""))
broken('sl-worst', B, (NM, "_get_fprime_estimate(sim=sim, fval=fsim[0]) > fprime_cutoff", "_get_fprime_estimate(sim=sim, fval=fsim[-1]) > fprime_cutoff"))
broken('sl-inv', B, (NM, "_get_fprime_estimate(sim=sim, fval=fsim[0]) > fprime_cutoff", "_get_fprime_estimate(sim=sim, fval=fsim[0]) < fprime_cutoff"))
broken('sl-min', B, (NM, "        np.max(\n            np.sum(", "        np.min(\n            np.sum("))
broken('sl-stale', B, (NM, SLOPE, ""), (NM, "        with warnings.catch_warnings():", "        if fprime_cutoff is not None and estimate > fprime_cutoff:\n            break\n        with warnings.catch_warnings():"), (NM, "    iterations = 1\n", "    iterations = 1\n    estimate = _get_fprime_estimate(sim=sim, fval=fsim[0])\n"))
broken('ho-or', B, (NM, XT + "                and ", XT + "                or "))
broken('ho-x', B, (NM, XT + "                and " + FT, "                " + FT))
broken('ho-f', B, (NM, "                and " + FT + "\n", ""))
broken('ho-min', B, (NM, XT, XT.replace('np.max', 'np.min')))
broken('ho-abs', B, (NM, XT, "                np.max(np.ravel(sim[1:] - sim[0])) <= xtol\n"))
broken('ho-fabs', B, (NM, FT, "np.max(fsim[0] - fsim[1:]) <= ftol"))
broken('ho-part', B, (NM, FT, "np.max(np.abs(fsim[0] - fsim[-1:])) <= ftol")) if False else None
broken('ho-part2', B, (NM, XT, "                np.max(np.ravel(np.abs(sim[1:-1] - sim[0]))) <= xtol\n"))
broken('ho-succ', B, (NM, "success=(warnflag == 0)", "success=(warnflag <= 1)"))
broken('ho-succ2', B, (NM, "success=(warnflag == 0)", "success=(warnflag != 1)"))
broken('ho-noiter', B, (NM, END, END.replace("    elif iterations >= maxiter:\n        warnflag = 2\n        msg = _status_message['maxiter']\n", "")))
broken('ho-gt', B, (NM, END, END.replace("fcalls[0] >= maxfun", "fcalls[0] > maxfun")))
broken('ho-noslope', B, (NM, END, END[:END.index("    elif (\n")] + "    elif False:\n"))
broken('re-early', B, (NM, "        xbar = np.add", "        if fsim[0] == fsim[-1]:\n            warnings.warn('flat')\n            break\n\n        xbar = np.add"))
broken('bo-child', B, (RE, "        'num_fev', 'num_iter',", "        'num_iter',"))
broken('bo-sub', B, (MR, JOINED, "JoinedMinimizationResult(child=res, ancestor=res)")) if False else None
# -- C20 ------------------------------------------------------------------
B = ['C20']
broken('ke-worse', B, (NM, OUT, OUT.replace("fxc <= fxr", "fxc <= fxr or iterations % 10 == 0")))
broken('ke-le', B, (NM, IN, IN.replace("fxcc < fsim[-1]", "fxcc <= fsim[-1] + ftol")))
broken('ke-eq', B, (NM, IN, IN.replace("fxcc < fsim[-1]", "fxcc <= fsim[-1]")))
broken('ke-refl', B, (NM, REFL, REFL.replace("fxr < fsim[-2]", "fxr <= fsim[-1]")))
broken('ke-exp', B, (NM, EXP, "            sim[-1] = xe\n            fsim[-1] = fxe\n"))
broken('ke-best', B, (NM, EXP, EXP.replace("sim[-1] = xe\n                fsim[-1] = fxe", "sim[0] = xe\n                fsim[0] = fxe")))
broken('ke-second', B, (NM, REFL, REFL.replace("sim[-1] = xr\n                fsim[-1] = fxr", "sim[-2] = xr\n                fsim[-2] = fxr")))
broken('ke-shrink0', B, (NM, "    one2np1 = list(range(1, N + 1))", "    one2np1 = list(range(0, N + 1))"), (NM, SHRINK, SHRINK.replace("sim[0] + sigma * (sim[j] - sim[0])", "xbar + sigma * (sim[j] - xbar)")))
broken('ke-grow', B, (NM, "    sigma = 0.5\n", "    sigma = 1.5\n"))
broken('ke-shrinkall', B, (NM, SHRINK, "                    sim = 0.5 * sim + 0.5 * xbar\n                    fsim = np.array([await func(x) for x in sim])\n"))
broken('ke-sort', B, (NM, TAKE, TAKE.replace("np.argsort(fsim)", "np.argsort(-fsim)")))
broken('ke-nostart', B, (NM, START, ""))
broken('ke-stale', B, (NM, "        ind = np.argsort(fsim)\n        sim = np.take(sim, ind, 0)\n", "        sim = np.take(sim, ind, 0)\n"))

# -- rewritten ------------------------------------------------------------
fine('fancy', ALL, (NM, TAKE, "        ind = np.argsort(fsim)\n        sim = sim[ind]\n        fsim = fsim[ind]\n        iterations += 1\n"))
fine('fancy0', ALL, (NM, START, "    ind = fsim.argsort()\n    sim, fsim = sim[ind], fsim[ind]\n"))
fine('true', ALL, (NM, WHILE, "    while True:\n        if fcalls[0] >= maxfun or iterations >= maxiter:\n            break\n"))
fine('not', ALL, (NM, WHILE, "    while not (fcalls[0] >= maxfun or iterations >= maxiter):\n"))
fine('sorthelper', ALL, (NM, TAKE, "        sim, fsim = _sorted(sim, fsim)\n        iterations += 1\n"), (NM, START, "    sim, fsim = _sorted(sim, fsim)\n"),
     (NM, "def _get_fprime", "def _sorted(sim, fsim):\n    order = np.argsort(fsim)\n    return np.take(sim, order, 0), np.take(fsim, order, 0)\n\n\ndef _get_fprime"))
fine('shrinkhelper', ALL, (NM, SHRINK, "                    await _shrink(func, sim, fsim, sigma)\n"),
     (NM, "def _get_fprime", "async def _shrink(func, sim, fsim, sigma):\n    for j in range(1, len(sim)):\n        sim[j] = sim[0] + sigma * (sim[j] - sim[0])\n        fsim[j] = await func(sim[j])\n\n\ndef _get_fprime"))
fine('shrinkvec', ALL, (NM, SHRINK, "                    sim[1:] = sim[0] + sigma * (sim[1:] - sim[0])\n                    fsim[1:] = [await func(x) for x in sim[1:]]\n"))
fine('shrinkgather', ALL, (NM, SHRINK, "                    sim[1:] = sim[0] + sigma * (sim[1:] - sim[0])\n                    fsim[1:] = await asyncio.gather(*[func(x) for x in sim[1:]])\n"))
fine('shrinkrange', ALL, (NM, SHRINK, SHRINK.replace("one2np1", "range(1, N + 1)")))
fine('nonlocal', ALL, (NM, "    ncalls = [0]\n", "    ncalls = 0\n"), (NM, "        ncalls[0] += 1\n", "        nonlocal ncalls\n        ncalls += 1\n"), (NM, "    return ncalls, function_wrapper\n", "    return (lambda: ncalls), function_wrapper\n"),
     (NM, "fcalls[0] < maxfun", "fcalls() < maxfun"), (NM, "if fcalls[0] >= maxfun", "if fcalls() >= maxfun"), (NM, "num_fev=fcalls[0]", "num_fev=fcalls()"))
fine('counterclass', ALL, (NM, "def wrap_function(function):\n    ncalls = [0]\n\n    async def function_wrapper(*args):\n        ncalls[0] += 1\n        return await function(*args)\n\n    return ncalls, function_wrapper\n",
     "class Counter:\n    def __init__(self, function):\n        self.function = function\n        self.ncalls = 0\n\n    async def __call__(self, *args):\n        self.ncalls += 1\n        return await self.function(*args)\n"),
     (NM, "fcalls, func = wrap_function(func)", "func = Counter(func)"), (NM, "fcalls[0] < maxfun", "func.ncalls < maxfun"), (NM, "if fcalls[0] >= maxfun", "if func.ncalls >= maxfun"), (NM, "num_fev=fcalls[0]", "num_fev=func.ncalls"))
fine('manual', ALL, (NM, "fcalls, func = wrap_function(func)\n", "fcalls = [0]\n"), (NM, "    assert fsim.shape == (N + 1, )\n", "    assert fsim.shape == (N + 1, )\n    fcalls[0] += N + 1\n"), (NM, "await func(xr)\n", "await func(xr)\n        fcalls[0] += 1\n"),
     (NM, "await func(xe)\n", "await func(xe)\n            fcalls[0] += 1\n"), (NM, "await func(xc)\n", "await func(xc)\n                    fcalls[0] += 1\n"), (NM, "await func(xcc)\n", "await func(xcc)\n                    fcalls[0] += 1\n"),
     (NM, "fsim[j] = await func(sim[j])\n", "fsim[j] = await func(sim[j])\n                        fcalls[0] += 1\n"))
fine('status', ALL, (NM, "        warnflag = 1\n", "        warnflag, success = 1, False\n"), (NM, "        warnflag = 2\n", "        warnflag, success = 2, False\n"), (NM, "        warnflag = 3\n", "        warnflag, success = 3, False\n"), (NM, "    warnflag = 0\n", "    warnflag, success = 0, True\n"), (NM, "success=(warnflag == 0)", "success=success"))
fine('convfn', ALL, (NM, "            if (\n" + XT + "                and " + FT + "\n            ):\n                break\n", "            if _converged(sim, fsim, xtol, ftol):\n                break\n"),
     (NM, "def _get_fprime", "def _converged(sim, fsim, xtol, ftol):\n    if np.max(np.abs(sim[1:] - sim[0])) > xtol:\n        return False\n    return np.max(np.abs(fsim[1:] - fsim[0])) <= ftol\n\n\ndef _get_fprime"))
fine('convflag', ALL, (NM, XT + "                and " + FT, "                np.all(np.abs(sim[1:] - sim[0]) <= xtol)\n                and np.all(np.abs(fsim[1:] - fsim[0]) <= ftol)"))
fine('fnosign', ALL, (NM, FT, "np.max(fsim[1:] - fsim[0]) <= ftol"))
fine('flast', ALL, (NM, FT, "fsim[-1] - fsim[0] <= ftol"))
fine('slopefn', ALL, (NM, SLOPE, "        if _above(sim, fsim, fprime_cutoff):\n            break\n"), (NM, "def _get_fprime", "def _above(sim, fsim, cutoff):\n    if cutoff is None:\n        return False\n    return _get_fprime_estimate(sim=sim, fval=fsim[0]) > cutoff\n\n\ndef _get_fprime"))
fine('elif', ALL, (NM, "        else:  # fsim[0] <= fxr\n            if fxr < fsim[-2]:\n                sim[-1] = xr\n                fsim[-1] = fxr\n            else:  # fxr >= fsim[-2]\n", "        else:  # fsim[0] <= fxr\n            if not fxr >= fsim[-2]:\n                sim[-1], fsim[-1] = xr, fxr\n            else:  # fxr >= fsim[-2]\n"))
fine('lastN', ALL, (NM, IN, IN.replace("sim[-1] = xcc", "sim[N] = xcc").replace("fsim[-1] = fxcc", "fsim[N] = fxcc")))
fine('new', ALL, (NM, EXP, "            if fxe < fxr:\n                new, fnew = xe, fxe\n            else:\n                new, fnew = xr, fxr\n            sim[-1] = new\n            fsim[-1] = fnew\n"))
fine('centroid', ALL, (NM, "np.add.reduce(sim[:-1], 0) / N", "np.mean(sim[:-1], axis=0)"), (NM, "xr = (1 + rho) * xbar - rho * sim[-1]", "xr = xbar + rho * (xbar - sim[-1])"))
fine('copyhist', ALL, (NM, HIST, "            simplex_history.append(sim.copy())\n            fun_simplex_history.append(fsim.copy())\n"))
fine('mainfor', ALL, (NM, "    iterations = 1\n", ""), (NM, WHILE, "    for iterations in itertools.count(1):\n        if fcalls[0] >= maxfun or iterations >= maxiter:\n            break\n"), (NM, "        iterations += 1\n", ""))
fine('rename', ALL, (NM, "fxcc", "f_inner", 'all'), (NM, "xbar", "centre", 'all'), (NM, "one2np1", "others", 'all'))
fine('dead', ALL, (NM, "    x = sim[0]\n", "    n_vertices = len(sim)\n    n_vertices += 0\n    x = sim[0]\n"))
fine('sigma', ALL, (NM, "sim[0] + sigma * (sim[j] - sim[0])", "(1 - sigma) * sim[0] + sigma * sim[j]"))
fine('stage-helper', ['C18', 'C19'], (MR, "        simplex_final = res_fake.simplex_history[-1]\n        simplex_blowup = simplex_final[\n            0] + 1.5 * (simplex_final - simplex_final[0])\n", "        simplex_blowup = enlarge(res_fake.simplex_history[-1])\n"), (MR, "@export\n", "def enlarge(simplex, factor=1.5):\n    return simplex[0] + factor * (simplex - simplex[0])\n\n\n@export\n"))
fine('stage-early', ['C18', 'C19'], (MR, "    else:\n        return await root_nelder_mead(\n            func=func, initial_simplex=initial_simplex, **nelder_mead_kwargs\n        )\n", "    return await root_nelder_mead(\n        func=func, initial_simplex=initial_simplex, **nelder_mead_kwargs\n    )\n"))
fine('joined-prop', ['C18', 'C19'], (RE, "        if key in self.JOIN_KEYS:\n            return self._join(\n                getattr(self.ancestor, key), getattr(self.child, key)\n            )\n        else:\n            return getattr(self.child, key)\n", "        last = getattr(self.child, key)\n        if key not in self.JOIN_KEYS:\n            return last\n        return self._join(getattr(self.ancestor, key), last)\n"))
fine('joined-np', ['C18', 'C19'], (RE, "        if isinstance(obj1, np.ndarray):\n            return np.concatenate([obj1, obj2])\n        else:\n            return obj1 + obj2\n", "        if not isinstance(obj1, np.ndarray):\n            return obj1 + obj2\n        return np.concatenate((obj1, obj2), axis=0)\n"))
VARIANTS = [v for v in VARIANTS if v]
