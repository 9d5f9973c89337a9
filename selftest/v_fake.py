"""Variants for C36."""
F = 'search/_fake_potential.py'
R = 'search/_minimization/_run.py'
S = 'search/result/_search_result_container.py'

VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


ANY = """        if any(
            dist < self.width
            for dist in self.result.get_all_neighbour_distances(pos)
        ):
            return float('inf')
        return 0
"""
EV = """    async def evaluate(x):
        return (await func(x)) + fake_pot(x)

    return evaluate
"""
BLOW = """        simplex_blowup = simplex_final[
            0] + 1.5 * (simplex_final - simplex_final[0])
"""


def body(text):
    return (F, ANY, text)


broken('fk-all', ['C36'], body(ANY.replace('any(', 'all(')))
broken('fk-swap', ['C36'], body(ANY.replace("dist < self.width", "dist > self.width")))
broken('fk-finite', ['C36'], body(ANY.replace("float('inf')", "1e6")))
broken('fk-zero', ['C36'], body(ANY.replace("return 0\n", "return 1\n")))
broken('fk-first', ['C36'], body("""        for dist in self.result.get_all_neighbour_distances(pos):
            if dist < self.width:
                return float('inf')
            return 0
        return 0
"""))
broken('fk-break', ['C36'], body("""        near = False
        for dist in self.result.get_all_neighbour_distances(pos):
            if dist >= self.width:
                break
            near = True
        return float('inf') if near else 0
"""))
broken('fk-last', ['C36'], body("""        near = False
        for dist in self.result.get_all_neighbour_distances(pos):
            if dist < self.width:
                near = True
            else:
                near = False
        return float('inf') if near else 0
"""))
broken('fk-refined', ['C36'], body(ANY.replace('get_all_neighbour_distances', 'get_refined_neighbour_distance_iterator')))
broken('fk-half', ['C36'], body(ANY.replace('< self.width', '< 0.5 * self.width')))
broken('fk-count', ['C36'], body("""        count = 0
        for dist in self.result.get_all_neighbour_distances(pos):
            if dist < self.width:
                count += 1
        return float('inf') if count > 1 else 0
"""))
broken('fk-some', ['C36'], body(ANY.replace("get_all_neighbour_distances(pos)", "get_all_neighbour_distances(pos)[:1]")))
broken('fk-prod', ['C36'], (R, EV, EV.replace('+ fake_pot(x)', '* fake_pot(x)')))
broken('fk-pos', ['C36'], (R, EV, EV.replace('fake_pot(x)', 'fake_pot(2 * x)')))
broken('fk-minus', ['C36'], (R, EV, EV.replace('+ fake_pot(x)', '- fake_pot(x)')))
broken('fk-drop', ['C36'], (R, EV, """    async def evaluate(x):
        value = await func(x)
        if value < 1:
            return value
        return value + fake_pot(x)

    return evaluate
"""))
broken('fk-first-pos', ['C36'], (R, "func=add_fake_potential(fake_potential, func),", "func=func,"))
broken('fk-shrink', ['C36'], (R, BLOW, BLOW.replace('1.5', '0.5')))
broken('fk-flip', ['C36'], (R, BLOW, BLOW.replace('+ 1.5', '- 1.5')))
broken('fk-worst', ['C36'], (R, BLOW, """        simplex_blowup = simplex_final[
            -1] + 1.5 * (simplex_final - simplex_final[-1])
"""))
broken('fk-scaled', ['C36'], (R, BLOW, """        simplex_blowup = 1.5 * simplex_final
"""))
broken('fk-early', ['C36'], (R, "simplex_final = res_fake.simplex_history[-1]", "simplex_final = res_fake.simplex_history[0]"))
broken('fk-again', ['C36'], (R, "func=func, initial_simplex=simplex_blowup, **nelder_mead_kwargs", "func=func, initial_simplex=initial_simplex, **nelder_mead_kwargs"))
broken('fk-second', ['C36', 'C18'], (R, "func=func, initial_simplex=simplex_blowup, **nelder_mead_kwargs", "func=add_fake_potential(fake_potential, func), initial_simplex=simplex_blowup, **nelder_mead_kwargs"))
broken('fk-one', ['C36'], (R, "        simplex_final = res_fake", """        if not res_fake.success:
            return res_fake
        simplex_final = res_fake"""))

fine('fk-loop', ['C36'], body("""        for dist in self.result.get_all_neighbour_distances(pos):
            if dist < self.width:
                return float('inf')
        return 0.
"""))
fine('fk-iter', ['C36'], body(ANY.replace('get_all_neighbour_distances', 'get_neighbour_distance_iterator')))
fine('fk-flag', ['C36'], body("""        near = False
        for dist in self.result.get_all_neighbour_distances(pos):
            if dist < self.width:
                near = True
                break
        return float('inf') if near else 0
"""))
fine('fk-len', ['C36'], body("""        close = [d for d in self.result.get_all_neighbour_distances(pos) if d < self.width]
        if close:
            return float('inf')
        return 0
"""))
fine('fk-npany', ['C36'], body("""        import numpy as np
        distances = np.asarray(self.result.get_all_neighbour_distances(pos))
        return np.inf if np.any(distances < self.width) else 0
"""))
fine('fk-min', ['C36'], body("""        distances = self.result.get_all_neighbour_distances(pos)
        return float('inf') if min(distances, default=float('inf')) < self.width else 0
"""))
fine('fk-lambda', ['C36', 'C18'], (R, EV, """    async def evaluate(x):
        penalty = fake_pot(x)
        value = await func(x)
        return penalty + value

    return evaluate
"""))
fine('fk-class', ['C36', 'C18'], (R, """def add_fake_potential(fake_pot, func):
""" + EV, """class _WithPotential:
    def __init__(self, potential, func):
        self.potential = potential
        self.func = func

    async def __call__(self, x):
        return (await self.func(x)) + self.potential(x)


def add_fake_potential(fake_pot, func):
    return _WithPotential(fake_pot, func)
"""))
fine('fk-blow', ['C36', 'C10'], (R, BLOW, """        best = simplex_final[0]
        simplex_blowup = 1.5 * simplex_final - 0.5 * best
"""))
fine('fk-blow2', ['C36', 'C10'], (R, BLOW, """        best, *_ = simplex_final
        simplex_blowup = best + (simplex_final - best) * 3 / 2
"""))
