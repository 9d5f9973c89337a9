CS = 'coordinate_system.py'
RC = 'search/result/_search_result_container.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


NORM = "            return ((pos - self._lower_limits) %\n                    self.size) + self._lower_limits\n"
FRAC = "        frac = (pos - self._lower_limits) / self.size\n        if self.periodic:\n            frac %= 1\n        return frac\n"
DIST = "            delta = (pos2 - pos1) % self.size\n            delta = np.minimum(self.size - delta, delta)  # pylint: disable=assignment-from-no-return,useless-suppression\n"
VEC = "            delta = (pos2 - pos1) % self.size\n            delta_negative = delta - self.size\n            res = np.where(-delta_negative < delta, delta_negative, delta)\n"
AVG = "            origin = positions[0]\n            deltas = [self.connecting_vector(origin, pos) for pos in positions]\n            return self.normalize_position(\n                origin + np.average(deltas, axis=0)\n            )\n"
RET = "return la.norm(delta, axis=-1)"
B = ['C14']
broken('no-mod', B, (CS, NORM, "            return (pos % self.size) + self._lower_limits\n"))
broken('no-noback', B, (CS, NORM, "            return (pos - self._lower_limits) % self.size\n"))
broken('no-modonly', B, (CS, NORM, "            return pos % self.size\n"))
broken('no-fmod', B, (CS, NORM, "            return np.clip(pos, self._lower_limits, self._upper_limits)\n"))
broken('no-upper', B, (CS, NORM, "            return pos - self.size * np.floor((pos - self._upper_limits) / self.size)\n"))
broken('no-round', B, (CS, NORM, "            return pos - self.size * np.round((pos - self._lower_limits) / self.size)\n"))
broken('no-nonper', B, (CS, "        else:\n            return pos\n", "        else:\n            return np.minimum(np.maximum(pos, self._lower_limits), self._upper_limits)\n"))
broken('no-swap', B, (CS, "        if self.periodic:\n            return ((pos", "        if not self.periodic:\n            return ((pos"))
broken('fr-nomod', B, (CS, "        if self.periodic:\n            frac %= 1\n", ""))
broken('fr-always', B, (CS, "        if self.periodic:\n            frac %= 1\n", "        frac = frac % 1\n"))
broken('fr-lower', B, (CS, FRAC, "        frac = pos / self.size\n        if self.periodic:\n            frac %= 1\n        return frac\n"))
broken('fr-shift', B, (CS, FRAC, "        frac = (pos - self._lower_limits) / self.size\n        if self.periodic:\n            frac = (frac + 0.5) % 1 - 0.5\n        return frac\n"))
broken('ps-order', B, (CS, "return (frac * self.size) + self._lower_limits", "return (frac + self._lower_limits) * self.size"))
broken('ps-upper', B, (CS, "return (frac * self.size) + self._lower_limits", "return (frac * self._upper_limits) + self._lower_limits"))
broken('li-sort', B, (CS, "np.array([sorted(x) for x in limits])", "np.array([tuple(x) for x in limits])"))
broken('li-size', B, (CS, "self.size = self._upper_limits - self._lower_limits", "self.size = self._upper_limits"))
broken('av-plain', B, (CS, AVG, "            return self.normalize_position(np.average(positions, axis=0))\n"))
broken('av-nonorm', B, (CS, AVG, "            origin = positions[0]\n            deltas = [self.connecting_vector(origin, pos) for pos in positions]\n            return origin + np.average(deltas, axis=0)\n"))
broken('av-noorigin', B, (CS, AVG, "            origin = positions[0]\n            deltas = [self.connecting_vector(origin, pos) for pos in positions]\n            return self.normalize_position(np.average(deltas, axis=0))\n"))
broken('av-tail', B, (CS, "for pos in positions]\n            return self.norm", "for pos in positions[1:]]\n            return self.norm"))
broken('av-reverse', B, (CS, "self.connecting_vector(origin, pos)", "self.connecting_vector(pos, origin)"))
broken('av-axis', B, (CS, "            return np.average(positions, axis=0)", "            return np.average(positions)"))
broken('st-raw', B, (RC, "        res.pos = self.coordinate_system.normalize_position(res.pos)\n", ""))
broken('st-some', B, (RC, "        res.pos = self.coordinate_system.normalize_position(res.pos)\n", "        if res.success:\n            res.pos = self.coordinate_system.normalize_position(res.pos)\n"))
F = ['C14', 'C15']
fine('no-ok-floor', F, (CS, NORM, "            return pos - self.size * np.floor((pos - self._lower_limits) / self.size)\n"))
fine('no-ok-frac', F, (CS, NORM, "            return self.get_pos(self.get_frac(pos))\n"))
fine('no-ok-np', F, (CS, NORM, "            shifted = np.mod(np.subtract(pos, self._lower_limits), self.size)\n            return self._lower_limits + shifted\n"))
fine('no-ok-inv', F, (CS, "        if self.periodic:\n            return ((pos - self._lower_limits) %\n                    self.size) + self._lower_limits\n        else:\n            return pos\n", "        if not self.periodic:\n            return pos\n        low = self.limits[:, 0]\n        return low + (pos - low) % (self.limits[:, 1] - low)\n"))
fine('fr-ok', F, (CS, FRAC, "        frac = (pos - self._lower_limits) / self.size\n        return frac % 1 if self.periodic else frac\n"))
fine('fr-ok-floor', F, (CS, FRAC, "        frac = np.divide(pos - self._lower_limits, self.size)\n        if self.periodic:\n            return frac - np.floor(frac)\n        return frac\n"))
fine('li-ok', F, (CS, "np.array([sorted(x) for x in limits])", "np.sort(np.array(limits), axis=-1)"))
fine('li-ok2', F, (CS, "np.array([sorted(x) for x in limits])", "np.array([(min(x), max(x)) for x in limits])"))
fine('li-ok3', F, (CS, "        self.size = self._upper_limits - self._lower_limits\n", "        lower, upper = self.limits[:, 0], self.limits[:, 1]\n        self.size = upper - lower\n"))
fine('av-ok-mean', F, (CS, AVG, "            first = positions[0]\n            shift = np.mean([self.connecting_vector(first, pos) for pos in positions], axis=0)\n            return self.normalize_position(first + shift)\n"))
fine('av-ok-images', F, (CS, AVG, "            origin = positions[0]\n            images = [origin + self.connecting_vector(origin, pos) for pos in positions]\n            return self.normalize_position(np.average(images, axis=0))\n"))
fine('av-ok-loop', F, (CS, AVG, "            origin = positions[0]\n            deltas = []\n            for pos in positions:\n                deltas.append(self.connecting_vector(origin, pos))\n            return self.normalize_position(\n                origin + np.average(deltas, axis=0)\n            )\n"))
fine('st-ok', F, (RC, "        res.pos = self.coordinate_system.normalize_position(res.pos)\n", "        normalized = self.coordinate_system.normalize_position(res.pos)\n        res.pos = normalized\n"))

B = ['C15']
broken('di-nomin', B, (CS, DIST, "            delta = (pos2 - pos1) % self.size\n"))
broken('di-max', B, (CS, "np.minimum(self.size - delta, delta)", "np.maximum(self.size - delta, delta)"))
broken('di-abs', B, (CS, DIST, "            delta = np.abs(pos2 - pos1)\n            delta = np.minimum(np.abs(self.size - delta), delta)\n"))
broken('di-one', B, (CS, "            delta = (pos2 - pos1) % self.size\n            delta = np.min", "            delta = (pos2 - pos1) % 1\n            delta = np.min"))
broken('di-half', B, (CS, DIST, "            delta = (pos2 - pos1 + self.size / 2) % self.size\n"))
broken('di-axis', B, (CS, RET, "return la.norm(delta)"))
broken('di-axis0', B, (CS, RET, "return la.norm(delta, axis=0)"))
broken('di-ord', B, (CS, RET, "return la.norm(delta, 1, axis=-1)"))
broken('di-nonper', B, (CS, "            delta = pos2 - pos1\n        return", "            delta = (pos2 - pos1) % self.size\n        return"))
broken('ve-flip', B, (CS, VEC, VEC.replace('-delta_negative < delta', '-delta_negative > delta')))
broken('ve-dir', B, (CS, VEC, VEC.replace('pos2 - pos1', 'pos1 - pos2')))
broken('ve-dirnp', B, (CS, "            return pos2 - pos1\n", "            return pos1 - pos2\n"))
broken('ve-third', B, (CS, VEC, VEC.replace('-delta_negative < delta', 'delta > self.size / 3')))
broken('ve-sign', B, (CS, VEC, VEC.replace('delta_negative, delta)', '-delta_negative, delta)')))
fine('di-ok-round', F, (CS, DIST, "            delta = pos2 - pos1\n            delta = delta - self.size * np.round(delta / self.size)\n"))
fine('di-ok-vec', F, (CS, "        if self.periodic:\n" + DIST + "        else:\n            delta = pos2 - pos1\n        return", "        delta = pos2 - pos1\n        if self.periodic:\n            delta = delta % self.size\n            delta = np.where(delta > self.size / 2, self.size - delta, delta)\n        return"))
fine('di-ok-sym', F, (CS, DIST, "            half = 0.5 * self.size\n            delta = np.abs((pos1 - pos2 + half) % self.size - half)\n"))
fine('di-ok-sqrt', F, (CS, RET, "return np.sqrt(np.sum(delta**2, axis=-1))"))
fine('di-ok-np', F, (CS, RET, "return np.linalg.norm(delta, axis=-1)"))
fine('ve-ok-half', F, (CS, VEC, "            delta = (pos2 - pos1) % self.size\n            res = np.where(delta > self.size / 2, delta - self.size, delta)\n"))
fine('ve-ok-mid', F, (CS, VEC, "            half = self.size / 2\n            res = (pos2 - pos1 + half) % self.size - half\n"))
fine('ve-ok-mask', F, (CS, VEC, "            res = (pos2 - pos1) % self.size\n            far = res > self.size / 2\n            res[far] = (res - self.size)[far]\n"))
