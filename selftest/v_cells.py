L = 'search/result/_cell_list.py'
R = 'search/result/_search_result_container.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


B = ['C16']
NUM = """            num_cells = np.minimum(  # pylint: disable=assignment-from-no-return,useless-suppression
                100,
                np.maximum(
                    1,
                    np.array(
                        self.coordinate_system.size / self.dist_cutoff,
                        dtype=int
                    )
                )
            )
"""
INT = """                    np.array(
                        self.coordinate_system.size / self.dist_cutoff,
                        dtype=int
                    )
"""
def num(s):
    return (R, NUM, '            num_cells = ' + s + '\n')
SZ = 'self.coordinate_system.size'
broken('nu-ceil', B, num('np.minimum(100, np.ceil(%s / self.dist_cutoff).astype(int))' % SZ))
broken('nu-round', B, num('np.minimum(100, np.maximum(1, np.rint(%s / self.dist_cutoff).astype(int)))' % SZ))
broken('nu-plus', B, num('np.minimum(100, np.maximum(1, np.array(%s / self.dist_cutoff, dtype=int) + 1))' % SZ))
broken('nu-two', B, num('np.minimum(100, np.maximum(2, np.array(%s / self.dist_cutoff, dtype=int)))' % SZ))
broken('nu-nomax', B, num('np.minimum(100, np.array(%s / self.dist_cutoff, dtype=int))' % SZ))
broken('nu-half', B, num('np.minimum(100, np.maximum(1, np.array(%s / (0.5 * self.dist_cutoff), dtype=int)))' % SZ))
broken('nu-twice', B, num('np.minimum(100, np.maximum(1, np.array(2 * %s / self.dist_cutoff, dtype=int)))' % SZ))
broken('nu-const', B, num('np.full_like(%s, 10)' % SZ))
broken('nu-swap', B, num('np.maximum(3, np.minimum(100, np.array(%s / self.dist_cutoff, dtype=int)))' % SZ))
broken('nu-per', B, (R, "            num_cells=num_cells, periodic=self.coordinate_system.periodic\n        )\n        self.rejected", "            num_cells=num_cells, periodic=True\n        )\n        self.rejected"))
broken('nu-notper', B, (R, "            num_cells=num_cells, periodic=self.coordinate_system.periodic\n        )\n        for res", "            num_cells=num_cells, periodic=not self.coordinate_system.periodic\n        )\n        for res"))
VALS = "        vals = np.array(frac * self.num_cells, dtype=int)\n"
CL = "            vals = np.maximum(0, np.minimum(vals, self._total_num_cells - 1))  # pylint: disable=assignment-from-no-return,useless-suppression\n"
broken('ce-noclampl', B, (L, CL, "            vals = np.minimum(vals, self._total_num_cells - 1)\n"))
broken('ce-noclamph', B, (L, CL, "            vals = np.maximum(0, vals)\n"))
broken('ce-clampto', B, (L, CL, "            vals = np.maximum(0, np.minimum(vals, self._total_num_cells))\n"))
fine('ce-noplus', B, (L, "            vals += 1\n", ""))
broken('ce-mod', B, (L, CL, "            vals %= self._total_num_cells\n"))
broken('ce-nomod', B, (L, "            vals %= self._total_num_cells\n", "            pass\n"))
broken('ce-modplus', B, (L, "            vals %= self._total_num_cells\n", "            vals %= self._total_num_cells + 1\n"))
broken('ce-modminus', B, (L, "            vals %= self._total_num_cells\n", "            vals %= np.maximum(1, self._total_num_cells - 1)\n"))
broken('ce-total', B, (L, VALS, "        vals = np.array(frac * self._total_num_cells, dtype=int)\n"))
broken('ce-twice', B, (L, VALS, "        vals = np.array(2 * frac * self.num_cells, dtype=int)\n"))
broken('ce-single', B, (L, "            vals = np.where(self.num_cells > 1, vals, 0)\n", ""))
fine('ce-limits', B, (L, "            self._total_num_cells += 2  # add", "            self._total_num_cells += 1  # add"))
OFF = "list(itertools.product([-1, 0, 1], repeat=len(self.num_cells)))"
broken('ne-noleft', B, (L, "[-1, 0, 1]", "[0, 1]"))
broken('ne-nozero', B, (L, "[-1, 0, 1]", "[-1, 1]"))
broken('ne-noright', B, (L, "[-1, 0, 1]", "[-1, 0]"))
broken('ne-nomod', B, (L, "tuple(i % self._total_num_cells) for i in indices", "tuple(i) for i in indices"))
broken('ne-dup', B, (L, """            return list(
                dict.fromkeys(
                    tuple(i % self._total_num_cells) for i in indices
                )
            )
""", "            return [tuple(i % self._total_num_cells) for i in indices]\n"))
broken('ne-clip', B, (L, """            return list(
                dict.fromkeys(
                    tuple(i % self._total_num_cells) for i in indices
                )
            )
        return [""", "            pass\n        return ["))
broken('ne-gt', B, (L, "np.all(i >= 0)", "np.all(i > 0)"))
broken('ne-le', B, (L, "np.all(i < self._total_num_cells)", "np.all(i <= self._total_num_cells)"))
broken('ne-lt', B, (L, "np.all(i < self._total_num_cells)", "np.all(i < self.num_cells)"))
broken('ne-lt1', B, (L, "np.all(i < self._total_num_cells)", "np.all(i < self._total_num_cells - 1)"))
broken('ne-any', B, (L, "np.all(i < self._total_num_cells)", "np.any(i < self._total_num_cells)"))
broken('ne-slice', B, (L, "for cell_idx in self._get_neighbour_indices(idx):", "for cell_idx in self._get_neighbour_indices(idx)[1:]:"))
broken('va-slice', B, (L, "yield from self._cells[cell_idx]", "yield from self._cells[cell_idx][:10]"))
broken('va-skip', B, (L, "            yield from self._cells[cell_idx]", "            if cell_idx == idx:\n                continue\n            yield from self._cells[cell_idx]"))
broken('va-nostore', B, (L, "        self._cells[idx].append(value)\n", ""))
broken('va-frac', B, (L, "self._cells[idx].append(value)", "self._cells[idx].append(frac)"))
broken('ca-first', B, (L, "return self._neighbour_indices[idx]", "return self._neighbour_indices[idx[0]]"), (L, "self._neighbour_indices[idx] = res", "self._neighbour_indices[idx[0]] = res"))
broken('ca-key', B, (L, "self._neighbour_indices[idx] = res", "self._neighbour_indices[idx[-1]] = res"), (L, "return self._neighbour_indices[idx]", "return self._neighbour_indices[idx[-1]]"))
broken('ca-sum', B, (L, "return self._neighbour_indices[idx]", "return self._neighbour_indices[sum(idx)]"), (L, "self._neighbour_indices[idx] = res", "self._neighbour_indices[sum(idx)] = res"))
broken('ca-set', B, (L, "return self._neighbour_indices[idx]", "return self._neighbour_indices[frozenset(idx)]"), (L, "self._neighbour_indices[idx] = res", "self._neighbour_indices[frozenset(idx)] = res"))
broken('ca-sorted', B, (L, "return self._neighbour_indices[idx]", "return self._neighbour_indices[tuple(sorted(idx))]"), (L, "self._neighbour_indices[idx] = res", "self._neighbour_indices[tuple(sorted(idx))] = res"))
broken('ca-cut', B, (L, "self._neighbour_indices[idx] = res", "self._neighbour_indices[idx] = res[:-1]"))
broken('lo-shift', B, (L, "    def get_neighbour_values(self, frac):\n        idx = self.get_index(frac)\n", "    def get_neighbour_values(self, frac):\n        idx = tuple(np.array(self.get_index(frac)) + 1)\n"))
broken('lo-sep', B, (L, "    def get_neighbour_values(self, frac):\n        idx = self.get_index(frac)\n", "    def get_neighbour_values(self, frac):\n        idx = tuple(np.minimum(self.get_index(frac), self.num_cells - 1))\n"))
FILT = "return (c for c in candidates if np.any(c.pos != pos))"
broken('qu-all', B, (R, "if np.any(c.pos != pos)", "if np.all(c.pos != pos)"))
broken('qu-close', B, (R, "if np.any(c.pos != pos)", "if not np.allclose(c.pos, pos)"))
broken('qu-islice', B, (R, FILT, "import itertools\n        return itertools.islice((c for c in candidates if np.any(c.pos != pos)), 100)"))
broken('qu-pos', B, (R, "            frac=self.coordinate_system.get_frac(pos)\n        )\n        return (c for", "            frac=pos\n        )\n        return (c for"))
broken('qu-rpos', B, (R, "            frac=self.coordinate_system.get_frac(pos)\n        )\n        return (self", "            frac=pos\n        )\n        return (self"))
broken('qu-spos', B, (R, "            self.coordinate_system.get_frac(pos), pos\n", "            pos, pos\n"))
broken('qu-origin', B, (R, "self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)", "self.nodes.add_point(self.coordinate_system.get_frac(res.origin), res)"))
broken('qu-dist', B, (R, "            self.coordinate_system.distance(pos, c.pos) for c in candidates\n", "            self.coordinate_system.distance(pos, pos) for c in candidates\n"))
broken('qu-cut', B, (R, FILT, "return (c for c in candidates if self.coordinate_system.distance(c.pos, pos) > self.dist_cutoff)"))

fine('nu-floor', B, num('np.clip(np.floor(%s / self.dist_cutoff).astype(int), 1, 100)' % SZ))
fine('nu-fdiv', B, num('np.minimum(100, np.maximum(1, (%s // self.dist_cutoff).astype(int)))' % SZ))
fine('nu-clip', B, num('np.array(np.clip(%s / self.dist_cutoff, 1, 100), dtype=int)' % SZ))
fine('nu-comp', B, num('[min(100, max(1, int(s / self.dist_cutoff))) for s in %s]' % SZ))
fine('nu-coarse', B, num('np.minimum(50, np.maximum(1, np.array(%s / (2 * self.dist_cutoff), dtype=int)))' % SZ))
fine('nu-swap', B, num('np.maximum(1, np.minimum(100, (%s / self.dist_cutoff).astype(int)))' % SZ))
fine('nu-helper', B, (R, NUM, '            num_cells = self._cells_for(dist_cutoff)\n'), (R, "    def __repr__(self):", "    def _cells_for(self, cutoff):\n        ratio = self.coordinate_system.size / cutoff\n        return np.clip(ratio.astype(int), 1, 100)\n\n    def __repr__(self):"))
fine('nu-locals', B, (R, "        self.nodes = CellList(\n", "        system = self.coordinate_system\n        periodic = system.periodic\n        self.nodes = CellList(\n"), (R, "            num_cells=num_cells, periodic=self.coordinate_system.periodic\n", "            num_cells=num_cells, periodic=periodic\n", 'all'))
fine('ce-floor', B, (L, VALS, "        vals = np.floor(frac * self.num_cells).astype(int)\n"))
fine('ce-comm', B, (L, VALS, "        scaled = self.num_cells * np.asarray(frac)\n        vals = scaled.astype(int)\n"))
fine('ce-clip', B, (L, CL, "            vals = np.clip(vals, 0, self._total_num_cells - 1)\n"))
fine('ce-clip2', B, (L, "            vals += 1\n" + CL, "            vals = np.clip(vals, -1, self.num_cells) + 1\n"))
fine('ce-np', B, (L, "            vals %= self._total_num_cells\n", "            vals = np.mod(vals, self._total_num_cells)\n"))
fine('ce-min', B, (L, "            vals %= self._total_num_cells\n", "            vals = np.minimum(vals, self._total_num_cells - 1)\n"))
fine('ce-invert', B, (L, "        if not self.periodic:\n            # a single", "        if self.periodic:\n            return tuple(vals % self._total_num_cells)\n        if not self.periodic:\n            # a single"))
fine('ce-split', B, (L, "        return tuple(vals)\n", "        return tuple(int(v) for v in vals)\n"))
fine('ce-helper', B, (L, "        else:\n            # the fractional coordinate can be one, due to rounding\n            vals %= self._total_num_cells\n", "        else:\n            vals = self._wrap(vals)\n"), (L, "    def values(self):", "    def _wrap(self, idx):\n        return idx % self._total_num_cells\n\n    def values(self):"))
fine('ne-set', B, (L, """            return list(
                dict.fromkeys(
                    tuple(i % self._total_num_cells) for i in indices
                )
            )
""", "            return {tuple(i % self._total_num_cells) for i in indices}\n"))
fine('ne-loop', B, (L, """            return list(
                dict.fromkeys(
                    tuple(i % self._total_num_cells) for i in indices
                )
            )
""", "            wrapped = []\n            for i in indices:\n                key = tuple(i % self._total_num_cells)\n                if key not in wrapped:\n                    wrapped.append(key)\n            return wrapped\n"))
fine('ne-range', B, (L, "[-1, 0, 1]", "range(-1, 2)"))
fine('ne-tuple', B, (L, "[-1, 0, 1]", "(0, -1, 1)"))
fine('ne-ge', B, (L, "if np.all(i >= 0) and np.all(i < self._total_num_cells)", "if np.all((i >= 0) & (i <= self._total_num_cells - 1))"))
fine('ne-not', B, (L, "if np.all(i >= 0) and np.all(i < self._total_num_cells)", "if not (np.any(i < 0) or np.any(i >= self._total_num_cells))"))
fine('ne-all', B, (L, "if np.all(i >= 0) and np.all(i < self._total_num_cells)", "if all(0 <= x < n for x, n in zip(i, self._total_num_cells))"))
fine('ca-none', B, (L, "self._get_neighbour_indices(idx)", "self._calculate_neighbour_indices(idx)"))
fine('ca-in', B, (L, """        try:
            return self._neighbour_indices[idx]
        except KeyError:
            res = self._calculate_neighbour_indices(idx)
            self._neighbour_indices[idx] = res
            return res
""", """        if idx not in self._neighbour_indices:
            self._neighbour_indices[idx] = self._calculate_neighbour_indices(idx)
        return self._neighbour_indices[idx]
"""))
fine('ca-get', B, (L, """        try:
            return self._neighbour_indices[idx]
        except KeyError:
            res = self._calculate_neighbour_indices(idx)
            self._neighbour_indices[idx] = res
            return res
""", """        res = self._neighbour_indices.get(idx)
        if res is None:
            res = self._calculate_neighbour_indices(idx)
            self._neighbour_indices[idx] = res
        return res
"""))
fine('va-loop', B, (L, "            yield from self._cells[cell_idx]", "            for value in self._cells[cell_idx]:\n                yield value"))
fine('va-empty', B, (L, "            yield from self._cells[cell_idx]", "            cell = self._cells[cell_idx]\n            if not cell:\n                continue\n            yield from cell"))
fine('va-list', B, (L, """        for cell_idx in self._get_neighbour_indices(idx):
            yield from self._cells[cell_idx]""", """        return [value for cell_idx in self._get_neighbour_indices(idx) for value in self._cells[cell_idx]]"""))
fine('va-chain', B, (L, """        for cell_idx in self._get_neighbour_indices(idx):
            yield from self._cells[cell_idx]""", """        return itertools.chain.from_iterable(self._cells[cell_idx] for cell_idx in self._get_neighbour_indices(idx))"""))
fine('va-inline', B, (L, "        idx = self.get_index(frac)\n        self._cells[idx].append(value)\n", "        cell = self._cells[self.get_index(frac)]\n        cell.append(value)\n"))
fine('qu-not', B, (R, "if np.any(c.pos != pos)", "if not np.all(c.pos == pos)"))
fine('qu-eq', B, (R, "if np.any(c.pos != pos)", "if not np.array_equal(c.pos, pos)"))
fine('qu-meth', B, (R, "if np.any(c.pos != pos)", "if (c.pos != pos).any()"))
fine('qu-loop', B, (R, "        " + FILT, "        for cand in candidates:\n            if np.any(cand.pos != pos):\n                yield cand"))
fine('qu-swap', B, (R, "            self.coordinate_system.distance(pos, c.pos) for c in candidates\n", "            self.coordinate_system.distance(c.pos, pos) for c in candidates\n"))
fine('qu-local', B, (R, "        candidates = self.refined_results.get_neighbour_values(\n            frac=self.coordinate_system.get_frac(pos)\n        )\n        return (self.coordinate_system.distance(pos, c) for c in candidates)", "        system = self.coordinate_system\n        values = self.refined_results.get_neighbour_values(system.get_frac(pos))\n        return map(lambda c: system.distance(pos, c), values)"))
fine('qu-list', B, (R, "        positions = np.array([c.pos for c in candidates])\n", "        found = list(candidates)\n        positions = np.array([c.pos for c in found])\n"))
fine('qu-noop', B, (R, "        candidates = self.nodes.get_neighbour_values(\n", "        _ = None\n        candidates = self.nodes.get_neighbour_values(\n"))
