C = 'search/_controller.py'
S = 'search/result/_search_result_container.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


ACC = """        if not (res.success and res.value <= self.gap_threshold):  # pylint: disable=no-else-return
            self.rejected_results.append(res)
            return False
        else:
            self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)
            return True
"""
broken('acc-nan', ['C11'], (S, "not (res.success and res.value <= self.gap_threshold)", "(not res.success) or res.value > self.gap_threshold"))
broken('acc-lt', ['C11'], (S, "res.value <= self.gap_threshold", "res.value < self.gap_threshold"))
broken('acc-nosuccess', ['C11'], (S, "res.success and res.value <= self.gap_threshold", "res.value <= self.gap_threshold"))
broken('acc-drop', ['C11'], (S, "            self.rejected_results.append(res)\n            return False", "            if res.success:\n                self.rejected_results.append(res)\n            return False"))
broken('acc-twice', ['C11'], (S, "            self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)\n            return True", "            self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)\n            self.rejected_results.append(res)\n            return True"))
broken('acc-all', ['C11'], (S, "return self.nodes.values() + self.rejected_results", "return self.nodes.values()"))
broken('acc-refine-all', ['C11', 'C12'], (C, "        is_node = self.state.result.add_result(result)\n        if is_node and", "        self.state.result.add_result(result)\n        if result.success and"))
broken('acc-abs', ['C11'], (S, "res.value <= self.gap_threshold", "res.value <= 10 * self.gap_threshold"))
fine('acc-invert', ['C11', 'C12', 'C02'], (S, ACC, """        is_node = bool(res.success) and res.value <= self.gap_threshold
        if is_node:
            frac = self.coordinate_system.get_frac(res.pos)
            self.nodes.add_point(frac, res)
        else:
            self.rejected_results.append(res)
        return is_node
"""))
fine('acc-helper', ['C11', 'C12', 'C02'], (S, ACC, """        if self._is_node(res):
            self._store_node(res)
            return True
        self.rejected_results.append(res)
        return False

    def _is_node(self, res):
        if not res.success:
            return False
        return res.value <= self.gap_threshold

    def _store_node(self, res):
        self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)
"""))
fine('acc-all2', ['C11'], (S, "return self.nodes.values() + self.rejected_results", "return [*self.nodes.values(), *self.rejected_results]"))

CHK = """        count = 0
        for dist in self.state.result.get_refined_neighbour_distance_iterator(
            pos
        ):
            if dist < self.dist_cutoff:
                count += 1
            if count > count_cutoff:
                return False
        return True
"""
broken('ref-ge', ['C12'], (C, "            if count > count_cutoff:", "            if count >= count_cutoff:"))
broken('ref-once', ['C12'], (C, "            if count > count_cutoff:\n                return False\n        return True", "            if count > count_cutoff + 1:\n                return False\n        return True"))
broken('ref-nodes', ['C12'], (C, "self.state.result.get_refined_neighbour_distance_iterator(", "self.state.result.get_neighbour_distance_iterator("))
broken('ref-default', ['C12'], (C, "                                    count_cutoff=self.recheck_count_cutoff\n", ""))
broken('ref-scaled', ['C12'], (C, "            if dist < self.dist_cutoff:\n                count += 1\n            if", "            if dist < 0.5 * self.dist_cutoff:\n                count += 1\n            if"))
broken('ref-all-dist', ['C12'], (C, "            if dist < self.dist_cutoff:\n                count += 1\n            if", "            if dist > 0:\n                count += 1\n            if"))
broken('ref-norecheck', ['C12'], (C, "(not self.recheck_pos_dist) or", "self.recheck_pos_dist or"))
broken('ref-record-discarded', ['C12'], (C, """                                self.state.result.set_refined(np.array(pos))
                            else:
""", """                            else:
"""), (C, """                            pos = self.state.position_queue.pop_queued()
""", """                            pos = self.state.position_queue.pop_queued()
                            self.state.result.set_refined(np.array(pos))
"""))
broken('ref-minus', ['C12'], (C, "pos + self.refinement_stencil", "pos - self.refinement_stencil"))
broken('ref-unscaled', ['C12'], (C, "self.refinement_stencil = refinement_stencil * self.dist_cutoff", "self.refinement_stencil = refinement_stencil * feature_size"))
broken('ref-scaled-auto-only', ['C12'], (C, "            refinement_stencil = get_auto_stencil(dim=self.dim)\n        if refinement_stencil is not None:\n            self.refinement_stencil = refinement_stencil * self.dist_cutoff\n        else:\n            self.refinement_stencil = None", "            self.refinement_stencil = get_auto_stencil(dim=self.dim) * self.dist_cutoff\n        else:\n            self.refinement_stencil = refinement_stencil"))
broken('ref-queue-always', ['C12'], (C, "            if self._check_pos_refinement(pos):\n                SEARCH_LOGGER.info('Scheduling refinement around node.')\n", "            if self._check_pos_refinement(pos, count_cutoff=self.recheck_count_cutoff + 1):\n"))
broken('ref-queue-start', ['C12'], (C, "self.state.position_queue.add_objects([pos])", "self.state.position_queue.add_objects([np.zeros(self.dim)])"))
fine('ref-sum', ['C12', 'C13'], (C, CHK, """        close = sum(
            1 for dist in self.state.result.get_refined_neighbour_distance_iterator(pos)
            if dist < self.dist_cutoff
        )
        return close <= count_cutoff
"""))
fine('ref-list', ['C12', 'C13'], (C, CHK, """        close = [
            dist for dist in self.state.result.get_refined_neighbour_distance_iterator(pos)
            if dist < self.dist_cutoff
        ]
        return not len(close) > count_cutoff
"""))
fine('ref-bools', ['C12', 'C13'], (C, CHK, """        distances = self.state.result.get_refined_neighbour_distance_iterator(pos)
        num_close = sum(dist < self.dist_cutoff for dist in distances)
        if num_close > count_cutoff:
            return False
        return True
"""))
fine('ref-numpy', ['C12', 'C13'], (C, CHK, """        distances = np.array(list(self.state.result.get_refined_neighbour_distance_iterator(pos)))
        return np.sum(distances < self.dist_cutoff) <= count_cutoff
"""))
fine('ref-decrement', ['C12', 'C13'], (C, CHK, """        allowed = count_cutoff
        for dist in self.state.result.get_refined_neighbour_distance_iterator(pos):
            if dist >= self.dist_cutoff:
                continue
            if allowed == 0:
                return False
            allowed -= 1
        return True
"""))
fine('ref-order', ['C12', 'C05'], (C, """                                self.state.simplex_queue.add_objects(
                                    pos + self.refinement_stencil
                                )
                                self.state.result.set_refined(np.array(pos))
""", """                                start = np.array(pos)
                                self.state.result.set_refined(start)
                                self.state.simplex_queue.add_objects(
                                    [start + simplex for simplex in self.refinement_stencil]
                                )
"""))
fine('ref-early', ['C11', 'C12', 'C05'], (C, """        is_node = self.state.result.add_result(result)
        if is_node and self.refinement_stencil is not None:
            pos = result.pos
            SEARCH_LOGGER.info('Found node at position {}'.format(pos))
            if self._check_pos_refinement(pos):
                SEARCH_LOGGER.info('Scheduling refinement around node.')
                self.state.position_queue.add_objects([pos])
""", """        if not self.state.result.add_result(result):
            return
        if self.refinement_stencil is None:
            return
        if not self._check_pos_refinement(result.pos):
            return
        self.state.position_queue.add_objects((result.pos, ))
"""))

SIM = """        count = 0
        for pos in simplex:
            for dist in self.state.result.get_neighbour_distance_iterator(pos):
                if dist < self.dist_cutoff:
                    count += 1
                    if count > self.simplex_check_cutoff:
                        return False
                    break
        return True
"""
broken('sim-nobreak', ['C13'], (C, "                        return False\n                    break\n        return True", "                        return False\n        return True"))
broken('sim-ge', ['C13'], (C, "                    if count > self.simplex_check_cutoff:", "                    if count >= self.simplex_check_cutoff:"))
broken('sim-outer-break', ['C13'], (C, SIM, """        return not any(
            dist < self.dist_cutoff
            for pos in simplex
            for dist in self.state.result.get_neighbour_distance_iterator(pos)
        )
"""))
broken('sim-refined', ['C13'], (C, "self.state.result.get_neighbour_distance_iterator(pos)", "self.state.result.get_refined_neighbour_distance_iterator(pos)"))
broken('sim-gt', ['C13'], (C, SIM, SIM.replace("dist < self", "dist > self")))
broken('sim-reset', ['C13'], (C, SIM, SIM.replace("        count = 0\n        for pos in simplex:\n", "        for pos in simplex:\n            count = 0\n")))
broken('sim-shift', ['C13'], (C, "self.schedule_minimization(simplex)\n", "self.schedule_minimization(np.zeros(self.dim))\n"))
broken('sim-inverted', ['C13'], (C, "if self._check_simplex(simplex):", "if not self._check_simplex(simplex):"))
fine('sim-any', ['C13', 'C05'], (C, SIM, """        count = 0
        for pos in simplex:
            if any(dist < self.dist_cutoff for dist in self.state.result.get_neighbour_distance_iterator(pos)):
                count += 1
        return count <= self.simplex_check_cutoff
"""))
fine('sim-sum', ['C13'], (C, SIM, """        close = sum(
            1 for pos in simplex
            if self._is_close(pos)
        )
        return close <= self.simplex_check_cutoff

    def _is_close(self, pos):
        for dist in self.state.result.get_neighbour_distance_iterator(pos):
            if dist < self.dist_cutoff:
                return True
        return False
"""))
fine('sim-min', ['C13'], (C, SIM, """        distances = [min(self.state.result.get_neighbour_distance_iterator(pos), default=float('inf')) for pos in simplex]
        return len([d for d in distances if d < self.dist_cutoff]) <= self.simplex_check_cutoff
"""))
fine('sim-enum', ['C13'], (C, SIM, """        remaining = self.simplex_check_cutoff
        for pos in simplex:
            near = False
            for dist in self.state.result.get_neighbour_distance_iterator(pos):
                if self.dist_cutoff > dist:
                    near = True
                    break
            if near:
                remaining -= 1
                if remaining < 0:
                    return False
        return True
"""))

# stopping early
C_LOOP = """                count += 1
            if count > count_cutoff:
                return False
"""
V_LOOP = """                        return False
                    break
        return True"""
broken('stop-first', ['C12'], (C, C_LOOP, """                count += 1
            else:
                break
            if count > count_cutoff:
                return False
"""))
broken('stop-found', ['C12'], (C, C_LOOP, """                count += 1
                break
        if count > count_cutoff:
            return False
"""))
broken('stop-return', ['C12'], (C, C_LOOP, C_LOOP + "            return True\n"))
broken('stop-queue', ['C12'], (C, "if self._check_pos_refinement(pos):", "if not self.state.position_queue.has_queued or self._check_pos_refinement(pos):"))
broken('stop-dist', ['C13'], (C, V_LOOP, V_LOOP.replace("                    break", "                break")))
broken('stop-vertex', ['C13'], (C, V_LOOP, V_LOOP.replace("                    break\n", "                    break\n            else:\n                break\n")))
broken('stop-slice', ['C13'], (C, "        for pos in simplex:\n", "        for pos in simplex[1:]:\n"))
broken('stop-islice', ['C13'], (C, "        for pos in simplex:\n", "        for pos in simplex[:-1]:\n"))
fine('stop-enough', ['C12'], (C, C_LOOP + "        return True", """                count += 1
            if count > count_cutoff:
                break
        return count <= count_cutoff"""))
fine('stop-flag', ['C12'], (C, C_LOOP + "        return True", """                count += 1
            if count > count_cutoff:
                far = False
                break
        else:
            far = True
        return far"""))
fine('stop-list', ['C12', 'C13'], (C, "        for pos in simplex:\n", "        for pos in list(simplex):\n"), (C, """        for dist in self.state.result.get_refined_neighbour_distance_iterator(
            pos
        ):
""", """        for dist in reversed(list(self.state.result.get_refined_neighbour_distance_iterator(pos))):
"""))
fine('stop-index', ['C13'], (C, "        for pos in simplex:\n", "        for i in range(len(simplex)):\n            pos = simplex[i]\n"))
