"""Behaviour-keeping edits for refactor.py: name -> [(path, old, new)]."""
C = 'search/_controller.py'
N = 'search/_minimization/_nelder_mead.py'
R = 'search/_minimization/_run.py'
F = 'search/_fake_potential.py'
S = 'search/result/_search_result_container.py'

ALL = {}

ALL['ctor-split'] = [(C, """        if isinstance(
            refinement_stencil, str
        ) and refinement_stencil == 'auto':
            refinement_stencil = get_auto_stencil(dim=self.dim)
        if refinement_stencil is not None:
            self.refinement_stencil = refinement_stencil * self.dist_cutoff
        else:
            self.refinement_stencil = None
        self.num_minimize_parallel = num_minimize_parallel
        self.nelder_mead_kwargs = ChainMap(
            nelder_mead_kwargs, {
                'ftol': 0.05 * gap_threshold,
                'xtol': 0.03 * self.dist_cutoff
            }
        )

        self.task_futures = set()
        self.recheck_pos_dist = recheck_pos_dist
        self.recheck_count_cutoff = recheck_count_cutoff
        self.simplex_check_cutoff = simplex_check_cutoff
""", """        self._init_stencil(refinement_stencil)
        self.num_minimize_parallel = num_minimize_parallel
        self._init_nelder_mead(nelder_mead_kwargs, gap_threshold)

        self.task_futures = set()
        self._init_cutoffs(
            recheck_pos_dist, recheck_count_cutoff, simplex_check_cutoff
        )

    def _init_stencil(self, stencil):
        if isinstance(stencil, str) and stencil == 'auto':
            stencil = get_auto_stencil(dim=self.dim)
        self.refinement_stencil = (
            None if stencil is None else stencil * self.dist_cutoff
        )

    def _init_nelder_mead(self, user_kwargs, gap_threshold):
        defaults = {
            'ftol': 0.05 * gap_threshold,
            'xtol': 0.03 * self.dist_cutoff,
        }
        self.nelder_mead_kwargs = ChainMap(user_kwargs, defaults)

    def _init_cutoffs(self, pos_dist, count, simplex):
        self.recheck_pos_dist = pos_dist
        self.recheck_count_cutoff = count
        self.simplex_check_cutoff = simplex
""")]

ALL['state-split'] = [(C, """        self.state = self.create_state(
            initial_state=initial_state,
            load=load,
            load_quiet=load_quiet,
            initial_mesh_size=initial_mesh_size,
            force_initial_mesh=force_initial_mesh,
            gap_threshold=gap_threshold,
            dist_cutoff=self.dist_cutoff
        )
        if use_fake_potential:
            self.fake_potential = FakePotential(
                result=self.state.result,
                width=self.dist_cutoff,
            )
        else:
            self.fake_potential = None
""", """        self.state = self.create_state(
            initial_state=initial_state,
            load=load,
            load_quiet=load_quiet,
            initial_mesh_size=initial_mesh_size,
            force_initial_mesh=force_initial_mesh,
            gap_threshold=gap_threshold,
            dist_cutoff=self.dist_cutoff
        )
        self.fake_potential = self._create_fake_potential(use_fake_potential)
"""), (C, """    @staticmethod
    def check_dimensions(""", """    def _create_fake_potential(self, use_fake_potential):
        if not use_fake_potential:
            return None
        return FakePotential(
            result=self.state.result, width=self.dist_cutoff
        )

    @staticmethod
    def check_dimensions("""), (C, """        if load:
            if initial_state is not None:
                raise ValueError(
                    "Cannot set the initial state explicitly and setting 'load=True' simultaneously."
                )
            try:
                initial_state = io.load(self.save_file)
            except IOError as exc:
                if not load_quiet:
                    raise exc
        if initial_state is not None:
            result = SearchResultContainer(
                coordinate_system=self.coordinate_system,
                # copies, because adding a result changes its position
                minimization_results=[
                    copy.copy(res)
                    for res in initial_state.result.minimization_results
                ],
                gap_threshold=gap_threshold,
                dist_cutoff=dist_cutoff,
                refined_results=initial_state.result.refined_results
            )
            simplex_queue = SimplexQueue(
                objects=initial_state.simplex_queue.objects
            )
            position_queue = PositionQueue(
                objects=initial_state.position_queue.objects
            )
            if force_initial_mesh:
                simplex_queue.add_objects(
                    self.get_initial_simplices(
                        initial_mesh_size=initial_mesh_size
                    )
                )
        else:
            result = SearchResultContainer(
                coordinate_system=self.coordinate_system,
                gap_threshold=gap_threshold,
                dist_cutoff=dist_cutoff,
            )
            simplex_queue = SimplexQueue(
                self.get_initial_simplices(initial_mesh_size)
            )
            position_queue = PositionQueue()
        return ControllerState(
            result=result,
            simplex_queue=simplex_queue,
            position_queue=position_queue
        )
""", """        if load:
            if initial_state is not None:
                raise ValueError(
                    "Cannot set the initial state explicitly and setting 'load=True' simultaneously."
                )
            initial_state = self._try_load(quiet=load_quiet)
        if initial_state is None:
            return self._fresh_state(
                initial_mesh_size, gap_threshold, dist_cutoff
            )
        state = self._continued_state(
            initial_state, gap_threshold=gap_threshold, dist_cutoff=dist_cutoff
        )
        if force_initial_mesh:
            simplices = self.get_initial_simplices(initial_mesh_size)
            state.simplex_queue.add_objects(simplices)
        return state

    def _try_load(self, quiet):
        try:
            return io.load(self.save_file)
        except IOError as exc:
            if not quiet:
                raise exc
            return None

    def _fresh_state(self, initial_mesh_size, gap_threshold, dist_cutoff):
        result = SearchResultContainer(
            coordinate_system=self.coordinate_system,
            gap_threshold=gap_threshold,
            dist_cutoff=dist_cutoff,
        )
        return ControllerState(
            result=result,
            simplex_queue=SimplexQueue(
                self.get_initial_simplices(initial_mesh_size)
            ),
            position_queue=PositionQueue()
        )

    def _continued_state(self, old, *, gap_threshold, dist_cutoff):
        # copies, because adding a result changes its position
        results = [copy.copy(res) for res in old.result.minimization_results]
        return ControllerState(
            result=SearchResultContainer(
                coordinate_system=self.coordinate_system,
                minimization_results=results,
                gap_threshold=gap_threshold,
                dist_cutoff=dist_cutoff,
                refined_results=old.result.refined_results
            ),
            simplex_queue=SimplexQueue(objects=old.simplex_queue.objects),
            position_queue=PositionQueue(objects=old.position_queue.objects)
        )
""")]

ALL['tasks-split'] = [(C, """                while (
                    self.state.simplex_queue.num_running <
                    self.num_minimize_parallel
                ):
                    while not self.state.simplex_queue.has_queued:
                        if self.state.position_queue.has_queued:
                            pos = self.state.position_queue.pop_queued()
                            if self.refinement_stencil is not None and (
                                (not self.recheck_pos_dist) or
                                self._check_pos_refinement(
                                    pos,
                                    count_cutoff=self.recheck_count_cutoff
                                )
                            ):
                                self.state.simplex_queue.add_objects(
                                    pos + self.refinement_stencil
                                )
                                self.state.result.set_refined(np.array(pos))
                            else:
                                SEARCH_LOGGER.debug(
                                    'Discarding refinement of position {}'.
                                    format(pos)
                                )
                        else:
                            break
                    if self.state.simplex_queue.has_queued:
                        simplex = self.state.simplex_queue.pop_queued()
                        if self._check_simplex(simplex):
                            self.schedule_minimization(simplex)
                        else:
                            self.state.simplex_queue.set_finished(simplex)
                    else:
                        break

                await asyncio.sleep(0.)

                # Retrieve all exceptions, to avoid 'exception never retrieved'
                # warning, but raise only the first one.
                done_futures = [fut for fut in self.task_futures if fut.done()]
                exceptions = [fut.exception() for fut in done_futures]
                exceptions = [exc for exc in exceptions if exc is not None]
                if exceptions:
                    raise exceptions[0]

                self.task_futures.difference_update(done_futures)
        await asyncio.gather(*self.task_futures)
""", """                self._schedule_available()
                await asyncio.sleep(0.)
                self._collect_finished()
        await asyncio.gather(*self.task_futures)

    def _schedule_available(self):
        queue = self.state.simplex_queue
        while queue.num_running < self.num_minimize_parallel:
            self._refine_positions()
            if not queue.has_queued:
                return
            simplex = queue.pop_queued()
            if not self._check_simplex(simplex):
                queue.set_finished(simplex)
                continue
            self.schedule_minimization(simplex)

    def _refine_positions(self):
        state = self.state
        while state.position_queue.has_queued and not state.simplex_queue.has_queued:
            self._refine_position(state.position_queue.pop_queued())

    def _refine_position(self, pos):
        if self._should_refine(pos):
            self.state.simplex_queue.add_objects(pos + self.refinement_stencil)
            self.state.result.set_refined(np.array(pos))
            return
        SEARCH_LOGGER.debug('Discarding refinement of position {}'.format(pos))

    def _should_refine(self, pos):
        if self.refinement_stencil is None:
            return False
        if not self.recheck_pos_dist:
            return True
        return self._check_pos_refinement(
            pos, count_cutoff=self.recheck_count_cutoff
        )

    def _collect_finished(self):
        # Retrieve all exceptions, to avoid 'exception never retrieved'
        # warning, but raise only the first one.
        finished, errors = [], []
        for future in self.task_futures:
            if future.done():
                finished.append(future)
                exc = future.exception()
                if exc is not None:
                    errors.append(exc)
        if errors:
            raise errors[0]
        self.task_futures.difference_update(finished)
""")]

ALL['near-helper'] = [(C, """        count = 0
        for dist in self.state.result.get_refined_neighbour_distance_iterator(
            pos
        ):
            if dist < self.dist_cutoff:
                count += 1
            if count > count_cutoff:
                return False
        return True
""", """        distances = self.state.result.get_refined_neighbour_distance_iterator(
            pos
        )
        num_close = sum(1 for dist in distances if self._is_close(dist))
        return num_close <= count_cutoff

    def _is_close(self, dist):
        return dist < self.dist_cutoff
"""), (C, """        count = 0
        for pos in simplex:
            for dist in self.state.result.get_neighbour_distance_iterator(pos):
                if dist < self.dist_cutoff:
                    count += 1
                    if count > self.simplex_check_cutoff:
                        return False
                    break
        return True
""", """        count = 0
        for pos in simplex:
            if self._near_node(pos):
                count += 1
            if count > self.simplex_check_cutoff:
                return False
        return True

    def _near_node(self, pos):
        distances = self.state.result.get_neighbour_distance_iterator(pos)
        return any(self._is_close(dist) for dist in distances)
""")]

ALL['save-split'] = [(C, """        if self.save_file and self.state.needs_saving:
            with tempfile.NamedTemporaryFile(
                dir=os.path.dirname(self.save_file), delete=False
            ) as tmpf:
                try:
                    io.save(self.state, tmpf.name)
                    os.rename(tmpf.name, self.save_file)
                    self.state.needs_saving = False
                except Exception as exc:
                    os.remove(tmpf.name)
                    raise exc
""", """        if not self.save_file or not self.state.needs_saving:
            return
        directory = os.path.dirname(self.save_file)
        with tempfile.NamedTemporaryFile(dir=directory, delete=False) as tmpf:
            self._write_state(tmpf.name)

    def _write_state(self, tmp_name):
        try:
            io.save(self.state, tmp_name)
            os.rename(tmp_name, self.save_file)
            self.state.needs_saving = False
        except Exception:
            os.remove(tmp_name)
            raise
""")]

ALL['nm-helpers'] = [(N, """        if (
            fprime_cutoff is not None
            and _get_fprime_estimate(sim=sim, fval=fsim[0]) > fprime_cutoff
        ):
            break
        with warnings""", """        if _exceeds_fprime(sim, fsim[0], fprime_cutoff):
            break
        with warnings"""), (N, """            if (
                np.max(np.ravel(np.abs(sim[1:] - sim[0]))) <= xtol
                and np.max(np.abs(fsim[0] - fsim[1:])) <= ftol
            ):
                break
""", """            if _is_converged(sim, fsim, xtol=xtol, ftol=ftol):
                break
"""), (N, """    elif (
        fprime_cutoff is not None
        and _get_fprime_estimate(sim=sim, fval=fval) > fprime_cutoff
    ):
        warnflag = 3
""", """    elif _exceeds_fprime(sim, fval, fprime_cutoff):
        warnflag = 3
"""), (N, """    ind = np.argsort(fsim)
    fsim = np.take(fsim, ind, 0)
    # sort so sim[0,:] has the lowest function value
    sim = np.take(sim, ind, 0)

    # if""", """    # sort so sim[0,:] has the lowest function value
    sim, fsim = _sort_simplex(sim, fsim)

    # if"""), (N, """        ind = np.argsort(fsim)
        sim = np.take(sim, ind, 0)
        fsim = np.take(fsim, ind, 0)
        iterations""", """        sim, fsim = _sort_simplex(sim, fsim)
        iterations"""), (N, """def _get_fprime_estimate(""", """def _sort_simplex(sim, fsim):
    order = np.argsort(fsim)
    return np.take(sim, order, 0), np.take(fsim, order, 0)


def _is_converged(sim, fsim, *, xtol, ftol):
    x_spread = np.max(np.ravel(np.abs(sim[1:] - sim[0])))
    f_spread = np.max(np.abs(fsim[0] - fsim[1:]))
    return x_spread <= xtol and f_spread <= ftol


def _exceeds_fprime(sim, fval, cutoff):
    if cutoff is None:
        return False
    return _get_fprime_estimate(sim=sim, fval=fval) > cutoff


def _get_fprime_estimate(""")]

ALL['nm-elif'] = [(N, """        else:  # fsim[0] <= fxr
            if fxr < fsim[-2]:
                sim[-1] = xr
                fsim[-1] = fxr
            else:  # fxr >= fsim[-2]
                # Perform contraction
                if fxr < fsim[-1]:
                    xc = (1 + psi * rho) * xbar - psi * rho * sim[-1]
                    fxc = await func(xc)

                    if fxc <= fxr:
                        sim[-1] = xc
                        fsim[-1] = fxc
                    else:
                        doshrink = 1
                else:
                    # Perform an inside contraction
                    xcc = (1 - psi) * xbar + psi * sim[-1]
                    fxcc = await func(xcc)

                    if fxcc < fsim[-1]:
                        sim[-1] = xcc
                        fsim[-1] = fxcc
                    else:
                        doshrink = 1

                if doshrink:
                    for j in one2np1:
                        sim[j] = sim[0] + sigma * (sim[j] - sim[0])
                        fsim[j] = await func(sim[j])
""", """        elif fxr < fsim[-2]:
            sim[-1] = xr
            fsim[-1] = fxr
        else:
            # Perform contraction, outside or inside
            if fxr < fsim[-1]:
                xc = (1 + psi * rho) * xbar - psi * rho * sim[-1]
                fxc = await func(xc)
                improved = fxc <= fxr
            else:
                xc = (1 - psi) * xbar + psi * sim[-1]
                fxc = await func(xc)
                improved = fxc < fsim[-1]

            if improved:
                sim[-1], fsim[-1] = xc, fxc
            else:
                for j in range(1, len(sim)):
                    sim[j] = sim[0] + sigma * (sim[j] - sim[0])
                    fsim[j] = await func(sim[j])
""")]

ALL['run-early'] = [(R, """    if fake_potential is not None:
        # TODO""", """    if fake_potential is None:
        return await root_nelder_mead(
            func=func, initial_simplex=initial_simplex, **nelder_mead_kwargs
        )
    return await _run_two_stages(
        func, fake_potential, initial_simplex, nelder_mead_kwargs
    )


def _enlarge(simplex, factor=1.5):
    best = simplex[0]
    return best + factor * (simplex - best)


async def _run_two_stages(
    func, fake_potential, initial_simplex, nelder_mead_kwargs
):
    if True:
        # TODO"""), (R, """        simplex_final = res_fake.simplex_history[-1]
        simplex_blowup = simplex_final[
            0] + 1.5 * (simplex_final - simplex_final[0])

        res = await root_nelder_mead(
            func=func, initial_simplex=simplex_blowup, **nelder_mead_kwargs
        )

        return JoinedMinimizationResult(child=res, ancestor=res_fake)
    else:
        return await root_nelder_mead(
            func=func, initial_simplex=initial_simplex, **nelder_mead_kwargs
        )
""", """        res = await root_nelder_mead(
            func=func,
            initial_simplex=_enlarge(res_fake.simplex_history[-1]),
            **nelder_mead_kwargs
        )

        return JoinedMinimizationResult(child=res, ancestor=res_fake)
""")]

ALL['fake-loop'] = [(F, """        if any(
            dist < self.width
            for dist in self.result.get_all_neighbour_distances(pos)
        ):
            return float('inf')
        return 0
""", """        for dist in self.result.get_all_neighbour_distances(pos):
            if dist < self.width:
                return float('inf')
        return 0
"""), (R, """    async def evaluate(x):
        return (await func(x)) + fake_pot(x)

    return evaluate
""", """    async def evaluate(x):
        value = await func(x)
        penalty = fake_pot(x)
        return value + penalty

    return evaluate
""")]

ALL['fake-min'] = [(F, """        if any(
            dist < self.width
            for dist in self.result.get_all_neighbour_distances(pos)
        ):
            return float('inf')
        return 0
""", """        return float('inf') if self._is_near_node(pos) else 0

    def _is_near_node(self, pos):
        distances = self.result.get_all_neighbour_distances(pos)
        return any(dist < self.width for dist in distances)
""")]

# --- coordinate system, cell list, queues, results container

CS = 'coordinate_system.py'
CL = 'search/result/_cell_list.py'
Q = 'search/_queue.py'
ICL = 'identify/_cluster.py'
IDM = 'identify/_dimension.py'
IRN = 'identify/_run.py'
IPL = 'identify/plot.py'
CPL = '_common_plot.py'
MH = 'search/_mesh_helper.py'
RS = 'search/refinement_stencil.py'

ALL['coord-wrap'] = [
    (CS, """        frac = (pos - self._lower_limits) / self.size
        if self.periodic:
            frac %= 1
        return frac
""", """        frac = (pos - self._lower_limits) / self.size
        return frac % 1 if self.periodic else frac
"""),
    (CS, """        if self.periodic:
            delta = (pos2 - pos1) % self.size
            delta = np.minimum(self.size - delta, delta)  # pylint: disable=assignment-from-no-return,useless-suppression
        else:
            delta = pos2 - pos1
        return la.norm(delta, axis=-1)
""", """        delta = pos2 - pos1
        if self.periodic:
            wrapped = self._wrap(delta)
            delta = np.minimum(wrapped, self.size - wrapped)
        return la.norm(delta, axis=-1)

    def _wrap(self, vec):
        return vec % self.size
"""),
    (CS, """        if not self.periodic:
            return pos2 - pos1
        else:
            delta = (pos2 - pos1) % self.size
            delta_negative = delta - self.size
            res = np.where(-delta_negative < delta, delta_negative, delta)
            assert np.all(self.distance((res + pos1), pos2) < 1e-8)
            return res
""", """        if not self.periodic:
            return pos2 - pos1
        forward = self._wrap(pos2 - pos1)
        backward = forward - self.size
        res = np.where(-backward < forward, backward, forward)
        assert np.all(self.distance((res + pos1), pos2) < 1e-8)
        return res
"""),
    (CS, """        if self.periodic:
            return ((pos - self._lower_limits) %
                    self.size) + self._lower_limits
        else:
            return pos
""", """        if not self.periodic:
            return pos
        return self._wrap(pos - self._lower_limits) + self._lower_limits
"""),
]

ALL['coord-avg'] = [(CS, """            origin = positions[0]
            deltas = [self.connecting_vector(origin, pos) for pos in positions]
            return self.normalize_position(
                origin + np.average(deltas, axis=0)
            )
""", """            origin = positions[0]
            deltas = []
            for pos in positions:
                deltas.append(self.connecting_vector(origin, pos))
            mean_delta = np.average(deltas, axis=0)
            return self.normalize_position(origin + mean_delta)
""")]

ALL['coord-size'] = [(CS, """        self.size = self._upper_limits - self._lower_limits
""", """        lower, upper = self._lower_limits, self._upper_limits
        self.size = upper - lower
"""), (CS, """        return self.limits[:, 0]
""", """        return self._limits_column(0)
"""), (CS, """        return self.limits[:, 1]
""", """        return self._limits_column(1)

    def _limits_column(self, idx):
        return self.limits[:, idx]
""")]

ALL['cell-index'] = [(CL, """        vals = np.array(frac * self.num_cells, dtype=int)
        if not self.periodic:
            # a single cell can be smaller than the cutoff, so it is used for
            # all points outside as well
            vals = np.where(self.num_cells > 1, vals, 0)
            vals += 1
            vals = np.maximum(0, np.minimum(vals, self._total_num_cells - 1))  # pylint: disable=assignment-from-no-return,useless-suppression
        else:
            # the fractional coordinate can be one, due to rounding
            vals %= self._total_num_cells
        return tuple(vals)
""", """        cell = np.array(frac * self.num_cells, dtype=int)
        if self.periodic:
            return tuple(cell % self._total_num_cells)
        cell = np.where(self.num_cells > 1, cell, 0) + 1
        return tuple(np.clip(cell, 0, self._total_num_cells - 1))
""")]

ALL['cell-neighbours'] = [(CL, """        indices = idx + self._neighbour_offset

        if self.periodic:
            # with less than three cells, several offsets lead to the same cell
            return list(
                dict.fromkeys(
                    tuple(i % self._total_num_cells) for i in indices
                )
            )
        return [
            tuple(i) for i in indices
            if np.all(i >= 0) and np.all(i < self._total_num_cells)
        ]
""", """        res = []
        for offset in self._neighbour_offset:
            candidate = idx + offset
            if self.periodic:
                candidate = candidate % self._total_num_cells
            elif not self._inside(candidate):
                continue
            candidate = tuple(candidate)
            if candidate not in res:
                res.append(candidate)
        return res

    def _inside(self, idx):
        return np.all(idx >= 0) and np.all(idx < self._total_num_cells)
"""), (CL, """        try:
            return self._neighbour_indices[idx]
        except KeyError:
            res = self._calculate_neighbour_indices(idx)
            self._neighbour_indices[idx] = res
            return res
""", """        if idx not in self._neighbour_indices:
            self._neighbour_indices[idx] = self._calculate_neighbour_indices(
                idx
            )
        return self._neighbour_indices[idx]
""")]

ALL['cell-values'] = [(CL, """        idx = self.get_index(frac)
        for cell_idx in self._get_neighbour_indices(idx):
            yield from self._cells[cell_idx]
""", """        neighbour_cells = (
            self._cells[cell_idx]
            for cell_idx in self._get_neighbour_indices(self.get_index(frac))
        )
        return itertools.chain.from_iterable(neighbour_cells)
""")]

ALL['queue-filter'] = [(Q, """        new_objects = dict.fromkeys(self.normalize(objects))
        new_objects_filtered = [
            obj for obj in new_objects if obj not in self._all_objects
        ]
        if new_objects_filtered:
            self._extend_queue(new_objects_filtered)
            self._all_objects.update(new_objects_filtered)
            self.needs_saving = True

    def _extend_queue(self, objects):
        \"\"\"
        Add given objects to '_queued_objects'. Note that this does _not_
        handle the other attributes, use 'add_objects' for this purpose.
        \"\"\"
        for obj in objects:
            self._queued_objects.put_nowait(obj)
""", """        for obj in self.normalize(objects):
            if obj in self._all_objects:
                continue
            self._all_objects.add(obj)
            self._queued_objects.put_nowait(obj)
            self.needs_saving = True

    def _extend_queue(self, objects):
        for obj in objects:
            self._queued_objects.put_nowait(obj)
""")]

ALL['queue-init'] = [(Q, """        all_objects = list(dict.fromkeys(self.normalize(objects)))
        self._queued_objects = Queue()
        self._extend_queue(all_objects)

        self._all_objects = set(all_objects)
        self.needs_saving = True
""", """        self._queued_objects = Queue()
        self._all_objects = set()
        self.needs_saving = True
        self.add_objects(objects)
""")]

ALL['queue-deque'] = [
    (Q, """from queue import Queue
""", """from collections import deque
"""),
    (Q, """        self._queued_objects = Queue()
""", """        self._queued_objects = deque()
"""),
    (Q, """        return list(self._queued_objects.queue)
""", """        return list(self._queued_objects)
"""),
    (Q, """        obj = self._queued_objects.get_nowait()
""", """        obj = self._queued_objects.popleft()
"""),
    (Q, """            self._queued_objects.put_nowait(obj)
""", """            self._queued_objects.append(obj)
"""),
    (Q, """        return not self._queued_objects.empty()
""", """        return bool(self._queued_objects)
"""),
]

ALL['queue-norm'] = [(Q, """        return [
            tuple(sorted(tuple(coord) for coord in simplex))
            for simplex in objects
        ]
""", """        return [_normalize_simplex(simplex) for simplex in objects]
"""), (Q, """@export
@subscribe_hdf5('nodefinder.simplex_queue')
""", """def _normalize_simplex(simplex):
    coords = [tuple(coord) for coord in simplex]
    coords.sort()
    return tuple(coords)


@export
@subscribe_hdf5('nodefinder.simplex_queue')
""")]

ALL['container-add'] = [(S, """        if not (res.success and res.value <= self.gap_threshold):  # pylint: disable=no-else-return
            self.rejected_results.append(res)
            return False
        else:
            self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)
            return True
""", """        is_node = self._is_node(res)
        if is_node:
            frac = self.coordinate_system.get_frac(res.pos)
            self.nodes.add_point(frac, res)
        else:
            self.rejected_results.append(res)
        return is_node

    def _is_node(self, res):
        return bool(res.success and res.value <= self.gap_threshold)
""")]

ALL['container-cells'] = [(S, """        if dist_cutoff == 0:
            num_cells = np.full_like(self.coordinate_system.size, 100)
        else:
            num_cells = np.minimum(  # pylint: disable=assignment-from-no-return,useless-suppression
                100,
                np.maximum(
                    1,
                    np.array(
                        self.coordinate_system.size / self.dist_cutoff,
                        dtype=int
                    )
                )
            )
        self.nodes = CellList(
            num_cells=num_cells, periodic=self.coordinate_system.periodic
        )
        self.rejected_results = []
        for res in minimization_results:
            self.add_result(res)
        self.refined_results = CellList(
            num_cells=num_cells, periodic=self.coordinate_system.periodic
        )
        for res in refined_results:
""", """        self.nodes = self._new_cell_list()
        self.refined_results = self._new_cell_list()
        self.rejected_results = []
        for res in minimization_results:
            self.add_result(res)
        for res in refined_results:
"""), (S, """    def __repr__(self):
        return 'SearchResultContainer(""", """    def _new_cell_list(self):
        size = self.coordinate_system.size
        if self.dist_cutoff == 0:
            num_cells = np.full_like(size, 100)
        else:
            num_cells = np.array(size / self.dist_cutoff, dtype=int)
            num_cells = np.minimum(100, np.maximum(1, num_cells))
        return CellList(
            num_cells=num_cells, periodic=self.coordinate_system.periodic
        )

    def __repr__(self):
        return 'SearchResultContainer(""")]

ALL['container-dist'] = [(S, """        candidates = self._get_neighbour_iterator(pos)
        positions = np.array([c.pos for c in candidates])

        if positions.size == 0:
            return []
        return self.coordinate_system.distance(pos, positions)
""", """        return list(self.get_neighbour_distance_iterator(pos))
"""), (S, """        return (
            self.coordinate_system.distance(pos, c.pos) for c in candidates
        )
""", """        for candidate in candidates:
            yield self.coordinate_system.distance(pos, candidate.pos)
"""), (S, """        return (c for c in candidates if np.any(c.pos != pos))
""", """        for candidate in candidates:
            if np.any(candidate.pos != pos):
                yield candidate
""")]

# --- identify

ALL['cluster-edges'] = [(ICL, """    pos_unique = list(set(tuple(pos) for pos in positions))
    graph.add_nodes_from(pos_unique)
    pos_unique_array = np.array(pos_unique)
    for i, (pos, pos_arr) in enumerate(zip(pos_unique[:-1], pos_unique_array)):
        offset = i + 1
        candidates = pos_unique_array[offset:]
        distances = coordinate_system.distance(pos_arr, candidates)
        for idx in np.flatnonzero(distances <= feature_size):
            nbr = pos_unique[idx + offset]
            dist = distances[idx]
            graph.add_edge(pos, nbr, **{_DISTANCE_KEY: dist})
    return graph
""", """    nodes = list({tuple(pos) for pos in positions})
    node_array = np.array(nodes)
    graph.add_nodes_from(nodes)
    for first in range(len(nodes) - 1):
        distances = coordinate_system.distance(
            node_array[first], node_array[first + 1:]
        )
        for second, dist in enumerate(distances, start=first + 1):
            if dist <= feature_size:
                graph.add_edge(
                    nodes[first], nodes[second], **{_DISTANCE_KEY: dist}
                )
    return graph
""")]

ALL['cluster-pairs'] = [(ICL, """    for i, (pos, pos_arr) in enumerate(zip(pos_unique[:-1], pos_unique_array)):
        offset = i + 1
        candidates = pos_unique_array[offset:]
        distances = coordinate_system.distance(pos_arr, candidates)
        for idx in np.flatnonzero(distances <= feature_size):
            nbr = pos_unique[idx + offset]
            dist = distances[idx]
            graph.add_edge(pos, nbr, **{_DISTANCE_KEY: dist})
    return graph
""", """    for i, pos in enumerate(pos_unique):
        candidates = pos_unique[i + 1:]
        if not candidates:
            break
        distances = coordinate_system.distance(
            pos_unique_array[i], pos_unique_array[i + 1:]
        )
        _connect(graph, pos, candidates, distances, feature_size)
    return graph


def _connect(graph, pos, candidates, distances, cutoff):
    \"\"\"Add the edges from 'pos' to the candidates which are close to it.\"\"\"
    for nbr, dist in zip(candidates, distances):
        if dist > cutoff:
            continue
        graph.add_edge(pos, nbr, **{_DISTANCE_KEY: dist})
""")]

ALL['dim-vote'] = [(IDM, """    dim, count = counter.most_common(1)[0]
    if count >= (2 / 3) * sum(counter.values()):
        return True, dim
    else:
        return False, dim
""", """    (dim, count), = counter.most_common(1)
    total = sum(counter.values())
    return count >= (2 / 3) * total, dim
"""), (IDM, """        dim_counter.update([
            _get_dimension(
                pos,
                coordinate_system=coordinate_system,
                graph=graph,
                feature_size=feature_size,
                max_dim=max_dim,
                min_neighbour_evaluations=min_neighbour_evaluations
            )
        ])
    finished, dim = _check_count(dim_counter)
    if not finished:
        warnings.warn('Inconclusive dimension count: {}'.format(dim_counter))
        return None
    return dim
""", """        pos_dim = _get_dimension(
            pos,
            coordinate_system=coordinate_system,
            graph=graph,
            feature_size=feature_size,
            max_dim=max_dim,
            min_neighbour_evaluations=min_neighbour_evaluations
        )
        dim_counter[pos_dim] += 1
    finished, dim = _check_count(dim_counter)
    if finished:
        return dim
    warnings.warn('Inconclusive dimension count: {}'.format(dim_counter))
    return None
""")]

ALL['dim-has'] = [(IDM, """    for dim in range(1, max_dim + 1):
        if not _has_dimension(
            pos=pos,
            graph=graph,
            coordinate_system=coordinate_system,
            dim=dim,
            min_neighbour_evaluations=min_neighbour_evaluations,
            feature_size=feature_size
        ):
            return dim - 1
    return max_dim
""", """    res = 0
    while res < max_dim:
        if not _has_dimension(
            pos=pos,
            graph=graph,
            coordinate_system=coordinate_system,
            dim=res + 1,
            min_neighbour_evaluations=min_neighbour_evaluations,
            feature_size=feature_size
        ):
            break
        res += 1
    return res
"""), (IDM, """    try:
        limit_value = feature_size**dim * EXACT_VALUES[dim] / 2
    except KeyError:
        raise NotImplementedError(
            'Getting the {}-dimensional volume is not implemented'.format(dim)
        )
""", """    if dim not in EXACT_VALUES:
        raise NotImplementedError(
            'Getting the {}-dimensional volume is not implemented'.format(dim)
        )
    limit_value = feature_size**dim * EXACT_VALUES[dim] / 2
""")]

ALL['dim-draw'] = [(IDM, """        neighbour_tuples = set(
            tuple(sorted(n))
            for n in itertools.combinations(neighbours, r=dim)
        ) - used_tuples
        num_draws = 10
        while neighbour_tuples:
            vals = random.sample(
                tuple(neighbour_tuples),
                min(num_draws, len(neighbour_tuples))
            )
            yield from vals
            neighbour_tuples -= set(vals)
""", """        remaining = [
            val for val in
            (tuple(sorted(n)) for n in itertools.combinations(neighbours, dim))
            if val not in used_tuples
        ]
        random.shuffle(remaining)
        yield from remaining
""")]

ALL['dim-volume'] = [(IDM, """    connecting_vectors = [
        coordinate_system.connecting_vector(
            np.array(neighbour), np.array(pos)
        ) for neighbour in neighbour_tuple
    ]
    mat = np.array(connecting_vectors)
    svd = la.svd(mat, compute_uv=False)
""", """    pos_array = np.array(pos)
    mat = np.array([
        coordinate_system.connecting_vector(nbr, pos_array)
        for nbr in np.array(neighbour_tuple)
    ])
    svd = la.svd(mat, compute_uv=False)
""")]

ALL['ident-run'] = [(IRN, """    results = []
    for graph in clusters:
        IDENTIFY_LOGGER.debug('Calculating cluster dimension.')
        dim = calculate_dimension(
            graph=graph,
            coordinate_system=coordinate_system,
            feature_size=feature_size
        )
        IDENTIFY_LOGGER.debug(
            'Evaluating result with dimension {}.'.format(dim)
        )
        res = IdentificationResult(
            positions=list(graph.nodes),
            dimension=dim,
            shape=evaluate_cluster(
                graph=graph,
                dim=dim,
                coordinate_system=coordinate_system,
                feature_size=feature_size,
                evaluate_line_method=evaluate_line_method
            )
        )
        results.append(res)
    return IdentificationResultContainer(
        coordinate_system=coordinate_system,
        feature_size=feature_size,
        results=results
    )
""", """    return IdentificationResultContainer(
        coordinate_system=coordinate_system,
        feature_size=feature_size,
        results=[
            _identify_cluster(
                graph,
                coordinate_system=coordinate_system,
                feature_size=feature_size,
                evaluate_line_method=evaluate_line_method
            ) for graph in clusters
        ]
    )


def _identify_cluster(
    graph, *, coordinate_system, feature_size, evaluate_line_method
):
    IDENTIFY_LOGGER.debug('Calculating cluster dimension.')
    dim = calculate_dimension(
        graph=graph,
        coordinate_system=coordinate_system,
        feature_size=feature_size
    )
    IDENTIFY_LOGGER.debug('Evaluating result with dimension {}.'.format(dim))
    shape = evaluate_cluster(
        graph=graph,
        dim=dim,
        coordinate_system=coordinate_system,
        feature_size=feature_size,
        evaluate_line_method=evaluate_line_method
    )
    return IdentificationResult(
        positions=list(graph.nodes), dimension=dim, shape=shape
    )
""")]

ALL['ident-evaluate'] = [('identify/_evaluate/_run.py', """    if dim == 0:
        return _evaluate_point(
            positions=list(graph.nodes), coordinate_system=coordinate_system
        )
    elif dim == 1:
        try:
            return _evaluate_line(
                graph=graph,
                coordinate_system=coordinate_system,
                feature_size=feature_size,
                method=evaluate_line_method,
            )
        except (IndexError, ValueError) as exc:
            warnings.warn('Could not identify line: {}'.format(exc))
    else:
        return None
""", """    if dim == 0:
        nodes = list(graph.nodes)
        return _evaluate_point(nodes, coordinate_system)
    if dim != 1:
        return None
    shape = None
    try:
        shape = _evaluate_line(
            graph=graph,
            coordinate_system=coordinate_system,
            feature_size=feature_size,
            method=evaluate_line_method,
        )
    except (IndexError, ValueError) as exc:
        warnings.warn('Could not identify line: {}'.format(exc))
    return shape
""")]

# --- plots, meshes, stencils

ALL['plot-result'] = [(IPL, """        shape = identification_result.shape
        color = axis._get_lines.get_next_color()  # pylint: disable=protected-access
        if shape is None:
            _plot_positions(
                identification_result.positions, axis=axis, color=color
            )
        else:
            _plot_result(
                shape, axis=axis, color=color, feature_size=feature_size
            )
    return fig, axis
""", """        _plot_single(identification_result, axis, feature_size)
    return fig, axis


def _plot_single(identification_result, axis, feature_size):
    color = axis._get_lines.get_next_color()  # pylint: disable=protected-access
    shape = identification_result.shape
    if shape is not None:
        _plot_result(shape, axis=axis, color=color, feature_size=feature_size)
        return
    _plot_positions(identification_result.positions, axis=axis, color=color)
""")]

ALL['plot-paths'] = [(IPL, """        while True:
            try:
                next_node = next(working_graph.neighbors(curr_node))
            except StopIteration:
                paths.append(curr_path)
                break
            if la.norm(
                np.array(next_node) - np.array(curr_node)
            ) > 2 * feature_size:
                paths.append(curr_path)
                curr_path = [next_node]
            else:
                curr_path.append(next_node)

            working_graph.remove_edge(curr_node, next_node)
            curr_node = next_node
    return paths
""", """        next_node = next(working_graph.neighbors(curr_node), None)
        while next_node is not None:
            working_graph.remove_edge(curr_node, next_node)
            step = la.norm(np.array(next_node) - np.array(curr_node))
            if step > 2 * feature_size:
                paths.append(curr_path)
                curr_path = []
            curr_path.append(next_node)
            curr_node = next_node
            next_node = next(working_graph.neighbors(curr_node), None)
        paths.append(curr_path)
    return paths
""")]

ALL['plot-start'] = [(IPL, """    nonzero_degree = [(node, degree) for node, degree in graph.degree
                      if degree > 0]
    return min(
        nonzero_degree,
        key=lambda val: val[1] if val[1] != 2 else float('inf')
    )[0]
""", """    def priority(node):
        degree = graph.degree[node]
        return float('inf') if degree == 2 else degree

    candidates = [node for node in graph.nodes if graph.degree[node] > 0]
    return min(candidates, key=priority)
""")]

ALL['mesh-loop'] = [(MH, """    vertices = list(
        itertools.product(
            *[
                np.linspace(lower, upper, m, endpoint=not periodic)
                for (lower, upper), m in zip(limits, mesh_size)
            ]
        )
    )
    if skip_origin:
        vertices = [v for v in vertices if not np.allclose(v, 0)]
    size = np.array([upper - lower for lower, upper in limits])
    simplex_distances = size / (2 * np.array(mesh_size))
    simplex_stencil = np.zeros(shape=(dim + 1, dim))
    for i, dist in enumerate(simplex_distances):
        simplex_stencil[i + 1][i] = dist
    return [v + simplex_stencil for v in vertices]
""", """    axes = []
    for (lower, upper), m in zip(limits, mesh_size):
        axes.append(np.linspace(lower, upper, m, endpoint=not periodic))
    size = np.array([upper - lower for lower, upper in limits])
    simplex_stencil = np.zeros(shape=(dim + 1, dim))
    simplex_stencil[1:] = np.diag(size / (2 * np.array(mesh_size)))
    res = []
    for vertex in itertools.product(*axes):
        if skip_origin and np.allclose(vertex, 0):
            continue
        res.append(vertex + simplex_stencil)
    return res
""")]

ALL['stencil-rot'] = [(RS, """    res = np.zeros((num_points, 3, 2))
    for i, phi_val in enumerate(phi):
        res[i, :, :] = (
            np.array([[np.cos(phi_val), -np.sin(phi_val)],
                      [np.sin(phi_val), np.cos(phi_val)]]) @ simplex.T
        ).T
    return res
""", """    return np.array([simplex @ _rotation(phi_val).T for phi_val in phi])


def _rotation(phi):
    cos, sin = np.cos(phi), np.sin(phi)
    return np.array([[cos, -sin], [sin, cos]])
"""), (RS, """    if dim == 2:
        return get_circle_stencil(num_points=5)
    elif dim == 3:
        return get_sphere_stencil(num_points=30)
    return get_mesh_stencil(mesh_size=[3] * dim)
""", """    factory, kwargs = {
        2: (get_circle_stencil, dict(num_points=5)),
        3: (get_sphere_stencil, dict(num_points=30)),
    }.get(dim, (get_mesh_stencil, dict(mesh_size=[3] * dim)))
    return factory(**kwargs)
""")]

ALL['setup-plot'] = [(CPL, """    if dim == 3:
        is_3d = True
        from mpl_toolkits.mplot3d import Axes3D  # pylint: disable=import-outside-toplevel,unused-import
    else:
        is_3d = False
        assert dim == 2
    # create axis if it does not exist
    if axis is None:
        fig = plt.figure()
        axis = fig.add_subplot(111, projection='3d' if is_3d else None)
    else:
        fig = None

    axis.set_xlim(*limits[0])
    axis.set_ylim(*limits[1])
    if is_3d:
        axis.set_zlim(*limits[2])

    return fig, axis, is_3d
""", """    assert dim in (2, 3)
    is_3d = dim == 3
    if is_3d:
        from mpl_toolkits.mplot3d import Axes3D  # pylint: disable=import-outside-toplevel,unused-import
    fig = None
    if axis is None:
        fig = plt.figure()
        axis = fig.add_subplot(111, projection='3d' if is_3d else None)
    _set_limits(axis, limits, is_3d)
    return fig, axis, is_3d


def _set_limits(axis, limits, is_3d):
    axis.set_xlim(*limits[0])
    axis.set_ylim(*limits[1])
    if is_3d:
        axis.set_zlim(*limits[2])
""")]

# --- lines

BAL = 'identify/_evaluate/_line/_ballistic.py'
DOM = 'identify/_evaluate/_line/_dominating_set.py'
SHP = 'identify/_evaluate/_line/_shortest_path.py'
LRN = 'identify/_evaluate/_line/_run.py'
SHA = 'identify/result/_shapes.py'
CON = 'identify/result/_containers.py'
MIN = 'search/result/_minimization.py'
CST = 'search/result/_controller_state.py'
SPL = 'search/plot.py'

ALL['line-run'] = [(LRN, """    try:
        method_func = _METHOD_FUNC_LOOKUP[method]
    except KeyError:
        raise ValueError("Invalid value for 'method': {}".format(method))
    result_graph = method_func(
        graph=graph,
        coordinate_system=coordinate_system,
        feature_size=feature_size
    )
    return NodalLine(
        graph=result_graph, degree_count=_create_degree_count(result_graph)
    )
""", """    method_func = _METHOD_FUNC_LOOKUP.get(method)
    if method_func is None:
        raise ValueError("Invalid value for 'method': {}".format(method))
    kwargs = dict(
        graph=graph,
        coordinate_system=coordinate_system,
        feature_size=feature_size
    )
    line_graph = method_func(**kwargs)
    degree_count = _create_degree_count(line_graph)
    return NodalLine(graph=line_graph, degree_count=degree_count)
"""), (LRN, """    degree_counter = Counter([val for pos, val in graph.degree])
    degree_counter.pop(2, None)
    return degree_counter
""", """    return Counter(degree for _, degree in graph.degree if degree != 2)
""")]

ALL['line-bal'] = [(BAL, """            # First, try starting from an end node
            end_nodes = {
                node
                for node, deg in self.result_graph.degree if deg == 1
            }
            new_end_nodes = end_nodes - self.evaluated_end_nodes
            if new_end_nodes:
                node = new_end_nodes.pop()
                nbr = next(self.result_graph.neighbors(node))
                delta = self.coordinate_system.connecting_vector(
                    np.array(node), np.array(nbr)
                )
                # go in the opposite direction from the previous path
                initial_direction = -(delta / la.norm(delta))
                self.find_loop(
                    starting_node=node, initial_direction=initial_direction
                )
                self.evaluated_end_nodes.add(node)
            # Otherwise, pick an arbitrary starting node not in the vicinity of the result graph
            else:
                neighbor_graph = self.graph.edge_subgraph(
                    self.graph.edges(self.result_graph.nodes)
                )
                candidate_nodes = set(self.graph.nodes
                                      ) - set(neighbor_graph.nodes)
                node = candidate_nodes.pop()
                self.find_loop(starting_node=node, initial_direction=None)
""", """            new_end_nodes = self._get_new_end_nodes()
            if new_end_nodes:
                self._continue_from_end(new_end_nodes.pop())
            else:
                self._start_elsewhere()

    def _get_new_end_nodes(self):
        return {
            node
            for node, deg in self.result_graph.degree if deg == 1
        } - self.evaluated_end_nodes

    def _continue_from_end(self, node):
        nbr = next(self.result_graph.neighbors(node))
        delta = self.coordinate_system.connecting_vector(
            np.array(node), np.array(nbr)
        )
        # go in the opposite direction from the previous path
        self.find_loop(
            starting_node=node, initial_direction=-(delta / la.norm(delta))
        )
        self.evaluated_end_nodes.add(node)

    def _start_elsewhere(self):
        covered = set(
            self.graph.edge_subgraph(
                self.graph.edges(self.result_graph.nodes)
            ).nodes
        )
        node = (set(self.graph.nodes) - covered).pop()
        self.find_loop(starting_node=node, initial_direction=None)
""")]

ALL['line-loop'] = [(BAL, """            if new_node in self.result_graph:
                if on_graph:
                    IDENTIFY_LOGGER.debug(
                        "Loop search finished -- reached existing result nodes."
                    )
                    break
                on_graph = True
            else:
                on_graph = False
            self.result_graph.add_edge(node, new_node)
""", """            was_on_graph = on_graph
            on_graph = new_node in self.result_graph
            if on_graph and was_on_graph:
                IDENTIFY_LOGGER.debug(
                    "Loop search finished -- reached existing result nodes."
                )
                break
            self.result_graph.add_edge(node, new_node)
""")]

ALL['line-next'] = [(BAL, """        neighbors = []
        unit_vecs = []
        for nbr, delta, delta_norm in zip(
            neighbors_all, deltas_all, delta_norms_all
        ):
            if delta_norm > 0:
                neighbors.append(nbr)
                unit_vecs.append(delta / delta_norm)
        unit_vecs = np.array(unit_vecs)
""", """        nonzero = [
            (nbr, delta / delta_norm) for nbr, delta, delta_norm in
            zip(neighbors_all, deltas_all, delta_norms_all) if delta_norm > 0
        ]
        neighbors = [nbr for nbr, _ in nonzero]
        unit_vecs = np.array([vec for _, vec in nonzero])
"""), (BAL, """        idx = positive_angle_idx[np.argmax(weights)]
        chosen_candidate = neighbors[idx]

        return chosen_candidate, unit_vecs[idx]
""", """        best = np.argmax(weights)
        return candidate_nodes[best], candidate_unit_vecs[best]
""")]

ALL['line-dom'] = [(DOM, """    for node in shortest_path[1:-1]:
        subgraph.add_node(node)
    for edge in zip(shortest_path[:-1], shortest_path[1:]):
        subgraph.add_edge(*edge, **graph.edges[edge])
""", """    for first, second in zip(shortest_path, shortest_path[1:]):
        subgraph.add_edge(first, second, **graph.edges[first, second])
"""), (DOM, """    for edge in graph_copy.edges:
        edge_attrs = graph_copy.edges[edge]
        distance = edge_attrs[_DISTANCE_KEY]
        edge_attrs[_WEIGHT_KEY] = distance**4
        if distance < feature_size / _DIST_CUTOFF_FACTOR:
            graph_reduced_neighbours.add_edge(*edge)
""", """    cutoff = feature_size / _DIST_CUTOFF_FACTOR
    for start, end, edge_attrs in graph_copy.edges(data=True):
        distance = edge_attrs[_DISTANCE_KEY]
        edge_attrs[_WEIGHT_KEY] = distance**4
        if distance < cutoff:
            graph_reduced_neighbours.add_edge(start, end)
""")]

ALL['line-short'] = [(SHP, """    candidate_positions = set(work_graph.nodes)

    start_positions = set()
    first_pos = candidate_positions.pop()
    start_positions.add(first_pos)
    candidate_positions -= set(work_graph.neighbors(first_pos))
""", """    candidate_positions = set(work_graph.nodes)

    first_pos = candidate_positions.pop()
    start_positions = {first_pos}
    candidate_positions.difference_update(work_graph.neighbors(first_pos))
"""), (SHP, """            if unweighted_path_length <= 4:
                single_path_only = True
                IDENTIFY_LOGGER.debug(
                    'Positions %s and %s are too close, calculating only one path.',
                    start_pos, end_pos
                )
            else:
                single_path_only = False
            for""", """            single_path_only = unweighted_path_length <= 4
            if single_path_only:
                IDENTIFY_LOGGER.debug(
                    'Positions %s and %s are too close, calculating only one path.',
                    start_pos, end_pos
                )
            for"""), (SHP, """                edges = list(zip(path, path[1:]))
                result_graph.add_edges_from(edges)
                for edge in edges:
                    work_graph.edges[edge][_WEIGHT_KEY] = 0
                    tmp_graph.edges[edge][_WEIGHT_KEY] = 0
""", """                for edge in zip(path, path[1:]):
                    result_graph.add_edge(*edge)
                    for weighted_graph in (work_graph, tmp_graph):
                        weighted_graph.edges[edge][_WEIGHT_KEY] = 0
""")]

# --- saved results

ALL['shape-save'] = [(SHA, """        graph_group = hdf5_handle.create_group('graph')
        graph_group['nodes'] = np.array(list(self.graph.nodes))
        if self.graph.edges:
            graph_group['edges'] = np.array(list(self.graph.edges))

        degree_count_group = hdf5_handle.create_group('degree_count')
        to_hdf5(self.degree_count, degree_count_group)
""", """        self._save_graph(hdf5_handle.create_group('graph'))
        to_hdf5(self.degree_count, hdf5_handle.create_group('degree_count'))

    def _save_graph(self, group):
        group['nodes'] = np.array(list(self.graph.nodes))
        edges = list(self.graph.edges)
        if edges:
            group['edges'] = np.array(edges)
"""), (SHA, """        graph_group = hdf5_handle['graph']
        graph = nx.Graph()

        graph.add_nodes_from([tuple(n) for n in graph_group['nodes']])
        if 'edges' in graph_group:
            graph.add_edges_from([(tuple(p1), tuple(p2))
                                  for p1, p2 in graph_group['edges']])

        degree_count = from_hdf5(hdf5_handle['degree_count'])
        return cls(graph=graph, degree_count=degree_count)
""", """        return cls(
            graph=_load_graph(hdf5_handle['graph']),
            degree_count=from_hdf5(hdf5_handle['degree_count'])
        )
"""), (SHA, """@export
@subscribe_hdf5('nodefinder.nodal_line')
""", """def _load_graph(group):
    graph = nx.Graph()
    for node in group['nodes']:
        graph.add_node(tuple(node))
    if 'edges' in group:
        for start, end in group['edges']:
            graph.add_edge(tuple(start), tuple(end))
    return graph


@export
@subscribe_hdf5('nodefinder.nodal_line')
"""), (SHA, """        shape_lookup = {
            tuple(): 'CLOSED LOOP',
            ((1, 2), ): 'OPEN LINE',
        }
        return shape_lookup.get(
            tuple(sorted(self.degree_count.items())), 'UNKNOWN'
        )
""", """        if not self.degree_count:
            return 'CLOSED LOOP'
        if dict(self.degree_count) == {1: 2}:
            return 'OPEN LINE'
        return 'UNKNOWN'
""")]

ALL['result-load'] = [(CON, """        shape = from_hdf5(hdf5_handle['shape'])
        try:
            dimension = hdf5_handle['dimension'][()]
        except (AttributeError, TypeError):
            dimension = from_hdf5(hdf5_handle['dimension'])
        try:
            positions = [tuple(x) for x in hdf5_handle['positions'][()]]
        except (AttributeError, TypeError):
            positions = from_hdf5(hdf5_handle['positions'])
        return cls(positions=positions, dimension=dimension, shape=shape)
""", """        return cls(
            positions=_load_positions(hdf5_handle['positions']),
            dimension=_load_dimension(hdf5_handle['dimension']),
            shape=from_hdf5(hdf5_handle['shape'])
        )


def _load_dimension(handle):
    try:
        return handle[()]
    except (AttributeError, TypeError):
        return from_hdf5(handle)


def _load_positions(handle):
    try:
        return [tuple(x) for x in handle[()]]
    except (AttributeError, TypeError):
        return from_hdf5(handle)
""")]

ALL['min-result'] = [(MIN, """        kwargs = {
            key: val[()]
            for key, val in hdf5_handle.items() if key != 'type_tag'
        }
        for key, val in kwargs.items():
            # strings are loaded as bytes since h5py version 3
            if isinstance(val, bytes):
                kwargs[key] = val.decode()
        return cls(**kwargs)
""", """        kwargs = {}
        for key, dataset in hdf5_handle.items():
            if key == 'type_tag':
                continue
            val = dataset[()]
            # strings are loaded as bytes since h5py version 3
            kwargs[key] = val.decode() if isinstance(val, bytes) else val
        return cls(**kwargs)
"""), (MIN, """        if key in self.JOIN_KEYS:
            return self._join(
                getattr(self.ancestor, key), getattr(self.child, key)
            )
        else:
            return getattr(self.child, key)
""", """        child_value = getattr(self.child, key)
        if key not in self.JOIN_KEYS:
            return child_value
        return self._join(getattr(self.ancestor, key), child_value)
""")]

ALL['state-flags'] = [(CST, """        return self.result.needs_saving or self.simplex_queue.needs_saving or self.position_queue.needs_saving
""", """        return any(part.needs_saving for part in self._parts())
"""), (CST, """        self.result.needs_saving = value
        self.simplex_queue.needs_saving = value
        self.position_queue.needs_saving = value
""", """        for part in self._parts():
            part.needs_saving = value

    def _parts(self):
        return self.result, self.simplex_queue, self.position_queue
""")]

# --- search plots

ALL['plot-points'] = [(SPL, """    x_coords = []
    y_coords = []
    if is_3d:
        z_coords = []
    vals = []
    for node in result.nodes:
        pos = node.pos
        x, y, *z = pos
        x_coords.append(x)
        y_coords.append(y)
        if is_3d:
            z_coords.append(z[0])
        vals.append(node.value)

    if is_3d:
        coords = [x_coords, y_coords, z_coords]
    else:
        coords = [x_coords, y_coords]

    axis.scatter(*coords, c=vals)
""", """    coords = [[] for _ in range(3 if is_3d else 2)]
    vals = []
    for node in result.nodes:
        for coord_list, coord in zip(coords, node.pos):
            coord_list.append(coord)
        vals.append(node.value)

    axis.scatter(*coords, c=vals)
""")]

ALL['plot-stencil'] = [(SPL, """    if plot_sphere:
        if dim == 2:
            phi = np.linspace(0, 2 * np.pi, 200)
            axis.plot(np.cos(phi), np.sin(phi), **sphere_settings)
        elif dim == 3:
            phi = np.linspace(0, 2 * np.pi, 200)
            theta = np.linspace(0, np.pi, 200)
            x = np.outer(np.cos(phi), np.sin(theta))
            y = np.outer(np.sin(phi), np.sin(theta))
            z = np.outer(np.ones_like(phi), np.cos(theta))
            axis.plot_surface(x, y, z, **sphere_settings)
    return fig, axis
""", """    if plot_sphere:
        _plot_sphere(axis, dim, sphere_settings)
    return fig, axis


def _plot_sphere(axis, dim, settings):
    phi = np.linspace(0, 2 * np.pi, 200)
    if dim == 2:
        axis.plot(np.cos(phi), np.sin(phi), **settings)
    elif dim == 3:
        theta = np.linspace(0, np.pi, 200)
        sin_theta = np.sin(theta)
        axis.plot_surface(
            np.outer(np.cos(phi), sin_theta), np.outer(np.sin(phi), sin_theta),
            np.outer(np.ones_like(phi), np.cos(theta)), **settings
        )
"""), (SPL, """    for start, end in itertools.combinations(simplex, 2):
        values = list(np.array([start, end]).T)
        axis.plot(*values, **kwargs)
""", """    for i, start in enumerate(simplex):
        for end in simplex[i + 1:]:
            axis.plot(*np.array([start, end]).T, **kwargs)
""")]

# --- controller, other ways

ALL['ctl-done'] = [(C, """                done_futures = [fut for fut in self.task_futures if fut.done()]
                exceptions = [fut.exception() for fut in done_futures]
                exceptions = [exc for exc in exceptions if exc is not None]
                if exceptions:
                    raise exceptions[0]

                self.task_futures.difference_update(done_futures)
""", """                self._collect_finished()
"""), (C, """    def schedule_minimization(self, simplex):
        SEARCH""", """    def _collect_finished(self):
        first_exc = None
        done_futures = {fut for fut in self.task_futures if fut.done()}
        for fut in done_futures:
            exc = fut.exception()
            if exc is not None and first_exc is None:
                first_exc = exc
        if first_exc is not None:
            raise first_exc
        self.task_futures -= done_futures

    def schedule_minimization(self, simplex):
        SEARCH""")]

ALL['ctl-checks'] = [(C, """        count = 0
        for pos in simplex:
            for dist in self.state.result.get_neighbour_distance_iterator(pos):
                if dist < self.dist_cutoff:
                    count += 1
                    if count > self.simplex_check_cutoff:
                        return False
                    break
        return True
""", """        num_close = sum(
            any(
                dist < self.dist_cutoff for dist in
                self.state.result.get_neighbour_distance_iterator(pos)
            ) for pos in simplex
        )
        return num_close <= self.simplex_check_cutoff
"""), (C, """        count = 0
        for dist in self.state.result.get_refined_neighbour_distance_iterator(
            pos
        ):
            if dist < self.dist_cutoff:
                count += 1
            if count > count_cutoff:
                return False
        return True
""", """        num_close = sum(
            dist < self.dist_cutoff for dist in
            self.state.result.get_refined_neighbour_distance_iterator(pos)
        )
        return num_close <= count_cutoff
""")]

ALL['ctl-process'] = [(C, """        is_node = self.state.result.add_result(result)
        if is_node and self.refinement_stencil is not None:
            pos = result.pos
            SEARCH_LOGGER.info('Found node at position {}'.format(pos))
            if self._check_pos_refinement(pos):
                SEARCH_LOGGER.info('Scheduling refinement around node.')
                self.state.position_queue.add_objects([pos])
""", """        if not self.state.result.add_result(result):
            return
        if self.refinement_stencil is None:
            return
        pos = result.pos
        SEARCH_LOGGER.info('Found node at position {}'.format(pos))
        if not self._check_pos_refinement(pos):
            return
        SEARCH_LOGGER.info('Scheduling refinement around node.')
        self.state.position_queue.add_objects([pos])
""")]

ALL['ctl-loop'] = [(C, """                    while not self.state.simplex_queue.has_queued:
                        if self.state.position_queue.has_queued:
                            pos = self.state.position_queue.pop_queued()
                            if self.refinement_stencil is not None and (
                                (not self.recheck_pos_dist) or
                                self._check_pos_refinement(
                                    pos,
                                    count_cutoff=self.recheck_count_cutoff
                                )
                            ):
                                self.state.simplex_queue.add_objects(
                                    pos + self.refinement_stencil
                                )
                                self.state.result.set_refined(np.array(pos))
                            else:
                                SEARCH_LOGGER.debug(
                                    'Discarding refinement of position {}'.
                                    format(pos)
                                )
                        else:
                            break
                    if self.state.simplex_queue.has_queued:
                        simplex = self.state.simplex_queue.pop_queued()
                        if self._check_simplex(simplex):
                            self.schedule_minimization(simplex)
                        else:
                            self.state.simplex_queue.set_finished(simplex)
                    else:
                        break
""", """                    simplex = self._next_simplex()
                    if simplex is None:
                        break
                    if self._check_simplex(simplex):
                        self.schedule_minimization(simplex)
                    else:
                        self.state.simplex_queue.set_finished(simplex)
"""), (C, """    def schedule_minimization(self, simplex):
        SEARCH""", """    def _next_simplex(self):
        \"\"\"The next simplex, or None if there are none left at the moment.\"\"\"
        state = self.state
        while not state.simplex_queue.has_queued:
            if not state.position_queue.has_queued:
                return None
            self._refine(state.position_queue.pop_queued())
        return state.simplex_queue.pop_queued()

    def _refine(self, pos):
        if not self._should_refine(pos):
            SEARCH_LOGGER.debug(
                'Discarding refinement of position {}'.format(pos)
            )
            return
        self.state.simplex_queue.add_objects(pos + self.refinement_stencil)
        self.state.result.set_refined(np.array(pos))

    def _should_refine(self, pos):
        if self.refinement_stencil is None:
            return False
        if not self.recheck_pos_dist:
            return True
        return self._check_pos_refinement(
            pos, count_cutoff=self.recheck_count_cutoff
        )

    def schedule_minimization(self, simplex):
        SEARCH""")]

ALL['ctl-save'] = [(C, """        if self.save_file and self.state.needs_saving:
            with tempfile.NamedTemporaryFile(
                dir=os.path.dirname(self.save_file), delete=False
            ) as tmpf:
                try:
                    io.save(self.state, tmpf.name)
                    os.rename(tmpf.name, self.save_file)
                    self.state.needs_saving = False
                except Exception as exc:
                    os.remove(tmpf.name)
                    raise exc
""", """        if not self.save_file or not self.state.needs_saving:
            return
        target_dir = os.path.dirname(self.save_file)
        with tempfile.NamedTemporaryFile(dir=target_dir, delete=False) as tmpf:
            tmp_name = tmpf.name
            try:
                io.save(self.state, tmp_name)
                os.replace(tmp_name, self.save_file)
            except Exception:
                os.remove(tmp_name)
                raise
            self.state.needs_saving = False
""")]

ALL['ctl-readback'] = [(C, """                result=self.state.result,
                width=self.dist_cutoff,
""", """                result=self.state.result,
                width=self.state.result.dist_cutoff,
"""), (C, """                'ftol': 0.05 * gap_threshold,
                'xtol': 0.03 * self.dist_cutoff
""", """                'ftol': 0.05 * self.state.result.gap_threshold,
                'xtol': 0.03 * self.state.result.dist_cutoff
"""), (C, """refinement_stencil * self.dist_cutoff""", """refinement_stencil * self.state.result.dist_cutoff"""),
    (C, """            if dist < self.dist_cutoff:
                count += 1
            if""", """            if dist < self.state.result.dist_cutoff:
                count += 1
            if""")]

ALL['ctl-system'] = [(C, """        self.coordinate_system = CoordinateSystem(
            limits=limits, periodic=periodic
        )
        self.dim, initial_mesh_size = self.check_dimensions(
            limits, initial_mesh_size
        )
""", """        self.dim, initial_mesh_size = self.check_dimensions(
            limits, initial_mesh_size
        )
        system = CoordinateSystem(limits=limits, periodic=periodic)
        self.coordinate_system = system
"""), (C, """            limits=self.coordinate_system.limits,
            mesh_size=initial_mesh_size,
            periodic=self.coordinate_system.periodic
""", """            mesh_size=initial_mesh_size,
            **self._mesh_options()
"""), (C, """    async def run(self):
""", """    def _mesh_options(self):
        system = self.coordinate_system
        return {'limits': system.limits, 'periodic': system.periodic}

    async def run(self):
""")]
