C = 'search/_controller.py'
R = 'search/_run.py'
M = 'search/_minimization/_run.py'
RC = 'search/result/_search_result_container.py'
Q = 'search/_queue.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


B = ['C04']
broken('re-norefined', B, (C, "                dist_cutoff=dist_cutoff,\n                refined_results=initial_state.result.refined_results\n", "                dist_cutoff=dist_cutoff,\n"))
broken('re-nodesonly', B, (C, 'minimization_results=[\n                    copy.copy(res)\n                    for res in initial_state.result.minimization_results\n                ]', "minimization_results=initial_state.result.nodes"))
broken('re-noresults', B, (C, '                # copies, because adding a result changes its position\n                minimization_results=[\n                    copy.copy(res)\n                    for res in initial_state.result.minimization_results\n                ],\n', ""))
broken('re-poslost', B, (C, "            position_queue = PositionQueue(\n                objects=initial_state.position_queue.objects\n            )\n", "            position_queue = PositionQueue()\n"))
broken('re-force-replaces', B, (C, "                simplex_queue.add_objects(\n                    self.get_initial_simplices(\n                        initial_mesh_size=initial_mesh_size\n                    )\n                )", "                simplex_queue = SimplexQueue(\n                    self.get_initial_simplices(\n                        initial_mesh_size=initial_mesh_size\n                    )\n                )"))
broken('re-both', B, (C, "            if initial_state is not None:\n                raise ValueError(\n                    \"Cannot set the initial state explicitly and setting 'load=True' simultaneously.\"\n                )\n", ""))
broken('re-hideall', B, (C, "except IOError as exc", "except Exception as exc"))
broken('re-hidekey', B, (C, "except IOError as exc", "except (IOError, KeyError) as exc"))
broken('re-quietnot', B, (C, "if not load_quiet:", "if load_quiet:"))
broken('re-quietgone', B, (C, "                if not load_quiet:\n                    raise exc\n", "                SEARCH_LOGGER.debug('not loaded: {}'.format(exc))\n"))
broken('re-noforce', B, (C, "            if force_initial_mesh:\n", "            if force_initial_mesh and not load:\n"))
broken('re-queueonly', B, (C, "objects=initial_state.simplex_queue.objects", "objects=initial_state.simplex_queue.objects if not force_initial_mesh else ()"))
broken('re-filter', B, (C, 'minimization_results=[\n                    copy.copy(res)\n                    for res in initial_state.result.minimization_results\n                ]', "minimization_results=[r for r in initial_state.result.minimization_results if r.success]"))
broken('re-slice', B, (C, "objects=initial_state.position_queue.objects", "objects=initial_state.position_queue.objects[:num]".replace('num', 'self.dim')))
broken('re-swapped', B, (C, "objects=initial_state.position_queue.objects", "objects=initial_state.simplex_queue.objects"))
broken('re-running', B, (Q, "return list(self._running_objects) + super().objects", "return super().objects"))
broken('re-ctor', B, (RC, "        for res in minimization_results:\n            self.add_result(res)\n", "        for res in minimization_results:\n            if res.success:\n                self.add_result(res)\n"))
broken('re-ctor-dict', B, (RC, "        for res in refined_results:\n            self.set_refined(res)\n", ""))
broken('re-fresh', B, (C, "            simplex_queue = SimplexQueue(\n                self.get_initial_simplices(initial_mesh_size)\n            )", "            simplex_queue = SimplexQueue()"))
broken('re-orload', B, (C, "            if initial_state is not None:\n                raise ValueError(", "            if initial_state is not None and not load_quiet:\n                raise ValueError("))
F = ['C04', 'C10']
fine('re-ok-helper', F, (C, "            simplex_queue = SimplexQueue(\n                objects=initial_state.simplex_queue.objects\n            )\n            position_queue = PositionQueue(\n                objects=initial_state.position_queue.objects\n            )\n", "            simplex_queue = self._copy_queue(SimplexQueue, initial_state.simplex_queue)\n            position_queue = self._copy_queue(PositionQueue, initial_state.position_queue)\n"),
     (C, "    def get_initial_simplices(self", "    @staticmethod\n    def _copy_queue(kind, old):\n        return kind(objects=old.objects)\n\n    def get_initial_simplices(self"))
fine('re-ok-inverted', F, (C, "            except IOError as exc:\n                if not load_quiet:\n                    raise exc\n", "            except OSError as err:\n                if load_quiet:\n                    pass\n                else:\n                    raise\n"))
fine('re-ok-list', F, (C, 'minimization_results=[\n                    copy.copy(res)\n                    for res in initial_state.result.minimization_results\n                ]', "minimization_results=list(initial_state.result.minimization_results)"))
fine('re-ok-loop', F, (C, '                # copies, because adding a result changes its position\n                minimization_results=[\n                    copy.copy(res)\n                    for res in initial_state.result.minimization_results\n                ],\n', "                minimization_results=[res for res in initial_state.result.minimization_results],\n"))
fine('re-ok-init', F, (C, "        if initial_state is not None:\n            result = SearchResultContainer(", "        resume = initial_state is not None\n        if resume:\n            old = initial_state\n            result = SearchResultContainer("))
fine('re-ok-split', F, (C, "        if load:\n            if initial_state is not None:\n                raise ValueError(", "        if load and initial_state is not None:\n            raise ValueError('both')\n        if load:\n            if initial_state is not None:\n                raise ValueError("))
fine('re-ok-loader', F, (C, "            try:\n                initial_state = io.load(self.save_file)\n            except IOError as exc:\n                if not load_quiet:\n                    raise exc\n", "            initial_state = self._load(load_quiet)\n"),
     (C, "    def get_initial_simplices(self", "    def _load(self, quiet):\n        try:\n            return io.load(self.save_file)\n        except IOError:\n            if not quiet:\n                raise\n        return None\n\n    def get_initial_simplices(self"))

B = ['C10']
broken('op-parallel-max', B, (C, "self.num_minimize_parallel = num_minimize_parallel", "self.num_minimize_parallel = max(2, num_minimize_parallel)"))
broken('op-parallel-const', B, (C, "self.num_minimize_parallel = num_minimize_parallel", "self.num_minimize_parallel = 50"))
broken('op-delay', B, (C, "delay=self.save_delay", "delay=5."))
broken('op-delay-fwd', B, (R, "        save_delay=save_delay,\n", ""))
broken('op-recheck', B, (R, "        recheck_count_cutoff=recheck_count_cutoff,\n        simplex_check_cutoff=simplex_check_cutoff\n", "        recheck_count_cutoff=simplex_check_cutoff,\n        simplex_check_cutoff=recheck_count_cutoff\n"))
broken('op-periodic', B, (C, "            limits=limits, periodic=periodic\n        )\n        self.dim", "            limits=limits\n        )\n        self.dim"))
broken('op-gap', B, (C, "gap_threshold=gap_threshold,\n            dist_cutoff=self.dist_cutoff\n", "gap_threshold=0.05 * gap_threshold,\n            dist_cutoff=self.dist_cutoff\n"))
broken('op-chain', B, (C, "            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n", "            {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }, nelder_mead_kwargs\n"))
broken('op-dict', B, (C, "        self.nelder_mead_kwargs = ChainMap(\n            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n        )", "        self.nelder_mead_kwargs = {**nelder_mead_kwargs, 'ftol': 0.05 * gap_threshold, 'xtol': 0.03 * self.dist_cutoff}"))
broken('op-update', B, (C, "        self.nelder_mead_kwargs = ChainMap(\n            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n        )", "        settings = dict(nelder_mead_kwargs)\n        settings.update(ftol=0.05 * gap_threshold, xtol=0.03 * self.dist_cutoff)\n        self.nelder_mead_kwargs = settings"))
broken('op-tolswap', B, (C, "'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff", "'xtol': 0.05 * gap_threshold,\n                'ftol': 0.03 * self.dist_cutoff"))
broken('op-cutoff', B, (C, "self.dist_cutoff = feature_size / _DIST_CUTOFF_FACTOR", "self.dist_cutoff = gap_threshold / _DIST_CUTOFF_FACTOR"))
broken('op-stencil', B, (C, "        if isinstance(\n            refinement_stencil, str\n        ) and refinement_stencil == 'auto':", "        if refinement_stencil is not None:"))
broken('op-stencil-scale', B, (C, "self.refinement_stencil = refinement_stencil * self.dist_cutoff", "self.refinement_stencil = refinement_stencil"))
broken('op-fake-always', B, (C, "        if use_fake_potential:", "        if use_fake_potential is not None:"))
broken('op-fake-never', B, (C, "            fake_potential=self.fake_potential,\n", ""))
broken('op-fake-width', B, (C, "                width=self.dist_cutoff,\n", "                width=0.1,\n"))
broken('op-min-second', B, (M, "            func=func, initial_simplex=simplex_blowup, **nelder_mead_kwargs", "            func=func, initial_simplex=simplex_blowup, **modified_kwargs"))
broken('op-min-drop', B, (M, "        return await root_nelder_mead(\n            func=func, initial_simplex=initial_simplex, **nelder_mead_kwargs\n        )", "        return await root_nelder_mead(\n            func=func, initial_simplex=initial_simplex\n        )"))
broken('op-min-xtol', B, (M, "modified_kwargs['ftol'] = float('inf')", "modified_kwargs['ftol'] = float('inf')\n        modified_kwargs['xtol'] = 1e-3"))
broken('op-settings', B, (C, "            nelder_mead_kwargs=self.nelder_mead_kwargs,\n", ""))
broken('op-thread', B, (R, "                    exc_queue=exc_queue,\n                    **kwargs\n", "                    exc_queue=exc_queue,\n"))
broken('op-thread2', B, (R, "            res = loop.run_until_complete(run_async(*args, **kwargs))\n        finally:\n            loop.close()\n        res_queue", "            kwargs.pop('save_file', None)\n            res = loop.run_until_complete(run_async(*args, **kwargs))\n        finally:\n            loop.close()\n        res_queue"))
broken('op-ignored', B, (R, "        load_quiet=load_quiet,\n", "        load_quiet=True,\n"))
broken('op-meshsize', B, (R, "        initial_mesh_size=initial_mesh_size,\n", "        initial_mesh_size=10,\n"))
broken('op-unused', B, (C, "count_cutoff=self.recheck_count_cutoff", "count_cutoff=0"))
broken('op-or', B, (C, "self.save_file = save_file\n", "self.save_file = save_file + '.hdf5'\n"))
fine('op-ok-dict', F, (C, "        self.nelder_mead_kwargs = ChainMap(\n            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n        )", "        self.nelder_mead_kwargs = {'ftol': 0.05 * gap_threshold, 'xtol': 0.03 * self.dist_cutoff, **nelder_mead_kwargs}"))
fine('op-ok-update', F, (C, "        self.nelder_mead_kwargs = ChainMap(\n            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n        )", "        settings = dict(ftol=0.05 * gap_threshold, xtol=0.03 * self.dist_cutoff)\n        settings.update(nelder_mead_kwargs)\n        self.nelder_mead_kwargs = settings"))
fine('op-ok-setdefault', F, (C, "        self.nelder_mead_kwargs = ChainMap(\n            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n        )", "        settings = dict(nelder_mead_kwargs)\n        settings.setdefault('ftol', 0.05 * gap_threshold)\n        settings.setdefault('xtol', 0.03 * self.dist_cutoff)\n        self.nelder_mead_kwargs = settings"))
fine('op-ok-defaults', F, (C, "        self.nelder_mead_kwargs = ChainMap(\n            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n        )", "        defaults = {'ftol': 0.05 * gap_threshold}\n        defaults['xtol'] = 0.03 * self.dist_cutoff\n        self.nelder_mead_kwargs = ChainMap(nelder_mead_kwargs, defaults)"))
fine('op-ok-fake', F, (C, "        if use_fake_potential:\n            self.fake_potential = FakePotential(\n                result=self.state.result,\n                width=self.dist_cutoff,\n            )\n        else:\n            self.fake_potential = None\n", "        self.fake_potential = None\n        if use_fake_potential:\n            self.fake_potential = FakePotential(\n                width=self.dist_cutoff, result=self.state.result\n            )\n"))
fine('op-ok-fake-tern', F, (C, "        if use_fake_potential:\n            self.fake_potential = FakePotential(\n                result=self.state.result,\n                width=self.dist_cutoff,\n            )\n        else:\n            self.fake_potential = None\n", "        self.fake_potential = FakePotential(self.state.result, width=self.dist_cutoff) if use_fake_potential else None\n"))
fine('op-ok-stencil', F, (C, "        if refinement_stencil is not None:\n            self.refinement_stencil = refinement_stencil * self.dist_cutoff\n        else:\n            self.refinement_stencil = None\n", "        self.refinement_stencil = None if refinement_stencil is None else self.dist_cutoff * refinement_stencil\n"))
fine('op-ok-cutoff', F, (C, "self.dist_cutoff = feature_size / _DIST_CUTOFF_FACTOR", "cutoff = feature_size / _DIST_CUTOFF_FACTOR\n        self.dist_cutoff = cutoff"))
fine('op-ok-kwargs', F, (M, "        modified_kwargs = dict(nelder_mead_kwargs)\n        modified_kwargs['ftol'] = float('inf')\n", "        modified_kwargs = {**nelder_mead_kwargs, 'ftol': float('inf')}\n"))
fine('op-ok-minhelper', F, (M, "        return await root_nelder_mead(\n            func=func, initial_simplex=initial_simplex, **nelder_mead_kwargs\n        )", "        settings = dict(nelder_mead_kwargs)\n        return await root_nelder_mead(\n            func=func, initial_simplex=initial_simplex, **settings\n        )"))
fine('op-ok-optdict', F, (R, "    await controller.run()\n", "    await controller.run()\n    _ = load_quiet\n"))
