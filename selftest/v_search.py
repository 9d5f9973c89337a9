R = 'search/_run.py'
C = 'search/_controller.py'
Q = 'search/_queue.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


SCHED = ['C05', 'C06', 'C07', 'C08', 'C09', 'C12', 'C13']

broken('fin-before-process', ['C05'], (C, """        self.process_result(result)
        self.state.simplex_queue.set_finished(simplex)""", """        self.state.simplex_queue.set_finished(simplex)
        self.process_result(result)"""))
broken('fin-finally', ['C05'], (C, """        result = await run_minimization(
            self.gap_fct,
            initial_simplex=simplex,
            fake_potential=self.fake_potential,
            nelder_mead_kwargs=self.nelder_mead_kwargs,
        )
        self.process_result(result)
        self.state.simplex_queue.set_finished(simplex)""", """        try:
            result = await run_minimization(
                self.gap_fct,
                initial_simplex=simplex,
                fake_potential=self.fake_potential,
                nelder_mead_kwargs=self.nelder_mead_kwargs,
            )
            self.process_result(result)
        finally:
            self.state.simplex_queue.set_finished(simplex)"""))
broken('await-after-pop-pos', ['C05'], (C, """pos = self.state.position_queue.pop_queued()
""", """pos = self.state.position_queue.pop_queued()
                            await asyncio.sleep(0.)
"""))
broken('await-between-add-refined', ['C05'], (C, """                                self.state.result.set_refined(np.array(pos))
""", """                                await asyncio.sleep(0.)
                                self.state.result.set_refined(np.array(pos))
"""))
broken('no-set-refined', ['C05', 'C12'], (C, """                                self.state.result.set_refined(np.array(pos))
""", ""))
broken('objects-no-running', ['C05'], (Q, "return list(self._running_objects) + super().objects", "return super().objects"))
broken('fin-at-launch', ['C05'], (C, "self.schedule_minimization(simplex)\n", "self.schedule_minimization(simplex)\n                            self.state.simplex_queue.set_finished(simplex)\n"))
broken('split-process', ['C05'], (C, """        self.process_result(result)
        self.state.simplex_queue.set_finished(simplex)""", """        is_node = self.state.result.add_result(result)
        self.state.simplex_queue.set_finished(simplex)
        if is_node and self.refinement_stencil is not None and self._check_pos_refinement(result.pos):
            self.state.position_queue.add_objects([result.pos])"""))
broken('cap-le', ['C06'], (C, """                    self.state.simplex_queue.num_running <
                    self.num_minimize_parallel""", """                    self.state.simplex_queue.num_running <=
                    self.num_minimize_parallel"""))
broken('cap-one-check', ['C06'], (C, """                    if self.state.simplex_queue.has_queued:
                        simplex =""", """                    while self.state.simplex_queue.has_queued:
                        simplex ="""), (C, """                            self.state.simplex_queue.set_finished(simplex)
                    else:
                        break
""", """                            self.state.simplex_queue.set_finished(simplex)
                    break
"""))
broken('no-yield', ['C07'], (C, "                await asyncio.sleep(0.)\n", ""))
broken('exit-ignores-pos', ['C07'], (C, """            while (
                not self.state.simplex_queue.finished
            ) or self.state.position_queue.has_queued:""", """            while not self.state.simplex_queue.finished:"""))
broken('exit-ignores-running', ['C07'], (C, "not self.state.simplex_queue.finished\n", "self.state.simplex_queue.has_queued\n"))
broken('exit-and', ['C07'], (C, ") or self.state.position_queue.has_queued:", ") and self.state.position_queue.has_queued:"))
broken('no-fin', ['C07'], (C, """        self.process_result(result)
        self.state.simplex_queue.set_finished(simplex)""", """        self.process_result(result)"""))
broken('drop-simplex', ['C07'], (C, """                        else:
                            self.state.simplex_queue.set_finished(simplex)
                    else:
                        break
""", """                    else:
                        break
"""))
broken('one-launch', ['C07'], (C, """                while (
                    self.state.simplex_queue.num_running <
                    self.num_minimize_parallel
                ):""", """                for _ in range(1):"""))
fine('capacity-helper', SCHED, (C, """                while (
                    self.state.simplex_queue.num_running <
                    self.num_minimize_parallel
                ):
""", """                while self._has_capacity():
"""), (C, """    def schedule_minimization(""", """    def _has_capacity(self):
        return self.num_minimize_parallel > self.state.simplex_queue.num_running

    def schedule_minimization("""))
fine('launch-helper', SCHED, (C, """                while (
                    self.state.simplex_queue.num_running <
                    self.num_minimize_parallel
                ):
                    while not self.state.simplex_queue.has_queued:
                        if self.state.position_queue.has_queued:
                            pos = self.state.position_queue.pop_queued()
                            if self.refinement_stencil is not None and (
                                (not self.recheck_pos_dist) or
                                self._check_pos_refinement(
                                    pos,
                                    count_cutoff=self.recheck_count_cutoff
                                )
                            ):
                                self.state.simplex_queue.add_objects(
                                    pos + self.refinement_stencil
                                )
                                self.state.result.set_refined(np.array(pos))
                            else:
                                SEARCH_LOGGER.debug(
                                    'Discarding refinement of position {}'.
                                    format(pos)
                                )
                        else:
                            break
                    if self.state.simplex_queue.has_queued:
                        simplex = self.state.simplex_queue.pop_queued()
                        if self._check_simplex(simplex):
                            self.schedule_minimization(simplex)
                        else:
                            self.state.simplex_queue.set_finished(simplex)
                    else:
                        break
""", """                self._launch()
"""), (C, """    def schedule_minimization(""", """    def _launch(self):
        state = self.state
        while True:
            if state.simplex_queue.num_running >= self.num_minimize_parallel:
                return
            self._fill()
            if not state.simplex_queue.has_queued:
                return
            item = state.simplex_queue.pop_queued()
            if not self._check_simplex(item):
                state.simplex_queue.set_finished(item)
                continue
            self.schedule_minimization(item)

    def _fill(self):
        simplices, positions = self.state.simplex_queue, self.state.position_queue
        while positions.has_queued and not simplices.has_queued:
            pos = positions.pop_queued()
            if self._should_refine(pos):
                self.state.result.set_refined(np.array(pos))
                simplices.add_objects(self.refinement_stencil + pos)
            else:
                SEARCH_LOGGER.debug('Discarding refinement of position {}'.format(pos))

    def _should_refine(self, pos):
        if self.refinement_stencil is None:
            return False
        if not self.recheck_pos_dist:
            return True
        return self._check_pos_refinement(pos, count_cutoff=self.recheck_count_cutoff)

    def schedule_minimization("""))
fine('task-rewrite', SCHED, (C, """        result = await run_minimization(
            self.gap_fct,
            initial_simplex=simplex,
            fake_potential=self.fake_potential,
            nelder_mead_kwargs=self.nelder_mead_kwargs,
        )
        self.process_result(result)
        self.state.simplex_queue.set_finished(simplex)""", """        try:
            res = await self._minimize(simplex)
        except Exception:
            SEARCH_LOGGER.debug('failed')
            raise
        self.process_result(res)
        queue = self.state.simplex_queue
        queue.set_finished(simplex)

    async def _minimize(self, start):
        kwargs = dict(initial_simplex=start, fake_potential=self.fake_potential)
        return await run_minimization(self.gap_fct, nelder_mead_kwargs=self.nelder_mead_kwargs, **kwargs)"""))

EXC = """                exceptions = [fut.exception() for fut in done_futures]
                exceptions = [exc for exc in exceptions if exc is not None]
                if exceptions:
                    raise exceptions[0]
"""
broken('exc-ignored', ['C08'], (C, EXC, ""))
broken('exc-two', ['C08'], (C, "                if exceptions:\n", "                if len(exceptions) > 1:\n"))
broken('exc-log', ['C08'], (C, "raise exceptions[0]", "SEARCH_LOGGER.info('failed {}'.format(exceptions[0]))"))
broken('exc-task-swallow', ['C08'], (C, """        self.process_result(result)
        self.state.simplex_queue.set_finished(simplex)""", """            self.process_result(result)
            self.state.simplex_queue.set_finished(simplex)
        except ArithmeticError:
            self.state.simplex_queue.set_finished(simplex)"""), (C, """        result = await run_minimization(
            self.gap_fct,
            initial_simplex=simplex,
            fake_potential=self.fake_potential,
            nelder_mead_kwargs=self.nelder_mead_kwargs,
        )""", """        try:
            result = await run_minimization(
                self.gap_fct,
                initial_simplex=simplex,
                fake_potential=self.fake_potential,
                nelder_mead_kwargs=self.nelder_mead_kwargs,
            )"""))
broken('exc-recompute-done', ['C08'], (C, "                self.task_futures.difference_update(done_futures)", "                await asyncio.sleep(0.)\n                self.task_futures.difference_update([fut for fut in self.task_futures if fut.done()])"))
broken('exc-clear', ['C08'], (C, "                self.task_futures.difference_update(done_futures)", "                self.task_futures.clear()"))
broken('exc-thread-Exception', ['C08'], (R, "    except BaseException as exc:", "    except Exception as exc:"))
broken('exc-thread-value', ['C08'], (R, "    except BaseException as exc:\n        exc_queue.put(exc)\n        raise", "    except BaseException as exc:\n        res_queue.put(None)\n        raise"))
broken('exc-thread-noraise', ['C08'], (R, "            if not exc_queue.empty():\n                raise exc_queue.get()\n", "            if not exc_queue.empty():\n                SEARCH_LOGGER.error(str(exc_queue.get()))\n                return None\n"))
broken('exc-return-exceptions', ['C08'], (C, "        await asyncio.gather(*self.task_futures)\n", "        await asyncio.gather(*self.task_futures, return_exceptions=True)\n"))
broken('exc-return-finally', ['C08'], (R, "            loop.close()\n    return res", "            loop.close()\n        return res"), (R, "    try:\n        if loop.is_running():", "    res = None\n    try:\n        if loop.is_running():"))
broken('nothing-awaited', ['C09'], (C, "            await asyncio.gather(*self.task_futures, return_exceptions=True)\n", ""))
broken('cancel-except-exception', ['C09'], (C, """        finally:
            # do not leave minimizations running when the search is aborted
            for""", """        except Exception:
            # do not leave minimizations running when the search is aborted
            for"""), (C, "return_exceptions=True)\n", "return_exceptions=True)\n            raise\n"))
broken('no-loop-close', ['C09'], (R, "        finally:\n            loop.close()\n        res_queue", "        finally:\n            pass\n        res_queue"))
broken('loop-close-success', ['C09'], (R, """        try:
            res = loop.run_until_complete(run_async(*args, **kwargs))
        finally:
            loop.close()
""", """        res = loop.run_until_complete(run_async(*args, **kwargs))
        loop.close()
"""))
broken('close-foreign', ['C09'], (R, "        if close_loop:\n            loop.close()", "        loop.close()"))
broken('no-join', ['C09'], (R, "            thread.join()\n            if not exc_queue.empty():\n                raise exc_queue.get()\n            res = res_queue.get()\n", "            res = res_queue.get()\n"))
broken('join-timeout', ['C09'], (R, "            thread.join()\n", "            thread.join(60)\n"))
fine('exc-loop', SCHED, (C, EXC, """                first = None
                for fut in done_futures:
                    exc = fut.exception()
                    if exc is not None and first is None:
                        first = exc
                if first is not None:
                    raise first
"""))
fine('exc-result', SCHED, (C, EXC + "\n                self.task_futures.difference_update(done_futures)", """                for fut in done_futures:
                    fut.result()
                for fut in done_futures:
                    self.task_futures.discard(fut)"""))
fine('exc-helper', SCHED, (C, """                done_futures = [fut for fut in self.task_futures if fut.done()]
""" + EXC + "\n                self.task_futures.difference_update(done_futures)", """                self._collect_finished()"""), (C, """    def schedule_minimization(""", """    def _collect_finished(self):
        done_futures = {fut for fut in self.task_futures if fut.done()}
        exceptions = list(filter(None, (fut.exception() for fut in done_futures)))
        if len(exceptions) > 0:
            raise exceptions[0]
        self.task_futures -= done_futures

    def schedule_minimization("""))
fine('exc-wait', ['C08', 'C09', 'C07'], (C, """                await asyncio.sleep(0.)

""", """                await asyncio.sleep(0.)
                pending_or_done = list(self.task_futures)
                del pending_or_done

"""))
fine('cancel-helper', ['C08', 'C09'], (C, """            for future in self.task_futures:
                future.cancel()
            await asyncio.gather(*self.task_futures, return_exceptions=True)
""", """            await self._abort_running()
"""), (C, """    def schedule_minimization(""", """    async def _abort_running(self):
        futures = list(self.task_futures)
        for task in futures:
            if not task.done():
                task.cancel()
        await asyncio.gather(*futures, return_exceptions=True)

    def schedule_minimization("""))
fine('thread-helper', ['C08', 'C09'], (R, """            res_queue = queue.Queue()
            exc_queue = queue.Queue()
            thread = threading.Thread(
                target=partial(
                    _run_in_thread,
                    *args,
                    res_queue=res_queue,
                    exc_queue=exc_queue,
                    **kwargs
                )
            )
            SEARCH_LOGGER.debug('Starting thread.')
            thread.start()
            SEARCH_LOGGER.debug('Joining thread.')
            thread.join()
            if not exc_queue.empty():
                raise exc_queue.get()
            res = res_queue.get()
""", """            res = _threaded(args, kwargs)
"""), (R, "def _run_in_thread(", """def _threaded(args, kwargs):
    results = queue.Queue()
    errors = queue.Queue()
    worker = threading.Thread(
        target=_run_in_thread,
        args=args,
        kwargs=dict(kwargs, res_queue=results, exc_queue=errors)
    )
    worker.start()
    worker.join()
    if errors.empty():
        return results.get()
    raise errors.get()


def _run_in_thread("""))
fine('thread-single-queue', ['C08', 'C09'], (R, """            if not exc_queue.empty():
                raise exc_queue.get()
            res = res_queue.get()
""", """            try:
                exc = exc_queue.get_nowait()
            except queue.Empty:
                res = res_queue.get()
            else:
                raise exc
"""))
fine('loop-ctx', ['C08', 'C09'], (R, """    try:
        loop = asyncio.new_event_loop()
        try:
            res = loop.run_until_complete(run_async(*args, **kwargs))
        finally:
            loop.close()
        res_queue.put(res)
""", """    try:
        with contextlib.closing(asyncio.new_event_loop()) as loop:
            res = loop.run_until_complete(run_async(*args, **kwargs))
        res_queue.put(res)
"""), (R, "import queue\n", "import queue\nimport contextlib\n"))
fine('asyncio-run', ['C08', 'C09'], (R, """        loop = asyncio.new_event_loop()
        try:
            res = loop.run_until_complete(run_async(*args, **kwargs))
        finally:
            loop.close()
        res_queue.put(res)
""", """        res_queue.put(asyncio.run(run_async(*args, **kwargs)))
"""))
