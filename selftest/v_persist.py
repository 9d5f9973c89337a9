C = 'search/_controller.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


SAVE = """            with tempfile.NamedTemporaryFile(
                dir=os.path.dirname(self.save_file), delete=False
            ) as tmpf:
                try:
                    io.save(self.state, tmpf.name)
                    os.rename(tmpf.name, self.save_file)
                    self.state.needs_saving = False
                except Exception as exc:
                    os.remove(tmpf.name)
                    raise exc
"""
REN = "os.rename(tmpf.name, self.save_file)"
IOS = "io.save(self.state, tmpf.name)"
B = ['C01']
broken('sv-direct', B, (C, SAVE, "            io.save(self.state, self.save_file)\n            self.state.needs_saving = False\n"))
broken('sv-order', B, (C, IOS + "\n                    " + REN, REN + "\n                    io.save(self.state, self.save_file)"))
broken('sv-nodir', B, (C, "dir=os.path.dirname(self.save_file), delete=False", "delete=False"))
broken('sv-dirnone', B, (C, "dir=os.path.dirname(self.save_file)", "dir=None"))
broken('sv-leak', B, (C, "                    os.remove(tmpf.name)\n", ""))
broken('sv-swallow', B, (C, "                    raise exc\n", "                    SEARCH_LOGGER.warning('Saving failed: %s', exc)\n", ) if False else (C, "                    os.remove(tmpf.name)\n                    raise exc\n", "                    os.remove(tmpf.name)\n                    SEARCH_LOGGER.warning('Saving failed: %s', exc)\n"))
broken('sv-flag', B, (C, REN + "\n                    self.state.needs_saving = False", "self.state.needs_saving = False\n                    " + REN))
broken('sv-copy', B, (C, REN, "shutil.copy(tmpf.name, self.save_file)\n                    os.remove(tmpf.name)"), (C, "import os\n", "import os\nimport shutil\n"))
broken('sv-delete', B, (C, ", delete=False", ""))
broken('sv-rmfirst', B, (C, REN, "if os.path.exists(self.save_file):\n                        os.remove(self.save_file)\n                    " + REN))
broken('sv-backup', B, (C, REN, "os.rename(self.save_file, self.save_file + '.bak')\n                    " + REN))
broken('sv-open', B, (C, "        if self.save_file and self.state.needs_saving:\n", "        if self.save_file and self.state.needs_saving:\n            open(self.save_file, 'w').close()\n"))
broken('sv-oserror', B, (C, "except Exception as exc", "except OSError as exc"))
broken('sv-init-touch', B, (C, "        self.save_delay = save_delay\n", "        self.save_delay = save_delay\n        if self.save_file and not load:\n            os.remove(self.save_file)\n"))
broken('sv-finally-flag', B, (C, "                    self.state.needs_saving = False\n                except", "                except"), (C, "                    os.remove(tmpf.name)\n                    raise exc\n", "                    os.remove(tmpf.name)\n                    raise exc\n                finally:\n                    self.state.needs_saving = False\n"))
fine('sv-replace', B, (C, REN, "os.replace(tmpf.name, self.save_file)"))
fine('sv-mkstemp', B, (C, SAVE, """            handle, tmp_name = tempfile.mkstemp(dir=os.path.dirname(self.save_file))
            os.close(handle)
            try:
                io.save(self.state, tmp_name)
                os.replace(tmp_name, self.save_file)
            except Exception:
                os.remove(tmp_name)
                raise
            self.state.needs_saving = False
"""))
fine('sv-sibling', B, (C, SAVE, """            tmp_name = self.save_file + '.tmp'
            try:
                io.save(self.state, tmp_name)
                os.replace(tmp_name, self.save_file)
                self.state.needs_saving = False
            except Exception:
                os.remove(tmp_name)
                raise
"""))
fine('sv-helper', B, (C, SAVE, """            self._write()
            self.state.needs_saving = False

    def _write(self):
        target = self.save_file
        folder = os.path.dirname(target)
        with tempfile.NamedTemporaryFile(dir=folder, delete=False) as tmpf:
            path = tmpf.name
            try:
                self._store(path)
                os.rename(path, target)
            except Exception:
                os.remove(path)
                raise

    def _store(self, path):
        io.save(self.state, path)
"""))
fine('sv-tmpdir', B, (C, SAVE, """            with tempfile.TemporaryDirectory(dir=os.path.dirname(self.save_file)) as folder:
                path = os.path.join(folder, 'state.hdf5')
                io.save(self.state, path)
                os.replace(path, self.save_file)
            self.state.needs_saving = False
"""))
fine('sv-finally', B, (C, SAVE, """            with tempfile.NamedTemporaryFile(
                dir=os.path.dirname(self.save_file), delete=False
            ) as tmpf:
                done = False
                try:
                    io.save(self.state, tmpf.name)
                    os.rename(tmpf.name, self.save_file)
                    done = True
                finally:
                    if not done:
                        os.remove(tmpf.name)
                self.state.needs_saving = False
"""))
fine('sv-exists', B, (C, SAVE, """            with tempfile.NamedTemporaryFile(
                dir=os.path.dirname(self.save_file), delete=False
            ) as tmpf:
                try:
                    io.save(self.state, tmpf.name)
                    os.rename(tmpf.name, self.save_file)
                    self.state.needs_saving = False
                finally:
                    if os.path.exists(tmpf.name):
                        os.remove(tmpf.name)
"""))
fine('sv-base', B, (C, "except Exception as exc:\n                    os.remove(tmpf.name)\n                    raise exc", "except BaseException:\n                    os.remove(tmpf.name)\n                    raise"))
fine('sv-early', B, (C, "        if self.save_file and self.state.needs_saving:\n" + SAVE, "        if not (self.save_file and self.state.needs_saving):\n            return\n" + SAVE.replace('\n    ', '\n')[4:]))
fine('sv-log', B, (C, REN, REN + "\n                    SEARCH_LOGGER.debug('Saved to %s', self.save_file)"))

Q = 'search/_queue.py'
R = 'search/result/_search_result_container.py'
ST = 'search/result/_controller_state.py'
B = ['C02']
broken('mk-pop', B, (Q, "        obj = self._queued_objects.get_nowait()\n        self.needs_saving = True\n        return obj", "        return self._queued_objects.get_nowait()"))
broken('mk-fin', B, (Q, "        self._running_objects.remove(obj)\n        self.needs_saving = True\n", "        self._running_objects.remove(obj)\n"))
broken('mk-add', B, (Q, "            self._all_objects.update(new_objects_filtered)\n            self.needs_saving = True\n", "            self._all_objects.update(new_objects_filtered)\n"))
broken('mk-addres', B, (R, "        self.needs_saving = True\n        if not (res", "        if not (res"))
broken('mk-addres-node', B, (R, "        self.needs_saving = True\n        if not (res", "        if not (res"), (R, "            self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)\n", "            self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)\n            self.needs_saving = True\n"))
broken('mk-refined', B, (R, "            self.coordinate_system.get_frac(pos), pos\n        )\n        self.needs_saving = True\n", "            self.coordinate_system.get_frac(pos), pos\n        )\n"))
GET = "return self.result.needs_saving or self.simplex_queue.needs_saving or self.position_queue.needs_saving"
broken('mk-and', B, (ST, GET, "return self.result.needs_saving and self.simplex_queue.needs_saving and self.position_queue.needs_saving"))
broken('mk-two', B, (ST, GET, "return self.result.needs_saving or self.simplex_queue.needs_saving"))
broken('mk-save-cond', B, (C, "if self.save_file and self.state.needs_saving:", "if self.save_file and self.state.result.needs_saving:"))
broken('mk-save-other', B, (C, IOS, "io.save(self.state.result, tmpf.name)"))
broken('mk-noexit', B, (C, "PeriodicTask(self.save, delay=self.save_delay)", "PeriodicTask(self.save, delay=self.save_delay, run_on_exit=False)"))
broken('mk-early-exit', B, (C, "        async with PeriodicTask(self.save, delay=self.save_delay):\n            while (", "        async with PeriodicTask(self.save, delay=self.save_delay):\n            await asyncio.sleep(0.)\n        if True:\n            while ("))
broken('mk-unmark', B, (C, "        self.task_futures = set()\n", "        self.task_futures = set()\n\n    def reset(self):\n        self.state.needs_saving = False\n"))
broken('mk-size', B, (C, "if self.save_file and self.state.needs_saving:", "if self.save_file and self.state.needs_saving and self.state.result.nodes.values():"))
fine('mk-before', B, (Q, "        self._running_objects.remove(obj)\n        self.needs_saving = True\n", "        self.needs_saving = True\n        self._running_objects.remove(obj)\n"))
fine('mk-helper', B, (Q, "        self._running_objects.remove(obj)\n        self.needs_saving = True\n", "        self._running_objects.remove(obj)\n        self._touch()\n\n    def _touch(self):\n        self.needs_saving = True\n"))
fine('mk-any', B, (ST, GET, "return any(part.needs_saving for part in (self.result, self.simplex_queue, self.position_queue))"))
fine('mk-if', B, (ST, GET, "if self.result.needs_saving:\n            return True\n        queues = [self.simplex_queue, self.position_queue]\n        for queue in queues:\n            if queue.needs_saving:\n                return True\n        return False"))
fine('mk-addloop', B, (Q, """        new_objects_filtered = [
            obj for obj in new_objects if obj not in self._all_objects
        ]
        if new_objects_filtered:
            self._extend_queue(new_objects_filtered)
            self._all_objects.update(new_objects_filtered)
            self.needs_saving = True
""", """        added = False
        for obj in new_objects:
            if obj not in self._all_objects:
                self._queued_objects.put_nowait(obj)
                self._all_objects.add(obj)
                added = True
        if added:
            self.needs_saving = True
"""))
fine('mk-addearly', B, (Q, """        if new_objects_filtered:
            self._extend_queue(new_objects_filtered)
            self._all_objects.update(new_objects_filtered)
            self.needs_saving = True
""", """        if not new_objects_filtered:
            return
        self.needs_saving = True
        self._extend_queue(new_objects_filtered)
        self._all_objects |= set(new_objects_filtered)
"""))
fine('mk-addres-both', B, (R, "        self.needs_saving = True\n        if not (res", "        if not (res"), (R, "            self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)\n", "            self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)\n            self.needs_saving = True\n"), (R, "            self.rejected_results.append(res)\n", "            self.rejected_results.append(res)\n            self.needs_saving = True\n"))
fine('mk-gather-in', B, (C, "        await asyncio.gather(*self.task_futures)\n\n", "            await asyncio.gather(*self.task_futures)\n\n"))
fine('mk-extrasave', B, (C, "        await asyncio.gather(*self.task_futures)\n\n", "        await asyncio.gather(*self.task_futures)\n        self.save()\n\n"))
fine('mk-cache', B, (R, "        self.rejected_results = []\n", "        self.rejected_results = []\n        self._cache = {}\n"), (R, "        candidates = self._get_neighbour_iterator(pos)\n        return (", "        self._cache[tuple(pos)] = True\n        candidates = self._get_neighbour_iterator(pos)\n        return ("))

broken('mk-flag', ['C01', 'C02'], (C, IOS + "\n                    " + REN + "\n                    self.state.needs_saving = False", "self.state.needs_saving = False\n                    " + IOS + "\n                    " + REN))
