Q = 'search/_queue.py'
CO = 'search/_controller.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


B = ['C17']
INIT = "        all_objects = list(dict.fromkeys(self.normalize(objects)))\n        self._queued_objects = Queue()\n        self._extend_queue(all_objects)\n\n        self._all_objects = set(all_objects)\n"
ADD = "        new_objects = dict.fromkeys(self.normalize(objects))\n        new_objects_filtered = [\n            obj for obj in new_objects if obj not in self._all_objects\n        ]\n        if new_objects_filtered:\n            self._extend_queue(new_objects_filtered)\n            self._all_objects.update(new_objects_filtered)\n            self.needs_saving = True\n"
NORM = "            tuple(sorted(tuple(coord) for coord in simplex))\n"
PUT = "            self._queued_objects.put_nowait(obj)\n"
GET = "        obj = self._queued_objects.get_nowait()\n"
IMP = "from queue import Queue\n"
broken('on-nocheck', B, (Q, "            obj for obj in new_objects if obj not in self._all_objects\n", "            obj for obj in new_objects\n"))
broken('on-waiting', B, (Q, "if obj not in self._all_objects\n", "if obj not in self._queued_objects.queue\n"))
broken('on-dup', B, (Q, "new_objects = dict.fromkeys(self.normalize(objects))", "new_objects = self.normalize(objects)"))
broken('on-initdup', B, (Q, "all_objects = list(dict.fromkeys(self.normalize(objects)))", "all_objects = self.normalize(objects)"))
broken('on-loop', B, (Q, ADD, "        for obj in self.normalize(objects):\n            if obj in self._all_objects:\n                self._extend_queue([obj])\n            self._all_objects.add(obj)\n            self.needs_saving = True\n"))
broken('on-loop2', B, (Q, ADD, "        known = self._all_objects\n        new = []\n        for obj in self.normalize(objects):\n            if obj not in known:\n                self._queued_objects.put_nowait(obj)\n                new.append(obj)\n        self._all_objects.update(new)\n        self.needs_saving = True\n"))
broken('re-none', B, (Q, "            self._all_objects.update(new_objects_filtered)\n", ""))
broken('re-raw', B, (Q, "self._all_objects.update(new_objects_filtered)", "self._all_objects.update(tuple(map(tuple, o)) for o in objects)", ), (Q, "update(tuple(map(tuple, o)) for o in objects)", "update(objects)"))
broken('re-replace', B, (Q, "self._all_objects.update(new_objects_filtered)", "self._all_objects = set(new_objects_filtered)"))
broken('re-init', B, (Q, "self._all_objects = set(all_objects)", "self._all_objects = set()"))
broken('re-initraw', B, (Q, "self._all_objects = set(all_objects)", "self._all_objects = set(objects)"))
broken('re-forget', B, (Q, "        self._running_objects.remove(obj)\n", "        self._running_objects.remove(obj)\n        self._all_objects.discard(obj)\n"))
broken('re-pop', B, (Q, "        self.needs_saving = True\n        return obj\n", "        self.needs_saving = True\n        self._all_objects.remove(obj)\n        return obj\n"))
broken('or-set', B, (Q, "new_objects = dict.fromkeys(self.normalize(objects))", "new_objects = set(self.normalize(objects))"))
broken('or-initset', B, (Q, "all_objects = list(dict.fromkeys(self.normalize(objects)))", "all_objects = list(set(self.normalize(objects)))"))
broken('or-lifo', B, (Q, IMP, "from queue import LifoQueue as Queue\n"))
broken('or-prio', B, (Q, IMP, "from queue import PriorityQueue as Queue\n"))
broken('or-sorted', B, (Q, "in new_objects if obj", "in sorted(new_objects) if obj"))
broken('or-max', B, (Q, "= Queue()", "= Queue(10000)"))
broken('or-deque', B, (Q, IMP, "from collections import deque\n"), (Q, "= Queue()", "= deque()"), (Q, PUT, "            self._queued_objects.append(obj)\n"), (Q, GET, "        obj = self._queued_objects.pop()\n"), (Q, "self._queued_objects.queue", "self._queued_objects"), (Q, "not self._queued_objects.empty()", "bool(self._queued_objects)"))
broken('or-cut', B, (Q, "self._extend_queue(new_objects_filtered)", "self._extend_queue(new_objects_filtered[1:])"))
broken('fo-none', B, (Q, NORM, "            tuple(tuple(coord) for coord in simplex)\n"))
broken('fo-inner', B, (Q, NORM, "            tuple(tuple(sorted(coord)) for coord in simplex)\n"))
broken('fo-key', B, (Q, NORM, "            tuple(sorted((tuple(coord) for coord in simplex), key=lambda c: c[0]))\n"))
broken('fo-npsort', B, (Q, NORM, "            tuple(tuple(coord) for coord in np.sort(simplex, axis=0))\n"))
broken('fo-round', B, (Q, NORM, "            tuple(sorted(tuple(np.round(coord, 6)) for coord in simplex))\n"))
broken('fo-posround', B, (Q, "return [tuple(pos) for pos in objects]", "return [tuple(round(x, 8) for x in pos) for pos in objects]"))
broken('pr-noadd', B, (Q, "        self._running_objects.add(obj)\n", ""))
broken('pr-clear', B, (Q, "self._running_objects.remove(obj)", "self._running_objects.clear()"))
broken('pr-pop', B, (Q, "self._running_objects.remove(obj)", "self._running_objects.pop()"))
broken('pr-nothing', B, (Q, "        self._running_objects.remove(obj)\n", "        if self.has_queued:\n            self._running_objects.remove(obj)\n"))
broken('fi-waiting', B, (Q, "return not self.objects", "return not self.has_queued"))
broken('fi-running', B, (Q, "return not self.objects", "return not self._running_objects"))
broken('fi-or', B, (Q, "return not self.objects", "return not self.has_queued or not self._running_objects"))
broken('fi-has', B, (Q, "return not self._queued_objects.empty()", "return bool(self.objects)"))
broken('fi-num', B, (Q, "return len(self._running_objects)", "return len(self.objects)"))
fine('loop', B, (Q, ADD, "        for obj in self.normalize(objects):\n            if obj in self._all_objects:\n                continue\n            self._all_objects.add(obj)\n            self._queued_objects.put_nowait(obj)\n            self.needs_saving = True\n"))
fine('loop2', B, (Q, ADD, "        for obj in self.normalize(objects):\n            if obj not in self._all_objects:\n                self._queued_objects.put_nowait(obj)\n                self._all_objects.add(obj)\n                self.needs_saving = True\n"))
fine('loop3', B, (Q, ADD, "        new_objects = []\n        for obj in dict.fromkeys(self.normalize(objects)):\n            if obj not in self._all_objects:\n                new_objects.append(obj)\n        if new_objects:\n            self._extend_queue(new_objects)\n            self._all_objects.update(new_objects)\n            self.needs_saving = True\n"))
fine('local', B, (Q, ADD, "        known = self._all_objects\n        fresh = [x for x in dict.fromkeys(self.normalize(objects)) if x not in known]\n        if not fresh:\n            return\n        self._all_objects |= set(fresh)\n        self._extend_queue(fresh)\n        self.needs_saving = True\n"))
fine('updatefirst', B, (Q, "            self._extend_queue(new_objects_filtered)\n            self._all_objects.update(new_objects_filtered)\n", "            self._all_objects.update(new_objects_filtered)\n            self._extend_queue(new_objects_filtered)\n"))
fine('init-add', B, (Q, INIT, "        self._queued_objects = Queue()\n        self._all_objects = set()\n        self.add_objects(objects)\n"))
fine('init-loop', B, (Q, INIT, "        self._queued_objects = Queue()\n        self._all_objects = set()\n        for obj in self.normalize(objects):\n            if obj not in self._all_objects:\n                self._all_objects.add(obj)\n                self._queued_objects.put(obj)\n"))
fine('deque', B, (Q, IMP, "from collections import deque\n"), (Q, "= Queue()", "= deque()"), (Q, PUT, "            self._queued_objects.append(obj)\n"), (Q, GET, "        obj = self._queued_objects.popleft()\n"), (Q, "self._queued_objects.queue", "self._queued_objects"), (Q, "not self._queued_objects.empty()", "bool(self._queued_objects)"))
fine('deque-ext', B, (Q, IMP, "from collections import deque\n"), (Q, INIT, "        all_objects = list(dict.fromkeys(self.normalize(objects)))\n        self._queued_objects = deque(all_objects)\n        self._all_objects = set(all_objects)\n"), (Q, "            self._extend_queue(new_objects_filtered)\n", "            self._queued_objects.extend(new_objects_filtered)\n"), (Q, "        for obj in objects:\n            self._queued_objects.put_nowait(obj)\n", "        self._queued_objects.extend(objects)\n"), (Q, GET, "        obj = self._queued_objects.popleft()\n"), (Q, "self._queued_objects.queue", "self._queued_objects"), (Q, "not self._queued_objects.empty()", "len(self._queued_objects) > 0"))
fine('form-list', B, (Q, NORM, "            tuple(sorted([tuple(c) for c in simplex]))\n"))
fine('form-map', B, (Q, NORM, "            tuple(sorted(map(tuple, simplex)))\n"))
fine('form-frozen', B, (Q, NORM, "            frozenset(tuple(c) for c in simplex)\n"))
fine('form-loop', B, (Q, "        return [\n" + NORM + "            for simplex in objects\n        ]\n", "        res = []\n        for simplex in objects:\n            vertices = [tuple(coord) for coord in simplex]\n            vertices.sort()\n            res.append(tuple(vertices))\n        return res\n"))
fine('fin-and', B, (Q, "return not self.objects", "return not self.has_queued and not self._running_objects"))
fine('fin-if', B, (Q, "return not self.objects", "if self.has_queued:\n            return False\n        return self.num_running == 0"))
fine('fin-len', B, (Q, "return not self.objects", "return len(self.objects) == 0"))
fine('has-size', B, (Q, "return not self._queued_objects.empty()", "return self._queued_objects.qsize() > 0"))
fine('discard', B, (Q, "self._running_objects.remove(obj)", "self._running_objects.discard(obj)"))
fine('runlist', B, (Q, "self._running_objects = set()", "self._running_objects = []"), (Q, "self._running_objects.add(obj)", "self._running_objects.append(obj)"))
fine('pop-direct', B, (Q, "        obj = super().pop_queued()\n        self._running_objects.add(obj)\n        return obj\n", "        simplex = super().pop_queued()\n        running = self._running_objects\n        running.add(simplex)\n        return simplex\n"))
