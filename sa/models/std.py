import verif_ctx


class Queue:
    def __init__(self, maxsize=0):
        self.data = []

    def put(self, x, *args, **kw):
        self.data.append(x)

    put_nowait = put

    def get(self, *args, **kw):
        return self.data.pop(0)

    get_nowait = get

    def empty(self):
        return len(self.data) == 0

    def qsize(self):
        return len(self.data)


class LifoQueue(Queue):
    def get(self, *args, **kw):
        return self.data.pop()


class deque:
    def __init__(self, it=(), maxlen=None):
        self.data = list(it)

    def append(self, x):
        self.data.append(x)

    def appendleft(self, x):
        self.data.insert(0, x)

    def extend(self, xs):
        for x in xs:
            self.data.append(x)

    def extendleft(self, xs):
        for x in xs:
            self.data.insert(0, x)

    def pop(self):
        return self.data.pop()

    def popleft(self):
        return self.data.pop(0)

    def __len__(self):
        return len(self.data)

    def __bool__(self):
        return len(self.data) > 0


class ExitStack:
    def __init__(self):
        self.cbs = []

    def enter_context(self, cm):
        v = verif_ctx.enter(cm)
        self.cbs.append((True, cm, (), {}))
        return v

    def callback(self, f, *args, **kwargs):
        self.cbs.append((False, f, args, kwargs))
        return f

    def push(self, cm):
        self.cbs.append((True, cm, (), {}))
        return cm

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        pending = v
        while len(self.cbs) > 0:
            c = self.cbs.pop()
            if c[0]:
                pending = verif_ctx.exit(c[1], pending)
            else:
                try:
                    c[1](*c[2], **c[3])
                except BaseException as e:
                    pending = e
        if pending is None:
            return v is not None
        if pending is not v:
            raise pending
        return False

    def close(self):
        self.__exit__(None, None, None)
