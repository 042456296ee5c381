"""contextlib, as far as putting_dune uses it."""


class ExitStack:

  def __init__(self):
    self.todo = []

  def enter_context(self, manager):
    v = manager.__enter__()
    self.todo.append(manager.__exit__)
    return v

  def push(self, f):
    self.todo.append(f)
    return f

  def callback(self, f, *args, **kwargs):
    def run(a, b, c):
      f(*args, **kwargs)
    self.todo.append(run)
    return f

  def close(self):
    self.__exit__(None, None, None)

  def __enter__(self):
    return self

  def __exit__(self, a, b, c):
    while self.todo:
      self.todo.pop()(a, b, c)


class closing:

  def __init__(self, thing):
    self.thing = thing

  def __enter__(self):
    return self.thing

  def __exit__(self, a, b, c):
    self.thing.close()


class nullcontext:

  def __init__(self, thing=None):
    self.thing = thing

  def __enter__(self):
    return self.thing

  def __exit__(self, a, b, c):
    pass
