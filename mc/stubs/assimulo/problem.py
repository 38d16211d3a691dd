class Explicit_Problem:
    def __init__(self, rhs=None, y0=None, t0=0.0, name=''):
        self.rhs, self.y0, self.t0, self.name = rhs, y0, t0, name
class Implicit_Problem:
    def __init__(self, res=None, y0=None, yd0=None, t0=0.0, name=''):
        self.res, self.y0, self.yd0, self.t0, self.name = res, y0, yd0, t0, name
        self.algvar = None
