class DirichletBC:
    """dofs and their values"""

    def __init__(self, dofs, g):
        self.dofs, self.g = dofs, g

    def set(self, x, x0=None, alpha=1):
        x[self.dofs] = alpha * (self.g if x0 is None else self.g - x0[self.dofs])
