class PointOwnershipData:
    def __init__(self, cells=None, padding=None):
        self.cells, self.padding = cells, padding
