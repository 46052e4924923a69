class Comm:
    """rank/size of a simulated group; `world` is shared by the group's members."""

    def __init__(self, rank=0, size=1, world=None):
        self.rank, self.size = rank, size
        self.world = world if world is not None else {}

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def barrier(self):
        pass

    Barrier = barrier

    def bcast(self, obj, root=0):
        return obj

    def allreduce(self, obj, op=None):
        return obj

    def Dup(self):
        return self

    def Free(self):
        pass


class Intracomm(Comm):
    pass


COMM_WORLD = Intracomm()
COMM_SELF = Intracomm()
SUM, MAX, MIN = "sum", "max", "min"
