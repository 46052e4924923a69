from abc import ABC
import math


class AbstractFiniteElement(ABC):
    @property
    def reference_value_size(self):
        return math.prod(self.reference_value_shape)

    @property
    def num_sub_elements(self):
        return len(self.sub_elements)

    @property
    def components(self):
        return {}
