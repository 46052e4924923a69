class AbstractPullback:
    def __repr__(self):
        return type(self).__name__ + "()"

    @property
    def is_identity(self):
        return False

    def physical_value_shape(self, element, domain):
        return element.reference_value_shape


class IdentityPullback(AbstractPullback):
    @property
    def is_identity(self):
        return True


class L2Piola(AbstractPullback):
    pass


class ContravariantPiola(AbstractPullback):
    pass


class CovariantPiola(AbstractPullback):
    pass


class DoubleContravariantPiola(AbstractPullback):
    pass


class DoubleCovariantPiola(AbstractPullback):
    pass


class MixedPullback(AbstractPullback):
    def __init__(self, element):
        self._element = element


class SymmetricPullback(AbstractPullback):
    def __init__(self, element, symmetry):
        self._element, self._symmetry = element, symmetry


class UndefinedPullback(AbstractPullback):
    pass


identity_pullback, l2_piola = IdentityPullback(), L2Piola()
contravariant_piola, covariant_piola = ContravariantPiola(), CovariantPiola()
double_contravariant_piola, double_covariant_piola = DoubleContravariantPiola(), DoubleCovariantPiola()
