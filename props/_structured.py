"""In the structured conversion, `type(x)` of a symbolic number is the type it stands for."""
import fairseq2.utils.structured as structured

from symx import core


class _TypeOf(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *args):
        return args[0].__class__ if len(args) == 1 and isinstance(args[0], core.Sym) else type(*args)

    def __getitem__(cls, item):
        return type[item]


class _type(metaclass=_TypeOf):
    pass


structured.type = _type
