"""Facade used by the interpreter."""
from .libcore import *
from .libcore import is_num, npoly, nkind, nlib
from .libops import binop, compare
from .libfun import FUN
from .libpy import ext_attr, call_ext, attr, ext_method, obj_ext_attr, stub_module, deepcopy, EXT, OBJ, METH, type_of
