"""cut(x, name): the identity on arrays.  It names an intermediate value so that the
decision procedure can first try to conclude a goal from facts already discharged about
that value (its definition left out), and only then from its full definition."""
import jax.numpy as jnp
from jax.extend.core import Primitive
from jax.interpreters import ad, batching, mlir

cut_p = Primitive("symx_cut")
cut_p.def_impl(lambda x, name: x)
cut_p.def_abstract_eval(lambda x, name: x)
mlir.register_lowering(cut_p, lambda ctx, x, name: [x])
batching.primitive_batchers[cut_p] = lambda args, dims, name: (cut_p.bind(args[0], name=name), dims[0])
ad.deflinear2(cut_p, lambda ct, x, name: [ct])


def cut(x, name):
    return cut_p.bind(jnp.asarray(x), name=name)
