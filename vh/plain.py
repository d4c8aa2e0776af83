"""Plain inputs: lists and integer arrays give what the same numbers give as floating-point arrays."""
import numpy as np
import jax.numpy as jnp


def monitor(ctx, name, f, *args, **p):
    """args: numpy arrays of whole numbers (or scalars)"""
    def out(r):
        return [np.asarray(v) for v in (r if isinstance(r, tuple) else (r,))]
    want = out(f(*[jnp.asarray(a, float) if np.ndim(a) else a for a in args]))
    forms = {"list": lambda a: a.tolist(), "numpy-int": lambda a: a, "jax-int": jnp.asarray, "numpy-float": lambda a: a.astype(float)}
    for tag, g in forms.items():
        got = out(f(*[g(a) if np.ndim(a) else a for a in args]))
        if ctx.ok(len(got) == len(want), "plain:results", case=name, form=tag, **p):
            for u, v in zip(got, want):
                if ctx.ok(u.shape == v.shape, "plain:shape", case=name, form=tag, got=str(u.shape), **p):
                    same = np.array_equal(u, v, equal_nan=True)
                    ctx.ok(same or bool(np.allclose(u, v, rtol=1e-9, atol=1e-9 * max(1., np.abs(v[np.isfinite(v)]).max(initial=0.)), equal_nan=True)),
                           "plain:same-as-float", case=name, form=tag, got=u, want=v, **p)
