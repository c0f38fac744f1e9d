"""Helpers shared by the harnesses."""


def attempt(fn, *a, **k):
    """(value, None) or (None, exception)."""
    try:
        return fn(*a, **k), None
    except Exception as e:
        return None, e


def raises(ctx, exc, label, fn, *a, **k):
    """fn must raise one of exc; any other exception propagates."""
    try:
        fn(*a, **k)
    except exc:
        return True
    ctx.check(False, label)
    return False


def conj(ctx, xs):
    return ctx.all(xs)


def special_text(ctx, name, modules, more=(), limit=12, dom=None, ok=None):
    """a text around the text constants of the code: the constant itself, or the constant next to a free character"""
    from symex import literals
    lits = list(more) + [s for s in literals.strs(modules, limit=limit, ok=ok) if s not in more]
    lit = ctx.choice(name + '.literal', tuple(lits))
    form = ctx.choice(name + '.form', ('is', 'starts', 'ends'))
    if form == 'is':
        return lit
    free = ctx.text(name + '.free', 1, dom, 1)
    return lit + free if form == 'starts' else free + lit


def long_text(n):
    """n characters with blanks here and there, never two in a row"""
    return ''.join([' ' if i % 7 == 3 else chr(97 + i * 5 % 26) for i in range(n)])
