def _(s):
    return s
