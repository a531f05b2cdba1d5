"""The contracts: which harness serves which property."""
SPECS = []


class Spec:
    def __init__(self, f, name, props, funcs, mode, opts):
        self.f, self.name, self.props, self.funcs, self.mode, self.opts = f, name, props, funcs, mode, opts


def spec(name, props, funcs, mode='real', **opts):
    def deco(f):
        SPECS.append(Spec(f, name, props.split(), funcs.split(), mode, opts))
        return f
    return deco


def load_all():
    import specs_core, specs_build, specs_util, specs_act, specs_grad      # noqa
    return SPECS
