from . import accuracy, special, structure
REGISTRY = {}
for _m in (accuracy, special, structure):
    REGISTRY.update(_m.REGISTRY)
