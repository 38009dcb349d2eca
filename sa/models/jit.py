"""Model of the framework's graph nodes as the converters see them (interpreted abstractly, never executed)."""


class Value:
    def __init__(self, name):
        self.name = name

    def debugName(self):
        return self.name


class Node:
    def __init__(self, kind, ins, outs):
        self._kind = kind
        self._ins = ins
        self._outs = outs

    def kind(self):
        return self._kind

    def inputs(self):
        return self._ins

    def outputs(self):
        return iter(self._outs)

    def output(self):
        return self._outs[0]

    def attributeNames(self):
        return []


class Signature:
    def __init__(self, parameters):
        self.parameters = parameters
