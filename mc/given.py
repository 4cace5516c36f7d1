"""What a class in a specification gives."""


class Given(dict):
    def __init__(self, value):
        dict.__init__(self, value)


def givens(value):
    return list(value)
