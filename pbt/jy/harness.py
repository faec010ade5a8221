# shared by the ops modules; worker.py fills in sink
sink = None


class NotHere(Exception):
    """The entry point this op drives does not exist in the tree under test (not a verdict)."""


def need(module, name):
    try:
        return getattr(module, name)
    except AttributeError:
        raise NotHere('%s.%s' % (module.__name__, name))


class LibraryWrong(Exception):
    """The third-party root isolation gave wrong roots for an input polynomial: the case is outside the domain."""
