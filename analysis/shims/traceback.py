def format_exc(*a, **k):
    return "Traceback"


def print_exc(*a, **k):
    return None


def format_exception(*a, **k):
    return ["Traceback"]


def print_stack(*a, **k):
    return None
