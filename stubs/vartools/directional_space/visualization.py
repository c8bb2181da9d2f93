def circular_space_setup(*a, **k):
    raise NotImplementedError
