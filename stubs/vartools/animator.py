class Animator:
    pass
