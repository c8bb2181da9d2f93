class HandwrittingHandler:
    pass


class MotionDataHandler:
    pass
