def hex_to_rgba_float(*a):
    return (0, 0, 0, 1)
