def azimuthal_average(*a, **k):
    raise NotImplementedError
